// C20 (engine C): every history of subscribe, unsubscribe, publish, die, also from within handlers, of servants living in one scheduler
#include "seq.h"
#include <boost/asynchronous/trackable_servant.hpp>
#include <set>
#include <memory>
#include <map>
using namespace mc;
namespace bs=boost::asynchronous::subscription;
struct EvA { int id; }; struct EvB { int id; };
struct Srv : ba::trackable_servant<> { int n; Srv(int i):n(i){} };
enum Beh { NONE, SELF_UNSUB, SELF_DIE, OTHER_UNSUB, OTHER_DIE, SUB_SELF, SUB_OTHER, PUBLISH, THROW, NB };
enum Kind { VOID, KEEP, ONCE }; // handler returns nothing, true (stays), false (single shot)
static std::string trace; static void tr(const char*f,int a,int b=0,int c=0){ char s[64]; snprintf(s,sizeof s,f,a,b,c); trace+=s; }
using Ch=bs::channel_topic<>; using Ex=bs::exact_topic<std::string>; struct NoT{};
template<class T> struct Top; 
template<> struct Top<NoT>{ static constexpr int N=1,P=1; static const char* s(int){ return ""; } static const char* p(int){ return ""; } static bool m(int,int){ return true; } };
template<> struct Top<Ch>{ static constexpr int N=4,P=3; static const char* s(int i){ return (const char*[]){"a","a/b","./b",""}[i]; } static const char* p(int i){ return (const char*[]){"a","a/b/c","b"}[i]; } static bool m(int i,int j){ return ((const bool[4][3]){{1,1,0},{0,1,0},{0,1,0},{1,1,1}})[i][j]; } };
template<> struct Top<Ex>{ static constexpr int N=2,P=3; static const char* s(int i){ return (const char*[]){"x","y"}[i]; } static const char* p(int i){ return (const char*[]){"x","y","z"}[i]; } static bool m(int i,int j){ return i==j; } };
template<class T> struct World {
  struct Sub { int id,srv,kind,beh,top; bool b=false; bool active=true,acted=false,inside=false; ba::subscription_token tok; };
  struct Pub { int id,top; std::set<int> must; std::map<int,int> got; };
  std::deque<Sub> subs; std::deque<Pub> pubs; std::vector<Pub*> open; std::unique_ptr<Srv> s[2]; int nev=0, depth=0; bool two; World(bool t=false):two(t){ for(int i=0;i<2;i++) s[i].reset(new Srv(i)); }
  void off(Sub&x){ x.active=false; for(auto*p:open) p->must.erase(x.id); }
  template<class E> bool handle(int id,E const& e){ Sub& x=subs[id]; Pub&p=pubs[e.id]; tr(" [%d gets %d",id,e.id);
    MC_ASSERT(x.active,"subscription %d was ended, but gets event %d: %s",id,e.id,trace.c_str()); MC_ASSERT((x.b==std::is_same<E,EvB>::value),"subscription %d gets an event of another type: %s",id,trace.c_str());
    MC_ASSERT(Top<T>::m(x.top,p.top),"subscription %d to topic %s gets event %d of topic %s: %s",id,Top<T>::s(x.top),e.id,Top<T>::p(p.top),trace.c_str());
    MC_ASSERT(++p.got[id]==1,"subscription %d gets event %d twice: %s",id,e.id,trace.c_str()); p.must.erase(id); if(x.kind==ONCE) for(auto*o:open) o->must.erase(id);
    struct In { bool&b; bool o; In(bool&x):b(x),o(x){ b=true; } ~In(){ b=o; } } in(x.inside);
    if(!x.acted&&x.beh){ x.acted=true; int o=1-x.srv; switch(x.beh){ case SELF_UNSUB: unsub(id); break; case SELF_DIE: die(x.srv); break; case OTHER_UNSUB: for(auto&y:subs) if(y.srv==o&&y.active){ unsub(y.id); break; } break; case OTHER_DIE: die(o); break;
        case SUB_SELF: if(s[x.srv]) sub(x.srv,VOID,NONE,x.top,x.b); break; case SUB_OTHER: if(s[o]) sub(o,VOID,NONE,x.top,x.b); break; case PUBLISH: if(s[x.srv]) publish(x.srv,p.top,x.b); break; case THROW: trace+=" throws]"; throw my_err(1); } }
    trace+="]"; bool keep=x.kind!=ONCE; if(!keep) off(x); return keep; }
  template<class E> ba::subscription_token sub2(Sub const& x){ int id=x.id; Srv& v=*s[x.srv]; World*w=this;
    if constexpr(std::is_same<T,NoT>::value){ if(x.kind==VOID) return v.subscribe([w,id](E const& e){ w->handle(id,e); }); return v.subscribe([w,id](E const& e){ return w->handle(id,e); }); }
    else { T t{std::string(Top<T>::s(x.top))}; if(x.kind==VOID) return v.subscribe([w,id](E const& e,T const& pt){ w->top(id,e.id,pt); w->handle(id,e); },t); return v.subscribe([w,id](E const& e,T const& pt){ w->top(id,e.id,pt); return w->handle(id,e); },t); } }
  void top(int id,int e,T const& pt){ if constexpr(!std::is_same<T,NoT>::value) MC_ASSERT(to_string(pt)==Top<T>::p(pubs[e].top),"subscription %d is told topic %s",id,to_string(pt).c_str()); }
  void sub(int i,int kind,int beh,int top,bool b){ Sub x{(int)subs.size(),i,kind,beh,top,b}; tr(" sub%d:%d",x.id,i); tr("(k%d,h%d,t%d)",kind,beh,top); if(b) trace+="B"; subs.push_back(x); auto t= b? sub2<EvB>(x):sub2<EvA>(x); subs[x.id].tok=t; for(auto const&y:subs) if(y.id!=x.id) MC_ASSERT(y.tok.token!=t.token,"two subscriptions got the same token"); }
  void unsub(int id){ Sub&x=subs[id]; if(!s[x.srv]) return; tr(" unsub%d",id); if constexpr(std::is_same<T,NoT>::value){ if(x.b) s[x.srv]->template unsubscribe<EvB>(x.tok); else s[x.srv]->template unsubscribe<EvA>(x.tok); } else { T t{std::string(Top<T>::s(x.top))}; if(x.b) s[x.srv]->template unsubscribe<EvB>(x.tok,t); else s[x.srv]->template unsubscribe<EvA>(x.tok,t); } off(x); }
  void die(int i){ if(!s[i]) return; tr(" die%d",i); s[i].reset(); for(auto&x:subs) if(x.srv==i) off(x); }
  void publish(int from,int top,bool b){ Pub p{nev++,top}; for(auto&x:subs) if(x.active&&x.b==b&&Top<T>::m(x.top,top)&&!(x.kind==ONCE&&x.inside)) p.must.insert(x.id); pubs.push_back(p); Pub& q=pubs.back(); open.push_back(&q); tr(" publish%d",q.id); if(b) trace+="B"; bool thrown=false;
    auto go=[&](auto e){ try{ if constexpr(std::is_same<T,NoT>::value) s[from]->publish(e); else s[from]->publish(e,T{std::string(Top<T>::p(top))}); }catch(my_err&){ thrown=true; } };
    if(b) go(EvB{q.id}); else go(EvA{q.id});
    MC_ASSERT(thrown||q.must.empty(),"live subscription %d does not get event %d: %s",q.must.empty()?-1:*q.must.begin(),q.id,trace.c_str()); open.pop_back(); }
  void op(){ int o=mc::choose(two?5:4),i=mc::choose(2); bool b=two&&(o==0||o==2)?mc::choose(2):false;
    switch(o){ case 0: { if(!s[i]){ s[i].reset(new Srv(i)); } int k=mc::choose(3),h=two?0:mc::choose(NB),t=mc::choose(Top<T>::N); sub(i,k,h,t,b); break; }
      case 1: { std::vector<int> a; for(auto&x:subs) if(x.srv==i&&x.active) a.push_back(x.id); if(a.empty()) return; unsub(a[mc::choose((int)a.size())]); break; }
      case 2: if(s[i]) publish(i,mc::choose(Top<T>::P),b); break;
      case 3: die(i); break;
      case 4: if(s[i]&&i==0){ auto v=std::make_unique<Srv>(std::move(*s[0])); s[0]=std::move(v); trace+=" moved"; } break; } }
  void run(int depth){ trace.clear(); for(int n=0;n<depth;n++) op(); for(int k=0;k<2;k++){ if(!s[1]) s[1].reset(new Srv(1)); for(int t=0;t<Top<T>::P;t++){ publish(1,t,false); if(two) publish(1,t,true); if(!s[1]) s[1].reset(new Srv(1)); } }
    die(0); die(1); s[0].reset(new Srv(0)); publish(0,0,false); MC_ASSERT(pubs.back().got.empty(),"dead servants get events"); } };
template<class T> void hist(int d,bool two=false){ SeqPool p; World<T> w(two); w.run(d); }
MC_SCENARIO(local3,0,0,F_SEQ){ hist<NoT>(3); }
MC_SCENARIO(local4,-1,0,F_SEQ){ hist<NoT>(4); }
MC_SCENARIO(local_two_events,0,0,F_SEQ){ hist<NoT>(4,true); }
MC_SCENARIO(local_two_events5,-1,0,F_SEQ){ hist<NoT>(5,true); }
MC_SCENARIO(local_channel,0,0,F_SEQ){ hist<Ch>(2); }
MC_SCENARIO(local_channel3,-1,0,F_SEQ){ hist<Ch>(3); }
MC_SCENARIO(local_exact,0,0,F_SEQ){ hist<Ex>(2); }
MC_SCENARIO(local_exact3,-1,0,F_SEQ){ hist<Ex>(3); }
