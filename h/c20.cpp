// C20 (engine A): subscriptions and publications across schedulers on one notification bus
#include "common.h"
#include <boost/asynchronous/scheduler/single_thread_scheduler.hpp>
#include <boost/asynchronous/scheduler/threadpool_scheduler.hpp>
#include <boost/asynchronous/notification/notification_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <set>
#include <map>
#include <deque>
namespace bs=boost::asynchronous::subscription;
using Ch=bs::channel_topic<>; struct NoT{};
struct Ev { int id; }; struct Srv : ba::trackable_servant<> { Srv(ba::any_weak_scheduler<> w):ba::trackable_servant<>(w){} };
using Notif=bs::notification_proxy<>;
template<class T> struct Top; 
template<> struct Top<NoT>{ static constexpr int N=1,P=1; static const char* s(int){ return ""; } static const char* p(int){ return ""; } static bool m(int,int){ return true; } };
template<> struct Top<Ch>{ static constexpr int N=3,P=2; static const char* s(int i){ return (const char*[]){"a","a/b","./b"}[i]; } static const char* p(int i){ return (const char*[]){"a/b/c","a"}[i]; } static bool m(int i,int j){ return ((const bool[3][2]){{1,1},{1,0},{1,0}})[i][j]; } };
static std::string trace; static void tr(const char*f,int a,int b=0,int c=0){ char s[80]; snprintf(s,sizeof s,f,a,b,c); trace+=s; }
static Proxy single(){ return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<LQ>>(); }
template<class F> static void in(Proxy&p,F f){ ba::post_future(p,f).get(); }
// ---- histories of operations, each of which is over before the next begins
template<class T,int SCHEDS=2> struct World {
  struct Sub { int id,sc,srv,top; bool once=false; bool active=true; ba::subscription_token tok; }; struct Pub { int id,top; std::set<int> must; std::map<int,int> got; };
  std::deque<Sub> subs; std::deque<Pub> pubs; Proxy s[SCHEDS]; std::unique_ptr<Srv> v[SCHEDS][2]; boost::thread::id tid[SCHEDS]; bool reg[SCHEDS]={}; std::map<int,int> last; // last event per subscription
  Proxy ns; std::shared_ptr<Notif> bus;
  World(){ trace.clear(); for(int i=0;i<SCHEDS;i++){ s[i]=single(); tid[i]=s[i].thread_ids()[0]; } ns=single(); bus.reset(new Notif(ns,ba::any_shared_scheduler_proxy<>())); }
  void regist(int i){ if(reg[i]) return; reg[i]=true; tr(" register%d",i); bs::register_scheduler_to_notification(s[i].get_weak_scheduler(),bus,false).get(); mc::settle(); }
  Srv& srv(int i,int j){ if(!v[i][j]) in(s[i],[this,i,j]{ v[i][j].reset(new Srv(ba::get_thread_scheduler<>())); }); return *v[i][j]; }
  bool handle(int id,int e){ Sub&x=subs[id]; Pub&p=pubs[e]; tr(" [%d gets %d]",id,e); MC_ASSERT(boost::this_thread::get_id()==tid[x.sc],"a handler runs in another thread: %s",trace.c_str()); MC_ASSERT(x.active,"subscription %d was ended but gets event %d: %s",id,e,trace.c_str());
    MC_ASSERT(Top<T>::m(x.top,p.top),"subscription %d to %s gets event %d of topic %s: %s",id,Top<T>::s(x.top),e,Top<T>::p(p.top),trace.c_str()); MC_ASSERT(++p.got[id]==1,"subscription %d gets event %d twice: %s",id,e,trace.c_str());
    MC_ASSERT(!last.count(id)||last[id]<e,"subscription %d gets event %d after %d: %s",id,e,last[id],trace.c_str()); last[id]=e; p.must.erase(id); if(x.once){ x.active=false; for(auto&o:pubs) o.must.erase(id); } return !x.once; }
  void sub(int i,int j,int top,bool once){ srv(i,j); int id=(int)subs.size(); Sub x{id,i,j,top,once}; tr(" sub%d:%d.%d",id,i,j); if(once) trace+="once"; subs.push_back(x); World*w=this;
    in(s[i],[w,id]{ Sub&x=w->subs[id]; Srv& sv=*w->v[x.sc][x.srv];
      if constexpr(std::is_same<T,NoT>::value) x.tok= x.once? sv.subscribe([w,id](Ev const& e){ return w->handle(id,e.id); }) : sv.subscribe([w,id](Ev const& e){ w->handle(id,e.id); });
      else { T t{std::string(Top<T>::s(x.top))}; x.tok= x.once? sv.subscribe([w,id](Ev const& e,T const&){ return w->handle(id,e.id); },t) : sv.subscribe([w,id](Ev const& e,T const&){ w->handle(id,e.id); },t); } }); mc::settle(); }
  void unsub(int id){ Sub&x=subs[id]; tr(" unsub%d",id); World*w=this; in(s[x.sc],[w,id]{ Sub&x=w->subs[id]; Srv& sv=*w->v[x.sc][x.srv]; if constexpr(std::is_same<T,NoT>::value) sv.unsubscribe<Ev>(x.tok); else sv.template unsubscribe<Ev>(x.tok,T{std::string(Top<T>::s(x.top))}); x.active=false; }); mc::settle(); }
  void die(int i,int j){ if(!v[i][j]) return; tr(" die%d.%d",i,j); World*w=this; in(s[i],[w,i,j]{ w->v[i][j].reset(); for(auto&x:w->subs) if(x.sc==i&&x.srv==j) x.active=false; }); mc::settle(); }
  // two events in a row
  void publish(int i,int top){ srv(i,0); World*w=this; int n=(int)pubs.size(); tr(" publish%d,%d:%d",n,n+1,i); for(int k=0;k<2;k++){ Pub p{n+k,top}; for(auto&x:subs) if(x.active&&Top<T>::m(x.top,top)&&(x.sc==i||(reg[i]&&reg[x.sc]))&&!(x.once&&k)) p.must.insert(x.id); pubs.push_back(p); }
    in(s[i],[w,i,n,top]{ for(int k=0;k<2;k++){ if constexpr(std::is_same<T,NoT>::value) w->v[i][0]->publish(Ev{n+k}); else w->v[i][0]->publish(Ev{n+k},T{std::string(Top<T>::p(top))}); } }); mc::settle();
    for(int k=0;k<2;k++){ Pub& p=pubs[n+k]; MC_ASSERT(p.must.empty(),"live subscription %d does not get event %d: %s",p.must.empty()?-1:*p.must.begin(),p.id,trace.c_str()); } }
  void op(){ int o=mc::choose(5); int i=mc::choose(SCHEDS); switch(o){ case 0: { int j=mc::choose(2); sub(i,j,mc::choose(Top<T>::N),false); break; } case 1: { std::vector<int> a; for(auto&x:subs) if(x.sc==i&&x.active) a.push_back(x.id); if(!a.empty()) unsub(a[mc::choose((int)a.size())]); break; }
      case 2: publish(i,mc::choose(Top<T>::P)); break; case 3: { int j=mc::choose(2); die(i,j); break; } case 4: if(!reg[i]) regist(i); else sub(i,0,0,true); break; } }
  void run(int depth,bool prereg){ if(prereg) for(int i=0;i<SCHEDS;i++) regist(i); for(int n=0;n<depth;n++) op(); for(int i=0;i<SCHEDS;i++) regist(i); for(int k=0;k<2;k++) for(int i=0;i<SCHEDS;i++) for(int t=0;t<Top<T>::P;t++) publish(i,t);
    for(int i=0;i<SCHEDS;i++){ World*w=this; in(s[i],[w,i]{ for(auto&p:w->v[i]) p.reset(); }); } } 
  ~World(){ bus.reset(); mc::settle(); for(auto&p:s) p=Proxy(); ns=Proxy(); mc::settle(); if(mc::alive_threads()!=0) mc::fail("threads are left"); } };
MC_SCENARIO(hist_reg3,0,0,F_NONE){ World<NoT> w; w.run(3,true); }
MC_SCENARIO(hist_reg4,0,0,F_NONE){ World<NoT> w; w.run(4,true); }
MC_SCENARIO(hist_unreg3,0,0,F_NONE){ World<NoT> w; w.run(3,false); }
MC_SCENARIO(hist_channel2,0,0,F_NONE){ World<Ch> w; w.run(2,true); }
MC_SCENARIO(hist_channel3,0,0,F_NONE){ World<Ch> w; w.run(3,true); }
MC_SCENARIO(hist_three2,0,0,F_NONE){ World<NoT,3> w; w.run(2,true); }
MC_SCENARIO(hist_three3,-1,0,F_NONE){ World<NoT,3> w; w.run(3,false); }
MC_SCENARIO(hist_reg5,-1,0,F_NONE){ World<NoT> w; w.run(5,true); }
// ---- all interleavings
enum { GET=1, LIVE=2 }; // GET: subscriber, event
struct Bus { Proxy ns; std::shared_ptr<Notif> bus; Bus():ns(single()),bus(std::make_shared<Notif>(ns,ba::any_shared_scheduler_proxy<>())){} auto add(Proxy&p){ return bs::register_scheduler_to_notification(p.get_weak_scheduler(),bus,false); } };
struct Cl { std::unique_ptr<Srv> v; ba::subscription_token t; bool gone=false; };
MC_NOSAN static bool rd(bool const&b){ return b; } MC_NOSAN static void wr(bool&b,bool v){ b=v; }
static void listen(Proxy&p,std::shared_ptr<Cl> c,int who){ boost::thread::id id=p.thread_ids()[0]; in(p,[c,who,id]{ c->v.reset(new Srv(ba::get_thread_scheduler<>())); c->t=c->v->subscribe([c=c.get(),who,id](Ev const& e){ MC_ASSERT(boost::this_thread::get_id()==id,"a handler runs in another thread"); MC_ASSERT(!rd(c->gone),"subscriber %d gets event %d after its end",who,e.id); for(int k=e.id;k<e.id/5*5+5;k++) MC_ASSERT(mc::count_ev(GET,who*10+k)==0,"subscriber %d gets event %d after (or twice) event %d",who,e.id,k); mc::ev(GET,who*10+e.id); }); }); }
static void drop(Proxy&p,std::shared_ptr<Cl> c){ in(p,[c]{ c->v.reset(); }); }
static void must(int who,int e){ MC_ASSERT(mc::count_ev(GET,who*10+e)==1,"live subscriber %d got event %d %d times",who,e,mc::count_ev(GET,who*10+e)); }
// two schedulers publish, a third has two subscribers, one of which unsubscribes or dies meanwhile
MC_SCENARIO(leave,1,2,F_RACE|F_NO_TIMEOUT_DEV){ Bus b; Proxy s[3]; std::shared_ptr<Cl> c[4]; for(auto&x:c) x=std::make_shared<Cl>(); for(auto&x:s){ x=single(); b.add(x).get(); } mc::settle();
  listen(s[0],c[0],0); listen(s[0],c[1],1); listen(s[1],c[2],2); in(s[2],[&]{ c[3]->v.reset(new Srv(ba::get_thread_scheduler<>())); }); mc::settle(); int how=mc::choose(3);
  auto f=ba::post_future(s[1],[x=c[2]]{ x->v->publish(Ev{1}); x->v->publish(Ev{2}); }); auto g=ba::post_future(s[2],[x=c[3]]{ x->v->publish(Ev{5}); });
  auto h=ba::post_future(s[0],[x=c[0],y=c[1],how]{ if(how==0) x->v->unsubscribe<Ev>(x->t); else if(how==1) x->v.reset(); else { y->v.reset(); wr(y->gone,true); return; } wr(x->gone,true); });
  f.get(); g.get(); h.get(); mc::settle(); int stay= how==2?0:1; 
  for(int w:{stay,2}) for(int e:{1,2,5}) must(w,e);
  for(int i=0;i<2;i++) drop(s[0],c[i]); drop(s[1],c[2]); drop(s[2],c[3]); }
// schedulers join the bus while others subscribe; once both are over every event arrives
MC_SCENARIO(join,1,2,F_RACE|F_NO_TIMEOUT_DEV){ Bus b; Proxy s[2]={single(),single()}; std::shared_ptr<Cl> c[2]; for(auto&x:c) x=std::make_shared<Cl>(); bool early=mc::choose(2); if(early) b.add(s[1]).get();
  std::thread t([&]{ listen(s[0],c[0],0); }); auto f=b.add(s[0]); if(!early){ auto g=b.add(s[1]); g.get(); } f.get(); listen(s[1],c[1],1); t.join(); mc::settle();
  in(s[1],[&]{ c[1]->v->publish(Ev{1}); c[1]->v->publish(Ev{2}); }); in(s[0],[&]{ c[0]->v->publish(Ev{5}); }); mc::settle(); for(int w:{0,1}) for(int e:{1,2,5}) must(w,e); for(int i=0;i<2;i++) drop(s[i],c[i]); }
// a scheduler ends while another one publishes to it
MC_SCENARIO(scheduler_ends,1,2,F_RACE|F_NO_TIMEOUT_DEV){ { Bus b; Proxy s[3]; std::shared_ptr<Cl> c[3]; for(int i=0;i<3;i++){ c[i]=std::make_shared<Cl>(); s[i]=single(); b.add(s[i]).get(); } mc::settle(); for(int i=0;i<3;i++) listen(s[i],c[i],i); mc::settle();
  auto f=ba::post_future(s[1],[x=c[1]]{ x->v->publish(Ev{1}); x->v->publish(Ev{2}); }); if(mc::choose(2)) drop(s[0],c[0]); else ba::post_future(s[0],[x=c[0]]{ x->v.reset(); }); s[0]=Proxy(); f.get(); in(s[1],[&]{ c[1]->v->publish(Ev{3}); c[1]->v->publish(Ev{4}); }); mc::settle(); for(int w:{1,2}) for(int e=1;e<=4;e++) must(w,e);
  auto n=single(); b.add(n).get(); auto d=std::make_shared<Cl>(); listen(n,d,3); mc::settle(); in(s[2],[&]{ c[2]->v->publish(Ev{6}); }); mc::settle(); for(int w:{1,2,3}) must(w,6); for(int i=1;i<3;i++) drop(s[i],c[i]); drop(n,d); } mc::settle(); MC_ASSERT(mc::alive_threads()==0,"threads are left"); }
// tasks of a pool publish
MC_SCENARIO(from_pool,1,2,F_RACE|F_NO_TIMEOUT_DEV){ Bus b; Proxy s=single(),p=ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<LQ>>(2); auto c=std::make_shared<Cl>(),d=std::make_shared<Cl>(); bool early=mc::choose(2); if(early) listen(s,c,0); b.add(s).get(); b.add(p).get(); if(!early) listen(s,c,0); listen(s,d,1); mc::settle();
  auto job=[](int e){ return [e]{ auto w=ba::get_thread_scheduler<>().lock(); if(w.is_valid()) w.publish(Ev{e},bs::no_topic{}); }; }; auto f=ba::post_future(p,job(1)),g=ba::post_future(p,job(6)); f.get(); g.get(); mc::settle(); for(int w:{0,1}) for(int e:{1,6}) must(w,e); drop(s,c); drop(s,d); }
// two buses: schedulers on different ones do not hear each other
MC_SCENARIO(two_buses,0,1,F_RACE){ Bus a,b; Proxy s[3]={single(),single(),single()}; std::shared_ptr<Cl> c[3]; for(int i=0;i<3;i++){ c[i]=std::make_shared<Cl>(); (i<2?a:b).add(s[i]).get(); } mc::settle(); for(int i=0;i<3;i++) listen(s[i],c[i],i); mc::settle(); in(s[0],[&]{ c[0]->v->publish(Ev{1}); }); in(s[2],[&]{ c[2]->v->publish(Ev{6}); }); mc::settle(); must(0,1); must(1,1); must(2,6); MC_ASSERT(mc::count_ev(GET,21)+mc::count_ev(GET,6)+mc::count_ev(GET,16)==0,"an event reaches another bus"); for(int i=0;i<3;i++) drop(s[i],c[i]); }
