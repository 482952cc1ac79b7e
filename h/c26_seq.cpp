// C26: the asynchronous vector against std::vector, all operation sequences up to a depth
#include "seq.h"
#include <set>
#include <stdexcept>
#include <boost/asynchronous/container/vector.hpp>
#include <boost/asynchronous/container/algorithms.hpp>
using namespace mc;
// a pool which has run everything when a post from outside returns; the order of the tasks is enumerated
struct InSched : SeqSched { int depth=0; std::function<void()> drain; void go(){ if(depth) return; depth++; drain(); depth--; } void post(job_type j) override { SeqSched::post(std::move(j)); go(); } void post(job_type j,std::size_t p) override { SeqSched::post(std::move(j),p); go(); } };
struct InProxy : ba::any_shared_scheduler_proxy_concept<ba::any_callable> { typedef ba::any_callable job_type; std::shared_ptr<InSched> s; 
  void post(job_type j) const override { s->post(std::move(j)); } void post(job_type j,std::size_t p) const override { s->post(std::move(j),p); }
  ba::any_interruptible interruptible_post(job_type j) const override { return s->interruptible_post(std::move(j)); } ba::any_interruptible interruptible_post(job_type j,std::size_t p) const override { return s->interruptible_post(std::move(j),p); }
  std::vector<boost::thread::id> thread_ids() const override { return s->depth?s->thread_ids():std::vector<boost::thread::id>(); } ba::any_weak_scheduler<job_type> get_weak_scheduler() const override { return ba::any_weak_scheduler<>(ba::detail::lockable_weak_scheduler<InSched>(s)); } bool is_valid() const override { return true; }
  std::vector<std::size_t> get_queue_size() const override { return {0}; } std::vector<std::size_t> get_max_queue_size() const override { return {0}; } void reset_max_queue_size() override {} ba::scheduler_diagnostics get_diagnostics(std::size_t=0) const override { return {}; } void clear_diagnostics() override {} 
  ba::internal_scheduler_aspect<job_type> get_internal_scheduler_aspect() override { return ba::internal_scheduler_aspect<job_type>(); } void set_name(std::string const&) override {} std::string get_name() const override { return "in"; } void processor_bind(std::vector<std::tuple<unsigned,unsigned>>) override {} std::vector<std::future<void>> execute_in_all_threads(ba::any_callable) override { return {}; } };
struct In { std::shared_ptr<InSched> s=std::make_shared<InSched>(); ba::any_shared_scheduler_proxy<> p;
  In(){ s->drain=[q=s.get()]{ for(;;){ if(q->step1()) continue; auto& w=ba::get_continuations(); bool moved=false; for(auto it=w.begin();it!=w.end();){ if((*it).is_ready()){ auto c=*it; it=w.erase(it); c(); moved=true; break; } else ++it; } if(!moved&&q->q.empty()) break; } };
    ba::get_thread_scheduler<ba::any_callable>(ba::any_weak_scheduler<>(ba::detail::lockable_weak_scheduler<InSched>(s)),true); ba::get_continuations(std::list<ba::any_continuation>(),true); auto x=std::make_shared<InProxy>(); x->s=s; p=ba::any_shared_scheduler_proxy<>(x); }
  ~In(){ ba::get_continuations(std::list<ba::any_continuation>(),true); s->q.clear(); MC_ASSERT(s->escaped==0,"an exception left a task"); } };
// elements know whether they exist
static std::set<void const*>* LV; 
static char const* HISTS();
template<bool NM> struct El { int v; void born(){ MC_ASSERT(LV->insert(this).second,"an element was constructed over a living one"); } void alive() const { MC_ASSERT(LV->count(this),"an element which does not exist is used (%s)",HISTS()); }
  El():v(0){ born(); } El(int x):v(x){ born(); } El(int a,int b):v(a*100+b){ born(); } El(El const&o):v(o.v){ o.alive(); born(); } El(El&&o)noexcept(NM):v(o.v){ o.alive(); o.v=-1; born(); } El& operator=(El const&o){ alive(); o.alive(); v=o.v; return *this; } El& operator=(El&&o)noexcept(NM){ alive(); o.alive(); if(this!=&o){ v=o.v; o.v=-1; } return *this; } ~El(){ MC_ASSERT(LV->erase(this)==1,"an element was destroyed twice or never existed"); v=-7; }
  friend bool operator==(El const&a,El const&b){ return a.v==b.v; } friend bool operator!=(El const&a,El const&b){ return a.v!=b.v; } friend bool operator<(El const&a,El const&b){ return a.v<b.v; } friend bool operator>(El const&a,El const&b){ return a.v>b.v; } friend bool operator<=(El const&a,El const&b){ return a.v<=b.v; } friend bool operator>=(El const&a,El const&b){ return a.v>=b.v; } };
typedef std::vector<int> M;
static std::string show(M const& m){ std::string s="["; for(int x:m) s+=std::to_string(x)+" "; return s+"]"; }
template<class V> std::string showv(V const& v){ std::string s="["; for(size_t i=0;i<v.size();i++) s+=std::to_string(v[i].v)+" "; return s+"]"; }
static std::string hist; static char const* HISTS(){ return hist.c_str(); }
template<class V> void same(V& v,M const& m,char const* when){
  MC_ASSERT(v.size()==m.size(),"%s (%s): size %d instead of %d",when,hist.c_str(),(int)v.size(),(int)m.size()); V const& c=v; MC_ASSERT(v.empty()==m.empty(),"empty"); MC_ASSERT(v.capacity()>=v.size(),"capacity %d",(int)v.capacity());
  for(size_t i=0;i<m.size();i++){ MC_ASSERT(LV->count(&v[i]),"%s (%s): element %d does not exist",when,hist.c_str(),(int)i); MC_ASSERT(v[i].v==m[i],"%s (%s): %s instead of %s",when,hist.c_str(),showv(v).c_str(),show(m).c_str()); MC_ASSERT(&c[i]==&v[i]&&&v.at(i)==&v[i]&&&c.at(i)==&v[i]&&v.begin()+i==&v[i]&&c.begin()+i==&v[i]&&v.cbegin()+i==&v[i]&&v.data()+i==&v[i],"access"); }
  MC_ASSERT(v.end()-v.begin()==(long)m.size()&&c.end()-c.begin()==(long)m.size()&&v.cend()-v.cbegin()==(long)m.size(),"iterators"); bool thrown=false; try{ v.at(m.size()); }catch(std::out_of_range&){ thrown=true; } MC_ASSERT(thrown,"at() outside"); thrown=false; try{ c.at(m.size()+3); }catch(std::out_of_range&){ thrown=true; } MC_ASSERT(thrown,"at() outside");
  if(!m.empty()){ MC_ASSERT(&v.front()==&v[0]&&&v.back()==&v[m.size()-1]&&&c.front()==&v[0]&&&c.back()==&v[m.size()-1],"front/back"); } size_t k=m.size(); for(auto it=v.rbegin();it!=v.rend();++it) MC_ASSERT((*it).v==m[--k],"reverse"); k=m.size(); for(auto it=c.rbegin();it!=c.rend();++it) MC_ASSERT((*it).v==m[--k],"reverse"); k=m.size(); for(auto it=v.crbegin();it!=v.crend();++it) MC_ASSERT((*it).v==m[--k],"reverse"); MC_ASSERT(k==0,"reverse");
}
static void nlive(size_t n,char const* when){ MC_ASSERT(LV->size()==n,"%s (%s): %d elements exist instead of %d",when,hist.c_str(),(int)LV->size(),(int)n); }
static int pos(int n){ if(n==0) return 0; if(n==1) return choose(2); if(n==2) return choose(3); int k=choose(4); return k==0?0:k==1?1:k==2?n-1:n; } // position 0..n
static int nextv;
enum { PUSH, PUSHM, EMPL_BACK, PUSH_SELF, POP, INS, INSM, INSN, INSR, INSL, INS_SELF, EMPL, ER, ERR, RSZ, RSZV, RESERVE, SHRINK, CLEAR, ASN, ASR, ASL, NOPS };
static char const* ON[]={"push_back","push_back move","emplace_back","push_back self","pop_back","insert","insert move","insert n","insert range","insert list","insert self","emplace","erase","erase range","resize","resize value","reserve","shrink_to_fit","clear","assign n","assign range","assign list"};
template<class V> void op(V& v,M& m,int o){ typedef typename V::value_type E; int x=++nextv; int n=(int)m.size(); auto r=[&](typename V::iterator it,M::iterator mi,char const* w){ MC_ASSERT(it-v.begin()==mi-m.begin(),"%s (%s) returned position %d instead of %d",w,hist.c_str(),(int)(it-v.begin()),(int)(mi-m.begin())); };
  hist+=std::string(ON[o])+"; ";
  switch(o){
  case PUSH: { E e(x); v.push_back(e); MC_ASSERT(e.v==x,"source"); m.push_back(x); break; } case PUSHM: v.push_back(E(x)); m.push_back(x); break; case EMPL_BACK: v.emplace_back(x); m.emplace_back(x); break;
  case PUSH_SELF: if(n){ v.push_back(v[0]); m.push_back(m[0]); } break; case POP: if(n){ v.pop_back(); m.pop_back(); } break;
  case INS: { int p=pos(n); E e(x); auto it=v.insert(v.cbegin()+p,e); r(it,m.insert(m.begin()+p,x),"insert"); break; } case INSM: { int p=pos(n); auto it=v.insert(v.cbegin()+p,E(x)); r(it,m.insert(m.begin()+p,x),"insert"); break; }
  case INSN: { int p=pos(n); int k=choose(3); if(k==2) k=4; E e(x); auto it=v.insert(v.cbegin()+p,(std::size_t)k,e); r(it,m.insert(m.begin()+p,(size_t)k,x),"insert n"); break; }
  case INSR: { int p=pos(n); int k=choose(3); if(k==2) k=4; std::vector<E> s; M sm; s.reserve(4); for(int i=0;i<k;i++){ s.emplace_back(x*10+i); sm.push_back(x*10+i); } auto it=v.insert(v.cbegin()+p,s.begin(),s.end()); r(it,m.insert(m.begin()+p,sm.begin(),sm.end()),"insert range"); for(int i=0;i<k;i++) MC_ASSERT(s[i].v==sm[i],"source"); break; }
  case INSL: { int p=pos(n); auto it=v.insert(v.cbegin()+p,{E(x),E(x+1),E(x+2)}); r(it,m.insert(m.begin()+p,{x,x+1,x+2}),"insert list"); break; }
  case INS_SELF: if(n&&choose(2)){ int p=choose(2)?0:n/2; auto it=v.insert(v.cbegin()+p,(std::size_t)2,v[n-1]); r(it,m.insert(m.begin()+p,(size_t)2,int(m[n-1])),"insert n self"); } else if(n){ int p=choose(2)?0:n/2; auto it=v.insert(v.cbegin()+p,v[n-1]); r(it,m.insert(m.begin()+p,int(m[n-1])),"insert self"); } break;
  case EMPL: { int p=pos(n); auto it=v.emplace(v.cbegin()+p,x); r(it,m.emplace(m.begin()+p,x),"emplace"); break; }
  case ER: if(n){ int p=pos(n-1); auto it=v.erase(v.cbegin()+p); r(it,m.erase(m.begin()+p),"erase"); } break;
  case ERR: { int a=pos(n), b=a+pos(n-a); auto it=v.erase(v.cbegin()+a,v.cbegin()+b); r(it,m.erase(m.begin()+a,m.begin()+b),"erase range"); break; }
  case RSZ: { int k=choose(5); int s=k==0?0:k==1?n/2:k==2?n+1:k==3?n+4:13; v.resize(s); m.resize(s); break; } case RSZV: { int k=choose(4); int s=k==0?n/2:k==1?n+1:k==2?n+4:13; E e(x); v.resize(s,e); m.resize(s,x); break; }
  case RESERVE: { int k=choose(4); int s=k==0?0:k==1?n+1:k==2?12:20; v.reserve(s); MC_ASSERT((int)v.capacity()>=s,"capacity %d after reserve(%d)",(int)v.capacity(),s); auto c=v.capacity(); auto d=v.data(); E e(x); while(v.size()<c&&v.size()<(size_t)n+3){ v.push_back(e); m.push_back(x); } MC_ASSERT(v.data()==d,"reallocation within the capacity"); break; }
  case SHRINK: v.shrink_to_fit(); break; case CLEAR: v.clear(); m.clear(); break;
  case ASN: { int k=choose(3); int s=k==0?0:k==1?2:12; E e(x); v.assign((std::size_t)s,e); m.assign(s,x); break; } case ASR: { int k=choose(3); int s=k==0?0:k==1?2:12; std::vector<E> q; M qm; q.reserve(12); for(int i=0;i<s;i++){ q.emplace_back(x*10+i); qm.push_back(x*10+i); } v.assign(q.begin(),q.end()); m=qm; break; } case ASL: v.assign({E(x),E(x+1),E(x+2)}); m={x,x+1,x+2}; break; } }
template<class V> struct Rig { In in; bool sch; long cut; Rig(bool s,long c):sch(s),cut(c){ static std::set<void const*> lv; LV=&lv; nextv=1000; hist=""; }
  ba::any_shared_scheduler_proxy<> sp(){ return sch?in.p:ba::any_shared_scheduler_proxy<>(); } };
// the ways of construction; every vector starts from one of them
template<class V> std::unique_ptr<V> build(Rig<V>& R,int kind,int n,M& m){ typedef typename V::value_type E; std::vector<E> src; m.clear(); src.reserve(16); for(int i=0;i<n;i++) src.emplace_back(i+1); M sm; for(int i=0;i<n;i++) sm.push_back(i+1); std::unique_ptr<V> r;
  if(R.sch) switch(kind){ case 0: r=std::make_unique<V>(R.in.p,R.cut); for(int i=0;i<n;i++) r->push_back(src[i]); m=sm; break; case 1: r=std::make_unique<V>(R.in.p,R.cut,(std::size_t)n); m.assign(n,0); break; case 2: r=std::make_unique<V>(R.in.p,R.cut,(std::size_t)n,E(5)); m.assign(n,5); break; case 3: r=std::make_unique<V>(R.in.p,R.cut,src.begin(),src.end()); m=sm; break; case 4: r=std::make_unique<V>(R.in.p,R.cut,std::initializer_list<E>{E(1),E(2),E(3)}); m={1,2,3}; break; }
  else switch(kind){ case 0: r=std::make_unique<V>(); for(int i=0;i<n;i++) r->push_back(src[i]); m=sm; break; case 1: r=std::make_unique<V>((std::size_t)n); m.assign(n,0); break; case 2: r=std::make_unique<V>((std::size_t)n,E(5)); m.assign(n,5); break; case 3: r=std::make_unique<V>(src.begin(),src.end()); m=sm; break; case 4: r=std::make_unique<V>(std::initializer_list<E>{E(1),E(2),E(3)}); m={1,2,3}; break; }
  return r; }
template<class E> void ctors(int sch){ typedef ba::vector<E> V; Rig<V> R(sch,2); R.in.s->policy=choose(2); M m; int k=choose(5), n=choose(8); { auto v=build(R,k,n,m); same(*v,m,"constructed"); nlive(m.size(),"constructed"); if(choose(2)){ v.reset(); nlive(0,"destroyed"); } else { op(*v,m,choose(NOPS)); same(*v,m,"first operation"); nlive(m.size(),"first operation"); } } nlive(0,"destroyed"); mc::outcome(k); }
template<class E> void ops(int sch,int depth,std::vector<int> sizes,bool pol){ typedef ba::vector<E> V; Rig<V> R(sch,2); if(pol) R.in.s->policy=choose(2); M m; int n=sizes[choose((int)sizes.size())]; { auto v=build(R,choose(2)?3:0,n,m); for(int d=0;d<depth;d++){ op(*v,m,choose(NOPS)); same(*v,m,"after"); nlive(m.size(),"after"); } } nlive(0,"destroyed"); mc::outcome((int)m.size()); }
// two vectors: copy, move, swap, assignment, comparison
template<class E> void pairs(int sch,int after,bool small=false){ typedef ba::vector<E> V; Rig<V> R(sch,2); R.in.s->policy=choose(2); M m,w; static int const S[]={0,2,5}; int a=S[small?choose(2)*2:choose(3)], b=S[small?1+choose(2):choose(3)]; static int const SO[]={PUSH,INSN,RSZ,CLEAR}; { auto v=build(R,choose(2)?3:0,a,m); auto u=build(R,choose(2)?3:0,b,w); for(int i=0;i<b;i++) if(choose(2)&&i<2){ (*u)[i]=E(1); w[i]=1; }
    V const& cv=*v; V const& cu=*u; MC_ASSERT((cv==cu)==(m==w)&&(cv!=cu)==(m!=w)&&(cv<cu)==(m<w)&&(cv>cu)==(m>w)&&(cv<=cu)==(m<=w)&&(cv>=cu)==(m>=w),"comparison of %s and %s",show(m).c_str(),show(w).c_str());
    int k=choose(8); hist="pair "+std::to_string(k)+"; "; std::unique_ptr<V> x; M y; bool third=false, moved=false;
    switch(k){ case 0: x=std::make_unique<V>(cv); y=m; third=true; break; case 1: x=std::make_unique<V>(std::move(*v)); y=m; third=true; m.clear(); moved=true; break; case 2: *v=cu; m=w; break; case 3: *v=std::move(*u); m=w; w.clear(); u=build(R,0,0,w); break; case 4: v->swap(*u); std::swap(m,w); break; case 5: swap(*v,*u); std::swap(m,w); break; case 6: { V& z=*v; z=cv; break; } case 7: *u=*v; w=m; break; }
    if(!moved) same(*v,m,"first"); else MC_ASSERT(v->size()==0&&v->empty(),"moved from"); same(*u,w,"second"); if(third) same(*x,y,"new"); nlive(m.size()+w.size()+y.size(),"pair");
    if(after){ V& t=third?*x:*v; M& tm=third?y:m; int o=after==1?SO[choose(4)]:choose(NOPS); op(t,tm,o); same(t,tm,"after"); if(!third||!moved) same(*u,w,"untouched"); if(third&&!moved) same(*v,m,"untouched"); nlive(m.size()+w.size()+y.size(),"after"); }
    if(choose(2)){ v.reset(); m.clear(); } else { u.reset(); w.clear(); } if(third) same(*x,y,"survivor"); nlive(m.size()+w.size()+y.size(),"one destroyed"); } nlive(0,"destroyed"); mc::outcome((int)(m.size()+w.size())); }
typedef El<true> EN; typedef El<false> EC;
MC_SCENARIO(ctors_par,1,3,F_SEQ){ if(choose(2)) ctors<EN>(1); else ctors<EC>(1); }
MC_SCENARIO(ctors_ser,0,0,F_SEQ){ if(choose(2)) ctors<EN>(0); else ctors<EC>(0); }
MC_SCENARIO(ops1_par,1,3,F_SEQ){ if(choose(2)) ops<EN>(1,1,{0,1,2,3,5,7,10},true); else ops<EC>(1,1,{0,1,2,3,5,7,10},true); }
MC_SCENARIO(ops1_ser,0,0,F_SEQ){ if(choose(2)) ops<EN>(0,1,{0,1,2,3,5,7,10},false); else ops<EC>(0,1,{0,1,2,3,5,7,10},false); }
MC_SCENARIO(ops2_par,0,1,F_SEQ){ ops<EN>(1,2,{0,3,10},true); }
MC_SCENARIO(ops2_ser,0,0,F_SEQ){ ops<EN>(0,2,{0,3,10},false); }
MC_SCENARIO(ops3_par,-1,0,F_SEQ){ ops<EN>(1,3,{3},true); }
MC_SCENARIO(ops3_ser,-1,0,F_SEQ){ ops<EN>(0,3,{3},false); }
MC_SCENARIO(pairs_par,0,1,F_SEQ){ if(choose(2)) pairs<EN>(1,0); else pairs<EC>(1,0); }
MC_SCENARIO(pairs_after_par,0,1,F_SEQ){ pairs<EN>(1,1,true); }
MC_SCENARIO(pairs_all_par,-1,0,F_SEQ){ if(choose(2)) pairs<EN>(1,2); else pairs<EC>(1,2); }
MC_SCENARIO(pairs_ser,0,0,F_SEQ){ if(choose(2)) pairs<EN>(0,1); else pairs<EC>(0,1); }
MC_SCENARIO(pairs_all_ser,-1,0,F_SEQ){ if(choose(2)) pairs<EN>(0,2); else pairs<EC>(0,2); }
// the asynchronous members: in the pool, on vectors without scheduler; the result comes back by future
template<class V> struct Box { std::shared_ptr<V> v; V take() const { return std::move(*v); } };
template<class V> V run(In& in,std::function<ba::detail::callback_continuation<V,ba::any_callable>()> f){ auto fu=ba::post_future(in.p,f); MC_ASSERT(fu.wait_for(std::chrono::seconds(0))==std::future_status::ready,"%s: no result",hist.c_str()); return fu.get(); }
struct AO { int o,a; }; // one asynchronous operation
static char const* AN[]={"async_push_back","async_resize","async_reserve","async_shrink_to_fit"};
static AO pick(M& m){ AO r{choose(4),0}; int n=(int)m.size(); switch(r.o){ case 0: r.a=++nextv; m.push_back(r.a); break; case 1: { int k=choose(5); r.a=k==0?0:k==1?n/2:k==2?n:k==3?n+1:n+9; m.resize(r.a); break; } case 2: { int k=choose(3); r.a=k==0?0:k==1?n+1:n+12; break; } } hist+=std::string(AN[r.o])+" "+std::to_string(r.a)+"; "; return r; }
template<class V,class C> ba::detail::callback_continuation<V,ba::any_callable> apply(C c,AO o){ typedef typename V::value_type E; switch(o.o){ case 0: return ba::async_push_back(std::move(c),E(o.a)); case 1: return ba::async_resize(std::move(c),(std::size_t)o.a); case 2: return ba::async_reserve(std::move(c),(std::size_t)o.a); default: return ba::async_shrink_to_fit(std::move(c)); } }
template<class E> void async_ops(int steps,int chain,bool after){ typedef ba::vector<E> V; Rig<V> R(true,2); R.in.s->policy=choose(2); M m; static int const S[]={0,3,10}; { Box<V> b; int n=S[choose(3)]; if(choose(2)){ auto v=build(R,choose(2)?3:0,n,m); v->release_scheduler(); b.v=std::move(v); } else { std::size_t k=(std::size_t)n; hist+="make_asynchronous_range; "; b.v=std::make_shared<V>(run<V>(R.in,[k]{ return ba::make_asynchronous_range<V>(k,2); })); m.assign(k,0); } same(*b.v,m,"start"); nlive(m.size(),"start");
    for(int i=0;i<steps;i++){ AO o=pick(m); V r= chain==1? run<V>(R.in,[b,o]{ return apply<V>(b.take(),o); }) : [&]{ AO o2=pick(m); return run<V>(R.in,[b,o,o2]{ return apply<V>(apply<V>(b.take(),o),o2); }); }(); *b.v=std::move(r); same(*b.v,m,"result"); nlive(m.size(),"result"); if(o.o==3&&chain==1) MC_ASSERT(b.v->capacity()==b.v->size(),"capacity after shrink"); if(o.o==2&&chain==1) MC_ASSERT((int)b.v->capacity()>=o.a,"capacity after reserve"); }
    if(after){ if(choose(2)) b.v->set_scheduler(R.in.p); op(*b.v,m,choose(NOPS)); same(*b.v,m,"after"); nlive(m.size(),"after"); } } nlive(0,"destroyed"); mc::outcome((int)m.size()); }
template<class E> void merges(int nv){ typedef ba::vector<E> V; Rig<V> R(true,2); R.in.s->policy=choose(2); M m; static int const S[]={0,1,3,7}; { auto bs=std::make_shared<std::vector<V>>(); bool two=nv==2&&choose(2); for(int i=0;i<nv;i++){ M x; auto v=build(R,choose(2)?3:0,S[choose(4)],x); for(auto& y:x) { y+=100*i; } for(size_t k=0;k<x.size();k++) (*v)[k]=E(x[k]); v->release_scheduler(); bs->push_back(std::move(*v)); m.insert(m.end(),x.begin(),x.end()); hist+=std::to_string(x.size())+" "; } hist+="merge; ";
    auto r=std::make_unique<V>(two?run<V>(R.in,[bs]{ return ba::async_merge_containers(std::move((*bs)[0]),std::move((*bs)[1])); }):run<V>(R.in,[bs]{ return ba::async_merge_containers(std::move(*bs)); })); same(*r,m,"merged"); bs->clear(); same(*r,m,"merged"); nlive(m.size(),"merged"); if(choose(2)){ if(choose(2)) r->set_scheduler(R.in.p); op(*r,m,choose(2)?PUSH:INSN); same(*r,m,"after"); } } nlive(0,"destroyed"); mc::outcome((int)m.size()); }
// a standard container from make_asynchronous_range, and the accessors of the settings
static void plain(){ typedef ba::vector<EN> V; Rig<V> R(true,2); int n=choose(5); { auto f=ba::post_future(R.in.p,[n]{ return ba::make_asynchronous_range<std::vector<int>>(n,2); }); auto v=f.get(); MC_ASSERT(v==std::vector<int>(n),"standard range"); V a(R.in.p,3,"nm",1); MC_ASSERT(a.get_cutoff()==3&&a.get_name()=="nm"&&a.get_prio()==1,"settings"); a.set_cutoff(1); a.set_name("x"); a.set_prio(0); MC_ASSERT(a.get_cutoff()==1&&a.get_name()=="x"&&a.get_prio()==0,"settings"); M m; for(int i=0;i<n+10;i++){ a.emplace_back(i,i); m.push_back(i*101); } same(a,m,"emplace_back of two"); a.emplace(a.cbegin()+n,7,7); m.insert(m.begin()+n,707); same(a,m,"emplace of two"); } nlive(0,"destroyed"); }
// vectors which take their elements by moving only
typedef ba::vector<EC,ba::any_callable,true> VF;
template<class V> void forced(int depth){ Rig<V> R(choose(2),2); M m; { auto v=build(R,choose(2)?3:0,choose(2)?3:10,m); for(int d=0;d<depth;d++){ op(*v,m,choose(NOPS)); same(*v,m,"after"); nlive(m.size(),"after"); } } nlive(0,"destroyed"); mc::outcome((int)m.size()); }
MC_SCENARIO(async1,0,1,F_SEQ){ if(choose(2)) async_ops<EN>(1,1,true); else async_ops<EC>(1,1,true); }
MC_SCENARIO(async2,0,1,F_SEQ){ async_ops<EN>(2,1,false); }
MC_SCENARIO(async_chain,1,2,F_SEQ){ if(choose(2)) async_ops<EN>(1,2,false); else async_ops<EC>(1,2,false); }
MC_SCENARIO(async3,-1,0,F_SEQ){ async_ops<EN>(3,1,true); }
MC_SCENARIO(merge2,0,2,F_SEQ){ if(choose(2)) merges<EN>(2); else merges<EC>(2); }
MC_SCENARIO(merge3,0,1,F_SEQ){ merges<EN>(3); }
MC_SCENARIO(merge01,0,1,F_SEQ){ merges<EN>(choose(2)); }
MC_SCENARIO(settings,0,1,F_SEQ){ plain(); }
MC_SCENARIO(force_move1,0,1,F_SEQ){ forced<VF>(1); }
MC_SCENARIO(force_move2,-1,0,F_SEQ){ forced<VF>(2); }
