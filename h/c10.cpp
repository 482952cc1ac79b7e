// C10: a servant lives entirely in its own thread: ctor, calls, dtor there, one at a time, in order, exactly once
#include "sched_more.h"
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/diagnostics/any_loggable.hpp>
enum { CTOR=1, CALL=2, DTOR=3, THREW=4, LATE=5, DROP=6 };
static std::vector<boost::thread::id> sids; static bool in_servant(){ auto me=boost::this_thread::get_id(); for(auto&i:sids) if(i==me) return true; return false; }
static int busy_[4]; // one at a time, per servant
struct One{ int s; One(int s,const char* w):s(s){ MC_ASSERT(in_servant(),"%s of servant %d in a foreign thread",w,s); MC_ASSERT(busy_[s]==0,"%s of servant %d while another member runs",w,s); busy_[s]=1; mc::point(); } ~One(){ mc::point(); busy_[s]=0; } };
struct Base0{ int id; long magic=0x5e47a; explicit Base0(int id,bool thr=false):id(id){ MC_ASSERT(mc::count_ev(CTOR,id)==0,"second ctor"); One o(id,"ctor"); mc::ev(CTOR,id); if(thr){ mc::ev(THREW,id); throw my_err(id); } }
  ~Base0(){ One o(id,"dtor"); MC_ASSERT(magic==0x5e47a&&mc::count_ev(DTOR,id)==0,"second dtor"); mc::ev(DTOR,id); magic=0; }
  void hit(int k){ One o(id,"call"); MC_ASSERT(mc::count_ev(CTOR,id)==1&&mc::count_ev(DTOR,id)==0&&magic==0x5e47a,"call %d on a dead servant",k); mc::ev(CALL,id,k); }
  int get(int k){ hit(k); return k+1; } 
  Base0(Base0 const&)=delete; };
struct Plain : Base0{ typedef int requires_weak_scheduler; Plain(ba::any_weak_scheduler<>,int id,bool thr=false):Base0(id,thr){} };          // no trackable servant
struct Track : ba::trackable_servant<>, Base0{ Track(ba::any_weak_scheduler<> s,int id,bool thr=false):ba::trackable_servant<>(s),Base0(id,thr){} };
template<class S> struct PX : ba::servant_proxy<PX<S>,S>{ typedef ba::servant_proxy<PX<S>,S> base; typedef typename base::servant_type servant_type; typedef typename base::callable_type callable_type;
  template<class X,class... A> PX(X s,A... a):base(s,a...){} PX(PX const&)=default; PX(PX&&)=default; PX& operator=(PX const&)=default; PX& operator=(PX&&)=default;
  BOOST_ASYNC_POST_MEMBER(hit,0) BOOST_ASYNC_FUTURE_MEMBER(get,0) };
static void reset_busy(){ for(int&x:busy_) x=0; }
static void final_checks(int id,std::vector<int> calls,std::vector<std::pair<int,int>> order){
  MC_ASSERT(mc::count_ev(CTOR,id)==1,"servant %d constructed %d times",id,mc::count_ev(CTOR,id)); MC_ASSERT(mc::count_ev(DTOR,id)==1,"servant %d destroyed %d times",id,mc::count_ev(DTOR,id));
  for(int k:calls) MC_ASSERT(mc::count_ev(CALL,id,k)==1,"call %d of servant %d executed %d times",k,id,mc::count_ev(CALL,id,k));
  for(auto&o:order) MC_ASSERT(mc::find_ev(CALL,id,o.first)<mc::find_ev(CALL,id,o.second),"call %d before %d",o.second,o.first);
  MC_ASSERT(mc::count_ev(CALL,id)==(int)calls.size(),"%d calls executed",mc::count_ev(CALL,id)); }
static void trace(){ std::string o; for(int i=0;i<mc::nev();i++) o+=std::to_string(mc::event(i).kind)+"."+std::to_string(mc::event(i).b)+" "; mc::outcome_s(o); }
// two threads use copies of one proxy; the last to drop it ends the servant (and maybe the scheduler)
template<class M,class S> void share(bool keep,bool fut){
  reset_busy(); { auto s=M::make(); sids=s.thread_ids(); auto p=std::make_unique<PX<S>>(s,1,false); if(!keep) s=Proxy();
    std::thread t([c=*p,fut]{ PX<S> q(c); q.hit(11); if(fut){ int v=q.get(12).get(); MC_ASSERT(v==13,"value"); } else q.hit(12); });
    p->hit(21); p->hit(22); p.reset(); mc::ev(DROP); t.join(); if(keep) mc::settle(); 
    if(keep) final_checks(1,{11,12,21,22},{{11,12},{21,22}}); }
  final_checks(1,{11,12,21,22},{{11,12},{21,22}}); MC_ASSERT(mc::alive_threads()==0,"threads left"); trace();
}
// proxies made, copied, handed out and dropped inside the servant's own thread
template<class M,class S> void inside(int kind){
  reset_busy(); { auto s=M::make(); sids=s.thread_ids(); auto w=s.get_weak_scheduler(); 
    if(kind==0){ // created and dropped inside
      ba::post_future(s,[s]{ PX<S> p(s,1,false); p.hit(1); auto q=p; q.hit(2); },std::string(""),0).get(); }
    else if(kind==1){ // created inside, handed out, dropped outside
      auto p=ba::post_future(s,[s]{ auto p=std::make_shared<PX<S>>(s,1,false); p->hit(1); return p; },std::string(""),0).get(); p->hit(2); p.reset(); }
    else if(kind==2){ // created outside, a copy dropped inside while the last outer one goes
      auto p=std::make_unique<PX<S>>(s,1,false); s.post([q=std::make_shared<PX<S>>(*p)]()mutable{ q->hit(1); q.reset(); mc::point(); }); p->hit(2); p.reset(); }
    else { // creation inside with a throwing ctor
      int e=ba::post_future(s,[s]{ try{ PX<S> p(s,1,true); return 0; }catch(my_err&x){ return x.code; } },std::string(""),0).get(); MC_ASSERT(e==1,"exception of the ctor: %d",e); }
    mc::settle(); }
  if(kind!=3) final_checks(1,{1,2},{}); else MC_ASSERT(mc::count_ev(DTOR)==0,"dtor of a servant that was never constructed"); MC_ASSERT(mc::alive_threads()==0,"threads left"); trace();
}
template<class M,class S> void ctor_throws(){
  reset_busy(); { auto s=M::make(); sids=s.thread_ids(); int e=0; try{ PX<S> p(s,1,true); }catch(my_err&x){ e=x.code; } MC_ASSERT(e==1,"the ctor's exception did not reach the creator (%d)",e); MC_ASSERT(mc::count_ev(DTOR)==0,"dtor"); busy_[1]=0;
    PX<S> p(s,2,false); int v=p.get(5).get(); MC_ASSERT(v==6,"value"); }
  final_checks(2,{5},{}); trace();
}
// assignment: the overwritten proxy was the last one of its servant
template<class M,class S> void assign(int how,bool same_sched){
  reset_busy(); { auto s1=M::make(); auto s2=same_sched?s1:M::make(); sids=s1.thread_ids(); for(auto&i:s2.thread_ids()) sids.push_back(i);
    PX<S> a(s1,1,false), b(s2,2,false); a.hit(1); b.hit(1);
    if(how==0) a=b; else if(how==1) a=std::move(b); else if(how==2){ PX<S> c(std::move(a)); a=c; a=a; a=b; } else { std::swap(a,b); a.hit(2); }
    if(how==3) b.hit(2); else a.hit(2);
    mc::settle(); if(how!=3) MC_ASSERT(mc::count_ev(DTOR,1)==1,"the servant whose last proxy was overwritten still lives"); }
  final_checks(1,how==3?std::vector<int>{1,2}:std::vector<int>{1},{}); final_checks(2,{1,2},{{1,2}}); trace();
}
// a servant that owns a servant of another thread
struct Outer : ba::trackable_servant<>, Base0{ PX<Track> inner; Outer(ba::any_weak_scheduler<> s,int id,ba::any_shared_scheduler_proxy<> other):ba::trackable_servant<>(s),Base0(id),inner(other,2,false){ inner.hit(1); } void hit(int k){ Base0::hit(k); inner.hit(k); } };
struct OuterP : ba::servant_proxy<OuterP,Outer>{ template<class X,class... A> OuterP(X s,A... a):ba::servant_proxy<OuterP,Outer>(s,a...){} BOOST_ASYNC_POST_MEMBER(hit,0) };
static void nested(){
  reset_busy(); { auto s1=mk_single::make(), s2=mk_single::make(); sids=s1.thread_ids(); sids.push_back(s2.thread_ids()[0]); { OuterP p(s1,1,s2); p.hit(2); } mc::settle(); }
  final_checks(1,{2},{}); final_checks(2,{1,2},{{1,2}}); MC_ASSERT(mc::find_ev(CTOR,1)<mc::find_ev(CTOR,2),"order"); trace();
}
// proxy from a servant that already exists
template<class S> struct PF : ba::servant_proxy<PF<S>,S>{ typedef ba::servant_proxy<PF<S>,S> base; typedef typename base::servant_type servant_type; typedef typename base::callable_type callable_type; PF(Proxy s,std::future<std::shared_ptr<S>> f):base(s,std::move(f)){} BOOST_ASYNC_POST_MEMBER(hit,0) };
static void from_future2(){ reset_busy(); { auto s=mk_single::make(); sids=s.thread_ids(); auto w=s.get_weak_scheduler(); auto fu=ba::post_future(s,[w]{ return std::make_shared<Track>(w,1,false); },std::string(""),0);
    PF<Track> p(s,std::move(fu)); p.hit(1); auto q=p; q.hit(2); } final_checks(1,{1,2},{{1,2}}); trace(); }
#define P10(M,S,QB,TB) MC_SCENARIO(M##_##S##_share,QB,TB,F_NO_TIMEOUT_DEV){ int k=mc::choose(2); share<M,S>(k,mc::choose(2)); } MC_SCENARIO(M##_##S##_inside,QB,TB,F_NO_TIMEOUT_DEV){ inside<M,S>(mc::choose(4)); } \
 MC_SCENARIO(M##_##S##_ctor_throws,QB,TB,F_NO_TIMEOUT_DEV){ ctor_throws<M,S>(); } MC_SCENARIO(M##_##S##_assign,1,TB,F_NO_TIMEOUT_DEV){ int h=mc::choose(4); assign<M,S>(h,mc::choose(2)); }
P10(mk_single,Track,2,3) P10(mk_pool1,Plain,1,2) 
MC_SCENARIO(nested,1,2,F_NO_TIMEOUT_DEV){ nested(); } MC_SCENARIO(from_future,1,2,F_NO_TIMEOUT_DEV){ from_future2(); }
