// C09: safe callbacks run only in the servant's thread, only while it lives, exactly once per call, in call order
#include "sched_more.h"
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/diagnostics/any_loggable.hpp>
enum { CALL=1, DTOR=2, RET=3, MARK=4 };
static std::vector<boost::thread::id> sids;
static bool in_servant(){ auto me=boost::this_thread::get_id(); for(auto&i:sids) if(i==me) return true; return false; }
typedef ba::any_loggable LOG;
template<class J> struct SV : ba::trackable_servant<J,J>{ typedef ba::trackable_servant<J,J> base; int alive=0x5a5a; 
  SV(ba::any_weak_scheduler<J> s):base(s){} ~SV(){ MC_ASSERT(in_servant(),"dtor thread"); alive=0; mc::point(); mc::ev(DTOR); }
  void hit(int k){ MC_ASSERT(in_servant(),"safe callback %d executed in a foreign thread",k); MC_ASSERT(mc::count_ev(DTOR)==0&&alive==0x5a5a,"safe callback %d executed after the servant's death",k); mc::ev(CALL,k); mc::point(); MC_ASSERT(alive==0x5a5a,"died meanwhile"); }
  std::function<void(int)> cb(bool post){ auto f=[this](int k){ hit(k); }; return post?this->make_safe_post_callback(f,"p",0):this->make_safe_callback(f,"s",0); }
  std::function<void()> cb0(bool post){ auto f=[this](){ hit(0); }; return post?this->make_safe_post_callback(f,"p",0):this->make_safe_callback(f,"s",0); }
  std::function<void(int,std::string,std::vector<int>)> cb3(bool post){ auto f=[this](int a,std::string b,std::vector<int> c){ MC_ASSERT(a==7&&b=="hello world, a long string"&&c==std::vector<int>({1,2,3}),"arguments"); hit(0); }; return post?this->make_safe_post_callback(f,"p",0):this->make_safe_callback(f,"s",0); }
  std::function<void(int)> cbthrow(bool post){ auto f=[this](int k){ hit(k); throw my_err(k); }; return post?this->make_safe_post_callback(f,"p",0):this->make_safe_callback(f,"s",0); }
  // called inside the servant's thread
  void inside(bool post,bool thr){ auto f=thr?cbthrow(post):cb(post); f(1); int done1=mc::count_ev(CALL,1); MC_ASSERT(done1==(post?0:1),"call in the own thread %s",post?"was not posted":"was not executed at once"); f(2); mc::ev(MARK); }
  std::function<bool()> chk(){ return this->make_check_alive_functor(); }
};
template<class J,class S> struct SVP : ba::servant_proxy<SVP<J,S>,S,J>{ typedef ba::servant_proxy<SVP<J,S>,S,J> base; typedef typename base::servant_type servant_type; typedef typename base::callable_type callable_type; template<class X> SVP(X s):base(s){}
  BOOST_ASYNC_FUTURE_MEMBER(cb,0) BOOST_ASYNC_FUTURE_MEMBER(cb0,0) BOOST_ASYNC_FUTURE_MEMBER(cb3,0) BOOST_ASYNC_FUTURE_MEMBER(cbthrow,0) BOOST_ASYNC_FUTURE_MEMBER(inside,0) BOOST_ASYNC_FUTURE_MEMBER(chk,0) };
typedef BOOST_ASYNCHRONOUS_DEFAULT_JOB DJ; 
template<class J> static ba::any_shared_scheduler_proxy<J> mk(){ return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::lockfree_queue<J>>>(); }
// two foreign threads call; each call executes exactly once, each caller's calls in order
template<class J> void calls(bool post){
  auto s=mk<J>(); sids=s.thread_ids(); { SVP<J,SV<J>> p(s); auto f=p.cb(post).get(); std::thread t([f]()mutable{ f(11); f(12); }); f(21); f(22); t.join(); mc::settle();
  for(int k: {11,12,21,22}) MC_ASSERT(mc::count_ev(CALL,k)==1,"call %d executed %d times",k,mc::count_ev(CALL,k));
  MC_ASSERT(mc::find_ev(CALL,11)<mc::find_ev(CALL,12)&&mc::find_ev(CALL,21)<mc::find_ev(CALL,22),"order"); }
  std::string o; for(int i=0;i<mc::nev();i++) if(mc::event(i).kind==CALL) o+=std::to_string(mc::event(i).a)+" "; mc::outcome_s(o);
}
// the servant dies while foreign threads call
template<class J> void dying(bool post,bool last){
  auto s=mk<J>(); sids=s.thread_ids(); std::function<void(int)> f; auto p=std::make_unique<SVP<J,SV<J>>>(s); f=p->cb(post).get(); if(last) s.reset();
  std::thread t([f]()mutable{ f(11); f(12); mc::ev(RET); }); p.reset(); if(last) MC_ASSERT(mc::count_ev(DTOR)==1||true,""); f(21); t.join(); mc::settle();
  for(int k: {11,12,21}) MC_ASSERT(mc::count_ev(CALL,k)<=1,"call %d executed %d times",k,mc::count_ev(CALL,k)); MC_ASSERT(mc::count_ev(DTOR)==1,"dtor %d",mc::count_ev(DTOR));
  MC_ASSERT(!(mc::count_ev(CALL,12)&&!mc::count_ev(CALL,11)),"call 12 without 11");
  std::string o; for(int i=0;i<mc::nev();i++) o+=std::to_string(mc::event(i).kind*100+mc::event(i).a)+" "; mc::outcome_s(o);
}
template<class J> void inside(bool post,bool thr){
  auto s=mk<J>(); sids=s.thread_ids(); SVP<J,SV<J>> p(s); p.inside(post,thr).get(); mc::settle(); MC_ASSERT(mc::count_ev(CALL,1)==1&&mc::count_ev(CALL,2)==1&&mc::count_ev(MARK)==1,"calls %d %d, caller %s",mc::count_ev(CALL,1),mc::count_ev(CALL,2),mc::count_ev(MARK)?"returned":"was aborted"); MC_ASSERT(mc::find_ev(CALL,1)<mc::find_ev(CALL,2),"order");
  if(post) MC_ASSERT(mc::find_ev(MARK)<mc::find_ev(CALL,1),"not posted"); else MC_ASSERT(mc::find_ev(MARK)>mc::find_ev(CALL,2),"posted"); mc::outcome(post);
}
template<class J> void args(bool post,int kind){
  auto s=mk<J>(); sids=s.thread_ids(); SVP<J,SV<J>> p(s); auto al=p.chk().get(); MC_ASSERT(al(),"check functor");
  if(kind==0){ auto f=p.cb0(post).get(); f(); } else if(kind==1){ auto f=p.cb3(post).get(); f(7,"hello world, a long string",{1,2,3}); } else { auto f=p.cbthrow(post).get(); f(0); f(1); mc::settle(); MC_ASSERT(mc::count_ev(CALL,1)==1,"call after a throwing call"); }
  mc::settle(); MC_ASSERT(mc::count_ev(CALL,0)==1,"executed %d times",mc::count_ev(CALL,0)); mc::outcome(kind);
}
// a foreign thread calls while the servant calls directly: no overlap, no loss; and calls after death are ignored
template<class J> void dead(bool post,bool sched_gone){
  auto s=mk<J>(); sids=s.thread_ids(); std::function<void(int)> f; std::function<bool()> al; { SVP<J,SV<J>> p(s); f=p.cb(post).get(); al=p.chk().get(); } if(sched_gone) s.reset();
  mc::settle(); MC_ASSERT(mc::count_ev(DTOR)==1,"dtor"); MC_ASSERT(!al(),"check functor says alive"); f(1); if(!sched_gone) ba::post_future(s,[f]()mutable{ f(2); },std::string(""),0).get(); mc::settle(); MC_ASSERT(mc::count_ev(CALL)==0,"call after death"); mc::outcome(1);
}
// servants sharing one thread: each callback belongs to its own servant
static void two_servants(bool post){
  auto s=mk<DJ>(); sids=s.thread_ids(); struct X{ bool d1=false; }; 
  auto p1=std::make_unique<SVP<DJ,SV<DJ>>>(s); auto f1=p1->cb(post).get(); 
  auto g=ba::post_future(s,[f1]()mutable{ f1(1); },std::string(""),0); g.get(); mc::settle(); MC_ASSERT(mc::count_ev(CALL,1)==1,"1");
  std::thread t([f1]()mutable{ f1(2); }); f1(3); t.join(); mc::settle(); MC_ASSERT(mc::count_ev(CALL,2)==1&&mc::count_ev(CALL,3)==1,"2/3"); mc::outcome(mc::find_ev(CALL,2)<mc::find_ev(CALL,3));
}
// servant in a pool with several threads cannot be called directly: always posted
#define P09(J,QB,TB) MC_SCENARIO(J##_calls,QB,TB,F_NO_TIMEOUT_DEV){ calls<J>(mc::choose(2)); } MC_SCENARIO(J##_dying,QB,TB,F_NO_TIMEOUT_DEV){ int p=mc::choose(2); dying<J>(p,mc::choose(2)); } \
 MC_SCENARIO(J##_inside,1,TB,F_NO_TIMEOUT_DEV){ int p=mc::choose(2); inside<J>(p,mc::choose(2)); } MC_SCENARIO(J##_args,1,TB,F_NO_TIMEOUT_DEV){ int p=mc::choose(2); args<J>(p,mc::choose(3)); } MC_SCENARIO(J##_dead,1,TB,F_NO_TIMEOUT_DEV){ int p=mc::choose(2); dead<J>(p,mc::choose(2)); }
P09(DJ,2,3) P09(LOG,1,2)
MC_SCENARIO(two_servants,1,2,F_NO_TIMEOUT_DEV){ two_servants(mc::choose(2)); }
