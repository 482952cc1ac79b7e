// C08: a servant's pending tasks and callbacks die with it; while it lives they are all delivered in its own thread
#include "sched_more.h"
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/continuation_task.hpp>
enum { RUN=1, CB=2, SELF=3, DTOR=4, CTOR=5, SUB=6 };
static std::vector<boost::thread::id> sids;
static bool in_servant(){ auto me=boost::this_thread::get_id(); return sids.size()==1&&sids[0]==me; }
static bool gate;
struct Leaf : ba::continuation_task<int>{ Leaf():ba::continuation_task<int>("l"){} void operator()()const{ auto r=this->this_task_result(); mc::ev(SUB); r.set_value(4); } };
struct Top : ba::continuation_task<int>{ Top():ba::continuation_task<int>("t"){} void operator()()const{ auto r=this->this_task_result(); ba::create_callback_continuation([r](std::tuple<ba::expected<int>,ba::expected<int>> t){ r.set_value(std::get<0>(t).get()+std::get<1>(t).get()); },Leaf(),Leaf()); } };
static void cbcheck(int k){ MC_ASSERT(in_servant(),"callback %d in a foreign thread",k); MC_ASSERT(mc::count_ev(DTOR)==0,"callback %d after the servant's destructor",k); mc::ev(CB,k); mc::point(); MC_ASSERT(mc::count_ev(DTOR)==0,"servant destroyed during callback %d",k); }
struct Servant : ba::trackable_servant<>{
  int alive=0x5a5a; bool gated;
  Servant(ba::any_weak_scheduler<> s,Proxy w,bool gated):ba::trackable_servant<>(s,w),gated(gated){ mc::ev(CTOR); }
  ~Servant(){ MC_ASSERT(in_servant(),"destructor in a foreign thread"); MC_ASSERT(alive==0x5a5a,"destroyed twice"); alive=0; mc::point(); mc::ev(DTOR); }
  // k selects the way of posting
  void go(int k){
    bool g=gated; 
    auto task=[k]{ mc::ev(RUN,k); return k; };
    switch(k){
     case 0: post_callback(decltype(task)(task),[k,this](ba::expected<int> r){ cbcheck(k); MC_ASSERT(alive==0x5a5a,"callback on a dead servant"); int v=r.get(); MC_ASSERT(v==k,"value"); },"a",0,0); break;
     case 1: post_callback([k]{ mc::ev(RUN,k); throw my_err(1); },[k,this](ba::expected<void> r){ cbcheck(k); MC_ASSERT(alive==0x5a5a,"callback on a dead servant"); MC_ASSERT(r.has_exception(),"exception expected"); },"b",0,0); break;
     case 2: interruptible_post_callback(decltype(task)(task),[k,this](ba::expected<int> r){ cbcheck(k); MC_ASSERT(alive==0x5a5a,"callback on a dead servant"); int v=r.get(); MC_ASSERT(v==k,"value"); },"c",0,0); break;
     case 3: post_callback([k]{ mc::ev(RUN,k); return ba::top_level_callback_continuation<int>(Top()); },[k,this](ba::expected<int> r){ cbcheck(k); MC_ASSERT(alive==0x5a5a,"callback on a dead servant"); int v=r.get(); MC_ASSERT(v==8,"value"); },"d",0,0); break;
     case 4: post_self([k,this]{ MC_ASSERT(in_servant(),"own task in a foreign thread"); MC_ASSERT(mc::count_ev(DTOR)==0,"own task after the servant's destructor"); MC_ASSERT(alive==0x5a5a,"own task on a dead servant"); mc::ev(SELF,k); },"e",0); break;
     case 5: interruptible_post_self([k,this]{ MC_ASSERT(in_servant(),"own task in a foreign thread"); MC_ASSERT(mc::count_ev(DTOR)==0,"own task after the servant's destructor"); mc::ev(SELF,k); },"f",0); break;
     case 6: post_future(task,"g",0); break;
     case 7: interruptible_post_future(task,"h",0); break;
     case 8: { auto w=get_worker(); post_callback(w,task,[k](ba::expected<int> r){ cbcheck(k); },"i",0,0); break; }
     case 9: { auto w=get_worker(); post_future(w,task,"j",0); break; }
     case 10: { auto w=get_worker(); interruptible_post_callback(w,task,[k](ba::expected<int> r){ cbcheck(k); },"k",0,0); break; }
     case 11: { auto w=get_worker(); interruptible_post_future(w,task,"l",0); break; }
     case 12: { auto w=get_worker(); call_callback(w,task,[k](ba::expected<int> r){ cbcheck(k); },"m",0,0); break; }
     case 13: { auto w=get_worker(); interruptible_call_callback(w,task,[k](ba::expected<int> r){ cbcheck(k); },"n",0,0); break; }
    } }
  int ping(){ return 1; }
};
static bool is_self(int k){ return k==4||k==5; } static bool has_cb(int k){ return k<=3||k==8||k==10||k==12||k==13; }
struct SP : ba::servant_proxy<SP,Servant>{ template<class S> SP(S s,Proxy w,bool g):ba::servant_proxy<SP,Servant>(s,w,g){} BOOST_ASYNC_POST_MEMBER(go,0) BOOST_ASYNC_FUTURE_MEMBER(ping,0) };
static const int NK=14;
// the servant lives: everything is delivered
template<class M> void alive(int k){
  auto s=mk_single::make(); sids=s.thread_ids(); auto w=M::make(); { SP p(s,w,false); p.go(k); mc::settle();
    MC_ASSERT(mc::count_ev(DTOR)==0,"dead"); if(is_self(k)) MC_ASSERT(mc::count_ev(SELF,k)==1,"own task ran %d times",mc::count_ev(SELF,k)); else MC_ASSERT(mc::count_ev(RUN,k)==1,"task ran %d times",mc::count_ev(RUN,k));
    if(has_cb(k)) MC_ASSERT(mc::count_ev(CB,k)==1,"callback ran %d times",mc::count_ev(CB,k)); }
  mc::settle(); MC_ASSERT(mc::count_ev(DTOR)==1,"destructor ran %d times",mc::count_ev(DTOR)); mc::outcome(k);
}
// the servant dies at any moment
template<class M> void dies(int k,int k2){
  auto s=mk_single::make(); sids=s.thread_ids(); auto w=M::make(); { SP p(s,w,false); p.go(k); if(k2>=0) p.go(k2); }
  mc::settle(); MC_ASSERT(mc::count_ev(DTOR)==1,"destructor ran %d times",mc::count_ev(DTOR)); 
  for(int x: {k,k2}) if(x>=0){ MC_ASSERT(mc::count_ev(RUN,x)<=1&&mc::count_ev(CB,x)<=1&&mc::count_ev(SELF,x)<=1,"ran twice"); MC_ASSERT(mc::count_ev(CB,x)==0||mc::count_ev(RUN,x)==1,"callback without task"); }
  auto f=ba::post_future(w,[]{ return 2; },std::string(""),0); int v=f.get(); MC_ASSERT(v==2,"pool"); auto g=ba::post_future(s,[]{ return 3; },std::string(""),0); v=g.get(); MC_ASSERT(v==3,"own scheduler");
  std::string o; for(int i=0;i<mc::nev();i++) o+=std::to_string(mc::event(i).kind)+" "; mc::outcome_s(o);
}
// the worker is busy until the servant is dead: its waiting task is not started
template<class M> void dead_before_start(int k){
  auto s=mk_single::make(); sids=s.thread_ids(); auto w=M::make(); bool go=false; int n=0; for(int i=0;i<M::T;i++) w.post([&]{ n++; mc::wait_until([&]{ return go; }); },i+1); mc::wait_until([&]{ return n==M::T; });
  { SP p(s,w,false); p.go(k); } mc::wait_until([]{ return mc::count_ev(DTOR)==1; });
  go=true; mc::settle(); MC_ASSERT(mc::count_ev(RUN)==0,"task started after its servant's death"); MC_ASSERT(mc::count_ev(CB)==0&&mc::count_ev(SELF)==(is_self(k)?mc::count_ev(SELF):0),"callback after death");
  auto f=ba::post_future(w,[]{ return 2; },std::string(""),0); int v=f.get(); MC_ASSERT(v==2,"pool"); mc::outcome(k);
}
struct S2 : ba::trackable_servant<>{ bool&st,&g; int k; S2(ba::any_weak_scheduler<> s,Proxy w,bool*st,bool*g,int k):ba::trackable_servant<>(s,w),st(*st),g(*g),k(k){} ~S2(){ mc::ev(DTOR); }
      void go(){ bool&a=st,&b=g; int kk=k; if(k==0) post_callback([&a,&b]{ a=true; mc::wait_until([&b]{ return b; }); mc::ev(RUN); return 1; },[](ba::expected<int>){ mc::ev(CB); },"",0,0); else if(k==1) post_callback([&a,&b]{ a=true; mc::wait_until([&b]{ return b; }); mc::ev(RUN); },[](ba::expected<void>){ mc::ev(CB); },"",0,0);
        else post_callback([&a,&b]{ a=true; mc::wait_until([&b]{ return b; }); mc::ev(RUN); return ba::top_level_callback_continuation<int>(Top()); },[](ba::expected<int>){ mc::ev(CB); },"",0,0); } };
    struct P2 : ba::servant_proxy<P2,S2>{ P2(Proxy s,Proxy w,bool*a,bool*b,int k):ba::servant_proxy<P2,S2>(s,w,a,b,k){} BOOST_ASYNC_POST_MEMBER(go,0) };
// the task is running when the servant dies: no callback any more
template<class M> void dead_while_running(int k){
  auto s=mk_single::make(); sids=s.thread_ids(); auto w=M::make(); bool started=false,go=false;
  {     P2 p(s,w,&started,&go,k); p.go(); mc::wait_until([&]{ return started; }); }
  mc::wait_until([]{ return mc::count_ev(DTOR)==1; }); go=true; mc::settle();
  MC_ASSERT(mc::count_ev(RUN)==1,"task"); MC_ASSERT(mc::count_ev(CB)==0,"callback after the servant's death"); mc::outcome(k);
}
struct S3 : ba::trackable_servant<>{ S3(ba::any_weak_scheduler<> s,Proxy w):ba::trackable_servant<>(s,w){} ~S3(){ 
      // posted by the dying servant itself: all of them are still in the queue when the destructor ends
      post_self([]{ mc::ev(SELF); },"",0); post_callback([]{ mc::ev(RUN); },[](ba::expected<void>){ mc::ev(CB); },"",0,0); mc::ev(DTOR); } };
  struct P3 : ba::servant_proxy<P3,S3>{ P3(Proxy s,Proxy w):ba::servant_proxy<P3,S3>(s,w){} };
// own tasks queued behind the destructor's turn are not run
static void self_after(){
  auto s=mk_single::make(); sids=s.thread_ids(); auto w=mk_pool1::make(); std::future<void> f; 
    { P3 p(s,w); } mc::settle(); MC_ASSERT(mc::count_ev(DTOR)==1,"dtor"); MC_ASSERT(mc::count_ev(SELF)==0,"own task after death"); MC_ASSERT(mc::count_ev(CB)==0,"callback after death"); mc::outcome(mc::count_ev(RUN));
}
// a copy or an assigned servant has a life of its own
static void copies(){
  auto s=mk_single::make(); sids=s.thread_ids(); auto w=mk_pool1::make();
  auto f=ba::post_future(s,[w]{ struct T : ba::trackable_servant<>{ using ba::trackable_servant<>::trackable_servant; }; 
     ba::any_weak_scheduler<> ws=ba::get_thread_scheduler<BOOST_ASYNCHRONOUS_DEFAULT_JOB>();
     auto a=std::make_unique<T>(ws,w); auto b=std::make_unique<T>(*a); auto c=std::make_unique<T>(ws,w); *c=*a; auto d=std::make_unique<T>(std::move(*std::make_unique<T>(ws,w)));
     a->post_self([]{ mc::ev(SELF,1); },"",0); b->post_self([]{ mc::ev(SELF,2); },"",0); c->post_self([]{ mc::ev(SELF,3); },"",0); d->post_self([]{ mc::ev(SELF,4); },"",0);
     int kill=mc::choose(4); (kill==0?a:kill==1?b:kill==2?c:d).reset(); static std::vector<std::unique_ptr<T>> keep; keep.clear(); keep.push_back(std::move(a)); keep.push_back(std::move(b)); keep.push_back(std::move(c)); keep.push_back(std::move(d));
     return std::make_pair(kill,&keep); },std::string(""),0);
  auto kk=f.get(); mc::settle(); for(int i=0;i<4;i++) MC_ASSERT(mc::count_ev(SELF,i+1)==(kk.first==i?0:1),"servant %d killed: task of servant %d ran %d times",kk.first,i,mc::count_ev(SELF,i+1)); kk.second->clear(); mc::outcome(kk.first);
}
#define P08(M,QB,TB) MC_SCENARIO(M##_alive,1,TB,F_NO_TIMEOUT_DEV){ int k=mc::choose(NK); alive<M>(k); } MC_SCENARIO(M##_dies,QB,TB,F_NO_TIMEOUT_DEV){ int k=mc::choose(NK); dies<M>(k,-1); } \
 MC_SCENARIO(M##_before_start,1,2,F_NO_TIMEOUT_DEV){ int k=mc::choose(NK); if(is_self(k)) k=0; dead_before_start<M>(k); } MC_SCENARIO(M##_while_running,QB,TB,F_NO_TIMEOUT_DEV){ dead_while_running<M>(mc::choose(3)); }
P08(mk_pool1,1,2) P08(mk_pool,1,2) P08(mk_steal,1,2) P08(mk_mq,1,2)
MC_SCENARIO(dies_two,1,2,F_NO_TIMEOUT_DEV){ int a=mc::choose(7),b=mc::choose(6); if(b>=a) b++; dies<mk_pool1>(a,b); }
MC_SCENARIO(self_after,2,3,F_NO_TIMEOUT_DEV){ self_after(); }
MC_SCENARIO(copies,1,2,F_NO_TIMEOUT_DEV){ copies(); }
