// C12: interruption stops its own task, at most once, and nothing else; an outcome is always reported
#include "sched_more.h"
#include <boost/asynchronous/continuation_task.hpp>
enum { BEG=1, STOP=2, FIN=3, OTHER=4, CB=5, INTR=6, SUB=7, TOP=8 };
static boost::thread::id cbid; 
// runs long enough for an interruption point, reports where it stopped
static void victim_body(int k,int pts){ mc::ev(BEG,k); MC_ASSERT(mc::count_ev(BEG,k)==1,"started twice"); try{ for(int i=0;i<pts;i++){ mc::point(); boost::this_thread::interruption_point(); } mc::point(); }catch(boost::thread_interrupted&){ mc::ev(STOP,k); throw; } mc::ev(FIN,k); }
// any other task: has interruption points and must never be hit
static void bystander(int k){ try{ boost::this_thread::interruption_point(); mc::point(); boost::this_thread::interruption_point(); }catch(boost::thread_interrupted&){ mc::fail("task %d was interrupted instead of the interrupted task",k); } mc::ev(OTHER,k); }
template<class F> int outv(F& f){ try{ f.get(); return 0; }catch(my_err&e){ return e.code; }catch(ba::task_aborted_exception&){ return -1; }catch(boost::thread_interrupted&){ return -1; }catch(std::future_error&){ return -2; } }
static void trace(){ std::string o; for(int i=0;i<mc::nev();i++) o+=std::to_string(mc::event(i).kind)+"."+std::to_string(mc::event(i).a)+" "; mc::outcome_s(o); }
// how: 0 interruptible_post, 1 interruptible_post_future, 2 interruptible_post_callback
template<class M> void one(int how,int pts,bool second,bool drop,bool before){
  auto cbs=mk_single::make(); cbid=cbs.thread_ids()[0]; std::future<void> fu; bool started_cb=false; 
  { auto s=M::make(); ba::any_interruptible in; bool go=!before,in1=false;
    if(before) for(int i=0;i<M::T;i++) s.post([&]{ in1=true; mc::wait_until([&]{ return go; }); });
    auto v=[pts]{ victim_body(1,pts); };
    if(how==0) in=s.interruptible_post(ba::any_callable(v),0); else if(how==1){ auto t=ba::interruptible_post_future(s,v,std::string(""),0); fu=std::move(std::get<0>(t)); in=std::get<1>(t); }
    else in=ba::interruptible_post_callback(s,v,cbs.get_weak_scheduler(),[](ba::expected<void> r){ MC_ASSERT(boost::this_thread::get_id()==cbid,"thread"); int e=outv(r); MC_ASSERT((e==0)==(mc::count_ev(FIN,1)==1),"callback reports %d",e); mc::ev(CB,e); },std::string(""),0,0);
    s.post([]{ bystander(2); }); 
    if(before){ in.interrupt(); mc::ev(INTR); go=true; } 
    else if(second){ std::thread t([in]()mutable{ in.interrupt(); }); in.interrupt(); t.join(); } else in.interrupt();
    s.post([]{ bystander(3); });
    if(!drop){ mc::settle(); auto f=ba::post_future(s,[]{ bystander(4); },std::string(""),0); f.get(); in.interrupt(); auto g=ba::post_future(s,[]{ bystander(5); },std::string(""),0); g.get(); }
  }
  mc::settle();
  MC_ASSERT(mc::count_ev(OTHER,2)==1&&mc::count_ev(OTHER,3)==1,"other tasks ran %d %d times",mc::count_ev(OTHER,2),mc::count_ev(OTHER,3));
  MC_ASSERT(mc::count_ev(STOP)+mc::count_ev(FIN)==mc::count_ev(BEG)&&mc::count_ev(BEG)<=1,"victim"); if(before) MC_ASSERT(mc::count_ev(BEG)==0,"a task interrupted before its start was run");
  if(how==1){ MC_ASSERT(fu.wait_for(std::chrono::seconds(0))==std::future_status::ready,"the future of the interrupted task reports nothing"); int e=outv(fu); MC_ASSERT((e==0)==(mc::count_ev(FIN,1)==1),"future reports %d",e); }
  if(how==2) MC_ASSERT(mc::count_ev(CB)==mc::count_ev(BEG),"callback ran %d times for a task that %s",mc::count_ev(CB),mc::count_ev(BEG)?"ran":"did not run");
  trace();
}
// blocked in an interruptible wait: it is woken
template<class M> void blocked(){
  auto s=M::make(); auto m=std::make_shared<boost::mutex>(); auto c=std::make_shared<boost::condition_variable>(); 
  auto t=ba::interruptible_post_future(s,[m,c]{ mc::ev(BEG,1); boost::unique_lock<boost::mutex> l(*m); c->wait(l); mc::ev(FIN,1); },std::string(""),0);
  mc::wait_until([]{ return mc::count_ev(BEG,1)==1; }); std::get<1>(t).interrupt(); int e=outv(std::get<0>(t)); MC_ASSERT(e==-1,"outcome %d",e); ba::post_future(s,[]{ bystander(2); },std::string(""),0).get(); mc::outcome(1);
}
// after an interrupted task, an ordinary continuation of the same thread works
struct Leaf : ba::continuation_task<int>{ int k; Leaf(int k):ba::continuation_task<int>("l"),k(k){} void operator()()const{ auto r=this->this_task_result(); try{ boost::this_thread::interruption_point(); }catch(boost::thread_interrupted&){ mc::ev(STOP,k); r.set_exception(std::make_exception_ptr(my_err(k))); return; } mc::ev(SUB,k); r.set_value(k); } };
struct Top : ba::continuation_task<int>{ bool fut; Top(bool fut):ba::continuation_task<int>("t"),fut(fut){} void operator()()const{ auto r=this->this_task_result(); mc::ev(TOP);
   auto fin=[r](auto& a,auto& b){ try{ int x=a.get(),y=b.get(); r.set_value(x*10+y); }catch(...){ r.set_exception(std::current_exception()); } };
   if(fut) ba::create_continuation([fin](std::tuple<std::future<int>,std::future<int>> t){ fin(std::get<0>(t),std::get<1>(t)); },Leaf(1),Leaf(2)); else ba::create_callback_continuation([fin](std::tuple<ba::expected<int>,ba::expected<int>> t){ fin(std::get<0>(t),std::get<1>(t)); },Leaf(1),Leaf(2)); } };
// how: 0 hits an interruption point, 1 finishes without one, 2 throws, 3 throws thread_interrupted by itself. api: 0 future, 1 plain interruptible_post
template<class M> void stale(int how,bool fut,int api){
  auto s=M::make(); ba::any_interruptible in; { std::future<void> fu; auto v=[how]{ mc::ev(BEG,1); if(how==3) throw boost::thread_interrupted(); mc::wait_until([]{ return mc::count_ev(INTR)>0; }); if(how==0) boost::this_thread::interruption_point(); if(how==2) throw my_err(4); };
   if(api==0){ auto t=ba::interruptible_post_future(s,v,std::string(""),0); fu=std::move(std::get<0>(t)); in=std::get<1>(t); } else in=s.interruptible_post(ba::any_callable(v),0);
   mc::wait_until([]{ return mc::count_ev(BEG,1)==1; }); if(how==3){ if(mc::choose(2)) mc::settle(); } in.interrupt(); mc::ev(INTR); if(api==0){ int e=outv(fu); MC_ASSERT(e==(how==0||how==3?-1:how==1?0:4),"outcome %d",e); } }
  auto f=ba::post_future(s,[fut]{ try{ boost::this_thread::interruption_point(); }catch(boost::thread_interrupted&){ mc::fail("a later task was interrupted"); } return fut?ba::top_level_callback_continuation<int>(Top(true)):ba::top_level_callback_continuation<int>(Top(false)); },std::string(""),0); int v=0; try{ v=f.get(); }catch(my_err&x){ mc::fail("subtask %d of an uninvolved continuation was interrupted",x.code); } catch(std::exception&x){ mc::fail("an uninvolved continuation reports %s",x.what()); }
  MC_ASSERT(v==12,"value %d",v); mc::outcome(v);
}
// the interrupted task is followed, in the same worker, by functors of execute_in_all_threads or by the tasks drained at shutdown
template<class M> void stale_next(int how,bool all){
  std::vector<std::future<void>> fs; 
  { auto s=M::make(); auto in=s.interruptible_post(ba::any_callable([how]{ mc::ev(BEG,1); mc::wait_until([]{ return mc::count_ev(INTR)>0; }); if(how==0) boost::this_thread::interruption_point(); if(how==2) throw my_err(4); }),0); 
    mc::wait_until([]{ return mc::count_ev(BEG,1)==1; }); if(all) fs=s.execute_in_all_threads(ba::any_callable([]{ bystander(7); })); else for(int i=0;i<2;i++) s.post([i]{ bystander(i); }); in.interrupt(); std::thread t; if(all) mc::ev(INTR); else t=std::thread([]{ mc::point(); mc::ev(INTR); });
    if(all) for(auto&f:fs) f.get(); s=Proxy(); if(t.joinable()) t.join(); }
  if(!all) MC_ASSERT(mc::count_ev(OTHER,0)==1&&mc::count_ev(OTHER,1)==1,"tasks lost"); mc::outcome(1);
}
// an interruptible task that yields a continuation: an outcome is reported, nothing else is hit
template<class M> void cont(bool fut,bool drop,bool cb){
  auto cbs=mk_single::make(); cbid=cbs.thread_ids()[0]; std::future<int> fu; 
  { auto s=M::make(); ba::any_interruptible in; auto task=[fut]{ mc::ev(BEG,1); return ba::top_level_callback_continuation<int>(Top(fut)); };
    if(!cb){ auto t=ba::interruptible_post_future(s,task,std::string(""),0); in=std::get<1>(t); fu=std::move(std::get<0>(t)); }
    else in=ba::interruptible_post_callback(s,task,cbs.get_weak_scheduler(),[](ba::expected<int> r){ MC_ASSERT(boost::this_thread::get_id()==cbid,"thread"); int e=outv(r); mc::ev(CB,e); },std::string(""),0,0);
    mc::point(); in.interrupt(); s.post([]{ bystander(2); }); if(!drop){ mc::settle(); auto g=ba::post_future(s,[]{ bystander(3); },std::string(""),0); g.get(); } }
  mc::settle();
  if(!cb){ MC_ASSERT(fu.wait_for(std::chrono::seconds(0))==std::future_status::ready,"the future of the interrupted continuation reports nothing"); try{ int v=fu.get(); MC_ASSERT(v==12,"value %d",v); mc::ev(FIN,v); }catch(my_err&e){ mc::ev(FIN,-e.code); }catch(ba::task_aborted_exception&){ mc::ev(FIN,-10); }catch(std::future_error&){ mc::ev(FIN,-20); }catch(boost::thread_interrupted&){ mc::ev(FIN,-30); } }
  else { MC_ASSERT(mc::count_ev(CB)<=1,"callback twice"); if(mc::count_ev(BEG)&&!mc::count_ev(CB)){ int ran=mc::count_ev(SUB)+mc::count_ev(STOP); /* Top is itself the subtask of the callback continuation made by the task */ if(!mc::count_ev(TOP)||(ran<2&&!fut)) mc::fail("callback lost because a subtask of a callback continuation was interrupted before its start"); mc::fail("the callback of a started continuation task was not called, %d subtasks ran",ran); } }
  MC_ASSERT(mc::count_ev(OTHER,2)==1,"other task"); trace();
}
// functors executed in all threads are not hit either
template<class M> void all_threads(){
  auto s=M::make(); auto t=ba::interruptible_post_future(s,[]{ victim_body(1,0); },std::string(""),0); auto fs=s.execute_in_all_threads(ba::any_callable([]{ bystander(7); })); mc::point(); std::get<1>(t).interrupt(); for(auto&f:fs) f.get(); outv(std::get<0>(t)); MC_ASSERT(mc::count_ev(OTHER,7)==(long)fs.size(),"ran %d times",mc::count_ev(OTHER,7)); trace();
}
#define P12(M,QB,TB) MC_SCENARIO(M##_concurrent,1,TB,0){ int h=mc::choose(3); int p=mc::choose(2); one<M>(h,p,false,false,false); } MC_SCENARIO(M##_two_interrupts,QB,TB,0){ one<M>(1,mc::choose(2),true,false,false); } \
 MC_SCENARIO(M##_shutdown,QB,TB,0){ int h=mc::choose(3); int p=mc::choose(2); one<M>(h,p,false,true,false); } MC_SCENARIO(M##_before,1,TB,0){ int h=mc::choose(3); one<M>(h,1,false,mc::choose(2),true); } MC_SCENARIO(M##_blocked,QB,TB,0){ blocked<M>(); } \
 MC_SCENARIO(M##_stale,1,TB,0){ int h=mc::choose(4); int f=mc::choose(2); stale<M>(h,f,mc::choose(2)); } MC_SCENARIO(M##_stale_next,1,TB,0){ int h=mc::choose(3); stale_next<M>(h,mc::choose(2)); } MC_SCENARIO(M##_cont,QB,TB,0){ int f=mc::choose(2); int d=mc::choose(2); cont<M>(f,d,mc::choose(2)); } MC_SCENARIO(M##_all_threads,QB,TB,0){ all_threads<M>(); }
P12(mk_single,2,3)
#ifndef DEV
P12(mk_pool,1,2) P12(mk_steal,1,2) P12(mk_mq,1,2) P12(mk_smq,1,2) P12(mk_mt,1,2) P12(mk_io,1,2) P12(mk_comp,1,2)
#endif
