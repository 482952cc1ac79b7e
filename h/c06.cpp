// C06: the future of a posted task carries exactly the task's own outcome, once, and not before the task has finished
#include "sched_more.h"
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/diagnostics/any_loggable.hpp>
enum { BEG=1, FIN=2, SUB=3, SUBEND=4 };
typedef ba::any_loggable LOG; typedef ba::any_shared_scheduler_proxy<LOG> ProxyL;
struct mk_log{ static ProxyL make(){ return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<LOG>>>(2); } };
struct mk_logs{ static ProxyL make(){ return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::lockfree_queue<LOG>>>(); } };
// waits in one of the ways a user can, then checks that the task is finished
template<class F> void waitf(F& f,int how){ if(how==0) f.wait(); else while(f.wait_for(std::chrono::milliseconds(1))!=std::future_status::ready) boost::this_thread::yield(); }
template<class F> int err_of(F& f){ try{ f.get(); return 0; } catch(my_err&e){ return e.code; } catch(ba::task_aborted_exception&){ return -2; } catch(std::future_error&){ return -3; } catch(int i){ return i; } catch(...){ return -4; } }
struct Fin{ int k; ~Fin(){ mc::ev(FIN,k); } };
// ---- plain tasks
template<class M> void plain(int kind,int how){
  auto s=M::make(); std::string o;
  auto beg=[](int k){ mc::ev(BEG,k); mc::point(); };
  switch(kind){
   case 0: { auto f=ba::post_future(s,[beg]{ beg(0); Fin x{0}; return 41; },std::string("a"),0); waitf(f,how); MC_ASSERT(mc::count_ev(FIN,0)==1,"future ready before the task finished"); int v=f.get(); MC_ASSERT(v==41,"value %d",v); break; }
   case 1: { auto f=ba::post_future(s,[beg]{ beg(0); Fin x{0}; },std::string("a"),0); waitf(f,how); MC_ASSERT(mc::count_ev(FIN,0)==1,"future ready before the task finished"); f.get(); break; }
   case 2: { auto f=ba::post_future(s,[beg]{ beg(0); Fin x{0}; return std::unique_ptr<int>(new int(7)); },std::string("a"),0); waitf(f,how); MC_ASSERT(mc::count_ev(FIN,0)==1,"future ready before the task finished"); auto p=f.get(); MC_ASSERT(p&&*p==7,"move-only result"); break; }
   case 3: { auto f=ba::post_future(s,[beg]()->int{ beg(0); Fin x{0}; throw my_err(5); },std::string("a"),0); waitf(f,how); MC_ASSERT(mc::count_ev(FIN,0)==1,"future ready before the task finished"); int e=err_of(f); MC_ASSERT(e==5,"wrong exception (%d)",e); break; }
   case 4: { auto f=ba::post_future(s,[beg]{ beg(0); Fin x{0}; throw my_err(6); },std::string("a"),0); waitf(f,how); MC_ASSERT(mc::count_ev(FIN,0)==1,"future ready before the task finished"); int e=err_of(f); MC_ASSERT(e==6,"wrong exception (%d)",e); break; }
   case 5: { std::unique_ptr<int> p(new int(9)); auto f=ba::post_future(s,[beg,p=std::move(p)]{ beg(0); Fin x{0}; return *p; },std::string("a"),0); waitf(f,how); int v=f.get(); MC_ASSERT(v==9,"value %d",v); break; }
   case 6: { auto f=ba::post_future(s,[beg]()->int{ beg(0); Fin x{0}; throw 17; },std::string("a"),0); waitf(f,how); int e=0; try{ f.get(); } catch(int i){ e=i; } MC_ASSERT(e==17,"wrong exception (%d)",e); break; }
  }
  MC_ASSERT(mc::count_ev(BEG)==1,"task ran %d times",mc::count_ev(BEG));
}
// two tasks: each future has its own outcome; a second thread posts and waits too
template<class M> void two(){
  auto s=M::make();
  auto task=[](int k){ return [k]()->int{ mc::ev(BEG,k); Fin x{k}; if(k==2) throw my_err(2); return k*10; }; };
  std::thread t([&]{ auto f=ba::post_future(s,task(1),std::string("b"),0); int v=f.get(); MC_ASSERT(v==10&&mc::count_ev(FIN,1)==1,"future 1 got %d",v); });
  auto f0=ba::post_future(s,task(3),std::string("c"),0); auto f2=ba::post_future(s,task(2),std::string("d"),0);
  int e=err_of(f2); MC_ASSERT(e==2,"future 2: %d",e); int v=f0.get(); MC_ASSERT(v==30,"future 3 got %d",v); t.join();
  std::string o; for(int i=0;i<mc::nev();i++) if(mc::event(i).kind==BEG) o+=std::to_string(mc::event(i).a); mc::outcome_s(o);
}
// futures of tasks still queued when the scheduler is dropped
template<class M> void at_shutdown(){
  std::future<int> a,b; std::future<void> c;
  { auto s=M::make(); a=ba::post_future(s,[]{ mc::ev(BEG,0); return 1; },std::string(""),0); b=ba::post_future(s,[]()->int{ mc::ev(BEG,1); throw my_err(3); },std::string(""),0); c=ba::post_future(s,[]{ mc::ev(BEG,2); },std::string(""),0); }
  int v=a.get(); MC_ASSERT(v==1,"value %d",v); int e=err_of(b); MC_ASSERT(e==3,"exception %d",e); c.get(); mc::outcome(1);
}
// ---- continuation tasks
template<class R> struct Leaf : ba::continuation_task<R>{ int k; int mode; Leaf(int k,int mode):ba::continuation_task<R>("leaf"),k(k),mode(mode){}
  void operator()()const{ mc::ev(SUB,k); mc::point(); auto r=this->this_task_result(); mc::ev(SUBEND,k); 
    if(mode==1){ r.set_exception(k==2?std::make_exception_ptr(100+k):std::make_exception_ptr(my_err(100+k))); return; } if constexpr(std::is_same<R,void>::value) r.set_value(); else r.set_value(R(k)); } };
template<class R,class Job> struct Top : ba::continuation_task<R>{ int n; int fail; bool fut; Top(int n,int fail,bool fut=false):ba::continuation_task<R>("top"),n(n),fail(fail),fut(fut){}
  void operator()()const{ auto r=this->this_task_result();
    if constexpr(std::is_same<R,void>::value){
      auto done=[r](std::tuple<ba::expected<void>,ba::expected<void>> t){ try{ std::get<0>(t).get(); std::get<1>(t).get(); r.set_value(); }catch(...){ r.set_exception(std::current_exception()); } };
      ba::create_callback_continuation_job<Job>(done,Leaf<void>(1,fail==1),Leaf<void>(2,fail==2));
    } else if(!fut){
      auto done=[r](std::tuple<ba::expected<int>,ba::expected<int>> t){ try{ int a=std::get<0>(t).get(),b=std::get<1>(t).get(); r.set_value(a*100+b); }catch(...){ r.set_exception(std::current_exception()); } };
      ba::create_callback_continuation_job<Job>(done,Leaf<int>(1,fail==1),Leaf<int>(2,fail==2));
    } else {
      auto done=[r](std::tuple<std::future<int>,std::future<int>> t){ try{ int a=std::get<0>(t).get(),b=std::get<1>(t).get(); r.set_value(a*100+b); }catch(...){ r.set_exception(std::current_exception()); } };
      ba::create_continuation_job<Job>(done,Leaf<int>(1,fail==1),Leaf<int>(2,fail==2));
    } } };
// a task that could be sent to a remote pool, but is run here
template<class Job> struct SerTask{ typedef int serializable_type; int fl; std::string get_task_name()const{ return "ser"; } template<class A> void serialize(A&,const unsigned){}
  auto operator()()const{ return ba::top_level_callback_continuation_job<int,Job>(Top<int,Job>(0,fl)); } };
template<class M,class Job> void cont(int kind,int how){
  auto s=M::make(); 
  switch(kind){
   case 0: case 1: case 2: { auto f=ba::post_future(s,[kind]{ return ba::top_level_callback_continuation_job<int,Job>(Top<int,Job>(0,kind)); },std::string("t"),0); waitf(f,how); MC_ASSERT(mc::count_ev(SUBEND)==2,"future ready after %d of 2 subtasks",mc::count_ev(SUBEND)); if(kind==0){ int v=f.get(); MC_ASSERT(v==102,"value %d",v); } else { int e=err_of(f); MC_ASSERT(e==100+kind,"exception %d instead of the continuation's own",e); } break; }
   case 3: case 4: case 5: { int fl=kind-3; auto f=ba::post_future(s,[fl]{ return ba::top_level_callback_continuation_job<void,Job>(Top<void,Job>(0,fl)); },std::string("t"),0); waitf(f,how); MC_ASSERT(mc::count_ev(SUBEND)==2,"future ready after %d of 2 subtasks",mc::count_ev(SUBEND)); int e=err_of(f); MC_ASSERT(e==(fl?100+fl:0),"outcome %d of a void continuation, expected %d",e,fl?100+fl:0); break; }
   case 6: case 7: case 8: { int fl=kind-6; auto f=ba::post_future(s,[fl]{ return ba::top_level_continuation_job<int,Job>(Top<int,Job>(0,fl,true)); },std::string("t"),0); waitf(f,how); MC_ASSERT(mc::count_ev(SUBEND)==2,"future ready after %d of 2 subtasks",mc::count_ev(SUBEND)); if(fl==0){ int v=f.get(); MC_ASSERT(v==102,"value %d",v); } else { int e=err_of(f); MC_ASSERT(e==100+fl,"exception %d instead of the continuation's own",e); } break; }
   case 10: case 11: { int fl=kind-10; auto f=ba::post_future(s,SerTask<Job>{fl},std::string("t"),0); waitf(f,how); MC_ASSERT(mc::count_ev(SUBEND)==2,"future ready after %d of 2 subtasks",mc::count_ev(SUBEND)); if(fl==0){ int v=f.get(); MC_ASSERT(v==102,"value %d",v); } else { int e=err_of(f); MC_ASSERT(e==100+fl,"exception %d instead of the continuation's own",e); } break; }
   case 9: { auto f=ba::post_future(s,[]{ if(1) throw my_err(77); return ba::top_level_callback_continuation_job<int,Job>(Top<int,Job>(0,0)); },std::string("t"),0); waitf(f,how); int e=err_of(f); MC_ASSERT(e==77,"exception %d",e); break; }
  }
  for(int k=1;k<=2&&kind!=9;k++) MC_ASSERT(mc::count_ev(SUB,k)==1,"subtask %d ran %d times",k,mc::count_ev(SUB,k));
  std::string o; for(int i=0;i<mc::nev();i++) o+=std::to_string(mc::event(i).kind*10+mc::event(i).a)+"@"+std::to_string(mc::event(i).tid)+" "; mc::outcome_s(o);
}
typedef ba::any_callable AC;
#define P06(M,QB,TB) MC_SCENARIO(M##_plain,QB,TB,0){ int how=mc::choose(2); plain<M>(mc::choose(7),how); } MC_SCENARIO(M##_two,QB,TB,0){ two<M>(); } MC_SCENARIO(M##_shutdown,QB,TB,0){ at_shutdown<M>(); }
#define K06(M,J,QB,TB) MC_SCENARIO(M##_cont,QB,TB,0){ cont<M,J>(mc::choose(12),0); }
P06(mk_single,2,3) P06(mk_pool,2,3) P06(mk_mq,1,2) P06(mk_steal,1,2) P06(mk_comp,1,2) P06(mk_mt,1,2) P06(mk_io,1,2) P06(mk_log,1,2)
K06(mk_single,AC,2,3) K06(mk_pool,AC,2,3) K06(mk_steal,AC,1,2) K06(mk_mq,AC,1,2) K06(mk_comp,AC,1,2) K06(mk_logs,LOG,1,2) K06(mk_log,LOG,1,2)
