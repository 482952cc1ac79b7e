// C07: post_callback calls back exactly once, in the right thread, after the task, with its outcome
#include "sched_more.h"
#include <boost/asynchronous/continuation_task.hpp>
enum { BEG=1, FIN=2, CB=3, SUB=4, DROP=5 };
struct Fin{ int k; ~Fin(){ mc::ev(FIN,k); } };
static std::vector<boost::thread::id> cbids;
static bool in_cb(){ auto me=boost::this_thread::get_id(); return cbids.size()==1 && cbids[0]==me; }
template<class T> int err_of(ba::expected<T>& r){ try{ r.get(); return 0; }catch(my_err&e){ return e.code; }catch(ba::task_aborted_exception&){ return -2; }catch(int i){ return i; }catch(...){ return -4; } }
template<class R> struct Leaf : ba::continuation_task<R>{ int k,mode; Leaf(int k,int mode):ba::continuation_task<R>("leaf"),k(k),mode(mode){}
  void operator()()const{ mc::point(); auto r=this->this_task_result(); mc::ev(SUB,k); if(mode){ r.set_exception(k==2?std::make_exception_ptr(100+k):std::make_exception_ptr(my_err(100+k))); return; } if constexpr(std::is_void<R>::value) r.set_value(); else r.set_value(R(k)); } };
template<class R> struct Top : ba::continuation_task<R>{ int fail; bool fut; Top(int fail,bool fut):ba::continuation_task<R>("top"),fail(fail),fut(fut){}
  void operator()()const{ auto r=this->this_task_result();
    auto fin=[r](auto& a,auto& b){ try{ if constexpr(std::is_void<R>::value){ a.get(); b.get(); r.set_value(); } else { int x=a.get(),y=b.get(); r.set_value(x*100+y); } }catch(...){ r.set_exception(std::current_exception()); } };
    if(fut) ba::create_continuation([fin](std::tuple<std::future<R>,std::future<R>> t){ fin(std::get<0>(t),std::get<1>(t)); },Leaf<R>(1,fail==1),Leaf<R>(2,fail==2));
    else ba::create_callback_continuation([fin](std::tuple<ba::expected<R>,ba::expected<R>> t){ fin(std::get<0>(t),std::get<1>(t)); },Leaf<R>(1,fail==1),Leaf<R>(2,fail==2)); } };
template<class T> void check_cb(int need,int got,int want){ MC_ASSERT(in_cb(),"callback runs in a foreign thread"); MC_ASSERT(mc::count_ev(FIN)+mc::count_ev(SUB)>=need,"callback before the task finished"); MC_ASSERT(got==want,"callback got outcome %d, expected %d",got,want); mc::ev(CB,0); }
// one task of each kind
template<class M> void kinds(int kind,int inter){
  auto s=M::make(); auto cbs=mk_single::make(); cbids=cbs.thread_ids(); auto w=cbs.get_weak_scheduler();
  auto po=[&](auto f,auto cb){ if(inter) ba::interruptible_post_callback(s,std::move(f),w,std::move(cb),"x",0,0); else ba::post_callback(s,std::move(f),w,std::move(cb),"x",0,0); };
  switch(kind){
   case 0: po([]{ mc::ev(BEG); mc::point(); Fin x{0}; },[](ba::expected<void> r){ check_cb<void>(1,err_of(r),0); MC_ASSERT(!r.has_exception(),"success expected"); }); break;
   case 1: po([]{ mc::ev(BEG); mc::point(); Fin x{0}; return 42; },[](ba::expected<int> r){ MC_ASSERT(r.has_value()&&!r.has_exception(),"value expected"); check_cb<int>(1,r.get(),42); }); break;
   case 2: po([]{ mc::ev(BEG); Fin x{0}; return std::unique_ptr<int>(new int(7)); },[](ba::expected<std::unique_ptr<int>> r){ auto p=std::move(r.get()); check_cb<int>(1,p?*p:-1,7); }); break;
   case 3: po([]()->int{ mc::ev(BEG); Fin x{0}; throw my_err(5); },[](ba::expected<int> r){ MC_ASSERT(r.has_exception()&&!r.has_value(),"exception expected"); check_cb<int>(1,err_of(r),5); }); break;
   case 4: po([]{ mc::ev(BEG); Fin x{0}; throw my_err(6); },[](ba::expected<void> r){ MC_ASSERT(r.has_exception(),"exception expected"); check_cb<void>(1,err_of(r),6); }); break;
   case 5: { std::unique_ptr<int> p(new int(9)); po([p=std::move(p)]{ mc::ev(BEG); Fin x{0}; return *p; },[q=std::unique_ptr<int>(new int(1))](ba::expected<int> r){ check_cb<int>(1,r.get()+*q,10); }); break; }
   case 6: po([]()->int{ mc::ev(BEG); Fin x{0}; throw 17; },[](ba::expected<int> r){ int e=0; try{ r.get(); }catch(int i){ e=i; } check_cb<int>(1,e,17); }); break;
   case 7: case 8: case 9: { int fl=kind-7; po([fl]{ mc::ev(BEG); return ba::top_level_callback_continuation<int>(Top<int>(fl,false)); },[fl](ba::expected<int> r){ int e=err_of(r); check_cb<int>(2,fl?e:(e?e:1),fl?100+fl:1); }); break; }
   case 10: case 11: case 16: { int fl=kind==16?2:kind-10; po([fl]{ mc::ev(BEG); return ba::top_level_callback_continuation<void>(Top<void>(fl,false)); },[fl](ba::expected<void> r){ check_cb<void>(2,err_of(r),fl?100+fl:0); }); break; }
   case 12: case 13: { int fl=kind-12; po([fl]{ mc::ev(BEG); return ba::top_level_continuation<int>(Top<int>(fl,true)); },[fl](ba::expected<int> r){ int e=err_of(r); check_cb<int>(2,e,fl?100+fl:0); }); break; }
   case 14: po([]{ mc::ev(BEG); Fin x{0}; if(1) throw my_err(77); return ba::top_level_callback_continuation<int>(Top<int>(0,false)); },[](ba::expected<int> r){ check_cb<int>(1,err_of(r),77); }); break;
   case 15: po([]{ mc::ev(BEG); Fin x{0}; if(1) throw my_err(78); return ba::top_level_callback_continuation<void>(Top<void>(0,false)); },[](ba::expected<void> r){ check_cb<void>(1,err_of(r),78); }); break;
  }
  mc::settle();
  MC_ASSERT(mc::count_ev(CB)==1,"callback ran %d times",mc::count_ev(CB)); MC_ASSERT(mc::count_ev(BEG)==1,"task ran %d times",mc::count_ev(BEG));
  std::string o; for(int i=0;i<mc::nev();i++) o+=std::to_string(mc::event(i).kind)+"@"+std::to_string(mc::event(i).tid)+" "; mc::outcome_s(o);
}
// several tasks posted by two threads: one callback each with its own outcome; a throwing callback does not stop the others
template<class M> void many(){
  auto s=M::make(); auto cbs=mk_single::make(); cbids=cbs.thread_ids(); auto w=cbs.get_weak_scheduler();
  auto post=[&](int k){ ba::post_callback(s,[k]()->int{ mc::ev(BEG,k); Fin f{k}; if(k==2) throw my_err(2); return k*10; },w,[k](ba::expected<int> r){ MC_ASSERT(in_cb(),"foreign thread"); MC_ASSERT(mc::count_ev(FIN,k)==1,"callback %d before its task",k); int e=err_of(r); MC_ASSERT(e==(k==2?2:0),"outcome of %d",k); if(k!=2){ } mc::ev(CB,k); if(k==1) throw std::runtime_error("cb"); },"y",0,0); };
  std::thread t([&]{ post(1); post(2); }); post(3); t.join();
  mc::settle(); for(int k=1;k<=3;k++) MC_ASSERT(mc::count_ev(CB,k)==1&&mc::count_ev(BEG,k)==1,"task %d ran %d times, callback %d times",k,mc::count_ev(BEG,k),mc::count_ev(CB,k));
  std::string o; for(int i=0;i<mc::nev();i++) if(mc::event(i).kind==CB) o+=std::to_string(mc::event(i).a); mc::outcome_s(o);
}
// the callback scheduler goes away at any time: the callback runs in it before it is gone, or is dropped; the pool stays usable
template<class M> void gone(int kind){
  auto s=M::make(); auto cbs=mk_single::make(); cbids=cbs.thread_ids(); auto w=cbs.get_weak_scheduler();
  auto cb=[](auto r){ MC_ASSERT(in_cb(),"foreign thread"); MC_ASSERT(mc::count_ev(DROP)==0,"callback after its scheduler is gone"); mc::ev(CB); };
  if(kind==0) ba::post_callback(s,[]{ mc::ev(BEG); return 1; },w,[cb](ba::expected<int> r){ cb(0); },"",0,0);
  else if(kind==1) ba::post_callback(s,[]{ mc::ev(BEG); throw my_err(1); },w,[cb](ba::expected<void> r){ cb(0); },"",0,0);
  else if(kind==2) ba::post_callback(s,[]{ mc::ev(BEG); return ba::top_level_callback_continuation<int>(Top<int>(0,false)); },w,[cb](ba::expected<int> r){ cb(0); },"",0,0);
  else ba::post_callback(s,[]{ mc::ev(BEG); if(1) throw my_err(1); return ba::top_level_callback_continuation<int>(Top<int>(0,false)); },w,[cb](ba::expected<int> r){ cb(0); },"",0,0);
  cbs.reset(); mc::settle(); // (a worker that has locked the callback scheduler may be the one that ends it)
  mc::ev(DROP); 
  MC_ASSERT(mc::count_ev(BEG)==1,"task ran %d times",mc::count_ev(BEG)); MC_ASSERT(mc::count_ev(CB)<=1,"callback ran twice");
  auto f=ba::post_future(s,[]{ return 3; },std::string(""),0); int v=f.get(); MC_ASSERT(v==3,"pool unusable");
  mc::outcome(mc::count_ev(CB));
}
// gone for sure before the task runs
template<class M> void gone_before(){
  auto s=M::make(); auto cbs=mk_single::make(); auto w=cbs.get_weak_scheduler(); cbs.reset(); mc::settle();
  ba::post_callback(s,[]{ mc::ev(BEG); return 1; },w,[](ba::expected<int> r){ mc::ev(CB); },"",0,0);
  ba::post_callback(s,[]{ mc::ev(BEG); return ba::top_level_callback_continuation<int>(Top<int>(1,false)); },w,[](ba::expected<int> r){ mc::ev(CB); },"",0,0);
  mc::settle(); MC_ASSERT(mc::count_ev(CB)==0,"callback ran without scheduler");
  auto f=ba::post_future(s,[]{ return 3; },std::string(""),0); int v=f.get(); MC_ASSERT(v==3,"pool unusable"); mc::outcome(mc::count_ev(BEG));
}
// priorities: post priority selects the queue of the task, callback priority that of the callback
static Proxy prio3(){ typedef ba::any_queue_container<> Q; return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<Q>>(ba::any_queue_container_config<LQ>(1),ba::any_queue_container_config<LQ>(1),ba::any_queue_container_config<LQ>(1)); }
static void prio(int inter){
  auto s=prio3(); auto cbs=prio3(); cbids=cbs.thread_ids(); auto w=cbs.get_weak_scheduler(); bool go=false,gocb=false,c0=false,w0=false;
  cbs.post([&]{ c0=true; mc::wait_until([&]{ return gocb; }); },0); s.post([&]{ w0=true; mc::wait_until([&]{ return go; }); },0); mc::wait_until([&]{ return c0&&w0; });
  auto post=[&](int k,int pp,int cp){ auto t=[k]{ mc::ev(BEG,k); }; auto c=[k](ba::expected<void>){ mc::ev(CB,k); }; if(inter) ba::interruptible_post_callback(s,t,w,c,"",pp,cp); else ba::post_callback(s,t,w,c,"",pp,cp); };
  post(1,3,2); post(2,2,3); post(3,1,1); go=true; mc::wait_until([&]{ return mc::count_ev(BEG)==3; }); mc::settle(); gocb=true; mc::settle();
  std::string o; for(int i=0;i<mc::nev();i++) o+=(mc::event(i).kind==BEG?"t":"c")+std::to_string(mc::event(i).a); MC_ASSERT(o=="t3t2t1c3c1c2","order %s",o.c_str()); mc::outcome_s(o);
}
#define P07(M,QB,TB) MC_SCENARIO(M##_kinds,1,TB,0){ int k=mc::choose(17); kinds<M>(k,0); } MC_SCENARIO(M##_kinds_interruptible,1,TB,0){ int k=mc::choose(17); kinds<M>(k,1); } \
 MC_SCENARIO(M##_many,QB,TB,0){ many<M>(); } MC_SCENARIO(M##_gone,QB,TB,0){ gone<M>(mc::choose(4)); } MC_SCENARIO(M##_gone_before,QB,TB,0){ gone_before<M>(); }
P07(mk_pool1,2,3) P07(mk_pool,1,2) P07(mk_steal,1,2) P07(mk_mq,1,2) P07(mk_comp,1,2)
MC_SCENARIO(prio,2,3,0){ prio(mc::choose(2)); }
