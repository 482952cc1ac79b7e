// C02: shutdown drains accepted tasks, joins workers, never deadlocks
#pragma once
#include "common.h"
enum { EXEC=1, DTOR_BEGIN=2, DTOR_END=3 };
struct Probe { int k; int thr; explicit Probe(int k,int thr=0):k(k),thr(thr){} void operator()()const{ mc::ev(EXEC,k); mc::point(); if(thr==1) throw std::runtime_error("probe"); if(thr==2) throw boost::thread_interrupted(); } };
template<class M> void drop_outside(){
  int thr=mc::choose(3); { Proxy s=M::make(); s.post(Probe(0)); s.post(Probe(1,thr)); s.post(Probe(2)); mc::ev(DTOR_BEGIN); }
  mc::ev(DTOR_END);
  MC_ASSERT(mc::alive_threads()==0,"%d worker threads still alive after the destruction returned",mc::alive_threads());
  int late=mc::find_ev(DTOR_BEGIN); std::string o;
  for(int k=0;k<3;k++){ MC_ASSERT(mc::count_ev(EXEC,k)==1,"accepted task %d executed %d times",k,mc::count_ev(EXEC,k)); o+=mc::find_ev(EXEC,k)<late?'b':'a'; }
  mc::outcome_s(o);
}
template<class M> void drop_fresh(){ // destroy a scheduler whose workers may not have started
  { Proxy s=M::make(); }
  MC_ASSERT(mc::alive_threads()==0,"worker threads alive after destruction");
  { Proxy s=M::make(); s.post(Probe(1)); }
  MC_ASSERT(mc::count_ev(EXEC,1)==1,"accepted task executed %d times",mc::count_ev(EXEC,1));
  MC_ASSERT(mc::alive_threads()==0,"worker threads alive after destruction");
  mc::outcome(1);
}
template<class M> void drop_two_holders(){
  { Proxy s=M::make();
    std::thread t([s]()mutable{ s.post(Probe(1)); s=Proxy(); mc::ev(DTOR_END,1); });
    s.post(Probe(0)); s=Proxy(); mc::ev(DTOR_END,0);
    t.join(); }
  // both holders are gone (the thread's closure is destroyed before join returns)
  MC_ASSERT(mc::alive_threads()==0,"worker threads alive after last proxy was destroyed");
  for(int k=0;k<2;k++) MC_ASSERT(mc::count_ev(EXEC,k)==1,"accepted task %d executed %d times",k,mc::count_ev(EXEC,k));
  std::string o; for(int i=0;i<mc::nev();i++) o+=std::to_string(mc::event(i).kind)+std::to_string(mc::event(i).a)+" "; mc::outcome_s(o);
}
template<class M> void drop_handle_inside(){ // the last strong reference is a locked weak handle held by a running task
  auto flag=std::make_shared<bool>(false);
  { Proxy s=M::make(); auto w=s.get_weak_scheduler();
    s.post([w,flag]{ auto l=std::make_shared<ba::any_shared_scheduler<>>(w.lock()); mc::ev(5,l->is_valid()); *flag=true; mc::point(); if(l->is_valid()) l->post(Probe(2)); mc::ev(EXEC,0); l.reset(); mc::point(); });
    s.post(Probe(1)); mc::wait_until([&]{ return *flag; }); }
  MC_ASSERT(mc::alive_threads()==0,"worker threads alive after the destruction returned");
  int late=mc::find_ev(5); MC_ASSERT(late>=0&&mc::event(late).a==1,"a weak handle of a live scheduler did not lock");
  for(int k=0;k<3;k++) MC_ASSERT(mc::count_ev(EXEC,k)==1,"accepted task %d executed %d times",k,mc::count_ev(EXEC,k));
  std::string o; for(int i=0;i<mc::nev();i++) o+=std::to_string(mc::event(i).kind)+std::to_string(mc::event(i).a)+" "; mc::outcome_s(o);
}
template<class M> void drop_while_task_posts(){ // a task posts a follow-up through a weak handle while the last proxy goes away
  { Proxy s=M::make(); auto w=s.get_weak_scheduler();
    s.post([w]{ mc::ev(EXEC,0); auto l=w.lock(); if(l.is_valid()){ l.post(Probe(1)); mc::ev(5,1); } }); }
  MC_ASSERT(mc::count_ev(EXEC,0)==1,"accepted task executed %d times",mc::count_ev(EXEC,0));
  if(M::join_always) MC_ASSERT(mc::alive_threads()==0,"worker threads alive after the destruction returned");
  else mc::wait_until([]{ return mc::alive_threads()==0; });
  MC_ASSERT(mc::count_ev(EXEC,1)==mc::count_ev(5),"task accepted through a locked handle executed %d times, accepted %d",mc::count_ev(EXEC,1),mc::count_ev(5));
  mc::outcome(mc::count_ev(5));
}
#define C02_SCN(M,QB,TB) struct M##_c02:M{ static constexpr bool join_always=false; }; \
 MC_SCENARIO(M##_drop_outside,QB,TB,0){ drop_outside<M##_c02>(); } \
 MC_SCENARIO(M##_drop_fresh,QB,TB,0){ drop_fresh<M##_c02>(); } \
 MC_SCENARIO(M##_drop_two_holders,QB,TB,0){ drop_two_holders<M##_c02>(); } \
 MC_SCENARIO(M##_drop_handle_inside,QB,TB,0){ drop_handle_inside<M##_c02>(); } \
 MC_SCENARIO(M##_drop_while_task_posts,QB,TB,0){ drop_while_task_posts<M##_c02>(); }
