// C04 (engine A): priorities through schedulers, with the worker and other threads interleaved
#include "sched_more.h"
enum { EXEC=1, POSTED=2, EN=3 };
typedef ba::any_queue_container<> QC;
struct T { int prio,i; void operator()()const{ mc::ev(EXEC,prio,i); } };
static Proxy mk(int k){ return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<QC>>(ba::any_queue_container_config<LQ>(k)); }
static Proxy mkpool(int k){ return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<QC>>(1,ba::any_queue_container_config<LQ>(k)); }
static std::string order(){ std::string o; for(int i=0;i<mc::nev();i++) if(mc::event(i).kind==EXEC) o+=std::to_string(mc::event(i).a)+std::to_string(mc::event(i).b)+" "; return o; }
// tasks queued while the worker is held run in (priority, posting order)
static void held(Proxy s,int K,bool futures){
  auto gate=std::make_shared<bool>(false); s.post([gate]{ mc::ev(POSTED); mc::wait_until([&]{ return *gate; }); },1);
  mc::wait_until([]{ return mc::count_ev(POSTED)==1; });
  std::vector<std::pair<int,int>> exp;
  for(int i=0;i<3;i++){ int p=1+mc::choose(K+1); int eff=std::min(p,K); exp.push_back({eff,i}); if(futures) ba::post_future(s,T{eff,i},std::string(""),(size_t)p); else s.post(T{eff,i},p); }
  *gate=true; mc::point(); s.reset();
  std::stable_sort(exp.begin(),exp.end(),[](auto&a,auto&b){ return a.first<b.first; });
  std::string e; for(auto&x:exp) e+=std::to_string(x.first)+std::to_string(x.second)+" ";
  MC_ASSERT(order()==e,"executed in order %s instead of %s",order().c_str(),e.c_str()); mc::outcome_s(e);
}
MC_SCENARIO(single_held_3,2,3,0){ held(mk(3),3,false); }
MC_SCENARIO(single_held_2_futures,2,3,0){ held(mk(2),2,true); }
MC_SCENARIO(pool_held_3,2,3,0){ held(mkpool(3),3,false); }
// posting races with the worker: a lower priority task may only run before a better one that was posted after the worker took it
MC_SCENARIO(single_race,2,3,0){
  Proxy s=mk(3);
  s.post(T{3,0},3); s.post(T{2,0},2); s.post(T{1,0},1); s.post(T{2,1},2); s.post(T{1,1},1); s.reset();
  for(int p=1;p<=3;p++) for(int i=0;i<(p==3?1:2);i++) MC_ASSERT(mc::count_ev(EXEC,p,i)==1,"task %d/%d ran %d times",p,i,mc::count_ev(EXEC,p,i));
  MC_ASSERT(mc::find_ev(EXEC,1,0)<mc::find_ev(EXEC,1,1)&&mc::find_ev(EXEC,2,0)<mc::find_ev(EXEC,2,1),"tasks of one priority ran out of order: %s",order().c_str());
  mc::outcome_s(order());
}
// a queue disabled and enabled from a task of the scheduler
static void disable(Proxy s,int q,bool one_worker=true){
  auto w=s.get_weak_scheduler(); auto gate=std::make_shared<bool>(false);
  s.post([w,q,gate]{ auto l=w.lock(); l.enable_queue(q,false); mc::ev(EN,0); },1);
  mc::wait_until([]{ return mc::count_ev(EN,0)==1; });
  for(int p=1;p<=3;p++) for(int i=0;i<2;i++) s.post(T{p,i},p);
  mc::wait_until([q]{ return mc::count_ev(EXEC)>=4; }); mc::settle();
  MC_ASSERT(mc::count_ev(EXEC)==4 && mc::count_ev(EXEC,q)==0,"disabled priority %d: %d tasks of it ran, %d in total",q,mc::count_ev(EXEC,q),mc::count_ev(EXEC));
  // enabled again by a task of a live priority
  s.post([w,q]{ auto l=w.lock(); l.enable_queue(q,true); mc::ev(EN,1); },q==1?2:1);
  mc::wait_until([]{ return mc::count_ev(EXEC)>=6; }); s.reset();
  for(int p=1;p<=3;p++){ for(int i=0;i<2;i++) MC_ASSERT(mc::count_ev(EXEC,p,i)==1,"task %d/%d ran %d times",p,i,mc::count_ev(EXEC,p,i)); MC_ASSERT(!one_worker||mc::find_ev(EXEC,p,0)<mc::find_ev(EXEC,p,1),"tasks of one priority ran out of order: %s",order().c_str()); }
  mc::outcome_s(order());
}
MC_SCENARIO(single_disable_1,2,3,0){ disable(mk(3),1); }
MC_SCENARIO(single_disable_2,2,3,0){ disable(mk(3),2); }
MC_SCENARIO(single_disable_3,2,3,0){ disable(mk(3),3); }
MC_SCENARIO(pool_disable_2,2,3,0){ disable(mkpool(3),2); }
// the queue of a pool is disabled by one thread while two workers run
MC_SCENARIO(pool2_disable_2,2,3,0){ disable(ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<QC>>(2,ba::any_queue_container_config<LQ>(3)),2,false); }
// priority 0 means any: nothing is lost, with any push policy
MC_SCENARIO(any_priority,2,3,0){ Proxy s=mk(3); for(int i=0;i<4;i++) s.post(T{0,i},0); s.reset(); for(int i=0;i<4;i++) MC_ASSERT(mc::count_ev(EXEC,0,i)==1,"task %d ran %d times",i,mc::count_ev(EXEC,0,i)); mc::outcome_s(order()); }
