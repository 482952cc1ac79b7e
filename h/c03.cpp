// C03: a single-thread scheduler is sequential, first-in first-out per poster, and publishes writes between tasks
#include "common.h"
#include <boost/asynchronous/queue/circular_queue.hpp>
enum { BEGIN=1, END=2 };
typedef ba::any_queue_container<> QC;
typedef ba::guarded_deque<> GD; typedef ba::threadsafe_list<> TL; typedef ba::lockfree_spsc_queue<> SP; typedef ba::circular_queue<> CQ;
template<class Q> struct one { static Proxy make(){ return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<Q>>(); } static constexpr int prio=0; };
struct one_pool1 { static Proxy make(){ return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<LQ>>(1); } static constexpr int prio=0; };
// one container queue: a single priority, everything equal
struct one_qc { static Proxy make(){ return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<QC>>(ba::any_queue_container_config<LQ>(1)); } static constexpr int prio=1; };
struct qc3 { static Proxy make(){ return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<QC>>(ba::any_queue_container_config<LQ>(3)); } static constexpr int prio=2; };
struct Shared { int depth=0; int last[4]={-1,-1,-1,-1}; int total=0; boost::thread::id who; };
struct Task { std::shared_ptr<Shared> sh; int p,i;
  void operator()()const{ mc::ev(BEGIN,p,i);
    MC_ASSERT(sh->depth==0,"two tasks of a single-thread scheduler overlap"); sh->depth=1;
    auto me=boost::this_thread::get_id(); if(sh->total++) { MC_ASSERT(me==sh->who,"tasks ran on different threads"); } sh->who=me;
    MC_ASSERT(sh->last[p]==i-1,"task %d of poster %d ran after its task %d",i,p,sh->last[p]); sh->last[p]=i;
    mc::point(); sh->depth=0; mc::ev(END,p,i);
  } };
template<class M> void fifo(int posters,int each){
  Proxy s=M::make(); auto sh=std::make_shared<Shared>();
  { std::vector<std::thread> ts;
    for(int p=1;p<posters;p++) ts.emplace_back([s,sh,p,each]{ for(int i=0;i<each;i++) s.post(Task{sh,p,i},M::prio); });
    for(int i=0;i<each;i++) s.post(Task{sh,0,i},M::prio);
    for(auto&t:ts) t.join(); }
  s.reset();
  for(int p=0;p<posters;p++) for(int i=0;i<each;i++) MC_ASSERT(mc::count_ev(END,p,i)==1,"task %d of poster %d ran %d times",i,p,mc::count_ev(END,p,i));
  std::string o; for(int i=0;i<mc::nev();i++) if(mc::event(i).kind==BEGIN) o+=std::to_string(mc::event(i).a); mc::outcome_s(o);
}
template<class M> void fifo_nested(){ // a task posts to its own scheduler while main posts too: per-poster order holds
  Proxy s=M::make(); auto sh=std::make_shared<Shared>(); auto w=s.get_weak_scheduler();
  s.post([w,sh]{ auto l=w.lock(); if(l.is_valid()){ l.post(Task{sh,1,0},M::prio); mc::point(); l.post(Task{sh,1,1},M::prio);} mc::ev(9); },M::prio);
  for(int i=0;i<2;i++) s.post(Task{sh,0,i},M::prio);
  mc::wait_until([]{ return mc::count_ev(9)==1; });
  s.reset();
  for(int p=0;p<2;p++) for(int i=0;i<2;i++) MC_ASSERT(mc::count_ev(END,p,i)==1,"task %d of poster %d ran %d times",i,p,mc::count_ev(END,p,i));
  std::string o; for(int i=0;i<mc::nev();i++) if(mc::event(i).kind==BEGIN) o+=std::to_string(mc::event(i).a); mc::outcome_s(o);
}
template<class M> void mixed_api(){ // post, post_future, interruptible_post interleaved by one thread keep their order
  Proxy s=M::make(); auto sh=std::make_shared<Shared>();
  s.post(Task{sh,0,0},M::prio); auto f=ba::post_future(s,Task{sh,0,1},std::string(""),M::prio); auto in=s.interruptible_post(Task{sh,0,2},M::prio);
  auto f2=ba::interruptible_post_future(s,Task{sh,0,3},std::string(""),M::prio); s.post(Task{sh,0,4},M::prio);
  f.get(); std::get<0>(f2).get(); s.reset();
  for(int i=0;i<5;i++) MC_ASSERT(mc::count_ev(END,0,i)==1,"task %d ran %d times",i,mc::count_ev(END,0,i));
  mc::outcome(1);
}
#define S03(N,M,QB,TB) MC_SCENARIO(N##_2posters,QB,TB,mc::F_RACE){ fifo<M>(2,2); } MC_SCENARIO(N##_nested,QB,TB,mc::F_RACE){ fifo_nested<M>(); }
S03(lockfree,one<LQ>,2,3)
S03(guarded_deque,one<GD>,2,3)
S03(threadsafe_list,one<TL>,2,3)
S03(circular,one<CQ>,2,3)
S03(container1,one_qc,2,3)
S03(pool1,one_pool1,2,3)
S03(container3_same_prio,qc3,2,3)
MC_SCENARIO(spsc_1poster,2,3,mc::F_RACE){ fifo<one<SP>>(1,4); }
MC_SCENARIO(lockfree_3posters,2,3,mc::F_RACE){ fifo<one<LQ>>(3,2); }
MC_SCENARIO(lockfree_long,2,3,mc::F_RACE){ fifo<one<LQ>>(1,20); }
MC_SCENARIO(lockfree_mixed_api,2,3,mc::F_RACE){ mixed_api<one<LQ>>(); }
MC_SCENARIO(guarded_mixed_api,2,3,mc::F_RACE){ mixed_api<one<GD>>(); }
