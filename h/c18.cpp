// C18: the I/O thread pool grows and shrinks within its limits and loses nothing
#include "sched_more.h"
#include <boost/asynchronous/continuation_task.hpp>
enum { BEG=1, END=2, FIRE=3 };
typedef ba::lockfree_queue<ba::any_callable,ba::lockfree_size> SQ; typedef ba::guarded_deque<> GD;
template<class Q> Proxy mk(int mn,int mx){ return ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<Q>>(mn,mx); }
static int running, MX; // tasks being executed at this moment
static void begin(int k){ mc::ev(BEG,k); MC_ASSERT(mc::count_ev(BEG,k)==1,"task %d was executed twice",k); running++; MC_ASSERT(running<=MX,"%d tasks are executed at the same time by a pool of at most %d threads",running,MX); }
static void end(int k){ running--; mc::ev(END,k); }
static void quick(Proxy& s,int k,int prio=0){ s.post([k]{ begin(k); mc::point(); end(k); },prio); }
static void limits(Proxy& s,int mn,int mx){ int n=(int)s.thread_ids().size(); MC_ASSERT(n>=mn&&n<=mx,"the pool has %d threads, limits %d and %d",n,mn,mx); }
static void reset(int mx){ running=0; MX=mx; }
// everything is over: all executed once, back to the minimum
static void rest(Proxy& s,int n,int mn,int mx){ mc::wait_until([=]{ return mc::count_ev(END)>=n; }); mc::settle(); limits(s,mn,mx); MC_ASSERT((int)s.thread_ids().size()==mn,"the queue is empty and the pool still has %d threads, minimum %d",(int)s.thread_ids().size(),mn); auto q=s.get_queue_size(); MC_ASSERT(q.at(0)==0,"queue size %ld although all tasks were executed",(long)q[0]); for(int k=0;k<n;k++) MC_ASSERT(mc::count_ev(END,k)==1,"task %d: %d",k,mc::count_ev(END,k)); }
// n tasks at once; then again when the pool is at rest
template<class Q> void burst(int mn,int mx,int n,bool again){ reset(mx); auto s=mk<Q>(mn,mx); for(int i=0;i<n;i++){ quick(s,i); limits(s,mn,mx); } rest(s,n,mn,mx); if(again){ for(int i=n;i<2*n;i++) quick(s,i); limits(s,mn,mx); rest(s,2*n,mn,mx); } }
MC_SCENARIO(burst_1_2,2,3,F_NONE){ burst<SQ>(1,2,3,false); }
MC_SCENARIO(burst_1_2_twice,2,3,F_NONE){ burst<SQ>(1,2,2,true); }
MC_SCENARIO(burst_1_3,1,2,F_NONE){ burst<SQ>(1,3,4,false); }
MC_SCENARIO(burst_2_3,2,2,F_NONE){ burst<SQ>(2,3,3,false); }
MC_SCENARIO(burst_2_2,2,3,F_NONE){ burst<SQ>(2,2,3,false); }
MC_SCENARIO(burst_deque,2,3,F_NONE){ burst<GD>(1,2,3,false); }
// tasks which come one at a time need no additional thread
template<class Q> void calm(int mn,int mx){ reset(mx); auto s=mk<Q>(mn,mx); int t=mc::started_threads(); for(int i=0;i<3;i++){ quick(s,i); mc::wait_until([=]{ return mc::count_ev(END,i)==1; }); } MC_ASSERT(mc::started_threads()==t,"%d additional threads were started, no task had to wait",mc::started_threads()-t); rest(s,3,mn,mx); }
MC_SCENARIO(calm_1_2,2,3,F_NONE){ calm<SQ>(1,2); }
MC_SCENARIO(calm_1_2_guarded,2,3,F_NONE){ calm<GD>(1,2); }
// all threads are blocked until one of two further tasks runs: either a temporary thread takes it, or both wait and the pool must grow
template<class Q> void grows(int mn,int mx,int blocked,bool throws){ reset(mx); auto s=mk<Q>(mn,mx); auto go=std::make_shared<std::promise<void>>(); std::shared_future<void> g=go->get_future().share(); static bool set; set=false; auto open=[go]{ if(!set){ set=true; go->set_value(); } };
  for(int i=0;i<blocked;i++) s.post([=]{ begin(i); g.wait(); end(i); },0); mc::wait_until([=]{ return mc::count_ev(BEG)==blocked; }); if(mc::choose(2)) mc::settle(); for(int k=blocked;k<blocked+2;k++) s.post([=]{ begin(k); open(); end(k); if(throws) throw my_err(1); },0); limits(s,mn,mx); rest(s,blocked+2,mn,mx); }
MC_SCENARIO(grows_1_2,2,3,F_NONE){ grows<SQ>(1,2,1,false); }
MC_SCENARIO(grows_1_2_throws,2,3,F_NONE){ grows<SQ>(1,2,1,true); }
MC_SCENARIO(grows_2_3,1,2,F_NONE){ grows<SQ>(2,3,2,false); }
MC_SCENARIO(grows_guarded,2,3,F_NONE){ grows<GD>(1,2,1,false); }
// two posting threads
template<class Q> void posters(int mn,int mx){ reset(mx); auto s=mk<Q>(mn,mx); std::thread t([&]{ quick(s,0); quick(s,1); }); quick(s,2); auto q=s.get_queue_size(); MC_ASSERT(q.at(0)<=4,"the queue reports %lu waiting tasks",(unsigned long)q[0]); quick(s,3); limits(s,mn,mx); t.join(); limits(s,mn,mx); rest(s,4,mn,mx); }
MC_SCENARIO(posters_1_2,2,3,F_NONE){ posters<SQ>(1,2); }
MC_SCENARIO(posters_1_2_guarded,2,3,F_NONE){ posters<GD>(1,2); }
MC_SCENARIO(posters_1_3,1,2,F_NONE){ posters<SQ>(1,3); }
// destroyed while growing, shrinking or idle
template<class Q> void destroyed(int mn,int mx,int n){ reset(mx); { auto s=mk<Q>(mn,mx); for(int i=0;i<n;i++) quick(s,i); mc::point(); } mc::settle(); for(int k=0;k<n;k++) MC_ASSERT(mc::count_ev(END,k)==1,"task %d was executed %d times before the pool was destroyed",k,mc::count_ev(END,k)); MC_ASSERT(mc::alive_threads()==0,"%d threads left",mc::alive_threads()); }
MC_SCENARIO(destroyed_1_2,2,3,F_NONE){ destroyed<SQ>(1,2,3); }
MC_SCENARIO(destroyed_1_3,1,2,F_NONE){ destroyed<SQ>(1,3,4); }
MC_SCENARIO(destroyed_2_3,1,2,F_NONE){ destroyed<SQ>(2,3,3); }
MC_SCENARIO(destroyed_guarded,2,3,F_NONE){ destroyed<GD>(1,2,3); }
// tasks which post tasks
template<class Q> void nested(int mn,int mx){ reset(mx); auto s=mk<Q>(mn,mx); auto w=s.get_weak_scheduler(); for(int i=0;i<2;i++) s.post([=]{ begin(i); { auto l=w.lock(); if(l.is_valid()) for(int j=0;j<2;j++){ int k=2+2*i+j; l.post(ba::any_callable([k]{ begin(k); mc::point(); end(k); }),0); } } end(i); },0); rest(s,6,mn,mx); }
MC_SCENARIO(nested_1_2,2,3,F_NONE){ nested<SQ>(1,2); }
// interruption of a task does not disturb the pool
template<class Q> void interrupted(int mn,int mx){ reset(mx); auto s=mk<Q>(mn,mx); quick(s,0); auto t=ba::interruptible_post_future(s,[]{ running++; try{ mc::point(); boost::this_thread::interruption_point(); }catch(...){ running--; throw; } running--; },std::string(""),0); quick(s,1); std::get<1>(t).interrupt(); quick(s,2); rest(s,3,mn,mx); }
MC_SCENARIO(interrupted_1_2,2,3,F_NONE){ interrupted<SQ>(1,2); }
// a continuation created in any thread of the pool, its future becomes ready when the pool is at rest
struct Top : ba::continuation_task<int> { std::function<void(ba::continuation_result<int>)> f; Top(std::function<void(ba::continuation_result<int>)> f_):ba::continuation_task<int>("top"),f(std::move(f_)){} void operator()(){ f(this->this_task_result()); } };
template<class Q> void waiting(int mn,int mx){ reset(mx); auto s=mk<Q>(mn,mx); auto p=std::make_shared<std::promise<int>>(); auto made=std::make_shared<std::promise<void>>(); auto go=std::make_shared<std::promise<void>>(); std::shared_future<void> g=go->get_future().share();
  s.post([=]{ begin(0); g.wait(); end(0); },0); 
  auto f=ba::post_future(s,[=]{ begin(1); end(1); return ba::top_level_callback_continuation<int>(Top([=](ba::continuation_result<int> r){ ba::create_continuation([=](std::tuple<std::future<int>> t){ mc::ev(FIRE); r.set_value(std::get<0>(t).get()); },p->get_future()); made->set_value(); })); },std::string("c"),0);
  quick(s,2); made->get_future().wait(); mc::wait_until([]{ return mc::count_ev(END,2)==1; }); if(mc::choose(2)) mc::settle(); p->set_value(5); int first=mc::choose(2); if(first){ go->set_value(); } int v=f.get(); MC_ASSERT(v==5&&mc::count_ev(FIRE)==1,"value %d",v); if(!first) go->set_value(); rest(s,3,mn,mx); }
MC_SCENARIO(waiting_continuation,2,3,F_NONE){ waiting<SQ>(1,2); }
MC_SCENARIO(waiting_continuation_guarded,2,3,F_NONE){ waiting<GD>(1,2); }
