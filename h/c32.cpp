// C32: data races (happens-before) and uses of freed memory inside the library, in every explored interleaving
#include "sched_more.h"
#include <atomic>
#include <boost/asynchronous/queue/circular_queue.hpp>
#include <boost/asynchronous/diagnostics/any_loggable.hpp>
#include <boost/asynchronous/scheduler/cpu_load_policies.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#include <boost/asynchronous/algorithm/parallel_reduce.hpp>
#include <boost/asynchronous/algorithm/parallel_find_all.hpp>
#include <boost/asynchronous/algorithm/parallel_sort.hpp>
#include <boost/asynchronous/algorithm/parallel_partition.hpp>
#include <boost/asynchronous/algorithm/parallel_invoke.hpp>
typedef ba::any_callable J; typedef ba::any_loggable LOG;
enum { RUN=1 };
struct Job { int id; void operator()() const { mc::ev(RUN,id); mc::point(); } };
// ---- queues: producer, consumer, thief and a reader of the sizes
template<class Q> void queues(bool thief,bool two){ auto q=std::make_shared<Q>(); std::atomic<int> got{0}; auto take=[&](bool st){ for(int i=0;i<3;i++){ J j; bool ok= st? q->try_steal(j):q->try_pop(j); if(ok){ j(); got++; } } };
  std::thread p([&]{ q->push(J(Job{0}),0); q->push(J(Job{1}),1); }), c([&]{ take(false); }); std::thread s; if(thief) s=std::thread([&]{ take(true); }); if(two) q->push(J(Job{2}),0);
  (void)q->get_queue_size(); (void)q->get_max_queue_size(); q->reset_max_queue_size(); p.join(); c.join(); if(thief) s.join(); for(;;){ J j; if(!q->try_pop(j)) break; j(); got++; } MC_ASSERT(got==(two?3:2),"%d jobs",got.load()); auto z=q->get_queue_size(); for(auto x:z) MC_ASSERT(x==0,"size of an empty queue is %zu",x); }
MC_SCENARIO(q_lockfree,2,3,F_RACE){ queues<ba::lockfree_queue<J>>(true,true); }
MC_SCENARIO(q_lockfree_stack,2,3,F_RACE){ queues<ba::lockfree_stack<J>>(true,true); }
MC_SCENARIO(q_spsc,2,3,F_RACE){ queues<ba::lockfree_spsc_queue<J>>(false,false); }
MC_SCENARIO(q_guarded,1,2,F_RACE){ queues<ba::guarded_deque<J>>(true,true); }
MC_SCENARIO(q_list,1,2,F_RACE){ queues<ba::threadsafe_list<J>>(true,true); }
MC_SCENARIO(q_circular,1,2,F_RACE){ queues<ba::circular_queue<J>>(true,true); }
template<class Pol> struct AQ : ba::any_queue_container<J,Pol> { AQ():ba::any_queue_container<J,Pol>(ba::any_queue_container_config<ba::threadsafe_list<J>>(1),ba::any_queue_container_config<ba::lockfree_queue<J>>(1)){} };
MC_SCENARIO(q_any_random,1,2,F_RACE){ queues<AQ<ba::default_find_position<>>>(false,true); }
MC_SCENARIO(q_any_sequential,1,2,F_RACE){ queues<AQ<ba::default_find_position<ba::sequential_push_policy>>>(true,true); }
MC_SCENARIO(q_any_enable,1,2,F_RACE){ AQ<ba::default_find_position<>> q; std::atomic<int> got{0}; std::thread c([&]{ for(int i=0;i<3;i++){ J j; if(q.try_pop(j)){ j(); got++; } } }); q.push(J(Job{0}),1); q.enable_queue(1,false); q.push(J(Job{1}),2); q.enable_queue(1,true); c.join(); for(;;){ J j; if(!q.try_pop(j)) break; j(); got++; } MC_ASSERT(got==2,"%d jobs",got.load()); }
// ---- every kind of scheduler: two threads post and ask, then the last proxy goes
template<class P> void ask(P& s){ switch(mc::choose(4)){ case 0: (void)s.get_queue_size(); (void)s.get_max_queue_size(); s.reset_max_queue_size(); break; case 1: (void)s.thread_ids(); (void)s.get_name(); break; case 2: { auto d=s.get_diagnostics(); (void)d.totals().size(); (void)d.current().size(); s.clear_diagnostics(); break; } case 3: { auto f=s.execute_in_all_threads(J(Job{9})); for(auto&x:f) x.get(); break; } } }
template<class K> void kind(){ { Proxy s=K::make(); std::thread t([s]{ s.post(J(Job{0})); auto i=s.interruptible_post(J(Job{2}),1); i.interrupt(); }); s.post(J(Job{1}),1); ask(s); t.join(); } mc::settle(); MC_ASSERT(mc::alive_threads()==0,"threads are left"); MC_ASSERT(mc::count_ev(RUN,0)==1&&mc::count_ev(RUN,1)==1&&mc::count_ev(RUN,2)<=1,"a task is lost or executed twice"); }
#define KIND(N,K,q,t) MC_SCENARIO(kind_##N,q,t,F_RACE|F_NO_TIMEOUT_DEV){ kind<K>(); }
KIND(single,mk_single,1,2) KIND(pool,mk_pool,1,2) KIND(mq,mk_mq,1,2) KIND(steal,mk_steal,1,2) KIND(smq,mk_smq,1,2) KIND(mt,mk_mt,1,2) KIND(io,mk_io,1,2) KIND(comp,mk_comp,1,2)
struct mk_any { static Proxy make(){ return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::any_queue_container<>>>(2,ba::any_queue_container_config<ba::threadsafe_list<>>(1),ba::any_queue_container_config<ba::lockfree_queue<>>(1)); } };
struct mk_circ { static Proxy make(){ return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::circular_queue<>>>(2); } };
struct mk_save { static Proxy make(){ return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<LQ,ba::default_save_cpu_load<1,1000,1>>>(2); } };
KIND(any,mk_any,1,2) KIND(circular,mk_circ,1,2) KIND(save,mk_save,1,2)
// loggable jobs: statistics while tasks end
template<class S> void logs(){ typedef ba::any_shared_scheduler_proxy<LOG> P; { P s=S::make(); auto f=ba::post_future(s,Job{0},"a",0); std::thread t([s]()mutable{ auto g=ba::post_future(s,Job{1},"a",1); ask(s); g.get(); }); ask(s); f.get(); t.join(); } mc::settle(); MC_ASSERT(mc::alive_threads()==0,"threads are left"); }
typedef ba::lockfree_queue<LOG> LLQ;
struct lg_pool { static ba::any_shared_scheduler_proxy<LOG> make(){ return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<LLQ>>(2); } }; struct lg_mq { static ba::any_shared_scheduler_proxy<LOG> make(){ return ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<LLQ>>(2); } };
MC_SCENARIO(log_pool,1,2,F_RACE|F_NO_TIMEOUT_DEV){ logs<lg_pool>(); } MC_SCENARIO(log_mq,1,2,F_RACE|F_NO_TIMEOUT_DEV){ logs<lg_mq>(); }
// ---- parallel algorithms on two workers
template<class F,class C> void algo(F start,C chk){ Proxy s=mk_pool::make(); auto f=ba::post_future(s,start,"t",0); chk(f); }
MC_SCENARIO(alg_for,1,2,F_RACE){ auto v=std::make_shared<std::vector<int>>(std::vector<int>{1,2,3}); algo([v]{ return ba::parallel_for(v->begin(),v->end(),[](int&i){ i*=2; },1); },[&](auto&f){ f.get(); MC_ASSERT((*v==std::vector<int>{2,4,6}),"for"); }); }
MC_SCENARIO(alg_for_moved,1,2,F_RACE){ algo([]{ return ba::parallel_for(std::vector<int>{1,2,3},[](int&i){ i*=2; if(i==4) throw my_err(1); },1); },[](auto&f){ int c=0; try{ f.get(); }catch(my_err&e){ c=e.code; } MC_ASSERT(c==1,"for"); }); }
MC_SCENARIO(alg_reduce,1,2,F_RACE){ auto v=std::make_shared<std::vector<std::string>>(std::vector<std::string>{"a","b","c"}); algo([v]{ return ba::parallel_reduce(v->begin(),v->end(),[](std::string const&a,std::string const&b){ return a+b; },1); },[&](auto&f){ auto r=f.get(); MC_ASSERT(r=="abc","reduce"); }); }
MC_SCENARIO(alg_find_all,1,2,F_RACE){ auto v=std::make_shared<std::vector<int>>(std::vector<int>{1,2,3}); algo([v]{ return ba::parallel_find_all(v->begin(),v->end(),[](int const&i){ return i!=2; },1); },[&](auto&f){ auto r=f.get(); MC_ASSERT((r==std::vector<int>{1,3}),"find_all"); }); }
MC_SCENARIO(alg_sort,1,2,F_RACE){ auto v=std::make_shared<std::vector<int>>(std::vector<int>{2,3,1}); algo([v]{ return ba::parallel_sort(v->begin(),v->end(),std::less<int>(),1); },[&](auto&f){ f.get(); MC_ASSERT((*v==std::vector<int>{1,2,3}),"sort"); }); }
MC_SCENARIO(alg_partition,0,1,F_RACE){ auto v=std::make_shared<std::vector<int>>(std::vector<int>{2,3,1,4}); algo([v]{ return ba::parallel_partition(v->begin(),v->end(),[](int const&i){ return i<3; },2); },[&](auto&f){ auto it=f.get(); MC_ASSERT(it-v->begin()==2,"partition"); }); }
// ---- servants: members, callbacks from a pool, safe callbacks, destruction meanwhile
struct Srv : ba::trackable_servant<> { int n=0; Srv(ba::any_weak_scheduler<> w,Proxy p):ba::trackable_servant<>(w,p){} int add(int i){ n+=i; auto cb=this->make_safe_callback([this](int k){ n+=k; }); this->post_callback([cb]{ cb(100); return 1; },[this](ba::expected<int> r){ n+=r.get(); }); return n; } };
struct SP : ba::servant_proxy<SP,Srv> { template<class S> SP(S s,Proxy p):ba::servant_proxy<SP,Srv>(s,p){} BOOST_ASYNC_FUTURE_MEMBER(add) };
MC_SCENARIO(servant,1,2,F_RACE|F_NO_TIMEOUT_DEV){ { Proxy s=mk_single::make(),p=mk_pool::make(); auto x=std::make_shared<SP>(s,p); std::thread t([x]()mutable{ x->add(1).get(); x.reset(); }); auto f=x->add(10); x.reset(); f.get(); t.join(); } mc::settle(); MC_ASSERT(mc::alive_threads()==0,"threads are left"); }
