// C15: execute_in_all_threads
#include "sched_more.h"
#include <boost/asynchronous/continuation_task.hpp>
struct mk_ios{ static constexpr int T=1; static Proxy make(){ return ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<ba::lockfree_queue<ba::any_callable,ba::lockfree_size>>>(1,2); } };
enum { ALL=1, TASK=2, FUT=3 };
typedef std::vector<std::future<void>> Fs;
static bool rdy(std::future<void>& f){ return f.wait_for(std::chrono::seconds(0))==std::future_status::ready; }
// call no. c: the functor records in which thread it runs; bad: it throws
static ba::any_callable fn(std::vector<boost::thread::id> ids,int c,int bad){ return ba::any_callable([=]{ int t=id_index(ids); MC_ASSERT(t>=0,"call %d: the functor runs in a thread that is not the scheduler's",c); mc::ev(ALL,c*10+t); MC_ASSERT(mc::count_ev(ALL,c*10+t)==1,"call %d: the functor ran twice in thread %d",c,t); mc::point(); if(bad) throw my_err(c); }); }
static void collect(Fs& fs,std::vector<boost::thread::id> const& ids,int c,int bad){ MC_ASSERT(fs.size()==ids.size(),"call %d: %d futures for %d threads",c,(int)fs.size(),(int)ids.size()); int n=0; for(auto& f:fs){ f.wait(); n++; int ran=0; for(size_t t=0;t<ids.size();t++) ran+=mc::count_ev(ALL,c*10+(int)t); MC_ASSERT(ran>=n,"call %d: %d futures are ready, %d threads ran the functor",c,n,ran);
    int code=-1; bool val=false; try{ f.get(); val=true; }catch(my_err& e){ code=e.code; }catch(std::future_error&){ code=-2; } MC_ASSERT(bad?(!val&&code==c):val,"call %d: the future holds %s (%d)",c,val?"a value":"an exception",code); }
  for(size_t t=0;t<ids.size();t++) MC_ASSERT(mc::count_ev(ALL,c*10+(int)t)==1,"call %d: the functor ran %d times in thread %d",c,mc::count_ev(ALL,c*10+(int)t),(int)t); }
static void task(Proxy& s,int k){ s.post([k]{ mc::ev(TASK,k); mc::point(); },0); }
static void alive(Proxy& s,std::vector<boost::thread::id> const& ids){ auto f=ba::post_future(s,[]{ return 7; },std::string(""),0); int v=f.get(); MC_ASSERT(v==7,"task after the call: %d",v); }
// pre: tasks before, post: after the call; two: second call from another thread; from: called from a worker
template<class M> void all(int pre,int post,int bad){ auto s=M::make(); auto ids=s.thread_ids(); for(int i=0;i<pre;i++) task(s,i); auto fs=s.execute_in_all_threads(fn(ids,1,bad)); for(int i=0;i<post;i++) task(s,pre+i); collect(fs,ids,1,bad); alive(s,ids); auto g=s.execute_in_all_threads(fn(ids,2,0)); collect(g,ids,2,0); mc::wait_until([=]{ return mc::count_ev(TASK)==pre+post; }); }
template<class M> void two(int bad){ auto s=M::make(); auto ids=s.thread_ids(); Fs f2; std::thread t([&]{ f2=s.execute_in_all_threads(fn(ids,2,0)); }); auto fs=s.execute_in_all_threads(fn(ids,1,bad)); t.join(); collect(fs,ids,1,bad); collect(f2,ids,2,0); alive(s,ids); }
template<class M> void from_worker(int bad){ auto s=M::make(); auto ids=s.thread_ids(); auto pr=std::make_shared<std::promise<Fs>>(); auto fr=pr->get_future(); auto w=s.get_weak_scheduler(); s.post([=]{ auto l=w.lock(); pr->set_value(l.execute_in_all_threads(fn(ids,1,bad))); },0); Fs fs=fr.get(); collect(fs,ids,1,bad); alive(s,ids); }
// destroying the scheduler right after the call: every functor still runs
template<class M> void destroyed(int bad){ Fs fs; std::vector<boost::thread::id> ids; { auto s=M::make(); ids=s.thread_ids(); fs=s.execute_in_all_threads(fn(ids,1,bad)); mc::point(); } collect(fs,ids,1,bad); }
#define KIND(K,q1,t1,q2,t2) \
 MC_SCENARIO(K##_busy,q1,t1,F_NONE){ all<mk_##K>(1,1,0); } MC_SCENARIO(K##_throws,q1,t1,F_NONE){ all<mk_##K>(1,0,1); } \
 MC_SCENARIO(K##_two_calls,q2,t2,F_NONE){ two<mk_##K>(1); } MC_SCENARIO(K##_from_worker,q1,t1,F_NONE){ from_worker<mk_##K>(0); } MC_SCENARIO(K##_destroyed,q1,t1,F_NONE){ destroyed<mk_##K>(mc::choose(2)); }
KIND(single,2,4,2,3)
KIND(pool,2,3,1,2)
KIND(mq,1,3,1,2)
KIND(steal,1,2,1,2)
KIND(smq,1,2,1,2)
KIND(mt,1,2,1,2)
KIND(comp,1,2,1,2)
KIND(io,2,3,1,2)
// the io pool while it has additional threads
template<class M> void io_grown(int bad){ auto s=M::make(); auto ids=s.thread_ids(); auto go=std::make_shared<std::promise<void>>(); std::shared_future<void> g=go->get_future().share(); auto n=std::make_shared<std::atomic<int>>(0);
  for(int i=0;i<3;i++) s.post([=]{ (*n)++; g.wait(); mc::ev(TASK,i); },0); // two threads are blocked
  mc::wait_until([&]{ return n->load()==2; }); auto call=ba::any_callable([=]{ mc::ev(ALL,20); auto me=boost::this_thread::get_id(); int t=id_index(ids); if(t>=0){ mc::ev(ALL,10+t); MC_ASSERT(mc::count_ev(ALL,10+t)==1,"the functor ran twice in permanent thread %d",t); } if(bad) throw my_err(1); });
  auto fs=s.execute_in_all_threads(call); go->set_value(); 
  for(auto& f:fs){ f.wait(); int code=-1; bool val=false; try{ f.get(); val=true; }catch(my_err& e){ code=e.code; }catch(std::future_error&){ code=-2; } MC_ASSERT(bad?(!val&&code==1):val,"the future holds %s (%d)",val?"a value":"an exception",code); } MC_ASSERT(fs.size()>=ids.size(),"%d futures",(int)fs.size()); for(size_t t=0;t<ids.size();t++) MC_ASSERT(mc::count_ev(ALL,10+(int)t)==1,"permanent thread %d",(int)t);
  for(int i=0;i<3;i++) s.post([=]{ mc::ev(TASK,10+i); mc::point(); },0); mc::wait_until([]{ return mc::count_ev(TASK)==6; }); }
MC_SCENARIO(io_grown_,1,2,F_NONE){ io_grown<mk_ios>(0); }
MC_SCENARIO(io_grown_throws,1,2,F_NONE){ io_grown<mk_ios>(1); }
// the functor also runs in threads which the io pool starts later; if it throws there, the pool stays operational
template<class M> void io_later(int bad){ auto s=M::make(); auto fs=s.execute_in_all_threads(ba::any_callable([=]{ mc::ev(ALL,1); if(bad) throw my_err(1); })); for(auto& f:fs){ bool val=false; try{ f.get(); val=true; }catch(my_err&){} MC_ASSERT(val==!bad,"future"); } MC_ASSERT(mc::count_ev(ALL)==1,"%d",mc::count_ev(ALL));
  auto go=std::make_shared<std::promise<void>>(); std::shared_future<void> g=go->get_future().share(); auto n=std::make_shared<std::atomic<int>>(0); for(int i=0;i<3;i++) s.post([=]{ (*n)++; g.wait(); mc::ev(TASK,i); },0); mc::wait_until([&]{ return n->load()==2; }); MC_ASSERT(mc::count_ev(ALL)==2,"the functor ran %d times, expected also in the new thread",mc::count_ev(ALL)); go->set_value(); mc::wait_until([]{ return mc::count_ev(TASK)==3; }); }
MC_SCENARIO(io_later_,1,2,F_NONE){ io_later<mk_ios>(0); }
MC_SCENARIO(io_later_throws,1,2,F_NONE){ io_later<mk_ios>(1); }
