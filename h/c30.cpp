// C30: asio schedulers and deadline timers, under the controlled scheduler with virtual time
#include "sched_more.h"
#include <boost/asynchronous/extensions/asio/asio_scheduler.hpp>
#include <boost/asynchronous/extensions/asio/asio_deadline_timer.hpp>
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
enum { RUN=1, DONE=2, DROP=3, HAND=4, ARM=5 };
static Proxy mk(int n){ return ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>(n); }
struct Ids { std::vector<boost::thread::id> v; };
static void ran(Ids* w,int id){ MC_ASSERT(id_index(w->v)>=0,"task %d was executed by a thread which is not the scheduler's",id); mc::ev(RUN,id); MC_ASSERT(mc::count_ev(RUN,id)==1,"task %d was executed %d times",id,mc::count_ev(RUN,id)); }
static void over(int n){ mc::settle(); for(int i=0;i<n;i++) MC_ASSERT(mc::count_ev(RUN,i)==1,"task %d, accepted before the end, was executed %d times",i,mc::count_ev(RUN,i)); MC_ASSERT(mc::alive_threads()==0,"%d threads are left",mc::alive_threads()); MC_ASSERT(Counted::live==0,"%ld tasks were never destroyed",Counted::live); }
static void ordered(int a,int b,char const* what){ MC_ASSERT(mc::find_ev(RUN,a)<mc::find_ev(RUN,b),"%s: task %d, posted first, was executed after task %d",what,a,b); }
// two threads post, one of them drops the last proxy; some tasks throw
static void post(int n,bool thr){ Counted::live=0; static Ids W; { auto s=std::make_unique<Proxy>(mk(n)); W.v=s->thread_ids(); MC_ASSERT((int)W.v.size()==n,"%d threads",(int)W.v.size()); auto task=[thr](int i){ return [i,thr,c=Counted(i)]{ MC_ASSERT(c.v==i,"a moved-from task is executed"); ran(&W,i); mc::point(); if(thr&&i%2==0) throw my_err(i); }; };
  std::thread t([p=*s,&task]()mutable{ for(int i=0;i<2;i++) p.post(task(i),i); p=Proxy(); }); int prio=mc::choose(3); s->post(task(2),prio); s->post(task(3),prio); mc::ev(DROP); s.reset(); t.join(); } over(4); if(n==1){ ordered(0,1,"one thread"); ordered(2,3,"one thread"); } int o=0; for(int i=0;i<4;i++) o=o*4+mc::find_ev(RUN,i)%7; mc::outcome(o); }
MC_SCENARIO(post_1,2,3,F_NONE){ post(1,false); }
MC_SCENARIO(post_1_throws,2,3,F_NONE){ post(1,true); }
MC_SCENARIO(post_2,2,3,F_NONE){ post(2,false); }
MC_SCENARIO(post_2_throws,1,2,F_NONE){ post(2,true); }
MC_SCENARIO(post_2_race,1,2,F_RACE){ post(2,false); }
// tasks post further tasks while the last proxy goes: what a locked scheduler accepted is executed
static void nested(int n){ Counted::live=0; static Ids W; { auto s=std::make_unique<Proxy>(mk(n)); W.v=s->thread_ids(); auto w=s->get_weak_scheduler(); for(int k=0;k<2;k++) s->post([w,k]{ ran(&W,k); auto own=ba::get_thread_scheduler<ba::any_callable>(); auto l=k?own.lock():w.lock(); if(!l.is_valid()){ MC_ASSERT(mc::count_ev(DROP)==1,"the scheduler lives, but cannot be locked"); return; } mc::ev(DONE,k+2); l.post(ba::any_callable([k,c=Counted(k)]{ ran(&W,k+2); }),k); }); mc::ev(DROP); s.reset(); } mc::settle(); over(2); for(int k=2;k<4;k++) if(mc::count_ev(DONE,k)) MC_ASSERT(mc::count_ev(RUN,k)==1,"task %d, posted through a locked scheduler, was executed %d times",k,mc::count_ev(RUN,k)); }
MC_SCENARIO(nested_1,2,3,F_NONE){ nested(1); }
MC_SCENARIO(nested_2,2,3,F_NONE){ nested(2); }
// futures, values and exceptions; everything done before shutdown completes
static void futures(int n){ { auto s=mk(n); auto a=ba::post_future(s,[]{ mc::point(); return 7; }); auto b=ba::post_future(s,[]()->int{ throw my_err(3); },"name",1); auto c=ba::post_future(s,[]{ return std::make_unique<int>(5); },"x",2); MC_ASSERT(a.get()==7,"value"); int code=0; try{ b.get(); }catch(my_err& e){ code=e.code; } MC_ASSERT(code==3,"exception"); MC_ASSERT(*c.get()==5,"move-only value"); } mc::settle(); MC_ASSERT(mc::alive_threads()==0,"threads left"); }
MC_SCENARIO(futures_1,2,3,F_NONE){ futures(1); }
MC_SCENARIO(futures_2,2,3,F_NONE){ futures(2); }
// continuations in an asio scheduler
struct Sub : ba::continuation_task<int> { int v; bool late; Sub(int x,bool l):ba::continuation_task<int>("s"),v(x),late(l){} void operator()(){ mc::ev(RUN,v); if(late){ auto r=this->this_task_result(); int x=v; ba::create_callback_continuation([r,x](std::tuple<ba::expected<int>> t){ r.set_value(x+std::get<0>(t).get()); },Sub(x+10,false)); } else this->this_task_result().set_value(v); } };
struct Top : ba::continuation_task<int> { Top():ba::continuation_task<int>("t"){} void operator()(){ auto r=this->this_task_result(); ba::create_callback_continuation([r](std::tuple<ba::expected<int>,ba::expected<int>> t){ mc::ev(DONE); r.set_value(std::get<0>(t).get()*100+std::get<1>(t).get()); },Sub(1,true),Sub(2,false)); } };
static void cont(int n){ { auto s=mk(n); auto f=ba::post_future(s,[]{ return ba::top_level_callback_continuation<int>(Top()); }); int v=f.get(); MC_ASSERT(v==1202,"value %d",v); MC_ASSERT(mc::count_ev(DONE)==1&&mc::count_ev(RUN)==3,"tasks"); } mc::settle(); MC_ASSERT(mc::alive_threads()==0,"threads left"); }
MC_SCENARIO(cont_1,2,3,F_NONE){ cont(1); }
MC_SCENARIO(cont_2,2,3,F_NONE){ cont(2); }
// interruptible tasks
static void interrupt(int n){ { auto s=mk(n); int when=mc::choose(3); auto t=s.interruptible_post(ba::any_callable([]{ mc::ev(RUN,0); try{ mc::point(); boost::this_thread::interruption_point(); mc::ev(DONE,0); }catch(boost::thread_interrupted&){ mc::ev(DONE,1); throw; } }),1); if(when==1) mc::wait_until([]{ return mc::count_ev(RUN,0)==1; }); if(when==2) mc::settle(); t.interrupt(); for(int i=1;i<3;i++) s.post([i]{ mc::ev(RUN,i); boost::this_thread::interruption_point(); mc::ev(DONE,10+i); },i);
  mc::wait_until([]{ return mc::count_ev(DONE,11)+mc::count_ev(DONE,12)==2; }); mc::settle(); MC_ASSERT(mc::count_ev(RUN,0)<=1&&mc::count_ev(DONE,0)+mc::count_ev(DONE,1)==mc::count_ev(RUN,0),"task 0"); MC_ASSERT(when!=2||mc::count_ev(DONE,0)==1,"a task which was over before it was interrupted"); } mc::outcome(mc::count_ev(DONE,1)+2*mc::count_ev(DONE,0)); mc::settle(); MC_ASSERT(mc::alive_threads()==0,"threads left"); }
MC_SCENARIO(interrupt_1,3,4,F_NONE){ interrupt(1); }
MC_SCENARIO(interrupt_2,2,3,F_NONE){ interrupt(2); }
// posting an interruptible task must not make its state that of the posting thread: neither of the task which posts it, nor of later ones
static void poster_state(){ { auto p=mk_pool1::make(); auto s=mk(1); auto f=ba::post_future(p,[s]()mutable{ auto w=s.get_weak_scheduler(); auto t=s.interruptible_post(ba::any_callable([]{ mc::ev(RUN,50); }),0); t.interrupt(); s=Proxy(); return ba::top_level_callback_continuation<int>(Top()); }); s=Proxy(); int v=f.get(); MC_ASSERT(v==1202,"value %d",v); } mc::outcome(mc::count_ev(RUN,50)); }
MC_SCENARIO(poster_state,2,3,F_NONE){ poster_state(); }
// an asio scheduler in a composite: its threads may execute tasks of the other pool, all are executed once
static void composite(){ Counted::live=0; static Ids W; { auto a=ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<LQ>>(1); auto b=ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>(1,false); auto c=ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<>>(a,b); W.v=c.thread_ids(); MC_ASSERT(W.v.size()==2,"%d threads",(int)W.v.size()); auto go=std::make_shared<std::promise<void>>(); std::shared_future<void> g=go->get_future().share();
  c.post([g,k=Counted(0)]{ ran(&W,0); g.wait(); },1); c.post([go,k=Counted(1)]{ ran(&W,1); go->set_value(); },1); c.post([k=Counted(2)]{ ran(&W,2); },2); c.post([k=Counted(3)]{ ran(&W,3); throw my_err(1); },1); mc::wait_until([]{ return mc::count_ev(RUN)==4; }); } over(4); }
MC_SCENARIO(composite,2,3,F_NONE){ composite(); }
// names, queues and ids
static void misc(){ { auto s=ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>(2,true,std::string("nm")); MC_ASSERT(s.get_name()=="nm","name"); auto v=s.thread_ids(); MC_ASSERT(v.size()==2&&v[0]!=v[1],"ids"); auto f=s.execute_in_all_threads(ba::any_callable([]{ mc::ev(RUN,0); })); MC_ASSERT(f.size()==2,"futures"); for(auto& x:f) x.get(); MC_ASSERT(mc::count_ev(RUN,0)==2,"executed"); } mc::settle(); MC_ASSERT(mc::alive_threads()==0,"threads left"); }
MC_SCENARIO(misc,2,3,F_NONE){ misc(); }
// --- timers. A handler per armed wait; called once, in the timer's thread, at the right time or with an error for a reason
static Ids T; static constexpr uint64_t MS=1000000; 
enum { CANCEL=20, RESET=21, DESTROY=22 };
static std::function<void(const boost::system::error_code&)> hand(int k,uint64_t ms){ uint64_t t0=mc::now_ns(); return [k,ms,t0](const boost::system::error_code& e){ MC_ASSERT(id_index(T.v)>=0,"handler %d in the wrong thread",k); mc::ev(HAND,k,e?1:0); MC_ASSERT(mc::count_ev(HAND,k)==1,"handler %d was called %d times",k,mc::count_ev(HAND,k)); if(!e) MC_ASSERT(mc::now_ns()-t0>=ms*MS,"handler %d was called after %lld ns instead of %lld ms",k,(long long)(mc::now_ns()-t0),(long long)ms); else { MC_ASSERT(e==boost::asio::error::operation_aborted,"handler %d got the error %d",k,e.value()); MC_ASSERT(mc::count_ev(CANCEL)+mc::count_ev(RESET)+mc::count_ev(DESTROY)>0,"handler %d was aborted, nobody cancelled, reset or destroyed the timer",k); } }; }
static void all(int n){ mc::wait_until([n]{ return mc::count_ev(HAND)>=n; }); mc::settle(); for(int i=0;i<n;i++) MC_ASSERT(mc::count_ev(HAND,i)==1,"handler %d was called %d times",i,mc::count_ev(HAND,i)); }
static bool ok(int k){ for(int i=0;i<mc::nev();i++) if(mc::event(i).kind==HAND&&mc::event(i).a==k) return mc::event(i).b==0; return false; }
typedef ba::asio_deadline_timer_proxy Tm;
// one timer, one or two waits, and something which happens to it at some time
static void timer(int n,int waits){ { auto s=mk(n); T.v=s.thread_ids(); auto t=std::make_unique<Tm>(s,std::chrono::milliseconds(100)); for(int i=0;i<waits;i++) t->async_wait(hand(i,0)); uint64_t armed=mc::now_ns(); int when=mc::choose(3); if(when==1) boost::this_thread::sleep(boost::posix_time::milliseconds(50)); if(when==2) boost::this_thread::sleep(boost::posix_time::milliseconds(100)); int what=mc::choose(5);
  switch(what){ case 1: mc::ev(CANCEL); t->cancel(); break; case 2: mc::ev(RESET); t->reset(std::chrono::milliseconds(30)); t->async_wait(hand(waits,30)); break; case 3: mc::ev(DESTROY); t.reset(); break; case 4: mc::ev(RESET); t->reset(std::chrono::milliseconds(30),hand(waits,30)); break; }
  all(waits+((what==2||what==4)?1:0)); if(what==0) for(int i=0;i<waits;i++) MC_ASSERT(ok(i),"handler %d",i); if(what==2||what==4) MC_ASSERT(ok(waits),"the wait after the reset was aborted"); if(when==0&&what!=0){ for(int i=0;i<waits;i++) if(ok(i)) MC_ASSERT(mc::now_ns()-armed>=100*MS,"expired early"); } int o=what*10; for(int i=0;i<waits;i++) o=o*2+ok(i); mc::outcome(o); t.reset(); } mc::settle(); MC_ASSERT(mc::alive_threads()==0,"threads left"); }
MC_SCENARIO(timer_1,2,3,F_NO_TIMEOUT_DEV){ timer(1,1); }
MC_SCENARIO(timer_1_two_waits,2,3,F_NO_TIMEOUT_DEV){ timer(1,2); }
// constructed with the handler; not before its time, and not much later either
static void exact(int n){ { auto s=mk(n); T.v=s.thread_ids(); Tm a(s,std::chrono::milliseconds(200),hand(0,200)); Tm b(s,std::chrono::milliseconds(100),hand(1,100)); Tm c(s); c.reset(std::chrono::milliseconds(50),hand(2,50)); uint64_t t0=mc::now_ns(); all(3); for(int i=0;i<3;i++) MC_ASSERT(ok(i),"handler %d was aborted",i); MC_ASSERT(mc::find_ev(HAND,2)<mc::find_ev(HAND,1)&&mc::find_ev(HAND,1)<mc::find_ev(HAND,0),"order"); } mc::settle(); MC_ASSERT(mc::alive_threads()==0,"threads left"); }
MC_SCENARIO(exact_1,2,3,F_NO_TIMEOUT_DEV){ exact(1); }
// a servant with a timer: its handler runs in the servant's thread, not after the servant has gone
struct Sv : ba::trackable_servant<> { typedef int simple_ctor; static inline Ids own; Tm t; Sv(ba::any_weak_scheduler<> w,Proxy worker):ba::trackable_servant<>(w,worker),t(get_worker(),std::chrono::milliseconds(100)){ } ~Sv(){ mc::ev(DROP,1); } 
  void go(int cancel){ async_wait(t,[this](const boost::system::error_code& e){ MC_ASSERT(id_index(own.v)>=0,"the handler runs in the wrong thread"); MC_ASSERT(mc::count_ev(DROP,1)==0,"the handler runs after the servant's end"); mc::ev(HAND,0,e?1:0); MC_ASSERT(mc::count_ev(HAND,0)==1,"twice"); if(e) MC_ASSERT(mc::count_ev(CANCEL)>0,"aborted for no reason"); }); if(cancel){ mc::ev(CANCEL); t.cancel(); } }
  void again(){ async_wait_duration(t,std::chrono::milliseconds(30),[this](const boost::system::error_code& e){ MC_ASSERT(id_index(own.v)>=0,"the handler runs in the wrong thread"); MC_ASSERT(!e,"aborted"); mc::ev(HAND,1,0); }); } };
struct SvP : ba::servant_proxy<SvP,Sv> { template<class S> SvP(S s,Proxy w):ba::servant_proxy<SvP,Sv>(s,w){} BOOST_ASYNC_FUTURE_MEMBER(go) BOOST_ASYNC_FUTURE_MEMBER(again) };
static void servant(bool drop){ { auto sp=mk_single::make(); Sv::own.v=sp.thread_ids(); auto w=mk(1); { auto p=std::make_unique<SvP>(sp,w); int cancel=mc::choose(2); p->go(cancel).get(); if(drop){ if(mc::choose(2)) boost::this_thread::sleep(boost::posix_time::milliseconds(100)); mc::ev(CANCEL); p.reset(); mc::settle(); MC_ASSERT(mc::count_ev(HAND,0)<=1,"handler"); } else { all(1); if(!cancel) MC_ASSERT(ok(0),"aborted"); p->again().get(); all(2); MC_ASSERT(ok(1),"aborted"); } mc::outcome(mc::count_ev(HAND,0)*2+ok(0)); } } mc::settle(); MC_ASSERT(mc::alive_threads()==0,"threads left"); }
MC_SCENARIO(servant_timer,1,2,F_NO_TIMEOUT_DEV){ servant(false); }
MC_SCENARIO(servant_timer_dropped,1,2,F_NO_TIMEOUT_DEV){ servant(true); }
