// C17: multiple_thread_scheduler never runs one servant ("world") in two threads
#include "common.h"
#include <boost/asynchronous/scheduler/multiple_thread_scheduler.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/diagnostics/any_loggable.hpp>
enum { RUN=1, DEAD=2, INTR=3 };
typedef ba::any_loggable servant_job;
static int active[4];      // per world: tasks being executed or destroyed at this moment
static bool par;           // two worlds were seen active at the same time
static std::vector<boost::thread::id> ids;
static bool dfl;
struct In { int w; In(int w):w(w){ if(active[w]&&dfl) mc::fail("own task or callback of a trackable servant, posted without priority, overlaps its servant"); MC_ASSERT(id_index(ids)>=0,"executed outside the workers"); if(active[w]++) mc::fail("two tasks of world %d overlap",w); for(int i=0;i<4;i++) if(i!=w&&active[i]) par=true; } ~In(){ active[w]--; } };
static void reset(){ for(auto&a:active) a=0; par=false; dfl=false; }
static void body(int w,long tag){ In in(w); mc::point(); mc::ev(RUN,w,tag); }
template<class S> static std::size_t W(S w){ return 100000*(std::size_t)w; }
static Proxy mk(int workers,int worlds){ auto s=ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<LQ>>(workers,worlds); ids=s.thread_ids(); reset(); return s; }
static void fifo(int w,int poster,int n){ int next=0; for(int i=0;i<mc::nev();i++){ auto&e=mc::event(i); if(e.kind==RUN&&e.a==w&&e.b/100==poster){ MC_ASSERT(e.b%100==next,"world %d: task %ld ran in place of %d",w,e.b%100,next); next++; } } MC_ASSERT(next==n,"world %d: %d of %d tasks ran",w,next,n); }
static void trace(){ std::string o; for(int i=0;i<mc::nev();i++) o+=std::to_string(mc::event(i).a)+"."+std::to_string(mc::event(i).b)+" "; mc::outcome_s(o+(par?"p":"s")); }
// two posters, two worlds: no overlap, posting order, nothing lost
static void posts(int workers,int worlds,int kind){
  { auto s=mk(workers,worlds); 
    auto postn=[&](int poster){ for(int w=0;w<worlds;w++) for(int k=0;k<2;k++){ long tag=poster*100+k; auto f=[w,tag]{ body(w,tag); if(tag%100==0&&w==0) throw my_err(1); }; if(kind==0) s.post(ba::any_callable(f),W(w)); else if(kind==1) s.interruptible_post(ba::any_callable(f),W(w)); else ba::post_future(s,f,std::string(""),W(w)); } };
    std::thread t([&]{ postn(1); }); postn(0); t.join(); }
  for(int w=0;w<worlds;w++){ fifo(w,0,2); fifo(w,1,2); } trace();
}
// a task that is interrupted, throws, or throws something else gives its world back, and only its own
static void bad(int how){
  { auto s=mk(2,2); for(int w=0;w<2;w++){ if(how==2){ auto in=s.interruptible_post(ba::any_callable([w]{ body(w,0); boost::this_thread::interruption_point(); }),W(w)); in.interrupt(); } else s.post(ba::any_callable([w,how]{ body(w,0); if(how==0) throw my_err(1); throw boost::thread_interrupted(); }),W(w)); s.post(ba::any_callable([w]{ body(w,101); }),W(w)); } 
    for(int w=0;w<2;w++) ba::post_future(s,[w]{ body(w,102); },std::string(""),W(w)).get(); }
  for(int w=0;w<2;w++) MC_ASSERT(mc::count_ev(RUN,w,101)==1&&mc::count_ev(RUN,w,102)==1,"a task was lost"); trace();
}
// the destruction of a task (its arguments) also belongs to the world
struct Payload { int w; bool on=true; Payload(int w):w(w){} Payload(Payload&&o)noexcept:w(o.w),on(o.on){ o.on=false; } Payload(Payload const&o):w(o.w),on(false){ } ~Payload(){ if(on&&id_index(ids)>=0){ In in(w); mc::point(); mc::ev(DEAD,w); } } };
static void dtor(int how){
  { auto s=mk(2,2); std::vector<std::future<void>> fs; for(int k=0;k<2;k++){ auto p=std::make_shared<Payload>(0); if(how==0) s.post(ba::any_callable([p=std::move(p),k]{ mc::ev(RUN,0,k); }),0); else s.post(ba::any_callable([p=std::move(p),k,how]{ mc::ev(RUN,0,k); if(how==1) throw my_err(1); throw boost::thread_interrupted(); }),0); } s.post(ba::any_callable([]{ body(1,0); }),W(1)); }
  MC_ASSERT(mc::count_ev(RUN,0)==2&&mc::count_ev(RUN,1)==1,"lost"); trace();
}
// a busy world does not stop the others while a worker is free; two worlds can be served at once
static void busy(){ auto s=mk(2,3); bool go=false; s.post(ba::any_callable([&]{ In in(0); mc::wait_until([&]{ return go; }); }),0); s.post(ba::any_callable([]{ body(0,1); }),0); auto a=ba::post_future(s,[]{ body(1,0); },std::string(""),W(1)); auto b=ba::post_future(s,[]{ body(2,0); },std::string(""),W(2)); a.get(); b.get(); MC_ASSERT(mc::count_ev(RUN,0)==0,"the busy world was served twice"); go=true; s=Proxy(); MC_ASSERT(mc::count_ev(RUN,0,1)==1,"lost"); trace(); }
// prioritised queues inside each world
static void prio(){ auto s=ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<ba::any_queue_container<>>>(1,2,ba::any_queue_container_config<LQ>(1,8),ba::any_queue_container_config<LQ>(1,8)); ids=s.thread_ids(); reset(); bool in=false,go=false; int w=mc::choose(2),ip=mc::choose(2);
  s.post(ba::any_callable([&]{ in=true; mc::wait_until([&]{ return go; }); }),W(w)+1); mc::wait_until([&]{ return in; });
  if(ip){ s.interruptible_post(ba::any_callable([w]{ body(w,2); }),W(w)+2); s.interruptible_post(ba::any_callable([w]{ body(w,1); }),W(w)+1); } else { s.post(ba::any_callable([w]{ body(w,2); }),W(w)+2); s.post(ba::any_callable([w]{ body(w,1); }),W(w)+1); } go=true; s=Proxy();
  MC_ASSERT(mc::count_ev(RUN,w)==2,"lost"); MC_ASSERT(mc::find_ev(RUN,w,1)<mc::find_ev(RUN,w,2),"priority order"); trace(); }
static void prio_worlds(){ { auto s=ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<ba::any_queue_container<>>>(2,2,ba::any_queue_container_config<LQ>(2,8)); ids=s.thread_ids(); reset(); for(int k=0;k<2;k++) for(int w=0;w<2;w++) s.post(ba::any_callable([w,k]{ body(w,k); }),W(w)+1); } fifo(0,0,2); fifo(1,0,2); trace(); }
// enable_queue of one world withholds that world's queue and no other
static void enable(){ auto s=ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<ba::any_queue_container<>>>(1,2,ba::any_queue_container_config<LQ>(1,8),ba::any_queue_container_config<LQ>(1,8)); ids=s.thread_ids(); reset(); int w=mc::choose(2);
  ba::post_future(s,[]{},std::string(""),1).get(); { auto wk=s.get_weak_scheduler(); ba::post_future(s,[wk,w]{ auto l=wk.lock(); l.enable_queue(W(w)+2,false); },std::string(""),1).get(); } for(int i=0;i<2;i++) for(int p=1;p<=2;p++) s.post(ba::any_callable([i,p]{ body(i,p); }),W(i)+p); mc::settle();
  for(int i=0;i<2;i++) for(int p=1;p<=2;p++) MC_ASSERT(mc::count_ev(RUN,i,p)==!(i==w&&p==2),"world %d priority %d ran %d times while priority 2 of world %d is disabled",i,p,mc::count_ev(RUN,i,p),w);
  s.get_weak_scheduler().lock().enable_queue(W(w)+2,true); s=Proxy(); MC_ASSERT(mc::count_ev(RUN,w,2)==1,"lost"); trace(); }
// ---- servants -----------------------------------------------------------------------------
struct Base { int w; Base(int w):w(w){} virtual ~Base(){} void b(int k){ In in(w); mc::point(); mc::ev(RUN,w,k); } };
template<class J> struct Srv : Base { typedef int requires_weak_scheduler; Srv(ba::any_weak_scheduler<J>,int w,int):Base(w){ In in(w); mc::point(); mc::ev(RUN,w,0); } ~Srv(){ In in(w); mc::point(); mc::ev(DEAD,w); }
  int f(int k){ In in(w); mc::point(); mc::ev(RUN,w,k); return k*10+w; } void p(int k){ f(k); } int g(int k){ return f(k); } int h(int k){ return f(k); } void q(int k){ f(k); } int u(int k){ return f(k); } int v(int k){ return f(k); } };
struct SP : ba::servant_proxy<SP,Srv<ba::any_callable>> { template<class S> SP(S s,int w,std::size_t idx):ba::servant_proxy<SP,Srv<ba::any_callable>>(std::make_tuple(s,idx),w,0){}
  BOOST_ASYNC_FUTURE_MEMBER(f) BOOST_ASYNC_FUTURE_MEMBER(g,1) BOOST_ASYNC_POST_MEMBER(p) BOOST_ASYNC_POST_MEMBER(q,1) BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK(u) BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK(v,1) };
struct SPL : ba::servant_proxy<SPL,Srv<servant_job>,servant_job> { template<class S> SPL(S s,int w,std::size_t idx):ba::servant_proxy<SPL,Srv<servant_job>,servant_job>(std::make_tuple(s,idx),w,0){}
  BOOST_ASYNC_FUTURE_MEMBER_LOG(f,"f") BOOST_ASYNC_FUTURE_MEMBER_LOG(g,"g",1) BOOST_ASYNC_POST_MEMBER_LOG(p,"p") BOOST_ASYNC_POST_MEMBER_LOG(q,"q",1) BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK_LOG(u,"u") BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK_LOG(v,"v",1) };
struct BP : ba::servant_proxy<BP,Base> { typedef Base servant_type; template<class P> BP(P p):ba::servant_proxy<BP,Base>(p){} BOOST_ASYNC_FUTURE_MEMBER(b) };
template<class P,class S> static void calls(S s,int worlds,int api){ // two proxies on one world: every call stays in that world
  for(int w=0;w<worlds;w++){ P p(s,w,w); mc::point(); std::future<int> f; 
    auto busy=[&](int k){ f=p.f(k); };
    switch(api){ case 0: busy(1); p.p(2); break; case 1: busy(1); p.q(2); break; case 2: { busy(1); auto g=p.g(2); g.get(); break; } case 3: busy(1); p.u([](auto e){ MC_ASSERT(e.get()>=20,"value"); },2); break; case 4: busy(1); p.v([](auto e){ MC_ASSERT(e.get()>=20,"value"); },2); break; case 5: { busy(1); { P c(p); c.p(2); } break; } }
    int r=f.get(); MC_ASSERT(r==10+w,"value %d",r); auto e=p.f(3); P last(std::move(p)); } }
template<class P,class S> static void servants(S s,int worlds,int api){ ids=s.thread_ids(); reset(); calls<P>(s,worlds,api); s=S(); 
  for(int w=0;w<worlds;w++){ MC_ASSERT(mc::count_ev(DEAD,w)==1,"destroyed %d times",mc::count_ev(DEAD,w)); int n=-1; for(int i=0;i<mc::nev();i++) if(mc::event(i).kind==RUN&&mc::event(i).a==w){ MC_ASSERT(mc::event(i).b==n+1,"world %d: call %ld in place of %d",w,mc::event(i).b,n+1); n++; } MC_ASSERT(n==3,"calls lost, %d",n); MC_ASSERT(mc::find_ev(DEAD,w)>mc::find_ev(RUN,w,3),"destroyed before a call"); } trace(); }
static Proxy mks(int workers,int worlds){ return ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<LQ>>(workers,worlds); }
static ba::any_shared_scheduler_proxy<servant_job> mkl(int workers,int worlds){ return ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<ba::lockfree_queue<servant_job>>>(workers,worlds); }
// proxies of two servants used by two threads
static void parallel_servants(){ auto s=mks(2,2); ids=s.thread_ids(); reset(); { SP a(s,0,0); SP b(s,1,1); std::thread t([a,b]()mutable{ a.p(1); b.p(1); }); a.p(2); b.q(2); t.join(); } s=Proxy(); for(int w=0;w<2;w++) MC_ASSERT(mc::count_ev(RUN,w)==3&&mc::count_ev(DEAD,w)==1,"lost %d %d",mc::count_ev(RUN,w),mc::count_ev(DEAD,w)); trace(); }
// a proxy cast to a base of the servant keeps its world
static void cast(){ auto s=mks(2,2); ids=s.thread_ids(); reset(); { SP a(s,1,1); auto f=a.f(1); BP b=ba::dynamic_servant_proxy_cast<BP>(a); auto g=b.b(2); f.get(); g.get(); } s=Proxy(); MC_ASSERT(mc::count_ev(RUN,1)==3&&mc::count_ev(DEAD,1)==1,"lost"); trace(); }
// assignment moves the world along
static void assign(){ auto s=mks(2,2); ids=s.thread_ids(); reset(); { SP a(s,0,0); SP b(s,1,1); auto f=a.f(1); b.p(1); if(mc::choose(2)) a=b; else a=std::move(b); auto g=a.f(2); f.get(); MC_ASSERT(g.get()==21,"value"); } s=Proxy(); MC_ASSERT(mc::count_ev(RUN,0)==2&&mc::count_ev(RUN,1)==3&&mc::count_ev(DEAD,0)==1&&mc::count_ev(DEAD,1)==1,"lost"); trace(); }
// shutdown with work in several worlds, tasks that post to other worlds
static void shutdown(int workers){ { auto s=mk(workers,3); auto wk=s.get_weak_scheduler(); for(int w=0;w<3;w++) s.post(ba::any_callable([w,wk]{ body(w,0); auto l=wk.lock(); if(l.is_valid()) l.post(ba::any_callable([w]{ body((w+1)%3,1); }),W((w+1)%3)); else mc::ev(INTR,w); }),W(w)); } for(int w=0;w<3;w++){ MC_ASSERT(mc::count_ev(RUN,w,0)==1,"lost"); MC_ASSERT(mc::count_ev(RUN,(w+1)%3,1)+mc::count_ev(INTR,w)==1,"task accepted by a locked handle lost"); } trace(); }
// callbacks and own tasks of a trackable servant, addressed to its world by priority
struct TS : ba::trackable_servant<> { int w; typedef int requires_weak_scheduler; TS(ba::any_weak_scheduler<> s,Proxy pool,int w):ba::trackable_servant<>(s,pool),w(w){} ~TS(){ In in(w); mc::ev(DEAD,w); }
  void go(std::size_t cbprio){ In in(w); mc::point(); int w_=w; this->post_callback([]{ return 5; },[w_](ba::expected<int> r){ In in(w_); mc::point(); mc::ev(RUN,w_,r.get()); },"",0,cbprio); this->post_self([w_]{ In in(w_); mc::point(); mc::ev(RUN,w_,6); },"",cbprio); } void nop(){ In in(w); mc::point(); mc::ev(RUN,w,7); } };
struct TP : ba::servant_proxy<TP,TS> { template<class S> TP(S s,Proxy pool,int w):ba::servant_proxy<TP,TS>(std::make_tuple(s,(std::size_t)w),pool,w){} BOOST_ASYNC_FUTURE_MEMBER(go) BOOST_ASYNC_FUTURE_MEMBER(nop) };
static void trackable(bool dflt){ auto s=mks(2,2); ids=s.thread_ids(); reset(); dfl=dflt; auto pool=mk_pool1::make(); { TP p(s,pool,1); auto a=p.go(dflt?0:100000); auto b=p.nop(); a.get(); b.get(); mc::settle(); } s=Proxy(); MC_ASSERT(mc::count_ev(RUN,1,5)==1&&mc::count_ev(RUN,1,6)==1,"callbacks lost"); trace(); }
MC_SCENARIO(two_posters,1,2,0){ int k=mc::choose(3); posts(2,2,k); }
MC_SCENARIO(two_posters_1w,1,2,0){ int k=mc::choose(3); posts(1,2,k); }
MC_SCENARIO(three_worlds,-1,2,0){ int k=mc::choose(3); posts(2,3,k); }
MC_SCENARIO(three_workers,-1,2,0){ posts(3,2,0); }
MC_SCENARIO(bad_task,1,2,0){ bad(mc::choose(3)); }
MC_SCENARIO(task_destruction,2,3,0){ dtor(mc::choose(3)); }
MC_SCENARIO(busy_world,1,3,0){ busy(); }
MC_SCENARIO(priorities,1,2,0){ prio(); }
MC_SCENARIO(prio_worlds,1,2,0){ prio_worlds(); }
MC_SCENARIO(enable_queue,1,2,0){ enable(); }
MC_SCENARIO(proxy_calls,1,2,F_NO_TIMEOUT_DEV){ servants<SP>(mks(2,2),2,mc::choose(6)); }
MC_SCENARIO(proxy_calls_3,0,1,F_NO_TIMEOUT_DEV){ servants<SP>(mks(2,3),3,mc::choose(6)); }
MC_SCENARIO(proxy_calls_log,1,2,F_NO_TIMEOUT_DEV){ servants<SPL>(mkl(2,2),2,mc::choose(6)); }
MC_SCENARIO(parallel,1,2,F_NO_TIMEOUT_DEV){ parallel_servants(); }
MC_SCENARIO(cast_proxy,1,2,F_NO_TIMEOUT_DEV){ cast(); }
MC_SCENARIO(assign_proxy,1,2,F_NO_TIMEOUT_DEV){ assign(); }
MC_SCENARIO(drain,1,2,0){ shutdown(2); }
MC_SCENARIO(drain_1w,1,3,0){ shutdown(1); }
MC_SCENARIO(trackable_prio,1,2,F_NO_TIMEOUT_DEV){ trackable(false); }
MC_SCENARIO(trackable_default,1,1,F_NO_TIMEOUT_DEV){ trackable(true); }
