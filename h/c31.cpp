// C31: weak scheduler handles lock to a usable scheduler or to none
#include "sched_more.h"
enum { RUN=1, POSTED=2, DROP=3 };
typedef ba::any_weak_scheduler<ba::any_callable> Weak; typedef ba::any_shared_scheduler<ba::any_callable> Shared;
struct Pay { int id; Counted c; Pay(int i):id(i),c(i){} void operator()() const { MC_ASSERT(c.v==id,"a moved-from task is executed"); mc::ev(RUN,id); MC_ASSERT(mc::count_ev(RUN,id)==1,"task %d was executed twice",id); } };
static void over(int n){ mc::settle(); MC_ASSERT(mc::alive_threads()==0,"%d threads are left",mc::alive_threads()); for(int i=0;i<n;i++) if(mc::count_ev(POSTED,i)) MC_ASSERT(mc::count_ev(RUN,i)==1,"task %d, posted through a locked handle, was executed %d times",i,mc::count_ev(RUN,i)); MC_ASSERT(Counted::live==0,"%ld tasks were never destroyed",Counted::live); int o=0; for(int i=0;i<n;i++) o=o*3+(mc::count_ev(POSTED,i)?1+mc::count_ev(RUN,i):0); mc::outcome(o); }
static void use(Shared& l,int id){ if(mc::choose(2)) (void)l.thread_ids(); l.post(ba::any_callable(Pay(id)),mc::choose(2)); mc::ev(POSTED,id); }
// another thread locks and posts while the last proxy is dropped
template<class K> void race(){ Counted::live=0; { auto s=std::make_unique<Proxy>(K::make()); Weak w=s->get_weak_scheduler(); std::thread t([w]{ for(int i=0;i<2;i++){ auto l=w.lock(); if(l.is_valid()) use(l,i); else MC_ASSERT(mc::count_ev(DROP)==1,"the scheduler lives, but cannot be locked"); } }); if(mc::choose(2)) mc::point(); mc::ev(DROP); s.reset(); t.join(); mc::settle(); auto l=w.lock(); MC_ASSERT(!l.is_valid(),"the scheduler is gone, but its weak handle can be locked"); } over(2); }
// a handle locked before is held by another thread over the drop of the last proxy: the end waits for it, not longer
template<class K> void held(){ Counted::live=0; { auto s=std::make_unique<Proxy>(K::make()); Weak w=s->get_weak_scheduler(); Shared l=w.lock(); MC_ASSERT(l.is_valid(),"the scheduler lives, but cannot be locked"); use(l,0); int wait=mc::choose(2); std::thread t([l,w,wait]()mutable{ if(wait) mc::settle(); use(l,1); auto again=w.lock(); MC_ASSERT(again.is_valid(),"a locked scheduler cannot be locked again"); l=Shared(); use(again,2); }); l=Shared(); mc::ev(DROP); s.reset(); t.join(); mc::settle(); auto e=w.lock(); MC_ASSERT(!e.is_valid(),"the scheduler is gone, but its weak handle can be locked"); } over(3); }
// tasks lock the scheduler they run in, before, while and after its last proxy goes
template<class K> void inside(){ Counted::live=0; { auto s=std::make_unique<Proxy>(K::make()); Weak w=s->get_weak_scheduler(); auto f=[w]{ mc::ev(RUN,10); mc::point(); auto own=ba::get_thread_scheduler<ba::any_callable>(); for(int i=0;i<2;i++){ auto l=i?own.lock():w.lock(); bool early=mc::count_ev(DROP)==0; if(l.is_valid()) use(l,i); else MC_ASSERT(!early,"the scheduler lives, but cannot be locked in its own task"); } }; s->post(f,0); mc::point(); mc::ev(DROP); s.reset(); MC_ASSERT(mc::count_ev(RUN,10)==1,"a task posted before the end"); mc::settle(); } over(2); }
// handles copied, assigned, locked in two threads at once
template<class K> void two(){ Counted::live=0; { auto s=std::make_unique<Proxy>(K::make()); Weak w=s->get_weak_scheduler(); std::thread t([w]{ Weak v(w); auto l=v.lock(); if(l.is_valid()){ auto c=l; l=Shared(); use(c,0); } }); std::thread u([w]{ Weak v; v=w; auto l=v.lock(); if(l.is_valid()) use(l,1); }); mc::ev(DROP); s.reset(); t.join(); u.join(); } over(2); }
#define KIND(N,K,q,t) MC_SCENARIO(race_##N,q,t,F_RACE){ race<K>(); } MC_SCENARIO(held_##N,1,t,F_RACE){ held<K>(); } MC_SCENARIO(inside_##N,q,t,F_RACE){ inside<K>(); } MC_SCENARIO(two_##N,1,2,F_RACE){ two<K>(); }
KIND(single,mk_single,2,3) KIND(pool,mk_pool1,2,3) KIND(mq,mk_mq,1,2) KIND(steal,mk_steal,1,2) KIND(smq,mk_smq,1,2) KIND(mt,mk_mt,1,2) KIND(io,mk_io,1,2) KIND(comp,mk_comp,1,2)
// weak handle of a proxy: locks to a proxy while there is one
template<class K> void wproxy(){ Counted::live=0; { auto s=std::make_unique<Proxy>(K::make()); ba::scheduler_weak_proxy<> w(*s),v; MC_ASSERT(!v.lock().is_valid(),"an empty weak proxy locks"); if(mc::choose(2)) v=*s; else v=w; 
  std::thread t([v]{ for(int i=0;i<2;i++){ auto l=v.lock(); if(l.is_valid()){ l.post(Pay(i)); mc::ev(POSTED,i); } else MC_ASSERT(mc::count_ev(DROP)==1,"a proxy exists, but the weak proxy cannot be locked"); } }); mc::ev(DROP); s.reset(); t.join(); MC_ASSERT(!w.lock().is_valid(),"no proxy exists, but the weak proxy can be locked"); } over(2); }
MC_SCENARIO(weak_proxy_pool,2,3,F_RACE){ wproxy<mk_pool1>(); } MC_SCENARIO(weak_proxy_comp,1,2,F_RACE){ wproxy<mk_comp>(); } MC_SCENARIO(weak_proxy_single,2,3,F_RACE){ wproxy<mk_single>(); }
// weak handles of a composite one or both of whose subpools have gone
static void comp_parts(){ Counted::live=0; { auto a=mk_pool1::make(),b=mk_pool1::make(); auto ib=b.thread_ids(),ia=a.thread_ids(); auto c=ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<>>(a,b); Weak w=c.get_weak_scheduler(); int keep=mc::choose(4); c=Proxy(); mc::ev(DROP); if(!(keep&1)) a=Proxy(); if(!(keep&2)) b=Proxy(); mc::settle();
  { auto l=w.lock(); MC_ASSERT(keep!=0||!l.is_valid(),"all subpools are gone, but the weak handle can be locked"); if(l.is_valid()){ int idx=1+mc::choose(2); auto ids=idx==1?ia:ib; l.post(ba::any_callable([ids,idx]{ mc::ev(RUN,20); MC_ASSERT(id_index(ids)>=0,"posted to subpool %d, executed in the other one",idx); }),idx); mc::wait_until([]{ return mc::count_ev(RUN,20)==1; }); } } } over(0); }
MC_SCENARIO(comp_parts,1,2,F_NONE){ comp_parts(); }
// empty handles
MC_SCENARIO(empty,0,1,F_NONE){ Weak w; Weak v(w); v=w; Shared l; MC_ASSERT(!l.is_valid(),"an empty handle is valid"); bool in=false; std::thread t([&]{ auto x=ba::get_thread_scheduler<ba::any_callable>(); (void)x; in=true; }); t.join(); }
