// C16: composites route to the right subpool, thieves take only what they may, every task runs once, a blocked owner does not stop its tasks
#include "sched_more.h"
#include <boost/asynchronous/queue/threadsafe_list.hpp>
#include <boost/asynchronous/diagnostics/any_loggable.hpp>
enum { RUN=1, FREE=2 };
typedef ba::threadsafe_list<ba::any_callable> TLQ;
// subpools: one letter each
static Proxy sub(char k){ switch(k){
  case 't': return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<LQ>>(1);
  case 'T': return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<LQ>>(2);
  case 'l': return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<TLQ>>(1);
  case '1': return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<LQ>>();
  case 'q': return ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<LQ>>(1);
  case 'Q': return ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<LQ>>(2);
  case 's': return ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<LQ,ba::no_cpu_load_saving,false>>(1);
  case 'S': return ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<LQ,ba::no_cpu_load_saving,false>>(2);
  case 'X': return mk_steal::make();
  case 'Y': return mk_smq::make();
  case 'z': return ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<LQ,ba::default_find_position<ba::sequential_push_policy>,ba::no_cpu_load_saving,false>>(1);
  case 'Z': return ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<LQ,ba::default_find_position<ba::sequential_push_policy>,ba::no_cpu_load_saving,false>>(2);
  case 'm': return ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<TLQ,ba::default_find_position<ba::sequential_push_policy>,ba::no_cpu_load_saving,false>>(1);
  case 'i': return ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<LQ>>(1,1);
  } abort(); }
static bool thief(char k){ return k=='s'||k=='S'||k=='z'||k=='Z'||k=='m'||k=='X'||k=='Y'; }
typedef ba::composite_threadpool_scheduler<ba::any_callable,ba::default_find_position<ba::sequential_push_policy>> Comp;
// what tasks may know: they hold no proxies
struct Ids { std::string k; std::vector<std::vector<boost::thread::id>> ids; int here() const { for(size_t i=0;i<ids.size();i++) if(id_index(ids[i])>=0) return (int)i; return -1; } };
struct W { std::shared_ptr<Ids> i=std::make_shared<Ids>(); std::vector<Proxy> p; Proxy c;
  W(const char* kinds){ i->k=kinds; for(char x:i->k) p.push_back(sub(x)); if(p.size()==1) c=p[0]; else c= p.size()==2 ? ba::make_shared_scheduler_proxy<Comp>(p[0],p[1]) : ba::make_shared_scheduler_proxy<Comp>(p[0],p[1],p[2]); for(auto&q:p) i->ids.push_back(q.thread_ids()); } };
// a task posted to subpool i (1-based, 0: any) may run here?
static void ran(Ids const& w,int id,int target){ mc::ev(RUN,id); MC_ASSERT(mc::count_ev(RUN,id)==1,"task %d was executed twice",id); int h=w.here(); MC_ASSERT(h>=0,"task %d was executed outside of the pools",id); MC_ASSERT(target==0||h==target-1||thief(w.k[h]),"task %d, posted to subpool %d (%c), was executed in subpool %d (%c) which does not steal",id,target,w.k[target-1],h+1,w.k[h]); }
static void all(int n){ mc::wait_until([=]{ return mc::count_ev(RUN)>=n; }); mc::settle(); for(int i=0;i<n;i++) MC_ASSERT(mc::count_ev(RUN,i)==1,"task %d was executed %d times",i,mc::count_ev(RUN,i)); }
static int clampi(int i,int n){ return std::min(i,n); }
// every index, from outside, through a locked weak handle, interruptible, with future
static void route(const char* kinds){ W W_(kinds); auto w=W_.i; int n=(int)w->k.size(); int how=mc::choose(5); int idx=mc::choose(n+2); int target= idx==0?0:clampi(idx,n);
  auto wk=W_.c.get_weak_scheduler();
  for(int i=0;i<2;i++){ auto f=[w,i,target]{ ran(*w,i,target); };
    if(how==0) W_.c.post(f,idx); else if(how==1){ auto l=wk.lock(); MC_ASSERT(l.is_valid(),"the composite lives, but its weak handle cannot be locked"); l.post(ba::any_callable(f),idx); }
    else if(how==2) W_.c.interruptible_post(ba::any_callable(f),idx); else if(how==3){ auto l=wk.lock(); l.interruptible_post(ba::any_callable(f),idx); } else { auto fu=ba::post_future(W_.c,f,std::string("t"),idx); fu.get(); } }
  all(2); mc::outcome(target); }
// a task of one subpool posts to another (from its own scheduler handle of the composite, or of the subpool)
static void sub_post(const char* kinds){ W W_(kinds); auto w=W_.i; int n=(int)w->k.size(); int from=1+mc::choose(n),to=1+mc::choose(n); auto wk=W_.c.get_weak_scheduler(); auto wt=W_.p[to-1].get_weak_scheduler(); int direct=mc::choose(2);
  W_.c.post([w,from,to,wk,wt,direct]{ ran(*w,0,from); auto f=[w,to]{ ran(*w,1,to); }; auto l=direct?wt.lock():wk.lock(); MC_ASSERT(l.is_valid(),"cannot be locked in a task"); l.post(ba::any_callable(f),direct?0:to); },from); all(2); }
// the only thread of the first subpool is blocked until its second task ran: the thief has to take that one
static void stalled(const char* kinds,int more){ W W_(kinds); auto w=W_.i; auto go=std::make_shared<std::promise<void>>(); std::shared_future<void> g=go->get_future().share(); int first=mc::choose(2);
  // (whoever takes the blocking task, another one has to execute the others)
  W_.p[0].post([w,g]{ ran(*w,0,1); g.wait(); },first?1:0); if(mc::choose(2)) mc::wait_until([]{ return mc::count_ev(RUN,0)==1; });
  for(int i=1;i<=more;i++) W_.p[0].post([w,i,more,go]{ ran(*w,i,1); if(mc::count_ev(RUN)==more+1) go->set_value(); },first?1:0);
  all(more+1); }
// tasks of both pools, thieves in both; two posters
static void busy(const char* kinds,int each){ W W_(kinds); auto w=W_.i; std::thread t([&W_,w,each]{ for(int i=0;i<each;i++) W_.c.post([w,i]{ ran(*w,i,1); },1); }); for(int i=0;i<each;i++) W_.c.post([w,i,each]{ ran(*w,each+i,2); mc::point(); },2); t.join(); all(2*each); }
// proxies of the composite and the subpools are dropped in every order, tasks still queued
static void dropped(const char* kinds,int n){ { W w(kinds); auto ids=w.i; for(int i=0;i<n;i++) w.c.post([ids,i]{ ran(*ids,i,1+i%2); },1+i%2); int o=mc::choose(3); if(o==0){ w.c=Proxy(); w.p[0]=Proxy(); mc::point(); w.p[1]=Proxy(); } else if(o==1){ w.c=Proxy(); w.p[1]=Proxy(); mc::point(); w.p[0]=Proxy(); } else { w.p.clear(); w.c=Proxy(); } }
  mc::settle(); MC_ASSERT(mc::alive_threads()==0,"%d threads are left",mc::alive_threads()); all(n); }
// an interruptible task which may be stolen: interrupted before, while, after it runs; another one is not touched
static void interruptible(const char* kinds){ W W_(kinds); auto w=W_.i; int when=mc::choose(3); 
  auto t=W_.p[0].interruptible_post(ba::any_callable([w]{ ran(*w,0,1); try{ mc::point(); boost::this_thread::interruption_point(); mc::ev(FREE,0); }catch(boost::thread_interrupted&){ mc::ev(FREE,1); throw; } }),0);
  if(when==1) mc::wait_until([]{ return mc::count_ev(RUN,0)==1; }); if(when==2) mc::settle(); t.interrupt();
  for(int i=1;i<3;i++) W_.p[0].post([w,i]{ ran(*w,i,1); boost::this_thread::interruption_point(); mc::ev(FREE,10+i); },0);
  mc::wait_until([]{ return mc::count_ev(FREE,11)+mc::count_ev(FREE,12)==2; }); mc::settle(); MC_ASSERT(mc::count_ev(RUN,0)<=1&&mc::count_ev(FREE,0)+mc::count_ev(FREE,1)==mc::count_ev(RUN,0),"task 0 ran %d times",mc::count_ev(RUN,0)); MC_ASSERT(when!=2||mc::count_ev(FREE,0)==1,"a task which was over before it was interrupted"); mc::outcome(mc::count_ev(FREE,1)+2*mc::count_ev(FREE,0)); }
#define R(N,K) MC_SCENARIO(route_##N,1,2,F_NONE){ route(K); } MC_SCENARIO(sub_post_##N,1,2,F_NONE){ sub_post(K); }
R(tt,"tt") R(ttt,"t1t") R(ts,"ts") R(qz,"qz") R(lm,"lm") R(iq,"iq") R(qmt,"qmt")
#define ST(N,K,M,q,t) MC_SCENARIO(stalled_##N,q,t,F_NONE){ stalled(K,M); }
ST(ts,"ts",2,2,3) ST(qs,"qs",1,2,3) ST(tz,"tz",1,1,3) ST(lm,"lm",1,1,3) ST(qm,"qm",1,1,2) ST(ss,"ss",2,1,2) ST(zz,"zz",1,1,2) ST(tst,"tst",1,1,2) ST(Q,"Q",2,1,3) ST(Z,"Y",2,1,3) ST(T,"T",2,1,3) ST(S,"X",2,2,3)
#define BU(N,K,n,q,t) MC_SCENARIO(busy_##N,q,t,F_NONE){ busy(K,n); }
BU(ts,"ts",1,2,3) BU(ss,"ss",1,2,3) BU(zz,"zz",1,1,2) BU(tz2,"tz",2,1,2) BU(qs2,"qs",2,1,2) BU(lm2,"lm",2,1,2) BU(tt,"tt",2,1,2)
#define DR(N,K,n,q,t) MC_SCENARIO(dropped_##N,q,t,F_NONE){ dropped(K,n); }
DR(ts,"ts",2,2,3) DR(ss,"ss",2,1,2) DR(zz,"zz",2,1,2) DR(qz,"qz",2,1,2) DR(tt,"tt",3,1,2) DR(iq,"iq",2,1,2) DR(lm,"lm",2,1,2) DR(1s,"1s",2,1,2)
#define IN(N,K,q,t) MC_SCENARIO(interruptible_##N,q,t,F_NONE){ interruptible(K); }
IN(ts,"ts",2,3) IN(qz,"qz",1,2) IN(lm,"lm",1,2) IN(ss,"ss",1,2) IN(tz,"tz",1,2) IN(1s,"1s",1,2) IN(Z,"Y",1,2)
// a pool of another job type lends its queue: its tasks are executed by the thief, its log records them
MC_SCENARIO(other_job_type,1,2,F_NONE){ typedef ba::any_loggable LOG; auto a=ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<LOG>>>(1); auto b=ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<LQ,ba::no_cpu_load_saving,false>>(1); auto c=ba::make_shared_scheduler_proxy<Comp>(b,a); MC_ASSERT(c.thread_ids().size()==1,"only subpools of the composite's job type are its pools");
  auto go=std::make_shared<std::promise<void>>(); std::shared_future<void> g=go->get_future().share(); auto f=ba::post_future(a,[g]{ g.wait(); mc::ev(RUN,0); return 1; },std::string("first")); auto h=ba::post_future(a,[go]{ mc::ev(RUN,1); go->set_value(); return 2; },std::string("second")); auto k=ba::post_future(c,[]{ mc::ev(RUN,2); return 3; },std::string("third"),1); MC_ASSERT(f.get()==1&&h.get()==2&&k.get()==3,"values"); all(3); }
