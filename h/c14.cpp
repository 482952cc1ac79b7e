// C14: future based continuations on the real schedulers
#include "sched_more.h"
#include <boost/asynchronous/continuation_task.hpp>
enum { FIRE=1, READY=2, RUN=3 };
typedef std::chrono::milliseconds ms;
struct Top : ba::continuation_task<int> { std::function<void(ba::continuation_result<int>)> f; Top(std::function<void(ba::continuation_result<int>)> f_):ba::continuation_task<int>("top"),f(std::move(f_)){} void operator()(){ f(this->this_task_result()); } };
template<class T> struct S : ba::continuation_task<T> { int id; bool fail; S(int i,bool f):ba::continuation_task<T>("s"),id(i),fail(f){}
  void operator()(){ auto r=this->this_task_result(); mc::ev(RUN,id); mc::point(); mc::ev(READY,id); if(fail) r.set_exception(std::make_exception_ptr(my_err(id))); else if constexpr(std::is_void<T>::value) r.set_value(); else r.set_value(T(100+id)); } };
template<class T> bool isr(std::future<T>& f){ return f.wait_for(std::chrono::seconds(0))==std::future_status::ready; }
template<class T> void chk(std::future<T>& e,int id,bool fail){ MC_ASSERT(e.valid()&&isr(e),"the completion got a future %d that is not ready",id); MC_ASSERT(mc::count_ev(READY,id)==1,"the completion ran before %d delivered",id); int code=-1; bool val=false; try{ if constexpr(std::is_void<T>::value) e.get(); else { int v=(int)e.get(); MC_ASSERT(v==100+id,"position %d holds %d",id,v); } val=true; } catch(my_err&x){ code=x.code; } MC_ASSERT(fail?(!val&&code==id):val,"position %d: %s, code %d",id,val?"value":"exception",code); }
static void once(){ mc::ev(FIRE,0); MC_ASSERT(mc::count_ev(FIRE)==1,"completion invoked twice"); }
template<class P> std::future<int> top(P& s,int how,std::function<void(ba::continuation_result<int>)> create){ if(how==0) return ba::post_future(s,[create]{ return ba::top_level_continuation<int>(Top(create)); },std::string("t"),0); return ba::post_future(s,[create]{ return ba::top_level_callback_continuation<int>(Top(create)); },std::string("t"),0); }
// continuation on subtasks
template<class M> void tasks(int how,bool f0,bool f1,int timeout){ auto s=M::make();
  auto f=top(s,how,[=](ba::continuation_result<int> res){ auto done=[=](std::tuple<std::future<int>,std::future<void>> r){ once(); chk(std::get<0>(r),0,f0); chk(std::get<1>(r),1,f1); res.set_value(5); }; if(timeout) ba::create_continuation_timeout(done,ms(timeout),S<int>(0,f0),S<void>(1,f1)); else ba::create_continuation(done,S<int>(0,f0),S<void>(1,f1)); });
  int v=f.get(); MC_ASSERT(v==5&&mc::count_ev(FIRE)==1,"value %d",v); }
MC_SCENARIO(tasks_single,2,3,F_NONE){ tasks<mk_single>(0,false,true,0); }
MC_SCENARIO(tasks_pool,2,3,F_NONE){ tasks<mk_pool>(0,true,false,0); }
MC_SCENARIO(tasks_multiqueue,1,3,F_NONE){ tasks<mk_mq>(1,false,false,0); }
MC_SCENARIO(tasks_stealing,1,2,F_NONE){ tasks<mk_steal>(0,false,true,0); }
MC_SCENARIO(tasks_stealing_multiqueue,1,2,F_NONE){ tasks<mk_smq>(1,false,true,0); }
MC_SCENARIO(tasks_io,1,2,F_NONE){ tasks<mk_io>(0,false,true,0); }
MC_SCENARIO(tasks_multiple,1,2,F_NONE){ tasks<mk_mt>(0,false,true,0); }
MC_SCENARIO(tasks_composite,1,2,F_NONE){ tasks<mk_comp>(0,false,true,0); }
MC_SCENARIO(tasks_long_timeout,2,3,F_NO_TIMEOUT_DEV){ tasks<mk_pool>(0,false,true,1000000); }
// continuation on futures of the caller, set by another thread while the workers are idle, in either order; nobody posts anything
template<class M> void futures(int form,int how){ auto s=M::make(); auto p0=std::make_shared<std::promise<int>>(), p1=std::make_shared<std::promise<int>>(); auto waiting=std::make_shared<std::promise<void>>(); auto w=waiting->get_future();
  auto f=top(s,how,[=](ba::continuation_result<int> res){ auto two=[=](std::tuple<std::future<int>,std::future<int>> r){ once(); chk(std::get<0>(r),0,false); chk(std::get<1>(r),1,true); res.set_value(5); }; auto seq=[=](std::vector<std::future<int>>&& r){ once(); MC_ASSERT(r.size()==2,"%d futures",(int)r.size()); chk(r[0],0,false); chk(r[1],1,true); res.set_value(5); };
    std::vector<std::future<int>> v; if(form>=2){ v.push_back(p0->get_future()); v.push_back(p1->get_future()); }
    if(form==0) ba::create_continuation(two,p0->get_future(),p1->get_future()); else if(form==1) ba::create_continuation_timeout(two,std::chrono::hours(1),p0->get_future(),p1->get_future()); else if(form==2) ba::create_continuation(seq,std::move(v)); else ba::create_continuation_job_timeout<ba::any_callable>(seq,ms(3600000),std::move(v)); waiting->set_value(); });
  w.get(); int order=mc::choose(2); mc::point(); for(int i=0;i<2;i++){ int k=i^order; mc::ev(READY,k); if(k) p1->set_exception(std::make_exception_ptr(my_err(1))); else p0->set_value(100); mc::point(); MC_ASSERT(i==1||mc::count_ev(FIRE)==0,"the completion ran with a future missing"); }
  int v=f.get(); MC_ASSERT(v==5&&mc::count_ev(FIRE)==1,"value %d",v); }
MC_SCENARIO(futures_single,2,3,F_NO_TIMEOUT_DEV){ futures<mk_single>(0,0); }
MC_SCENARIO(futures_pool_timeout,1,3,F_NO_TIMEOUT_DEV){ futures<mk_pool>(1,1); }
MC_SCENARIO(futures_pool_sequence,2,3,F_NO_TIMEOUT_DEV){ futures<mk_pool>(2,0); }
MC_SCENARIO(futures_multiqueue,1,3,F_NO_TIMEOUT_DEV){ futures<mk_mq>(3,0); }
MC_SCENARIO(futures_stealing,1,2,F_NO_TIMEOUT_DEV){ futures<mk_steal>(0,1); }
MC_SCENARIO(futures_stealing_multiqueue,1,2,F_NO_TIMEOUT_DEV){ futures<mk_smq>(2,1); }
MC_SCENARIO(futures_io,1,2,F_NO_TIMEOUT_DEV){ futures<mk_io>(0,0); }
MC_SCENARIO(futures_multiple,1,2,F_NO_TIMEOUT_DEV){ futures<mk_mt>(0,0); }
// one future is never set: the completion runs when the time is up, not before, with what there is
template<class M> void late(int form,bool one){ auto s=M::make(); auto p0=std::make_shared<std::promise<int>>(), p1=std::make_shared<std::promise<int>>(); auto t0=std::make_shared<uint64_t>(0);
  auto f=top(s,form&1,[=](ba::continuation_result<int> res){ auto end=[=](std::future<int>& a,std::future<int>& b){ once(); uint64_t t=mc::now_ns(); MC_ASSERT(t-*t0>=20000000ull,"the completion ran after %ld ns although a future is missing and the timeout is 20 ms",(long)(t-*t0)); if(one) chk(a,0,false); else MC_ASSERT(!isr(a),"future 0 is ready"); MC_ASSERT(b.valid()&&!isr(b),"a future that nobody set is ready"); res.set_value(5); };
    auto two=[=](std::tuple<std::future<int>,std::future<int>> r){ end(std::get<0>(r),std::get<1>(r)); }; auto seq=[=](std::vector<std::future<int>>&& r){ MC_ASSERT(r.size()==2,"%d futures",(int)r.size()); end(r[0],r[1]); };
    *t0=mc::now_ns(); if(form<2) ba::create_continuation_timeout(two,ms(20),p0->get_future(),p1->get_future()); else { std::vector<std::future<int>> v; v.push_back(p0->get_future()); v.push_back(p1->get_future()); ba::create_continuation_timeout(seq,ms(20),std::move(v)); } });
  if(one){ mc::ev(READY,0); p0->set_value(100); } int v=f.get(); MC_ASSERT(v==5&&mc::count_ev(FIRE)==1,"value %d",v);}
MC_SCENARIO(timeout_single,2,3,F_NO_TIMEOUT_DEV){ late<mk_single>(0,true); }
MC_SCENARIO(timeout_pool,2,3,F_NO_TIMEOUT_DEV){ late<mk_pool>(1,false); }
MC_SCENARIO(timeout_pool_sequence,1,2,F_NO_TIMEOUT_DEV){ late<mk_pool>(2,true); }
MC_SCENARIO(timeout_multiqueue,1,2,F_NO_TIMEOUT_DEV){ late<mk_mq>(3,false); }
MC_SCENARIO(timeout_stealing,1,2,F_NO_TIMEOUT_DEV){ late<mk_steal>(0,true); }
// subtasks that need longer than the timeout
struct Slow : ba::continuation_task<int> { std::shared_ptr<std::promise<ba::continuation_result<int>>> out; Slow(std::shared_ptr<std::promise<ba::continuation_result<int>>> o):ba::continuation_task<int>("slow"),out(o){} void operator()(){ out->set_value(this->this_task_result()); } };
template<class M> void slow(){ auto s=M::make(); auto out=std::make_shared<std::promise<ba::continuation_result<int>>>(); auto rs=out->get_future();
  auto f=top(s,0,[=](ba::continuation_result<int> res){ ba::create_continuation_timeout([=](std::tuple<std::future<int>,std::future<int>> r){ once(); MC_ASSERT(!isr(std::get<0>(r)),"subtask 0 cannot be finished"); chk(std::get<1>(r),1,false); res.set_value(5); },ms(30),Slow(out),S<int>(1,false)); });
  int v=f.get(); MC_ASSERT(v==5,"value %d",v); rs.get().set_value(100); mc::settle(); MC_ASSERT(mc::count_ev(FIRE)==1,"completion invoked %d times",mc::count_ev(FIRE)); }
MC_SCENARIO(timeout_subtasks,1,2,F_NO_TIMEOUT_DEV){ slow<mk_pool>(); }
// interrupted while waiting for a future that nobody sets
template<class M> void interrupted(int form){ auto s=M::make(); auto p0=std::make_shared<std::promise<int>>(); auto waiting=std::make_shared<std::promise<void>>(); auto w=waiting->get_future();
  auto create=[=](ba::continuation_result<int> res){ if(form==0) ba::create_continuation([=](std::tuple<std::future<int>> r){ once(); MC_ASSERT(!isr(std::get<0>(r)),"a future that nobody set is ready"); res.set_value(6); },p0->get_future()); else { std::vector<std::future<int>> v; v.push_back(p0->get_future()); ba::create_continuation([=](std::vector<std::future<int>>&& r){ once(); MC_ASSERT(r.size()==1&&!isr(r[0]),"a future that nobody set is ready"); res.set_value(6); },std::move(v)); } waiting->set_value(); };
  auto t=ba::interruptible_post_future(s,[create]{ return ba::top_level_callback_continuation<int>(Top(create)); },std::string("t"),0); w.get(); mc::point(); std::get<1>(t).interrupt(); int v=0; try{ v=std::get<0>(t).get(); }catch(...){ v=-1; } MC_ASSERT(v==6||v==-1,"value %d",v); mc::wait_until([]{ return mc::count_ev(FIRE)>0; }); mc::outcome_s(std::to_string(v)); }
MC_SCENARIO(interrupt_single,2,3,F_NO_TIMEOUT_DEV){ interrupted<mk_single>(0); }
MC_SCENARIO(interrupt_pool,2,3,F_NO_TIMEOUT_DEV){ interrupted<mk_pool>(1); }
// several continuations of one thread wait at the same time; a completion creates another continuation
template<class M> void many(){ auto s=M::make(); auto p=std::make_shared<std::array<std::promise<int>,3>>(); auto n=std::make_shared<std::promise<void>>(); auto w=n->get_future(); std::vector<std::future<int>> fs;
  for(int i=0;i<3;i++) fs.push_back(top(s,1,[=](ba::continuation_result<int> res){ ba::create_continuation([=](std::tuple<std::future<int>> r){ mc::ev(FIRE,10+i); int v=std::get<0>(r).get(); MC_ASSERT(v==i,"continuation %d got the value of %d",i,v); ba::create_continuation([=](std::tuple<std::future<int>> q){ mc::ev(FIRE,20+i); int v=std::get<0>(q).get(); MC_ASSERT(v==100+i,"inner continuation %d got %d",i,v); res.set_value(v); },S<int>(i,false)); },(*p)[i].get_future()); if(i==2) n->set_value(); }));
  w.get(); int a=mc::choose(3), b=(a+1+mc::choose(2))%3; (*p)[a].set_value(a); int va=fs[a].get(); MC_ASSERT(va==100+a,"%d",va); MC_ASSERT(mc::count_ev(FIRE,10+b)==0,"continuation %d completed early",b); (*p)[b].set_value(b); int c=3-a-b; (*p)[c].set_value(c); for(int i:{b,c}){ int v=fs[i].get(); MC_ASSERT(v==100+i,"%d",v); } for(int i=0;i<3;i++) MC_ASSERT(mc::count_ev(FIRE,10+i)==1&&mc::count_ev(FIRE,20+i)==1,"continuation %d completed %d times",i,mc::count_ev(FIRE,10+i)); }
MC_SCENARIO(many_single,1,2,F_NO_TIMEOUT_DEV){ many<mk_single>(); }
MC_SCENARIO(many_pool,1,2,F_NO_TIMEOUT_DEV){ many<mk_pool>(); }
