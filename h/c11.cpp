// C11: member calls through a proxy deliver exactly that call's result, once, with exactly its arguments; priorities order queued calls
#include "sched_more.h"
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/diagnostics/any_loggable.hpp>
enum { CALL=1, CB=2, FINI=3 };
static std::vector<boost::thread::id> sids; static bool in_servant(){ auto me=boost::this_thread::get_id(); for(auto&i:sids) if(i==me) return true; return false; }
struct Copied{ int v; std::string s; explicit Copied(int v=0):v(v),s("some string longer than the small buffer "+std::to_string(v)){} bool ok(int k)const{ return v==k&&s=="some string longer than the small buffer "+std::to_string(k); } };
template<class J> struct SV : ba::trackable_servant<J,J>{ SV(ba::any_weak_scheduler<J> s):ba::trackable_servant<J,J>(s){}
  void note(int k){ MC_ASSERT(in_servant(),"member in a foreign thread"); mc::ev(CALL,k); mc::point(); }
  struct E{ int k; ~E(){ mc::ev(FINI,k); } };
  int val(int k,int x){ note(k); E e{k}; if(x<0) throw my_err(-x); return x*10; }
  void vd(int k,int x){ note(k); E e{k}; if(x<0) throw my_err(-x); if(x==99) throw 99; }
  std::unique_ptr<int> mo(int k,std::unique_ptr<int> p){ note(k); E e{k}; MC_ASSERT(p,"move-only argument lost"); *p+=1; return p; }
  Copied two(int k,Copied a,std::vector<int> b,Copied const& c){ note(k); E e{k}; MC_ASSERT(a.ok(3)&&b==std::vector<int>({4,5})&&c.ok(6),"arguments"); return Copied(a.v*100+c.v); }
  void pmo(int k,std::unique_ptr<int> p){ note(k); MC_ASSERT(p&&*p==5,"move-only argument"); }
  void p1(int k){ note(k); } void p2(int k){ note(k); } void p3(int k){ note(k); } int f1(int k){ note(k); return k; } int f2(int k){ note(k); return k; } int f3(int k){ note(k); return k; }
  int ov(int k){ note(k); return 1; } int ov(int k,Copied c){ note(k); return c.v; }
  int cst(int k)const{ MC_ASSERT(in_servant(),"thread"); mc::ev(CALL,k); return 77; } int& ref(int k){ static int x=5; note(k); return x; } int cbi(int k,int x){ return val(k,x); } void cbv(int k,int x){ vd(k,x); } int cb2(int k){ note(k); return k; }
  int cbp(int k,int x){ return val(k,x); } };
template<class J> struct PX : ba::servant_proxy<PX<J>,SV<J>,J>{ typedef ba::servant_proxy<PX<J>,SV<J>,J> base; typedef typename base::servant_type servant_type; typedef typename base::callable_type callable_type; template<class X> PX(X s):base(s){} using base::m_proxy; 
  BOOST_ASYNC_FUTURE_MEMBER(val) BOOST_ASYNC_FUTURE_MEMBER(vd,0) BOOST_ASYNC_FUTURE_MEMBER(mo) BOOST_ASYNC_FUTURE_MEMBER(two,0) BOOST_ASYNC_POST_MEMBER(pmo) BOOST_ASYNC_POST_MEMBER(p1,1) BOOST_ASYNC_POST_MEMBER(p2,2) BOOST_ASYNC_POST_MEMBER(p3,3)
  BOOST_ASYNC_FUTURE_MEMBER(f1,1) BOOST_ASYNC_FUTURE_MEMBER(f2,2) BOOST_ASYNC_FUTURE_MEMBER(f3,3) BOOST_ASYNC_FUTURE_MEMBER(ov) BOOST_ASYNC_FUTURE_MEMBER(cst) BOOST_ASYNC_FUTURE_MEMBER(ref)
  BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK(cbi) BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK(cbv,0) BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK(cb2,2) };
template<class J> struct PL : ba::servant_proxy<PL<J>,SV<J>,J>{ typedef ba::servant_proxy<PL<J>,SV<J>,J> base; typedef typename base::servant_type servant_type; typedef typename base::callable_type callable_type; template<class X> PL(X s):base(s){} using base::m_proxy;
  BOOST_ASYNC_FUTURE_MEMBER_LOG(val,"val") BOOST_ASYNC_FUTURE_MEMBER_LOG(vd,"vd",0) BOOST_ASYNC_FUTURE_MEMBER_LOG(mo,"mo") BOOST_ASYNC_FUTURE_MEMBER_LOG(two,"two",0) BOOST_ASYNC_POST_MEMBER_LOG(pmo,"pmo") BOOST_ASYNC_POST_MEMBER_LOG(p1,"p1",1) BOOST_ASYNC_POST_MEMBER_LOG(p2,"p2",2) BOOST_ASYNC_POST_MEMBER_LOG(p3,"p3",3)
  BOOST_ASYNC_FUTURE_MEMBER_LOG(f1,"f1",1) BOOST_ASYNC_FUTURE_MEMBER_LOG(f2,"f2",2) BOOST_ASYNC_FUTURE_MEMBER_LOG(f3,"f3",3) BOOST_ASYNC_FUTURE_MEMBER_LOG(ov,"ov") BOOST_ASYNC_FUTURE_MEMBER_LOG(cst,"cst") BOOST_ASYNC_FUTURE_MEMBER_LOG(ref,"ref")
  BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK_LOG(cbi,"cbi") BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK_LOG(cbv,"cbv",0) BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK_LOG(cb2,"cb2",2) };
typedef ba::any_callable AC; typedef ba::any_loggable LOG;
template<class J> auto mk(){ return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::lockfree_queue<J>>>(); }
template<class J> auto mkp(){ typedef ba::any_queue_container<J> Q; typedef ba::lockfree_queue<J> L; typedef ba::any_queue_container_config<L> C; return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<Q>>(C(1),C(1),C(1)); }
template<class F> int outc(F f){ try{ return f.get(); }catch(my_err&e){ return -e.code; } } 
template<class F> int outv(F f){ try{ f.get(); return 0; }catch(my_err&e){ return -e.code; }catch(int i){ return i; } }
template<class P,class J> void calls(int kind){
  auto s=mk<J>(); sids=s.thread_ids(); P p(s); const P& cp=p; int n=1;
  switch(kind){
   case 0: { auto f=cp.val(1,4); f.wait(); MC_ASSERT(mc::count_ev(FINI,1)==1,"future ready before the member ended"); int v=outc(std::move(f)); MC_ASSERT(v==40,"value %d",v); break; }
   case 1: { int v=outc(cp.val(1,-7)); MC_ASSERT(v==-7,"exception %d",v); break; }
   case 2: { auto f=cp.vd(1,0); f.wait(); MC_ASSERT(mc::count_ev(FINI,1)==1,"future ready before the member ended"); int v=outv(std::move(f)); MC_ASSERT(v==0,"void %d",v); break; }
   case 3: { int v=outv(cp.vd(1,-8)); MC_ASSERT(v==-8,"exception %d",v); v=outv(cp.vd(2,99)); MC_ASSERT(v==99,"exception %d",v); n=2; break; }
   case 4: { auto r=cp.mo(1,std::unique_ptr<int>(new int(5))).get(); MC_ASSERT(r&&*r==6,"move-only result"); break; }
   case 5: { Copied a(3),c(6); std::vector<int> b{4,5}; auto r=cp.two(1,a,b,c).get(); MC_ASSERT(r.ok(306),"result"); MC_ASSERT(a.ok(3)&&c.ok(6)&&b.size()==2,"the caller's objects were changed"); break; }
   case 6: { cp.pmo(1,std::unique_ptr<int>(new int(5))); break; }
   case 7: { int a=cp.ov(1).get(),b=cp.ov(2,Copied(8)).get(); MC_ASSERT(a==1&&b==8,"overloads %d %d",a,b); n=2; break; }
   case 8: { int a=cp.cst(1).get(); auto b=cp.ref(2).get(); MC_ASSERT(a==77&&b==5,"%d %d",a,b); n=2; break; }
   case 9: case 10: { int x=kind==9?3:-3; cp.cbi([x](ba::expected<int> r){ int v; try{ v=r.get(); }catch(my_err&e){ v=-e.code; } MC_ASSERT(v==(x>0?30:-3),"callback got %d",v); mc::ev(CB,1); },1,x); mc::settle(); MC_ASSERT(mc::count_ev(CB)==1,"callback %d times",mc::count_ev(CB)); break; }
   case 11: case 12: { int x=kind==11?0:-3; cp.cbv([x](ba::expected<void> r){ int v=0; try{ r.get(); }catch(my_err&e){ v=-e.code; } MC_ASSERT(v==x,"callback got %d",v); mc::ev(CB,1); },1,x); mc::settle(); MC_ASSERT(mc::count_ev(CB)==1,"callback %d times",mc::count_ev(CB)); break; }
  }
  mc::settle(); for(int k=1;k<=n;k++) MC_ASSERT(mc::count_ev(CALL,k)==1,"call %d executed %d times",k,mc::count_ev(CALL,k)); MC_ASSERT(mc::count_ev(CALL)==n,"calls"); mc::outcome(kind);
}
// two threads, mixed calls: every future has its own call's outcome
template<class P,class J> void mix(){
  auto s=mk<J>(); sids=s.thread_ids(); P p(s); 
  std::thread t([p]{ auto f=p.val(11,1); p.pmo(12,std::unique_ptr<int>(new int(5))); int v=outc(p.val(13,-13)); MC_ASSERT(v==-13,"13: %d",v); v=outc(std::move(f)); MC_ASSERT(v==10,"11: %d",v); });
  auto f=p.val(21,2); auto g=p.mo(22,std::unique_ptr<int>(new int(1))); int v=outc(std::move(f)); MC_ASSERT(v==20,"21: %d",v); auto q=g.get(); MC_ASSERT(q&&*q==2,"22"); t.join(); mc::settle();
  for(int k:{11,12,13,21,22}) MC_ASSERT(mc::count_ev(CALL,k)==1,"call %d executed %d times",k,mc::count_ev(CALL,k)); std::string o; for(int i=0;i<mc::nev();i++) if(mc::event(i).kind==CALL) o+=std::to_string(mc::event(i).a)+" "; mc::outcome_s(o);
}
// futures outlive proxy and scheduler
template<class P,class J> void gone(){ std::future<int> a,b; std::future<void> c; { auto s=mk<J>(); sids=s.thread_ids(); P p(s); a=p.val(1,1); b=p.val(2,-2); c=p.vd(3,0); } int v=outc(std::move(a)); MC_ASSERT(v==10,"%d",v); v=outc(std::move(b)); MC_ASSERT(v==-2,"%d",v); outv(std::move(c)); MC_ASSERT(mc::count_ev(CALL)==3,"calls"); mc::outcome(1); }
// members queued together run in order of their priority, then of their calls
template<class P,class J> void prios(int perm){
  auto s=mkp<J>(); sids=s.thread_ids(); P p(s); bool go=false,in=false; ba::post_future(s,[&]{ in=true; mc::wait_until([&]{ return go; }); },std::string("w"),0); mc::wait_until([&]{ return in; });
  typedef std::function<void()> F; std::vector<F> fs={[&]{ p.p1(11); },[&]{ p.p2(21); },[&]{ p.p3(31); },[&]{ p.f1(12); },[&]{ p.f2(22); },[&]{ p.f3(32); },[&]{ p.cb2([](auto){},23); }};
  std::vector<int> ids={11,21,31,12,22,32,23},ord; for(int i=0;i<7;i++) ord.push_back((i*(perm%3*2+1)+perm)%7); // some orders of the calls
  std::vector<int> want; for(int pr=1;pr<=3;pr++) for(int i:ord) if(ids[i]/10==pr) want.push_back(ids[i]);
  for(int i:ord) fs[i](); go=true; mc::settle(); std::vector<int> got; for(int i=0;i<mc::nev();i++) if(mc::event(i).kind==CALL) got.push_back(mc::event(i).a);
  std::string g; for(int x:got) g+=std::to_string(x)+" "; MC_ASSERT(got==want,"order of execution %s",g.c_str()); mc::outcome_s(g);
}
#define P11(P,J,QB,TB) MC_SCENARIO(P##J##_calls,QB,TB,F_NO_TIMEOUT_DEV){ calls<P<J>,J>(mc::choose(13)); } MC_SCENARIO(P##J##_mix,QB,TB,F_NO_TIMEOUT_DEV){ mix<P<J>,J>(); } MC_SCENARIO(P##J##_gone,QB,TB,F_NO_TIMEOUT_DEV){ gone<P<J>,J>(); } \
  MC_SCENARIO(P##J##_prios,1,2,F_NO_TIMEOUT_DEV){ prios<P<J>,J>(mc::choose(21)); }
P11(PX,AC,2,3) P11(PL,LOG,2,3)
