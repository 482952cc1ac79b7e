// functors that throw on chosen elements; every thrown exception has to reach the caller's future, whatever its type
#pragma once
#include "seq.h"
using namespace mc;
struct odd { int code; }; // not a std::exception
struct Th { int mask=0,kind=0,thrown=0,thrown_mask=0; void at(int x){ if(x>=0 && x<20 && (mask>>x&1)){ thrown++; thrown_mask|=1<<x; if(kind==0) throw my_err(x); throw odd{x}; } } };
inline Th th;
inline const P1 x_all=[](int const&a){ th.at(a); return true; }, x_none=[](int const&a){ th.at(a); return false; }, x_odd=[](int const&a){ th.at(a); return (a&1)==1; };
inline const P2 x_less=[](int const&a,int const&b){ th.at(a); th.at(b); return a<b; }, x_eq=[](int const&a,int const&b){ th.at(a); return a==b; }, x_ne=[](int const&a,int const&b){ th.at(a); return a!=b; };
inline const std::function<int(int const&,int const&)> x_plus=[](int const&a,int const&b){ th.at(a<20?a:-1); th.at(b<20?b:-1); return a+b+100; };
inline const std::function<int(int const&)> x_inc=[](int const&a){ th.at(a); return a+1; };
inline const std::function<int(int const&,int const&)> x_inc2=[](int const&a,int const&b){ th.at(a); return a+b; };
// a continuation that fails with code 19
template<class T> struct cont_fail : ba::continuation_task<T> { int deferred; cont_fail(int d):ba::continuation_task<T>("cf"),deferred(d){} void operator()(){ auto res=this->this_task_result(); try{ if(!deferred) th.at(19); } catch(...){ res.set_exception(std::current_exception()); return; }
  ba::create_callback_continuation([res](auto r){ try{ res.set_value(std::move(std::get<0>(r).get())); } catch(...){ res.set_exception(std::current_exception()); } }, cont_fail<T>(0), cont_value<T>(T(),0)); } };
template<class T> auto fail_cont(int d){ th.mask|=1<<19; return ba::top_level_callback_continuation<T>(cont_fail<T>(d)); }
struct XIn { std::vector<int> v; long c; int n; };
// input of 0..N distinct elements in some order, the set of elements to throw on, the kind of exception
inline XIn x_in(int N){ XIn x; int n=mc::choose(N+1); x.n=n; int perm=mc::choose(3); x.v.resize(n); for(int i=0;i<n;i++) x.v[i]= perm==0?i: perm==1?n-1-i : (i*2+1)%(n|1)%std::max(n,1); if(perm==2){ std::vector<bool> seen(n); int k=0; for(auto&e:x.v){ if(seen[e]){ while(seen[k]) k++; e=k; } seen[e]=true; } } x.c=seq_cut(n); th=Th(); th.mask=mc::choose(1<<n); th.kind=mc::choose(2); return x; }
template<class A> void x_run(const char*name,XIn const&x,A alg){ SeqPool p; p.s->policy=mc::choose(2); auto f=ba::post_future(p.h,std::move(alg)); p.drain(); 
  std::string ctx=show(x.v)+" cutoff "+std::to_string(x.c)+" throwing "+(th.kind?"a non-standard exception":"an exception")+" for elements "+std::to_string(th.mask);
  MC_ASSERT((f.wait_for(std::chrono::seconds(0))==std::future_status::ready),"%s of %s never completes (%d exceptions thrown)",name,ctx.c_str(),th.thrown);
  int code=-1; bool val=false,broken=false; try{ f.get(); val=true; } catch(my_err& e){ code=e.code; } catch(odd& e){ code=e.code; } catch(...){ broken=true; }
  MC_ASSERT(!broken,"%s of %s delivered an exception that the functor did not throw",name,ctx.c_str());
  if(th.thrown) MC_ASSERT(!val && (th.thrown_mask>>code&1),"%s of %s: the functor threw %d time(s), the caller got %s",name,ctx.c_str(),th.thrown,val?"a value":"another exception"); else MC_ASSERT(val,"%s of %s: the functor did not throw, the caller got an exception",name,ctx.c_str());
  auto g=ba::post_future(p.h,[]{ return 7; }); p.drain(); MC_ASSERT((g.wait_for(std::chrono::seconds(0))==std::future_status::ready && g.get()==7),"%s of %s left the pool unusable",name,ctx.c_str()); }
