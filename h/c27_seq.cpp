// C27: composed tasks (then, if_, else_if, else_, if_then_else, all_of, any_of, parallel_invoke, invoke)
#include "seq.h"
#include <boost/asynchronous/algorithm/then.hpp>
#include <boost/asynchronous/algorithm/if_else.hpp>
#include <boost/asynchronous/algorithm/if_then_else.hpp>
#include <boost/asynchronous/algorithm/all_of.hpp>
#include <boost/asynchronous/algorithm/any_of.hpp>
#include <boost/asynchronous/algorithm/invoke.hpp>
#include <boost/asynchronous/algorithm/parallel_invoke.hpp>
#include "cont.h"
using namespace mc;
typedef ba::any_callable J;
static int part_ran[16], clause_ran[16];
static std::vector<int> part_order; // parts in the order in which they delivered
template<class T> struct Part : ba::continuation_task<T> { int id,kind,v; Part(int i,int k,int v_):ba::continuation_task<T>("part"),id(i),kind(k),v(v_){}
  static void give(ba::continuation_result<T> res,int id,bool fail,int v){ part_order.push_back(fail?-1-id:id); if(fail) res.set_exception(std::make_exception_ptr(my_err(id))); else if constexpr(std::is_void<T>::value) res.set_value(); else if constexpr(std::is_same<T,std::string>::value) res.set_value(std::to_string(v)); else res.set_value(T(v)); }
  void operator()(){ auto res=this->this_task_result(); int i=id,k=kind,x=v; if(part_ran[i]++) mc::fail("part %d was executed twice",i);
    if(k==K_VAL||k==K_EXC) give(res,i,k==K_EXC,x); else if(k==K_LVAL||k==K_LEXC) cs.later.push_back([res,i,k,x]{ give(res,i,k==K_LEXC,x); });
    else ba::create_callback_continuation([res,i,x](auto r){ bool f=false; try{ std::get<0>(r).get(); }catch(my_err&){ f=true; } give(res,i,f,x); },Sub<int>(2*i+20,k==K_NESTEXC?K_EXC:K_VAL),Sub<std::string>(2*i+21,K_VAL)); } };
template<class T> auto part(int id,int kind,int v){ return ba::top_level_callback_continuation<T>(Part<T>(id,kind,v)); }
static void clause(int id){ if(clause_ran[id]++) mc::fail("clause %d was invoked twice",id); }
static void reset(){ cs=CStash(); part_order.clear(); for(int i=0;i<16;i++) part_ran[i]=clause_ran[i]=0; }
template<class T> struct Out { int fired=0; bool val=false; int code=-1; bool combined=false; std::vector<int> codes; T v{}; };
template<> struct Out<void> { int fired=0; bool val=false; int code=-1; bool combined=false; std::vector<int> codes; };
template<class T,class G> void take(Out<T>& o,G get){ o.fired++; try{ if constexpr(std::is_void<T>::value) get(); else o.v=get(); o.val=true; }catch(my_err& e){ o.code=e.code; }catch(ba::combined_exception& e){ o.combined=true; for(auto& p:e.underlying_exceptions()){ int c=-1; if(p) try{ std::rethrow_exception(p); }catch(my_err& x){ c=x.code; }catch(...){} o.codes.push_back(c); } } catch(std::exception& e){ mc::fail("unexpected exception %s",e.what()); } }
static void drain_later(SeqPool& p,std::function<void()> quiet){ for(;;){ p.drain(); quiet(); if(cs.later.empty()) break; int k=mc::choose((int)cs.later.size()); auto f=std::move(cs.later[k]); cs.later.erase(cs.later.begin()+k); if(mc::choose(2)==0) f(); else p.s->post(ba::any_callable(f)); } }
// T: type of the composition's value. how it is consumed: through on_done, or returned from a posted task
template<class T,class C> Out<T> compose(C create,std::function<void(Out<T>&)> quiet=[](Out<T>&){}){ SeqPool p; p.s->policy=mc::choose(2); auto o=std::make_shared<Out<T>>();
  if(mc::choose(2)==0){ p.s->post(J([create,o]()mutable{ auto c=create(); c.on_done([o](std::tuple<ba::expected<T>>&& r){ if(o->fired) mc::fail("the outcome was delivered twice"); take(*o,[&]{ return std::get<0>(r).get(); }); }); })); drain_later(p,[&]{ quiet(*o); }); }
  else { auto f=ba::post_future(p.h,[create]()mutable{ return create(); }); drain_later(p,[&]{ if(!o->fired && f.wait_for(std::chrono::seconds(0))==std::future_status::ready) take(*o,[&]{ return f.get(); }); quiet(*o); }); }
  MC_ASSERT(o->fired==1,"the outcome was delivered %d times (all tasks ran: %ld of %ld)",o->fired,p.s->run,p.s->posted); MC_ASSERT(!p.s->escaped,"an exception escaped from a task"); return *o; }
template<class T> void expect(Out<T> const& o,bool val,int v,int code){ MC_ASSERT(o.val==val,"%s delivered (code %d), expected %s %d",o.val?"a value":"an exception",o.code,val?"a value":"exception",val?v:code); if constexpr(!std::is_void<T>::value) MC_ASSERT((!val||(int)o.v==v),"value %d delivered, expected %d",(int)o.v,v); MC_ASSERT(val||o.code==code,"exception %d delivered, expected %d",o.code,code); }
static int kind(){ return mc::choose(K_N); }
static bool fails(int k){ return k_fails(k); }
static void runs(int id,bool exp){ MC_ASSERT(part_ran[id]==(exp?1:0),"part %d was executed %d times, expected %d",id,part_ran[id],exp); }
static void clauses(int id,bool exp){ MC_ASSERT(clause_ran[id]==(exp?1:0),"clause %d was invoked %d times, expected %d",id,clause_ran[id],exp); }
// ---- then: the functor sees the outcome of the input
template<class In,class Out_,class F> void then_t(F f,int mode){ reset(); int k=kind(), fk= mode==0? mc::choose(2)*100 : kind(); // fk 0: value, 100 throws; or the kind of the continuation that the functor returns
  auto fun=[=](ba::expected<In> e){ clause(1); bool bad=false; int v=0; MC_ASSERT(part_order.size()==1,"the functor ran before the input delivered"); try{ if constexpr(std::is_void<In>::value) e.get(); else v=(int)e.get(); }catch(my_err& x){ MC_ASSERT(x.code==0,"functor got exception %d",x.code); bad=true; }
    MC_ASSERT(bad==fails(k),"the functor got %s",bad?"an exception":"a value"); if constexpr(!std::is_void<In>::value) MC_ASSERT(bad||v==7,"the functor got %d",v); if(fk==100) throw my_err(1); return f(fk,v); };
  auto o=compose<Out_>([=]{ return ba::then(part<In>(0,k,7),fun); }); clauses(1,true); runs(0,true); bool bad= mode==0? fk==100 : fails(fk); expect(o,!bad,8,1); if(mode) runs(1,true); }
MC_SCENARIO(then_value,2,3,F_SEQ){ then_t<int,int>([](int,int){ return 8; },0); }
MC_SCENARIO(then_void,2,3,F_SEQ){ then_t<int,void>([](int,int){},0); }
MC_SCENARIO(then_of_void,2,3,F_SEQ){ then_t<void,int>([](int,int){ return 8; },0); }
MC_SCENARIO(then_void_of_void,2,3,F_SEQ){ then_t<void,void>([](int,int){},0); }
MC_SCENARIO(then_continuation,2,3,F_SEQ){ then_t<int,int>([](int k,int){ return part<int>(1,k,8); },1); }
MC_SCENARIO(then_void_continuation,2,3,F_SEQ){ then_t<int,void>([](int k,int){ return part<void>(1,k,8); },1); }
MC_SCENARIO(then_continuation_of_void,2,3,F_SEQ){ then_t<void,int>([](int k,int){ return part<int>(1,k,8); },1); }
MC_SCENARIO(then_chain,1,2,F_SEQ){ reset(); int k=kind(), a=mc::choose(2), b=mc::choose(2);
  auto o=compose<int>([=]{ auto c1=ba::then(part<int>(0,k,7),[=](ba::expected<int> e){ clause(1); int v=e.get(); if(a) throw my_err(1); return v+1; }); auto c2=ba::then(std::move(c1),[=](ba::expected<int> e){ clause(2); int v; try{ v=e.get(); }catch(my_err& x){ v=100+x.code; } if(b) throw my_err(2); return part<int>(3,K_VAL,v); }); return ba::then_job<J>(std::move(c2),[](ba::expected<int> e){ clause(4); return e.get()*2; }); });
  for(int i:{1,2,4}) clauses(i,true); runs(3,!b); expect(o,!b,2*(fails(k)?100:a?101:8),2); }
// ---- if_/else_if/else_. condition: 0 false, 1 true, 2 throws
static bool cond(int id,int c,int v){ clause(id); MC_ASSERT(v==7,"condition %d got %d",id,v); if(c==2) throw my_err(id); return c==1; }
template<class X> static void arg(int id,X const& v){ clause(id); MC_ASSERT(v==7,"clause %d got %d",id,(int)v); }
MC_SCENARIO(if_only,2,3,F_SEQ){ reset(); int k=kind(), c=mc::choose(3), t=kind(); int tt=mc::choose(2); // tt: the then clause itself throws
  auto o=compose<std::tuple<bool,int>>([=]{ return ba::if_(part<int>(0,k,7),[=](int const& v){ return cond(1,c,v); },[=](int v){ arg(2,v); if(tt) throw my_err(9); return part<int>(3,t,8); }); });
  bool f=fails(k); clauses(1,!f); clauses(2,!f&&c==1); runs(3,!f&&c==1&&!tt); bool bad= f||c==2||(c==1&&(tt||fails(t))); MC_ASSERT(o.val==!bad,"value: %d",o.val); if(bad){ int e=f?0:c==2?1:tt?9:3; MC_ASSERT(o.code==e,"exception %d, expected %d",o.code,e); } else MC_ASSERT(std::get<0>(o.v)==(c==1)&&std::get<1>(o.v)==(c==1?8:7),"(%d,%d)",(int)std::get<0>(o.v),std::get<1>(o.v)); }
MC_SCENARIO(if_else,1,2,F_SEQ){ reset(); int k=kind(), c=mc::choose(3), t=0, e=0, te=0; if(c==1) t=kind(); else if(c==0){ te=mc::choose(2); if(!te) e=kind(); }
  auto o=compose<int>([=]{ return ba::else_(ba::if_(part<int>(0,k,7),[=](int const& v){ return cond(1,c,v); },[=](int v){ arg(2,v); return part<int>(3,t,8); }),[=](int v){ arg(4,v); if(te) throw my_err(9); return part<int>(5,e,9); }); });
  bool f=fails(k); clauses(1,!f); clauses(2,!f&&c==1); runs(3,!f&&c==1); clauses(4,!f&&c==0); runs(5,!f&&c==0&&!te);
  if(f) expect(o,false,0,0); else if(c==2) expect(o,false,0,1); else if(c==1) expect(o,!fails(t),8,3); else if(te) expect(o,false,0,9); else expect(o,!fails(e),9,5); }
MC_SCENARIO(if_else_if_else,0,1,F_SEQ){ reset(); int k=mc::choose(2)?K_LVAL:K_VAL; int c1=mc::choose(3), c2=mc::choose(3), t1=0,t2=0,e=0; if(c1==1) t1=kind(); else if(c1==0){ if(c2==1) t2=kind(); else if(c2==0) e=kind(); }
  auto o=compose<int>([=]{ return ba::else_(ba::else_if(ba::if_(part<int>(0,k,7),[=](int const& v){ return cond(1,c1,v); },[=](int v){ arg(2,v); return part<int>(3,t1,8); }),[=](int const& v){ return cond(4,c2,v); },[=](int v){ arg(5,v); return part<int>(6,t2,9); }),[=](int v){ arg(7,v); return part<int>(8,e,10); }); });
  clauses(1,true); clauses(2,c1==1); clauses(4,c1==0); clauses(5,c1==0&&c2==1); clauses(7,c1==0&&c2==0); runs(3,c1==1); runs(6,c1==0&&c2==1); runs(8,c1==0&&c2==0);
  if(c1==2) expect(o,false,0,1); else if(c1==1) expect(o,!fails(t1),8,3); else if(c2==2) expect(o,false,0,4); else if(c2==1) expect(o,!fails(t2),9,6); else expect(o,!fails(e),10,8); }
MC_SCENARIO(if_then_else_,1,2,F_SEQ){ reset(); int k=kind(), c=mc::choose(3), t=0, e=0, tt=0; if(c<2){ tt=mc::choose(2); if(!tt){ if(c) t=kind(); else e=kind(); } }
  auto o=compose<int>([=]{ return ba::if_then_else([=](int const& v){ return cond(1,c,v); },[=](int v){ arg(2,v); if(tt) throw my_err(9); return part<int>(3,t,8); },[=](int v){ arg(4,v); if(tt) throw my_err(9); return part<int>(5,e,9); })(part<int>(0,k,7)); });
  bool f=fails(k); clauses(1,!f); clauses(2,!f&&c==1); runs(3,!f&&c==1&&!tt); clauses(4,!f&&c==0); runs(5,!f&&c==0&&!tt);
  if(f) expect(o,false,0,0); else if(c==2) expect(o,false,0,1); else if(tt) expect(o,false,0,9); else if(c==1) expect(o,!fails(t),8,3); else expect(o,!fails(e),9,5); }
// the value is moved into the clauses, not lost or duplicated
MC_SCENARIO(if_else_string,1,2,F_SEQ){ reset(); int k=mc::choose(2)?K_LVAL:K_VAL, c=mc::choose(2); auto o=compose<std::string>([=]{ return ba::else_(ba::if_(part<std::string>(0,k,1234567),[=](std::string const& v){ MC_ASSERT(v=="1234567","condition got %s",v.c_str()); return c==1; },[=](std::string v){ MC_ASSERT(v=="1234567","then got '%s'",v.c_str()); return part<std::string>(3,K_VAL,8); }),[=](std::string v){ MC_ASSERT(v=="1234567","else got '%s'",v.c_str()); return part<std::string>(5,K_VAL,9); }); }); MC_ASSERT(o.val&&o.v==(c?"8":"9"),"got '%s'",o.v.c_str()); }
// ---- all_of
template<class T> void all_check(Out<T> const& o,std::vector<int> const& k){ bool any=false; for(int x:k) any|=fails(x); MC_ASSERT(o.val==!any,"%s delivered",o.val?"a value":"an exception"); if(any) MC_ASSERT(o.code>=0&&o.code<(int)k.size()&&fails(k[o.code]),"exception %d delivered",o.code); for(int i=0;i<(int)k.size();i++) runs(i,true); }
// once delivered: all parts have a value, or one failed; and as soon as that holds
template<class T> std::function<void(Out<T>&)> all_quiet(int n){ return [n](Out<T>& o){ int v=0,x=0; for(int p:part_order) if(p<0) x++; else v++; bool due= x>0||v==n; MC_ASSERT((o.fired>0)==due,"%d values and %d exceptions of %d parts are there, outcome delivered: %d",v,x,n,o.fired); }; }
MC_SCENARIO(all_of_two,2,3,F_SEQ){ reset(); int a=kind(), b=kind(), form=mc::choose(2); typedef std::tuple<int,std::string> T; auto o=compose<T>([=]{ if(form) return ba::all_of(std::make_tuple(part<int>(0,a,7),part<std::string>(1,b,8))); return ba::all_of(part<int>(0,a,7),part<std::string>(1,b,8)); },all_quiet<T>(2)); all_check(o,{a,b}); if(o.val) MC_ASSERT(std::get<0>(o.v)==7&&std::get<1>(o.v)=="8","(%d,%s)",std::get<0>(o.v),std::get<1>(o.v).c_str()); }
MC_SCENARIO(all_of_three,1,2,F_SEQ){ reset(); int a=kind(), b=kind(), c=kind(); typedef std::tuple<int,ba::detail::void_wrapper,int> T; auto o=compose<T>([=]{ return ba::all_of(part<int>(0,a,7),part<void>(1,b,8),part<int>(2,c,9)); },all_quiet<T>(3)); all_check(o,{a,b,c}); if(o.val) MC_ASSERT(std::get<0>(o.v)==7&&std::get<2>(o.v)==9,"(%d,%d)",std::get<0>(o.v),std::get<2>(o.v)); }
template<class T> void all_vec(int maxn){ reset(); int n=mc::choose(maxn+1); std::vector<int> k(n); for(auto&x:k) x=kind(); typedef std::vector<typename ba::detail::wrap<T>::type> V;
  auto o=compose<V>([=]{ std::vector<ba::detail::callback_continuation<T,J>> v; for(int i=0;i<n;i++) v.push_back(part<T>(i,k[i],i%2+7*(int)!std::is_same<T,bool>::value)); return ba::all_of(std::move(v)); },n? all_quiet<V>(n): [](Out<V>&){}); all_check(o,k); if(o.val){ MC_ASSERT((int)o.v.size()==n,"%d values of %d parts",(int)o.v.size(),n); if constexpr(!std::is_void<T>::value) for(int i=0;i<n;i++) MC_ASSERT(o.v[i]==T(i%2+7*(int)!std::is_same<T,bool>::value),"value %d is wrong",i); } }
MC_SCENARIO(all_of_vector,1,2,F_SEQ){ all_vec<int>(3); }
MC_SCENARIO(all_of_vector_void,2,3,F_SEQ){ all_vec<void>(2); }
MC_SCENARIO(all_of_vector_bool,1,2,F_SEQ){ all_vec<bool>(2); }
// ---- any_of: the value of a part, or all exceptions
template<class T> std::function<void(Out<T>&)> any_quiet(int n){ return [n](Out<T>& o){ int v=0,x=0; for(int p:part_order) if(p<0) x++; else v++; bool due= v>0||x==n; MC_ASSERT((o.fired>0)==due,"%d values and %d exceptions of %d parts are there, outcome delivered: %d",v,x,n,o.fired); }; }
template<class T> void any_check(Out<T>& o,std::vector<int> const& k){ bool any=false; for(int x:k) any|=!fails(x); int n=(int)k.size(); for(int i=0;i<n;i++) runs(i,true); MC_ASSERT(o.val==any,"%s delivered",o.val?"a value":"an exception");
  if(!any){ MC_ASSERT(o.combined&&(int)o.codes.size()==n,"no combined exception"); for(int i=0;i<n;i++) MC_ASSERT(o.codes[i]==i,"exception %d in the position of part %d",o.codes[i],i); }
  else { int i=(int)o.v.index(); int first=-1; for(int p:part_order) if(p>=0){ first=p; break; } MC_ASSERT(i>=0&&i<n&&!fails(k[i]),"index %d",i); MC_ASSERT(i==first,"index %d delivered, part %d was the first to have a value",i,first); } }
MC_SCENARIO(any_of_two,2,3,F_SEQ){ reset(); int a=kind(), b=kind(); typedef ba::any_of_result<int,std::string> T; auto o=compose<T>([=]{ return ba::any_of(part<int>(0,a,7),part<std::string>(1,b,8)); },any_quiet<T>(2)); any_check(o,{a,b}); if(o.val){ bool ok= o.v.index()==0? (boost::get<int>(&o.v.value())&&boost::get<int>(o.v.value())==7) : (boost::get<std::string>(&o.v.value())&&boost::get<std::string>(o.v.value())=="8"); MC_ASSERT(ok,"wrong value for index %d",(int)o.v.index()); } }
MC_SCENARIO(any_of_same_types,1,2,F_SEQ){ reset(); int a=kind(), b=kind(), c=kind(); typedef ba::any_of_result<int,int,int> T; auto o=compose<T>([=]{ return ba::any_of(part<int>(0,a,7),part<int>(1,b,8),part<int>(2,c,9)); },any_quiet<T>(3)); any_check(o,{a,b,c}); if(o.val) MC_ASSERT(boost::get<int>(o.v.value())==7+(int)o.v.index(),"value %d of index %d",boost::get<int>(o.v.value()),(int)o.v.index()); }
MC_SCENARIO(any_of_void,2,3,F_SEQ){ reset(); int a=kind(), b=kind(); typedef ba::any_of_result<void,int> T; auto o=compose<T>([=]{ return ba::any_of(part<void>(0,a,7),part<int>(1,b,8)); },any_quiet<T>(2)); any_check(o,{a,b}); if(o.val&&o.v.index()==1) MC_ASSERT(boost::get<int>(o.v.value())==8,"value"); }
// ---- parallel_invoke: all parts run once, outcomes in position
struct Fn { int id; int bad; int operator()()const{ if(part_ran[id]++) mc::fail("part %d ran twice",id); if(bad) throw my_err(id); return 100+id; } };
struct FnV { int id; int bad; void operator()()const{ if(part_ran[id]++) mc::fail("part %d ran twice",id); if(bad) throw my_err(id); } };
template<class T> void pi_check(ba::expected<T>& e,int id,bool bad){ int code=-1; bool val=false; try{ if constexpr(std::is_void<T>::value) e.get(); else { int v=e.get(); MC_ASSERT(v==100+id,"position %d holds %d",id,v); } val=true; }catch(my_err& x){ code=x.code; } MC_ASSERT(val==!bad&&(val||code==id),"position %d: value %d code %d",id,val,code); runs(id,true); }
MC_SCENARIO(parallel_invoke_,2,3,F_SEQ){ reset(); int a=mc::choose(2), b=mc::choose(2), c=mc::choose(2), form=mc::choose(2); typedef std::tuple<ba::expected<int>,ba::expected<void>,ba::expected<int>> T;
  auto o=compose<T>([=]{ if(form) return ba::parallel_invoke_timeout<J>(std::chrono::milliseconds(0),ba::to_continuation_task(Fn{0,a}),ba::to_continuation_task(FnV{1,b}),ba::to_continuation_task(Fn{2,c})); return ba::parallel_invoke<J>(ba::to_continuation_task(Fn{0,a}),ba::to_continuation_task(FnV{1,b}),ba::to_continuation_task(Fn{2,c})); }); MC_ASSERT(o.val,"parallel_invoke failed with %d",o.code); pi_check(std::get<0>(o.v),0,a); pi_check(std::get<1>(o.v),1,b); pi_check(std::get<2>(o.v),2,c); }
MC_SCENARIO(parallel_invoke_tasks,1,2,F_SEQ){ reset(); int a=kind(), b=kind(); typedef std::tuple<ba::expected<int>,ba::expected<void>> T; auto o=compose<T>([=]{ return ba::parallel_invoke<J>(Part<int>(0,a,100),Part<void>(1,b,101)); }); MC_ASSERT(o.val,"parallel_invoke failed with %d",o.code); pi_check(std::get<0>(o.v),0,fails(a)); pi_check(std::get<1>(o.v),1,fails(b)); }
// ---- invoke
MC_SCENARIO(invoke_,2,3,F_SEQ){ reset(); int k=kind(), t=mc::choose(2); auto o=compose<long>([=]{ return ba::invoke(part<int>(0,k,7),[=](int v){ clause(1); MC_ASSERT(v==7,"got %d",v); if(t) throw my_err(1); return (long)v+1; }); }); clauses(1,!fails(k)); expect(o,!fails(k)&&!t,8,fails(k)?0:1); }
// ---- compositions of compositions
MC_SCENARIO(nested,1,2,F_SEQ){ reset(); int a=kind(), b=kind(), c=mc::choose(2); auto o=compose<int>([=]{ auto all=ba::all_of(part<int>(0,a,7),part<int>(1,b,8)); auto sum=ba::invoke(std::move(all),[](std::tuple<int,int> t){ clause(1); return std::get<0>(t)*10+std::get<1>(t); }); return ba::then(ba::else_(ba::if_(std::move(sum),[=](int const& v){ clause(2); MC_ASSERT(v==78,"condition got %d",v); return c==1; },[](int v){ clause(3); return part<int>(2,K_LVAL,v+1); }),[](int v){ clause(4); return part<int>(3,K_NEST,v+2); }),[](ba::expected<int> e){ clause(5); try{ return e.get(); }catch(my_err& x){ return -1-x.code; } }); });
  bool f=fails(a)||fails(b); clauses(1,!f); clauses(2,!f); clauses(3,!f&&c); clauses(4,!f&&!c); clauses(5,true); MC_ASSERT(o.val,"exception"); if(!f) MC_ASSERT(o.v==(c?79:80),"value %d",o.v); else { int i=-1-o.v; MC_ASSERT(i==0?fails(a):i==1&&fails(b),"exception %d",i); } }
