// C27 on real worker threads: parts that end at the same time on two workers
#include "sched_more.h"
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/algorithm/then.hpp>
#include <boost/asynchronous/algorithm/if_else.hpp>
#include <boost/asynchronous/algorithm/all_of.hpp>
#include <boost/asynchronous/algorithm/any_of.hpp>
#include <boost/asynchronous/algorithm/parallel_invoke.hpp>
typedef ba::any_callable J;
enum { RUN=1, DONE=2, CLAUSE=3 };
template<class T> struct Part : ba::continuation_task<T> { int id,bad; Part(int i,int b):ba::continuation_task<T>("part"),id(i),bad(b){} void operator()(){ auto r=this->this_task_result(); mc::ev(RUN,id); MC_ASSERT(mc::count_ev(RUN,id)==1,"part %d ran twice",id); mc::point(); if(bad) r.set_exception(std::make_exception_ptr(my_err(id))); else if constexpr(std::is_void<T>::value) r.set_value(); else r.set_value(T(10+id)); } };
template<class T> auto part(int id,int bad){ return ba::top_level_callback_continuation_force_post<T>(Part<T>(id,bad)); }
template<class T,class S,class C> bool deliver(S& s,C create,std::function<void(T&)> chk,int* code){ auto f=ba::post_future(s,[create]{ auto c=create(); return c; },std::string("t"),0); try{ T v=f.get(); chk(v); return true; }catch(my_err& e){ *code=e.code; }catch(ba::combined_exception& e){ *code=100+(int)e.underlying_exceptions().size(); } return false; }
template<class M> void all_bool(int bad){ auto s=M::make(); int code=-1; typedef std::vector<bool> V; bool ok=deliver<V>(s,[=]{ std::vector<ba::detail::callback_continuation<bool,J>> v; v.push_back(part<bool>(0,0)); v.push_back(part<bool>(1,bad)); return ba::all_of(std::move(v)); },[](V& v){ MC_ASSERT((v.size()==2&&v[0]&&v[1]),"%d values",(int)v.size()); },&code); MC_ASSERT(ok==!bad&&(ok||code==1),"code %d",code); }
template<class M> void all_two(int a,int b){ auto s=M::make(); int code=-1; typedef std::tuple<int,long> V; bool ok=deliver<V>(s,[=]{ return ba::all_of(part<int>(0,a),part<long>(1,b)); },[](V& v){ MC_ASSERT((std::get<0>(v)==10&&std::get<1>(v)==11),"%d %ld",std::get<0>(v),std::get<1>(v)); },&code); MC_ASSERT(ok==(!a&&!b),"delivered %d",ok); if(!ok) MC_ASSERT((code==0&&a)||(code==1&&b),"exception %d",code); }
template<class M> void any_two(int a,int b){ auto s=M::make(); int code=-1; typedef ba::any_of_result<int,int> V; bool ok=deliver<V>(s,[=]{ return ba::any_of(part<int>(0,a),part<int>(1,b)); },[=](V& v){ int i=(int)v.index(); MC_ASSERT((i==0&&!a)||(i==1&&!b),"index %d",i); int x=boost::get<int>(v.value()); MC_ASSERT(x==10+i,"value %d of %d",x,i); },&code); MC_ASSERT(ok==(!a||!b),"delivered %d",ok); if(!ok) MC_ASSERT(code==102,"code %d",code); mc::settle(); }
MC_SCENARIO(all_of_bool,1,2,F_RACE){ all_bool<mk_pool>(0); }
MC_SCENARIO(all_of_bool_fails,1,2,F_RACE){ all_bool<mk_pool>(1); }
MC_SCENARIO(all_of_values,1,2,F_RACE){ all_two<mk_pool>(0,0); }
MC_SCENARIO(all_of_both_fail,1,2,F_RACE){ all_two<mk_pool>(1,1); }
MC_SCENARIO(all_of_multiqueue,1,2,F_RACE){ all_two<mk_mq>(0,1); }
MC_SCENARIO(all_of_stealing,1,2,F_RACE){ all_two<mk_steal>(1,1); }
MC_SCENARIO(any_of_values,1,2,F_RACE){ any_two<mk_pool>(0,0); }
MC_SCENARIO(any_of_one_fails,1,2,F_RACE){ any_two<mk_pool>(1,0); }
MC_SCENARIO(any_of_both_fail,1,2,F_RACE){ any_two<mk_pool>(1,1); }
MC_SCENARIO(any_of_multiqueue,1,2,F_RACE){ any_two<mk_mq>(0,1); }
template<class M> void chain(int bad,int c){ auto s=M::make(); int code=-1; bool ok=deliver<int>(s,[=]{ return ba::then(ba::else_(ba::if_(part<int>(0,bad),[=](int const&){ mc::ev(CLAUSE,1); return c==1; },[](int v){ mc::ev(CLAUSE,2); MC_ASSERT(v==10,"%d",v); return part<int>(1,0); }),[](int v){ mc::ev(CLAUSE,3); MC_ASSERT(v==10,"%d",v); return part<int>(2,0); }),[](ba::expected<int> e){ mc::ev(CLAUSE,4); return e.get()+100; }); },[=](int& v){ MC_ASSERT(v==(c?111:112),"value %d",v); },&code);
  MC_ASSERT(ok==!bad&&(ok||code==0),"code %d",code); int exp[5]={0,!bad,!bad&&c,!bad&&!c,1}; for(int i=1;i<5;i++) MC_ASSERT(mc::count_ev(CLAUSE,i)==exp[i],"clause %d invoked %d times",i,mc::count_ev(CLAUSE,i)); }
MC_SCENARIO(chain_true,1,2,F_RACE){ chain<mk_pool>(0,1); }
MC_SCENARIO(chain_false,1,2,F_RACE){ chain<mk_steal>(0,0); }
MC_SCENARIO(chain_fails,1,2,F_RACE){ chain<mk_pool>(1,1); }
struct Fn { int id; int operator()()const{ mc::ev(RUN,id); MC_ASSERT(mc::count_ev(RUN,id)==1,"part %d ran twice",id); mc::point(); if(id==1) throw my_err(1); return 10+id; } };
template<class M> void pinv(){ auto s=M::make(); int code=-1; typedef std::tuple<ba::expected<int>,ba::expected<int>,ba::expected<int>> V; bool ok=deliver<V>(s,[=]{ return ba::parallel_invoke<J>(ba::to_continuation_task(Fn{0}),ba::to_continuation_task(Fn{1}),ba::to_continuation_task(Fn{2})); },[](V& v){ int a=std::get<0>(v).get(), c=std::get<2>(v).get(); MC_ASSERT(a==10&&c==12,"%d %d",a,c); MC_ASSERT(std::get<1>(v).has_exception(),"no exception in position 1"); },&code); MC_ASSERT(ok,"code %d",code); }
MC_SCENARIO(invoke_pool,1,2,F_RACE){ pinv<mk_pool>(); }
MC_SCENARIO(invoke_multiqueue,1,2,F_RACE){ pinv<mk_mq>(); }
