// C13: completion of callback continuations: once, after all subtasks, every result in its position
#include "seq.h"
#include "cont.h"
using namespace mc;
typedef ba::any_callable J;
// form x kinds; the outer task creates the continuation and delivers 1 when the completion ran
struct Outer : ba::continuation_task<int> { std::function<void(ba::continuation_result<int>)> f; Outer(std::function<void(ba::continuation_result<int>)> f_):ba::continuation_task<int>("outer"),f(std::move(f_)){} void operator()(){ f(this->this_task_result()); } };
static void drain_all(SeqPool& p){ for(;;){ p.drain(); if(cs.later.empty()) break; int k=mc::choose((int)cs.later.size()); auto f=std::move(cs.later[k]); cs.later.erase(cs.later.begin()+k); if(mc::choose(2)==0) f(); else p.s->post(ba::any_callable(f)); } }
static void c_run(const char*form,std::function<void(ba::continuation_result<int>)> create){
  SeqPool p; p.s->policy=mc::choose(2); int top=mc::choose(3);
  auto f= top==0? ba::post_future(p.h,[create]{ return ba::top_level_callback_continuation<int>(Outer(create)); }) : top==1? ba::post_future(p.h,[create]{ return ba::top_level_callback_continuation_force_post<int>(Outer(create)); }) : ba::post_future(p.h,[create]{ return ba::top_level_callback_continuation_job_force_post<int,J>(Outer(create)); });
  drain_all(p); MC_ASSERT(cs.fired==1,"%s: the completion was invoked %d times",form,cs.fired); MC_ASSERT((f.wait_for(std::chrono::seconds(0))==std::future_status::ready && f.get()==1),"%s: the top level future did not get the value",form); MC_ASSERT(!p.s->escaped,"%s: an exception escaped",form); }
static int pick(int n){ return mc::choose(n); }
// variadic, same or mixed return types
MC_SCENARIO(variadic,2,3,F_SEQ){ cs=CStash(); int n=1+pick(3), job=pick(2); int k[3]={0,0,0}; for(int i=0;i<n;i++) k[i]=pick(K_N);
  c_run("variadic",[=](ba::continuation_result<int> res){ int kk[3]={k[0],k[1],k[2]};
    auto one=[=](std::tuple<ba::expected<int>> r){ k_fire(); k_check(std::get<0>(r),0,k_fails(kk[0])); res.set_value(1); };
    auto two=[=](std::tuple<ba::expected<int>,ba::expected<void>> r){ k_fire(); k_check(std::get<0>(r),0,k_fails(kk[0])); k_check(std::get<1>(r),1,k_fails(kk[1])); res.set_value(1); };
    auto three=[=](std::tuple<ba::expected<int>,ba::expected<std::string>,ba::expected<int>> r){ k_fire(); k_check(std::get<0>(r),0,k_fails(kk[0])); k_check(std::get<1>(r),1,k_fails(kk[1])); k_check(std::get<2>(r),2,k_fails(kk[2])); res.set_value(1); };
    if(job==0){ if(n==1) ba::create_callback_continuation(one,Sub<int>(0,k[0])); else if(n==2) ba::create_callback_continuation(two,Sub<int>(0,k[0]),Sub<void>(1,k[1])); else ba::create_callback_continuation(three,Sub<int>(0,k[0]),Sub<std::string>(1,k[1]),Sub<int>(2,k[2])); }
    else { if(n==1) ba::create_callback_continuation_job<J>(one,Sub<int>(0,k[0])); else if(n==2) ba::create_callback_continuation_job<J>(two,Sub<int>(0,k[0]),Sub<void>(1,k[1])); else ba::create_callback_continuation_job_timeout<J>(three,std::chrono::milliseconds(0),Sub<int>(0,k[0]),Sub<std::string>(1,k[1]),Sub<int>(2,k[2])); } }); }
MC_SCENARIO(tuples,2,3,F_SEQ){ cs=CStash(); int n=2+pick(2), job=pick(2); int k[3]={0,0,0}; for(int i=0;i<n;i++) k[i]=pick(K_N);
  c_run("tuple",[=](ba::continuation_result<int> res){ int kk[3]={k[0],k[1],k[2]}; typedef std::tuple<ba::expected<int>,ba::expected<std::string>> R2; typedef std::tuple<ba::expected<int>,ba::expected<void>,ba::expected<std::string>> R3;
    auto two=[=](R2 r){ k_fire(); k_check(std::get<0>(r),0,k_fails(kk[0])); k_check(std::get<1>(r),1,k_fails(kk[1])); res.set_value(1); };
    auto three=[=](R3 r){ k_fire(); k_check(std::get<0>(r),0,k_fails(kk[0])); k_check(std::get<1>(r),1,k_fails(kk[1])); k_check(std::get<2>(r),2,k_fails(kk[2])); res.set_value(1); };
    if(n==2){ auto t=std::make_tuple(Sub<int>(0,k[0]),Sub<std::string>(1,k[1])); if(job) ba::create_callback_continuation_job<J>(two,R2(),std::move(t)); else ba::create_callback_continuation(two,R2(),std::move(t)); }
    else { auto t=std::make_tuple(Sub<int>(0,k[0]),Sub<void>(1,k[1]),Sub<std::string>(2,k[2])); if(job) ba::create_callback_continuation_job<J>(three,R3(),std::move(t)); else ba::create_callback_continuation(three,R3(),std::move(t)); } }); }
template<class T> void seqs(const char*name,int maxn){ cs=CStash(); int n=pick(maxn+1), job=pick(2); std::vector<int> k(n); for(auto&x:k) x=pick(K_N);
  c_run(name,[=](ba::continuation_result<int> res){ std::vector<Sub<T>> v; for(int i=0;i<n;i++) v.emplace_back(i,k[i]);
    auto done=[=](std::vector<ba::expected<T>> r){ k_fire(); MC_ASSERT((int)r.size()==n,"%d results of %d subtasks",(int)r.size(),n); for(int i=0;i<n;i++) k_check(r[i],i,k_fails(k[i])); res.set_value(1); };
    if(job) ba::create_callback_continuation_job<J>(done,std::move(v)); else ba::create_callback_continuation(done,std::move(v)); }); }
MC_SCENARIO(sequences,1,2,F_SEQ){ seqs<int>("vector of tasks",3); }
MC_SCENARIO(sequences_void,2,3,F_SEQ){ seqs<void>("vector of tasks (void)",2); }
MC_SCENARIO(sequences_string,2,3,F_SEQ){ seqs<std::string>("vector of tasks (string)",2); }
// sequences of continuations
template<class T> void conts(int maxn){ cs=CStash(); int n=pick(maxn+1), post=pick(2); std::vector<int> k(n); for(auto&x:k) x=pick(K_N);
  c_run("vector of continuations",[=](ba::continuation_result<int> res){ std::vector<ba::detail::callback_continuation<T,J>> v; for(int i=0;i<n;i++) v.push_back(post? ba::top_level_callback_continuation_force_post<T>(Sub<T>(i,k[i])) : ba::top_level_callback_continuation<T>(Sub<T>(i,k[i])));
    ba::create_callback_continuation([=](std::vector<ba::expected<T>> r){ k_fire(); MC_ASSERT((int)r.size()==n,"%d results of %d subtasks",(int)r.size(),n); for(int i=0;i<n;i++) k_check(r[i],i,k_fails(k[i])); res.set_value(1); },std::move(v)); }); }
MC_SCENARIO(sequences_of_continuations,1,2,F_SEQ){ conts<int>(3); }
MC_SCENARIO(sequences_of_continuations_void,1,2,F_SEQ){ conts<void>(2); }
// continuations given as subtasks next to plain ones
MC_SCENARIO(mixed,1,2,F_SEQ){ cs=CStash(); int form=pick(4), post=pick(2); int k[3]; for(int i=0;i<3;i++) k[i]=pick(K_N);
  c_run("mixed subtasks",[=](ba::continuation_result<int> res){ int kk[3]={k[0],k[1],k[2]}; auto top=[post](int i,int k){ return post? ba::top_level_callback_continuation_force_post<int>(Sub<int>(i,k)) : ba::top_level_callback_continuation<int>(Sub<int>(i,k)); };
    auto three=[=](std::tuple<ba::expected<int>,ba::expected<int>,ba::expected<int>> r){ k_fire(); k_check(std::get<0>(r),0,k_fails(kk[0])); k_check(std::get<1>(r),1,k_fails(kk[1])); k_check(std::get<2>(r),2,k_fails(kk[2])); res.set_value(1); };
    switch(form){ case 0: ba::create_callback_continuation(three,top(0,k[0]),Sub<int>(1,k[1]),Sub<int>(2,k[2])); break; case 1: ba::create_callback_continuation(three,Sub<int>(0,k[0]),top(1,k[1]),Sub<int>(2,k[2])); break; case 2: ba::create_callback_continuation(three,Sub<int>(0,k[0]),Sub<int>(1,k[1]),top(2,k[2])); break; default: ba::create_callback_continuation(three,top(0,k[0]),top(1,k[1]),top(2,k[2])); } }); }
// lambdas as subtasks, ready continuations, top level lambdas
MC_SCENARIO(lambdas,2,3,F_SEQ){ cs=CStash(); int fail=pick(8), form=pick(2);
  c_run("lambdas",[=](ba::continuation_result<int> res){ auto body=[fail](int i){ if(cs.ran[i]++) mc::fail("lambda %d executed twice",i); cs.delivered[i]++; if(fail>>i&1) throw my_err(i); };
    auto l0=ba::make_lambda_continuation_wrapper([body]{ body(0); return 100; },"l0"); auto l1=ba::make_lambda_continuation_wrapper([body]{ body(1); },"l1"); auto l2=ba::make_lambda_continuation_wrapper([body]{ body(2); return std::string("v2"); },"l2");
    auto three=[=](std::tuple<ba::expected<int>,ba::expected<void>,ba::expected<std::string>> r){ k_fire(); k_check(std::get<0>(r),0,fail&1); k_check(std::get<1>(r),1,fail>>1&1); k_check(std::get<2>(r),2,fail>>2&1); res.set_value(1); };
    if(form) ba::create_callback_continuation(three,std::move(l0),std::move(l1),std::move(l2)); else ba::create_callback_continuation(three,std::tuple<ba::expected<int>,ba::expected<void>,ba::expected<std::string>>(),std::make_tuple(std::move(l0),std::move(l1),std::move(l2))); }); }
MC_SCENARIO(ready,1,2,F_SEQ){ int form=pick(3); cs=CStash(); SeqPool p; p.s->policy=pick(2); int calls=0; auto f=ba::post_future(p.h,[&]{ if(form==0) return ba::make_ready_continuation(7); if(form==1) return ba::top_level_callback_continuation<int>(ba::make_top_level_lambda_continuation<int>([&](ba::continuation_result<int> r){ calls++; r.set_value(7); },"tl")); return ba::top_level_callback_continuation_force_post<int>(ba::make_top_level_lambda_continuation<int>([&](ba::continuation_result<int> r){ calls++; cs.later.push_back([r]{ r.set_value(7); }); },"tl")); }); drain_all(p); MC_ASSERT((f.wait_for(std::chrono::seconds(0))==std::future_status::ready && f.get()==7),"form %d: the future did not get the value",form); MC_ASSERT(calls==(form!=0),"the lambda ran %d times",calls); }
// on_done given late: the completion is attached before, between or after the results
MC_SCENARIO(late_on_done,2,3,F_SEQ){ cs=CStash(); int k=pick(K_N), when=pick(3), post=pick(2); SeqPool p; p.s->policy=pick(2); bool got=false; typedef ba::detail::callback_continuation<int,J> C; auto keep=std::make_shared<std::unique_ptr<C>>();
  p.s->post(J([&]{ keep->reset(new C(post? ba::top_level_callback_continuation_force_post<int>(Sub<int>(0,k)) : ba::top_level_callback_continuation<int>(Sub<int>(0,k)))); if(when==0) (**keep).on_done([&](std::tuple<ba::expected<int>> r){ k_fire(); k_check(std::get<0>(r),0,k_fails(k)); got=true; }); else if(when==1) p.s->post(J([&]{ (**keep).on_done([&](std::tuple<ba::expected<int>> r){ k_fire(); k_check(std::get<0>(r),0,k_fails(k)); got=true; }); })); }));
  drain_all(p); if(when==2) (**keep).on_done([&](std::tuple<ba::expected<int>> r){ k_fire(); k_check(std::get<0>(r),0,k_fails(k)); got=true; }); MC_ASSERT(got&&cs.fired==1,"completion attached %s: invoked %d times",when==0?"at once":when==1?"by another task":"after everything",cs.fired); }
