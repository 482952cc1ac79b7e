// C13, on real schedulers: results arriving from several threads at once, completions attached while results arrive
#include "sched_more.h"
#include <boost/asynchronous/continuation_task.hpp>
enum { FIRE=1, DELIV=2, RUN=3 };
struct Later { std::mutex m; std::vector<std::function<void()>> v; };
template<class T> struct S : ba::continuation_task<T> { int id,kind; std::shared_ptr<Later> later; S(int i,int k,std::shared_ptr<Later> l={}):ba::continuation_task<T>("s"),id(i),kind(k),later(l){}
  static void give(ba::continuation_result<T> r,int id,bool fail){ mc::ev(DELIV,id); if(fail) r.set_exception(std::make_exception_ptr(my_err(id))); else if constexpr(std::is_void<T>::value) r.set_value(); else r.set_value(T(100+id)); }
  void operator()(){ auto r=this->this_task_result(); int i=id,k=kind; mc::ev(RUN,i); mc::point();
    if(k<2) give(r,i,k==1); else if(k==2){ std::lock_guard<std::mutex> g(later->m); later->v.push_back([r,i]{ give(r,i,false); }); }
    else ba::create_callback_continuation([r,i](auto t){ MC_ASSERT(mc::count_ev(DELIV,i*2+20)==1&&mc::count_ev(DELIV,i*2+21)==1,"nested completion before its subtasks"); int v=std::get<0>(t).get()+std::get<1>(t).get(); MC_ASSERT(v==200+4*i+41,"nested values %d",v); give(r,i,false); },S<int>(i*2+20,0),S<int>(i*2+21,0)); } };
template<class T> void chk(ba::expected<T>& e,int id,bool fail){ MC_ASSERT(mc::count_ev(DELIV,id)==1,"the completion ran before subtask %d delivered",id); int code=-1; bool val=false; try{ if constexpr(std::is_void<T>::value) e.get(); else { int v=(int)e.get(); MC_ASSERT(v==100+id,"position %d holds %d",id,v); } val=true; } catch(my_err&x){ code=x.code; } MC_ASSERT(fail?(!val&&code==id):val,"position %d: %s, code %d",id,val?"value":"exception",code); }
struct Top : ba::continuation_task<int> { std::function<void(ba::continuation_result<int>)> f; Top(std::function<void(ba::continuation_result<int>)> f_):ba::continuation_task<int>("top"),f(std::move(f_)){} void operator()(){ f(this->this_task_result()); } };
// three subtasks in a variadic, tuple or vector continuation
template<class M> void three(int form,int k0,int k1,int k2,int how){ auto s=M::make(); auto ks=std::make_shared<std::array<int,3>>(std::array<int,3>{k0,k1,k2}); auto later=std::make_shared<Later>();
  auto create=[=](ba::continuation_result<int> res){ auto fire=[=]{ mc::ev(FIRE,0); };
    if(form==0) ba::create_callback_continuation([=](std::tuple<ba::expected<int>,ba::expected<void>,ba::expected<int>> r){ fire(); chk(std::get<0>(r),0,(*ks)[0]==1); chk(std::get<1>(r),1,(*ks)[1]==1); chk(std::get<2>(r),2,(*ks)[2]==1); res.set_value(5); },S<int>(0,k0,later),S<void>(1,k1,later),S<int>(2,k2,later));
    else if(form==1) { typedef std::tuple<ba::expected<int>,ba::expected<void>,ba::expected<int>> R; ba::create_callback_continuation([=](R r){ fire(); chk(std::get<0>(r),0,(*ks)[0]==1); chk(std::get<1>(r),1,(*ks)[1]==1); chk(std::get<2>(r),2,(*ks)[2]==1); res.set_value(5); },R(),std::make_tuple(S<int>(0,k0,later),S<void>(1,k1,later),S<int>(2,k2,later))); }
    else { std::vector<S<int>> v; v.emplace_back(0,k0,later); v.emplace_back(1,k1,later); v.emplace_back(2,k2,later); ba::create_callback_continuation([=](std::vector<ba::expected<int>> r){ fire(); MC_ASSERT(r.size()==3,"%d results",(int)r.size()); for(int i=0;i<3;i++) chk(r[i],i,(*ks)[i]==1); res.set_value(5); },std::move(v)); } };
  int want=(k0==2)+(k1==2)+(k2==2); std::future<int> f; std::thread ext;
  if(want) ext=std::thread([=]{ for(int i=0;i<want;i++){ mc::wait_until([&]{ std::lock_guard<std::mutex> g(later->m); return !later->v.empty(); }); std::function<void()> x; { std::lock_guard<std::mutex> g(later->m); x=later->v.back(); later->v.pop_back(); } x(); } });
  if(how==0) f=ba::post_future(s,[create]{ return ba::top_level_callback_continuation<int>(Top(create)); },std::string("t"),0); else if(how==1) f=ba::post_future(s,[create]{ return ba::top_level_callback_continuation_force_post<int>(Top(create)); },std::string("t"),0); else { auto t=ba::interruptible_post_future(s,[create]{ return ba::top_level_callback_continuation<int>(Top(create)); },std::string("t"),0); f=std::move(std::get<0>(t)); }
  int v=f.get(); MC_ASSERT(v==5,"value %d",v); MC_ASSERT(mc::count_ev(FIRE)==1,"the completion was invoked %d times",mc::count_ev(FIRE)); for(int i=0;i<3;i++) MC_ASSERT(mc::count_ev(RUN,i)==1,"subtask %d ran %d times",i,mc::count_ev(RUN,i)); if(ext.joinable()) ext.join();
  std::string o; for(int i=0;i<mc::nev();i++) if(mc::event(i).kind==DELIV) o+=std::to_string(mc::event(i).a); mc::outcome_s(o); }
MC_SCENARIO(pool_variadic,1,2,F_NONE){ three<mk_pool>(0,0,1,3,0); }
MC_SCENARIO(pool_tuple,1,2,F_NONE){ three<mk_pool>(1,0,0,1,1); }
MC_SCENARIO(pool_vector,1,2,F_NONE){ three<mk_pool>(2,1,0,0,1); }
MC_SCENARIO(pool_external,1,2,F_NONE){ three<mk_pool>(0,2,0,2,0); }
MC_SCENARIO(pool_interruptible,1,2,F_NONE){ three<mk_pool>(0,0,1,0,2); }
MC_SCENARIO(pool_interruptible_vector,0,2,F_NONE){ three<mk_pool>(2,0,1,0,2); }
MC_SCENARIO(single_external,1,2,F_NONE){ three<mk_single>(2,2,2,0,1); }
MC_SCENARIO(multiqueue_variadic,1,2,F_NONE){ three<mk_mq>(0,0,1,0,1); }
MC_SCENARIO(stealing_vector,0,2,F_NONE){ three<mk_steal>(2,0,3,0,1); }
// the counter of two concurrent deliveries and the late attachment of the completion, by three threads, nothing else running
static void race(int form){ auto s=mk_pool1::make(); typedef ba::detail::callback_continuation<int> C; auto later=std::make_shared<Later>(); std::shared_ptr<C> c; bool* fired=new bool(false);
  auto f=ba::post_future(s,[&]{ c=std::make_shared<C>(ba::top_level_callback_continuation<int>(S<int>(0,2,later))); },std::string("x"),0); f.get();
  std::function<void()> d=later->v[0]; later->v.clear();
  std::thread a([&]{ d(); }); c->on_done([&,fired](std::tuple<ba::expected<int>> r){ mc::ev(FIRE,0); chk(std::get<0>(r),0,false); *fired=true; }); a.join(); MC_ASSERT(*fired && mc::count_ev(FIRE)==1,"completion attached while the result arrives: invoked %d times",mc::count_ev(FIRE)); delete fired; }
MC_SCENARIO(attach_race,2,5,F_RACE){ race(0); }
static void deliver_race(int seq){ auto s=mk_pool1::make(); auto later=std::make_shared<Later>();
  auto f=ba::post_future(s,[=]{ auto done=[](auto r){ mc::ev(FIRE,0); if constexpr(std::is_same<decltype(r),std::vector<ba::expected<int>>>::value){ chk(r[0],0,false); chk(r[1],1,false); } else { chk(std::get<0>(r),0,false); chk(std::get<1>(r),1,false); } };
    if(seq){ std::vector<S<int>> v; v.emplace_back(0,2,later); v.emplace_back(1,2,later); ba::create_callback_continuation([done](std::vector<ba::expected<int>> r){ done(std::move(r)); },std::move(v)); } else ba::create_callback_continuation([done](std::tuple<ba::expected<int>,ba::expected<int>> r){ done(std::move(r)); },S<int>(0,2,later),S<int>(1,2,later)); },std::string("x"),0); f.get();
  mc::wait_until([&]{ std::lock_guard<std::mutex> g(later->m); return later->v.size()==2; });
  auto d0=later->v[0], d1=later->v[1]; later->v.clear(); std::thread a([&]{ d0(); }); d1(); a.join(); MC_ASSERT(mc::count_ev(FIRE)==1,"two results delivered at the same time: completion invoked %d times",mc::count_ev(FIRE)); }
MC_SCENARIO(deliver_race_variadic,2,4,F_RACE){ deliver_race(0); }
MC_SCENARIO(deliver_race_vector,2,4,F_RACE){ deliver_race(1); }
