// C19: diagnostics of loggable jobs: one faithful entry per finished task, current tasks while they run and not afterwards
#include "sched_more.h"
#include <boost/asynchronous/diagnostics/any_loggable.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/continuation_task.hpp>
#include <map>
typedef ba::any_loggable LOG; typedef ba::any_shared_scheduler_proxy<LOG> PL; typedef ba::lockfree_queue<LOG> LGQ; typedef std::chrono::high_resolution_clock CK;
struct l_single{ static constexpr int T=1; static PL make(){ return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<LGQ>>(); } };
struct l_pool{ static constexpr int T=2; static PL make(){ return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<LGQ>>(2); } };
struct l_mq{ static constexpr int T=2; static PL make(){ return ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<LGQ>>(2); } };
struct l_steal{ static constexpr int T=2; static PL make(){ return ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<LGQ,ba::no_cpu_load_saving,true>>(2); } };
struct l_smq{ static constexpr int T=2; static PL make(){ return ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<LGQ,ba::default_find_position<>,ba::no_cpu_load_saving,true>>(2); } };
struct l_mt{ static constexpr int T=2; static PL make(){ return ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<LGQ>>(2,2); } };
struct l_io{ static constexpr int T=1; static PL make(){ return ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<ba::lockfree_queue<LOG,ba::lockfree_size>>>(1,2); } };
struct l_io3{ static constexpr int T=1; static PL make(){ return ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<ba::lockfree_queue<LOG,ba::lockfree_size>>>(1,3); } };
struct l_comp{ static constexpr int T=2; static PL make(){ auto a=ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<LGQ>>(1); auto b=ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<LGQ>>(1); return ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<LOG>>(a,b); } };
// what the harness knows about a task
enum How { OK=0, THROW=1, INTERRUPTED=2, UNNOTICED=3, BEFORE=4 };
struct Rec { std::string name; int how=OK; bool fut=false; bool began=false; bool ended=false; CK::time_point p0{},p1{},b{},e{}; boost::thread::id id; };
static std::vector<std::unique_ptr<Rec>> R; static bool gate[8], intr;
static void body(int k,bool gated){ Rec&r=*R[k]; r.id=boost::this_thread::get_id(); r.b=CK::now(); r.began=true;
  if(gated) mc::wait_until([k]{ return gate[k]; });
  if(r.how==INTERRUPTED){ try{ boost::this_thread::interruption_point(); }catch(...){ r.e=CK::now(); r.ended=true; throw; } mc::fail("not interrupted"); }
  r.e=CK::now(); r.ended=true; if(r.how==THROW) throw my_err(k); }
static int rec(std::string n,int how,bool fut){ R.push_back(std::make_unique<Rec>()); R.back()->name=n; R.back()->how=how; R.back()->fut=fut; R.back()->p0=CK::now(); return (int)R.size()-1; }
template<class F> LOG named(F f,std::string n){ typename ba::job_traits<LOG>::wrapper_type w((ba::any_callable(f))); w.set_name(n); return LOG(w); }
// api 0 post, 1 post_future, 2 interruptible_post, 3 interruptible_post_future
static int post(PL& s,int api,std::string n,int how,bool gated,ba::any_interruptible* in=nullptr,size_t prio=0){
  int k=rec(n,how,api==1||api==3); auto f=[k,gated]{ body(k,gated); };
  if(api==0) s.post(named(f,n),prio); else if(api==1) (void)ba::post_future(s,f,n,prio); else if(api==2) *in=s.interruptible_post(named(f,n),prio); else *in=std::get<1>(ba::interruptible_post_future(s,f,n,prio));
  R[k]->p1=CK::now(); return k; }
static long us(CK::time_point t){ return (long)t.time_since_epoch().count(); }
// all tasks have ended: totals are exactly the records, one to one
static void check_totals(ba::scheduler_diagnostics d,std::vector<int> ks,char const* when){
  std::map<std::string,std::vector<int>> by; for(int k:ks) by[R[k]->name].push_back(k);
  for(auto&t:d.totals()) if(t.first!=""&&t.second.size()) MC_ASSERT(by.count(t.first),"%s: entries of an unknown task '%s'",when,t.first.c_str());
  for(auto&b:by){ auto it=d.totals().find(b.first); size_t n=it==d.totals().end()?0:it->second.size(); MC_ASSERT(n==b.second.size(),"%s: %d entries for the %d finished tasks named '%s'",when,(int)n,(int)b.second.size(),b.first.c_str());
    std::vector<char> used(n,0); for(auto const& i:it->second){ MC_ASSERT(i.get_posted_time()<=i.get_started_time()&&i.get_started_time()<=i.get_finished_time(),"%s: times of '%s': posted %ld started %ld finished %ld",when,b.first.c_str(),us(i.get_posted_time()),us(i.get_started_time()),us(i.get_finished_time()));
      bool found=false; for(size_t j=0;j<b.second.size()&&!found;j++){ Rec&r=*R[b.second[j]]; if(used[j]) continue;
        if(i.get_posted_time()<r.p0||i.get_posted_time()>r.p1) continue; if(r.began&&(i.get_started_time()>r.b||i.get_finished_time()<r.e||i.get_executing_thread_id()!=r.id)) continue;
        if(r.how==OK||r.how==UNNOTICED){ if(i.is_failed()||i.is_interrupted()) continue; } if(r.how==THROW){ if(!i.is_failed()||i.is_interrupted()) continue; } 
        if(r.how==INTERRUPTED){ if(!(r.fut?i.is_failed()||i.is_interrupted():i.is_interrupted())) continue; } if(r.how==BEFORE){ if(!i.is_interrupted()) continue; }
        used[j]=1; found=true; }
      MC_ASSERT(found,"%s: an entry of '%s' matches no task: failed %d interrupted %d, how it ended %d, thread %s, times %s",when,b.first.c_str(),i.is_failed(),i.is_interrupted(),R[b.second[0]]->how,i.get_executing_thread_id()==R[b.second[0]]->id?"right":"wrong",i.get_posted_time()>=R[b.second[0]]->p0&&i.get_posted_time()<=R[b.second[0]]->p1?"right":"wrong"); } }
}
static void check_current(ba::scheduler_diagnostics d,std::vector<int> ks,char const* when){
  std::vector<char> seen(ks.size(),0); for(auto&c:d.current()){ if(c.first=="") continue; int f=-1; for(size_t j=0;j<ks.size();j++) if(!seen[j]&&R[ks[j]]->name==c.first&&R[ks[j]]->id==c.second.get_executing_thread_id()) f=j;
    MC_ASSERT(f>=0,"%s: '%s' is shown as current but is not running",when,c.first.c_str()); seen[f]=1; Rec&r=*R[ks[f]]; MC_ASSERT(c.second.get_posted_time()>=r.p0&&c.second.get_posted_time()<=c.second.get_started_time()&&c.second.get_started_time()<=r.b,"%s: times of the current '%s'",when,c.first.c_str()); MC_ASSERT(!c.second.is_failed(),"%s: the current '%s' is failed",when,c.first.c_str()); }
  for(size_t j=0;j<ks.size();j++) MC_ASSERT(seen[j],"%s: the running '%s' is not shown as current",when,R[ks[j]]->name.c_str());
}
template<class K> void fresh(){ R.clear(); R.reserve(16); for(auto&g:gate) g=false; intr=false; }
// one task ends in any way, others follow
template<class K> void ends(int api,int how){
  fresh<K>(); auto s=K::make(); ba::any_interruptible in; std::vector<int> ks,all; bool stop=false; 
  if(how==BEFORE) for(int i=0;i<K::T;i++){ int g=rec("g",OK,false); s.post(named([g]{ body(g,false); mc::wait_until([]{ return intr; }); R[g]->e=CK::now(); },"g"),i%2*(K::T>1?1:0)); R[g]->p1=CK::now(); all.push_back(g); }
  if(how==BEFORE) mc::settle(); bool both=true; for(int g:all) both=both&&R[g]->began;
  int a=post(s,api,"a",how,how==INTERRUPTED||how==UNNOTICED,&in); all.push_back(a);
  if(how==BEFORE){ if(!both){ intr=true; mc::outcome(-1); return; } in.interrupt(); intr=true; } 
  else if(how>=INTERRUPTED){ mc::wait_until([&]{ return R[a]->began; }); check_current(s.get_diagnostics(),{a},"running"); in.interrupt(); gate[a]=true; }
  all.push_back(post(s,mc::choose(2),"b",OK,false)); all.push_back(post(s,0,"a",OK,false));
  mc::settle(); auto d=s.get_diagnostics(); check_current(d,{},"idle"); check_totals(d,all,"idle");
  s.clear_diagnostics(); d=s.get_diagnostics(); check_totals(d,{},"cleared"); std::vector<int> z{post(s,1,"a",THROW,false)}; mc::settle(); d=s.get_diagnostics(); check_totals(d,z,"after clear"); check_current(d,{},"after clear"); mc::outcome(1);
}
// what is running is shown, what has ended is not, however it ended
template<class K> void current(int how,int n){
  fresh<K>(); auto s=K::make(); ba::any_interruptible in; std::vector<int> run,done; char const* nm[]={"a","b","c"};
  for(int i=0;i<n;i++) run.push_back(post(s,i==0&&how==INTERRUPTED?2:0,mc::choose(2)?"x":nm[i],i==0?how:OK,true,&in)); 
  mc::settle(); std::vector<int> act; for(int k:run) if(R[k]->began) act.push_back(k); check_current(s.get_diagnostics(),act,"running"); check_totals(s.get_diagnostics(),{},"running");
  while(!act.empty()){ int i=mc::choose((int)act.size()); int k=act[i]; if(R[k]->how==INTERRUPTED) in.interrupt(); gate[k]=true; done.push_back(k); mc::settle(); act.clear(); for(int q:run) if(R[q]->began&&!R[q]->ended) act.push_back(q); auto d=s.get_diagnostics(); check_current(d,act,"one ended"); check_totals(d,done,"one ended"); 
    if(done.size()==1&&mc::choose(2)){ run.push_back(post(s,0,"n",OK,true)); mc::settle(); act.clear(); for(int q:run) if(R[q]->began&&!R[q]->ended) act.push_back(q); d=s.get_diagnostics(); check_current(d,act,"one more"); check_totals(d,done,"one more"); } }
  MC_ASSERT(done.size()==run.size(),"tasks not run"); mc::outcome((int)done.size());
}
// io pool: temporary workers come and go
template<class K> void io_current(){
  fresh<K>(); auto s=K::make(); std::vector<int> run,act; auto upd=[&]{ act.clear(); for(int q:run) if(R[q]->began&&!R[q]->ended) act.push_back(q); };
  for(int i=0;i<4;i++){ run.push_back(post(s,0,"a"+std::to_string(i),OK,true)); } mc::settle(); upd(); check_current(s.get_diagnostics(),act,"running");
  int k=act[mc::choose((int)act.size())]; gate[k]=true; mc::settle(); upd(); check_current(s.get_diagnostics(),act,"one ended"); k=act[mc::choose((int)act.size())]; gate[k]=true; mc::settle(); for(int i=4;i<7;i++) run.push_back(post(s,0,"a"+std::to_string(i),OK,true)); mc::settle(); upd(); check_current(s.get_diagnostics(),act,"more posted");
  for(int i=0;i<7;i++) gate[i]=true; mc::settle(); check_current(s.get_diagnostics(),{},"idle"); check_totals(s.get_diagnostics(),run,"idle"); mc::outcome((int)act.size());
}
// readers and clearing while tasks run
template<class K> void readers(bool clear){
  fresh<K>(); auto s=K::make(); std::vector<int> ks; for(int i=0;i<3;i++) ks.push_back(post(s,i==1?1:0,i==1?"a":"b",i==1?THROW:OK,false)); 
  size_t seen=0; if(clear){ s.clear_diagnostics(); auto d0=s.get_diagnostics(); for(auto&t:d0.totals()) seen+=t.second.size(); MC_ASSERT(seen<=3,"seen"); std::vector<int> later{post(s,0,"l",OK,false)}; mc::settle(); auto d=s.get_diagnostics(); size_t n=0; for(auto&t:d.totals()) if(t.first!="l") n+=t.second.size(); MC_ASSERT(n<=3&&n>=seen,"entries"); auto it=d.totals().find("l"); MC_ASSERT(it!=d.totals().end()&&it->second.size()==1,"task after the clear"); check_current(d,{},"idle"); mc::outcome((int)n); return; }
  for(int r=0;r<2;r++){ auto d=s.get_diagnostics(); size_t n=0; for(auto&t:d.totals()){ n+=t.second.size(); MC_ASSERT(t.first=="a"||t.first=="b","name"); for(auto&i:t.second){ MC_ASSERT(i.get_posted_time()<=i.get_started_time()&&i.get_started_time()<=i.get_finished_time(),"times"); MC_ASSERT(i.is_failed()==(t.first=="a"),"failed flag of %s",t.first.c_str()); } } MC_ASSERT(n<=3&&n>=seen,"entries vanish or appear"); seen=n; 
    for(auto&c:d.current()) MC_ASSERT(c.first==""||c.first=="a"||c.first=="b","current name"); }
  mc::settle(); check_totals(s.get_diagnostics(),ks,"idle"); mc::outcome((int)seen);
}
// the pool of a composite: same names in both subpools
static void composite(){
  fresh<l_comp>(); auto s=l_comp::make(); std::vector<int> ks,a,b; for(int i=0;i<4;i++){ int p=1+mc::choose(2); int k=post(s,0,"a",i==1?THROW:OK,false,nullptr,p); ks.push_back(k); (p==1?a:b).push_back(k); } mc::settle(); auto d=s.get_diagnostics(); check_totals(d,ks,"all"); check_current(d,{},"idle"); check_totals(s.get_diagnostics(1),a,"first"); check_totals(s.get_diagnostics(2),b,"second"); s.clear_diagnostics(); check_totals(s.get_diagnostics(),{},"cleared"); mc::outcome((int)a.size());
}
// diagnostics read from inside a task, through the locked weak scheduler
template<class K> void inside(){
  fresh<K>(); auto s=K::make(); int k=rec("a",OK,false); s.post(named([k]{ R[k]->id=boost::this_thread::get_id(); R[k]->b=CK::now(); R[k]->began=true; auto l=ba::get_thread_scheduler<LOG>().lock(); check_current(l.get_diagnostics(),{k},"inside"); check_totals(l.get_diagnostics(),{},"inside"); R[k]->e=CK::now(); R[k]->ended=true; },"a")); R[k]->p1=CK::now(); mc::settle(); check_totals(s.get_diagnostics(),{k},"idle"); mc::outcome(1);
}
// a servant's task and its callback are both logged, each in its own scheduler
struct SV : ba::trackable_servant<LOG,LOG>{ SV(ba::any_weak_scheduler<LOG> s,PL w):ba::trackable_servant<LOG,LOG>(s,w){}
  void go(int how,int cbhow){ int t=rec("t",how,true),c=rec("t",cbhow,false); R[c]->p0=R[t]->p0; post_callback([t]{ body(t,false); },[c](ba::expected<void>){ body(c,false); },"t",0,0); R[t]->p1=CK::now(); } };
struct SVP : ba::servant_proxy<SVP,SV,LOG>{ template<class X,class Y> SVP(X s,Y w):ba::servant_proxy<SVP,SV,LOG>(s,w){} typedef typename ba::servant_proxy<SVP,SV,LOG>::servant_type servant_type; typedef typename ba::servant_proxy<SVP,SV,LOG>::callable_type callable_type; BOOST_ASYNC_FUTURE_MEMBER_LOG(go,"go") };
static void servant(int how,int cbhow){
  fresh<l_pool>(); auto s=l_single::make(); auto w=l_single::make(); { SVP p(s,w); (void)p.go(how,cbhow).get(); mc::settle(); R[1]->p1=R[1]->b; auto d=w.get_diagnostics(); check_totals(d,{0},"worker"); check_current(d,{},"worker"); 
    d=s.get_diagnostics(); auto it=d.totals().find("t"); MC_ASSERT(it!=d.totals().end()&&it->second.size()==1,"callback logged %d times",it==d.totals().end()?0:(int)it->second.size()); auto&i=it->second.front(); MC_ASSERT(i.is_failed()==(cbhow==THROW)&&i.get_executing_thread_id()==R[1]->id&&i.get_finished_time()>=R[1]->e&&i.get_started_time()<=R[1]->b&&i.get_posted_time()<=i.get_started_time(),"callback entry: failed %d",i.is_failed());
    it=d.totals().find("go"); MC_ASSERT(it!=d.totals().end()&&it->second.size()==1&&!it->second.front().is_failed(),"go"); } mc::outcome(how);
}
// named subtasks of continuations
struct Leaf : ba::continuation_task<int>{ int k; Leaf(int k,std::string n):ba::continuation_task<int>(n),k(k){} void operator()()const{ auto r=this->this_task_result(); R[k]->id=boost::this_thread::get_id(); R[k]->b=CK::now(); R[k]->began=true; R[k]->e=CK::now(); R[k]->ended=true; r.set_value(k); } };
struct Top : ba::continuation_task<int>{ bool fut; Top(bool fut):ba::continuation_task<int>("top"),fut(fut){} void operator()()const{ auto r=this->this_task_result(); int a=rec("l",OK,true),b=rec("m",OK,true); 
  if(fut) ba::create_continuation_job<LOG>([r](std::tuple<std::future<int>,std::future<int>> t){ r.set_value(std::get<0>(t).get()+std::get<1>(t).get()); },Leaf(a,"l"),Leaf(b,"m")); else ba::create_callback_continuation_job<LOG>([r](std::tuple<ba::expected<int>,ba::expected<int>> t){ r.set_value(std::get<0>(t).get()+std::get<1>(t).get()); },Leaf(a,"l"),Leaf(b,"m")); } };
template<class K> void cont(bool fut){
  fresh<K>(); auto s=K::make(); auto f=ba::post_future(s,[fut]{ return ba::top_level_callback_continuation_job<int,LOG>(Top(fut)); },"root",0); int v=f.get(); MC_ASSERT(v==1,"value"); mc::settle(); auto d=s.get_diagnostics(); check_current(d,{},"idle"); 
  for(auto&t:d.totals()){ for(auto&i:t.second){ MC_ASSERT(!i.is_failed()&&!i.is_interrupted(),"flags of %s",t.first.c_str()); MC_ASSERT(i.get_posted_time()<=i.get_started_time()&&i.get_started_time()<=i.get_finished_time(),"times of %s",t.first.c_str()); } }
  auto n=[&](char const* c){ auto it=d.totals().find(c); return it==d.totals().end()?0:(int)it->second.size(); }; MC_ASSERT(n("root")==1,"root %d",n("root")); MC_ASSERT(n("l")<=1&&n("m")<=1&&n("l")+n("m")>=1,"subtasks l %d m %d",n("l"),n("m"));
  for(int k=0;k<2;k++){ auto it=d.totals().find(R[k]->name); if(it!=d.totals().end()) for(auto&i:it->second) MC_ASSERT(i.get_executing_thread_id()==R[k]->id&&i.get_started_time()<=R[k]->b&&i.get_finished_time()>=R[k]->e,"entry of the subtask"); } mc::outcome(n("l")*2+n("m"));
}
// the table itself
typedef ba::diagnostics_table<std::string,int> TB;
MC_SCENARIO(table,2,3,F_RACE){
  TB t(2,1+mc::choose(2)*18); bool cl=mc::choose(2); std::thread a([&t]{ t.set_current(0,"a",1); t.add("a",1); t.reset_current(0); t.add("b",2); }), b([&t]{ t.set_current(1,"b",3); t.add("b",3); t.reset_current(1); t.set_current(1,"a",4); });
  size_t last=0; for(int r=0;r<2;r++){ auto m=t.get_map(); size_t n=0; for(auto&x:m) n+=x.second.size(); if(!cl) MC_ASSERT(n>=last,"vanished"); last=n; for(auto&x:m) for(int v:x.second) MC_ASSERT(x.first=="a"?v==1:v==2||v==3,"value %d",v); for(auto&c:t.get_current()) MC_ASSERT((c.first==""&&c.second==0)||(c.first=="a"&&(c.second==1||c.second==4))||(c.first=="b"&&c.second==3),"current '%s' %d",c.first.c_str(),c.second); if(cl&&r==0) t.clear(); }
  a.join(); b.join(); auto m=t.get_map(); auto c=t.get_current(); MC_ASSERT(c.size()==2&&c[0].first==""&&c[1].first=="a"&&c[1].second==4,"current"); if(!cl) MC_ASSERT(m["a"].size()==1&&m["b"].size()==2,"entries"); else MC_ASSERT(m["a"].size()<=1&&m["b"].size()<=2,"entries"); mc::outcome((int)(m["a"].size()*3+m["b"].size())); t.clear(); MC_ASSERT(t.get_map().empty(),"clear");
}
#define K19(K,QB,TB) MC_SCENARIO(ends_##K,QB,TB,F_NONE){ int api=mc::choose(4); int how=api<2?mc::choose(2):mc::choose(5); ends<K>(api,how); } MC_SCENARIO(current_##K,QB<1?QB:(K::T>1?0:1),TB,F_NONE){ int how=mc::choose(3); current<K>(how,K::T+1); } \
 MC_SCENARIO(readers_##K,QB,TB,F_NONE){ readers<K>(mc::choose(2)); } MC_SCENARIO(inside_##K,QB,TB,F_NONE){ inside<K>(); }
K19(l_single,1,2) K19(l_pool,1,2) K19(l_mq,1,2) K19(l_steal,1,2) K19(l_smq,1,2) K19(l_mt,1,2) K19(l_io,1,2) K19(l_comp,1,2)
MC_SCENARIO(io_current,1,2,F_NONE){ io_current<l_io3>(); }
MC_SCENARIO(composite,1,2,F_NONE){ composite(); }
MC_SCENARIO(servant,1,2,F_NO_TIMEOUT_DEV){ int h=mc::choose(2); servant(h,mc::choose(2)); }
MC_SCENARIO(cont_pool,1,2,F_NONE){ cont<l_pool>(mc::choose(2)); } MC_SCENARIO(cont_single,1,2,F_NONE){ cont<l_single>(mc::choose(2)); } MC_SCENARIO(cont_comp,1,2,F_NONE){ cont<l_comp>(mc::choose(2)); }
