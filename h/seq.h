// Engine B: one OS thread, a pool whose ready tasks are run one at a time in an order that the checker enumerates.
// The pool is an ordinary implementation of the library's public scheduler interface.
#pragma once
#include "mc.h"
#include <boost/asynchronous/any_scheduler.hpp>
#include <boost/asynchronous/post.hpp>
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/scheduler/tss_scheduler.hpp>
#include <boost/asynchronous/scheduler/detail/lockable_weak_scheduler.hpp>
#include <boost/asynchronous/any_shared_scheduler_proxy.hpp>
#include <stdexcept>
#include <string>
#include <vector>
#include <deque>
#include <numeric>
#include <algorithm>
#include <functional>
namespace ba=boost::asynchronous;
struct my_err : std::runtime_error { int code; my_err(int c):std::runtime_error("my_err"),code(c){} };
struct SeqSched : ba::any_shared_scheduler_concept<ba::any_callable> {
  typedef ba::any_callable job_type;
  std::vector<job_type> q; long posted=0, run=0, escaped=0; int policy=0;
  void post(job_type j) override { q.push_back(std::move(j)); posted++; }
  void post(job_type j,std::size_t) override { q.push_back(std::move(j)); posted++; }
  ba::any_interruptible interruptible_post(job_type j) override { post(std::move(j)); return ba::any_interruptible(); }
  ba::any_interruptible interruptible_post(job_type j,std::size_t) override { post(std::move(j)); return ba::any_interruptible(); }
  std::vector<boost::thread::id> thread_ids() const override { return {boost::this_thread::get_id()}; }
  std::vector<std::size_t> get_queue_size() const override { return {q.size()}; }
  std::vector<std::size_t> get_max_queue_size() const override { return {q.size()}; }
  void reset_max_queue_size() override {}
  ba::scheduler_diagnostics get_diagnostics(std::size_t=0) const override { return ba::scheduler_diagnostics(); }
  void register_diagnostics_functor(std::function<void(ba::scheduler_diagnostics)>,ba::register_diagnostics_type=ba::register_diagnostics_type()) override {}
  void clear_diagnostics() override {}
  std::string get_name() const override { return "seq"; }
  void processor_bind(std::vector<std::tuple<unsigned,unsigned>>) override {}
  std::vector<std::future<void>> execute_in_all_threads(ba::any_callable c) override { std::vector<std::future<void>> r; std::promise<void> p; r.push_back(p.get_future()); c(); p.set_value(); return r; }
  void enable_queue(std::size_t,bool) override {}
  // runs one ready task; false if there is none
  bool step1(){
    if(q.empty()) return false;
    int n=(int)q.size(), k; // base order first-in-first-out (policy 0) or last-in-first-out (1); every deviation from it is enumerated up to the bound
    k= policy==2? mc::choose(n) : mc::choose_dev(n); if(policy==1) k=n-1-k;
    job_type j=std::move(q[k]); q.erase(q.begin()+k); run++;
    try{ j(); }catch(...){ escaped++; }
    return true;
  }
};
struct SeqPool {
  std::shared_ptr<SeqSched> s=std::make_shared<SeqSched>(); ba::any_shared_scheduler<> h{ba::any_shared_scheduler_ptr<>(s)};
  SeqPool(){ ba::get_thread_scheduler<ba::any_callable>(ba::any_weak_scheduler<>(ba::detail::lockable_weak_scheduler<SeqSched>(s)),true); ba::get_continuations(std::list<ba::any_continuation>(),true); }
  ~SeqPool(){ ba::get_continuations(std::list<ba::any_continuation>(),true); s->q.clear(); }
  // run everything, as a worker thread does: a ready task, else the waiting (future based) continuations
  void drain(){ for(;;){ if(s->step1()) continue; 
      auto& w=ba::get_continuations(); if(w.empty()) break;
      bool moved=false; for(auto it=w.begin();it!=w.end();){ if((*it).is_ready()){ auto c=*it; it=w.erase(it); c(); moved=true; break; } else ++it; }
      if(!moved && s->q.empty()) break; } }
};
template<class T> struct Res { bool ready=false, val=false, err=false, other=false; int code=0; T v{}; };
template<> struct Res<void> { bool ready=false, val=false, err=false, other=false; int code=0; };
template<class Fut> auto seq_get(Fut& f){ typedef decltype(f.get()) T; Res<T> r; r.ready= f.wait_for(std::chrono::seconds(0))==std::future_status::ready; if(!r.ready) return r;
  try{ if constexpr(std::is_void<T>::value) f.get(); else r.v=f.get(); r.val=true; } catch(my_err& e){ r.err=true; r.code=e.code; } catch(...){ r.other=true; } return r; }
// order: 0 fifo, 1 lifo base order with deviations; 2 every order
inline int seq_order=-1; // -1: choose fifo/lifo
// run alg() (returns a continuation or a value) as one task of the pool and everything it posts
template<class A> auto seq_run(A alg){ SeqPool p; p.s->policy= seq_order>=0?seq_order:mc::choose(2); auto f=ba::post_future(p.h,std::move(alg)); p.drain(); auto r=seq_get(f);
  MC_ASSERT(r.ready,"the algorithm never completed: all its tasks ran (%ld posted, %ld run) and the future is not ready",p.s->posted,p.s->run);
  MC_ASSERT(!p.s->escaped,"an exception escaped from %ld task(s) of the pool",p.s->escaped); MC_ASSERT(!r.other,"unexpected exception type from the future");
  return r; }
template<class A> auto seq_ok(A alg){ auto r=seq_run(std::move(alg)); MC_ASSERT(r.val,"the algorithm reported an exception, the functor threw none"); if constexpr(!std::is_same<decltype(r),Res<void>>::value) return std::move(r.v); }
// ---- inputs -----------------------------------------------------------------------------------
inline std::vector<int> seq_in(int minn,int maxn,int alpha){ int n=minn+mc::choose(maxn-minn+1); std::vector<int> v(n); for(auto&x:v) x=mc::choose(alpha); return v; }
inline long seq_cut(int n){ int k=mc::choose(std::max(1,n+1)+1); return k==std::max(1,n+1)? 2000 : 1+k; } // 1..n+1 and one beyond every internal threshold
typedef std::function<bool(int const&)> P1; typedef std::function<bool(int const&,int const&)> P2; // functors whose moved-from state is detectable: calling them throws
template<class V> inline std::string show(V const& v){ std::string s="["; for(auto const&x:v) s+=std::to_string((long)x)+" "; return s+"]"; }
inline std::string show_s(std::vector<std::string> const& v){ std::string s="["; for(auto const&x:v) s+=x+" "; return s+"]"; }
// a continuation delivering a value, directly (0), through a subtask (1)
template<class T> struct cont_value : ba::continuation_task<T> { T v; int deferred; cont_value(T v_,int d):ba::continuation_task<T>("cv"),v(std::move(v_)),deferred(d){}
  void operator()(){ auto res=this->this_task_result(); if(!deferred) res.set_value(std::move(v)); else ba::create_callback_continuation([res](auto r){ res.set_value(std::move(std::get<0>(r).get())); }, cont_value<T>(std::move(v),0), cont_value<T>(T(),0)); } };
template<class T> auto cont_of(T v,int d){ return ba::top_level_callback_continuation<T>(cont_value<T>(std::move(v),d)); }
// ---- checked iterator: dereferencing outside of its array is a failure (arithmetic outside is not) ----
template<class T,class Cat=std::random_access_iterator_tag> struct CIt {
  typedef Cat iterator_category; typedef std::remove_const_t<T> value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer; typedef T& reference;
  T* base=nullptr; long lo=0,hi=0,i=0; CIt(){} CIt(T*b,long lo,long hi,long i):base(b),lo(lo),hi(hi),i(i){}
  T& at(long k) const { if(k<lo||k>=hi) mc::fail("element %ld accessed, outside of the range [%ld,%ld) given to the algorithm",k,lo,hi); return base[k]; }
  T& operator*() const { return at(i); } T* operator->() const { return &at(i); } T& operator[](long k) const { return at(i+k); }
  CIt& operator++(){ ++i; return *this; } CIt operator++(int){ CIt t=*this; ++i; return t; } CIt& operator--(){ --i; return *this; } CIt operator--(int){ CIt t=*this; --i; return t; }
  CIt& operator+=(long k){ i+=k; return *this; } CIt& operator-=(long k){ i-=k; return *this; }
  friend CIt operator+(CIt a,long k){ a.i+=k; return a; } friend CIt operator+(long k,CIt a){ a.i+=k; return a; } friend CIt operator-(CIt a,long k){ a.i-=k; return a; }
  friend long operator-(CIt const&a,CIt const&b){ return a.i-b.i; }
  friend bool operator==(CIt const&a,CIt const&b){ return a.i==b.i; } friend bool operator!=(CIt const&a,CIt const&b){ return a.i!=b.i; }
  friend bool operator<(CIt const&a,CIt const&b){ return a.i<b.i; } friend bool operator>(CIt const&a,CIt const&b){ return a.i>b.i; } friend bool operator<=(CIt const&a,CIt const&b){ return a.i<=b.i; } friend bool operator>=(CIt const&a,CIt const&b){ return a.i>=b.i; }
};
typedef std::random_access_iterator_tag RA; typedef std::bidirectional_iterator_tag BI; typedef std::forward_iterator_tag FW;
template<class Cat,class T> CIt<T,Cat> cb(std::vector<T>& v){ return CIt<T,Cat>(v.data(),0,(long)v.size(),0); }
template<class Cat,class T> CIt<T,Cat> ce(std::vector<T>& v){ return CIt<T,Cat>(v.data(),0,(long)v.size(),(long)v.size()); }
#define CB cb<Cat>
#define CE ce<Cat>
// run F<RA>() or F<FW>() / both categories as a data choice
#define BOTH(FN,...) do{ if(mc::choose(2)==0) FN<RA>(__VA_ARGS__); else FN<FW>(__VA_ARGS__); }while(0)
// ---- destination of n elements, filled with a sentinel; every access outside of it is a failure (CIt) ----
struct Dst { std::vector<int> b; explicit Dst(size_t n):b(n,-7){} template<class Cat> CIt<int,Cat> it(){ return CIt<int,Cat>(b.data(),0,(long)b.size(),0); }
  void expect(std::vector<int> const& want,const char*what,std::string const& ctx){ for(size_t i=0;i<b.size();i++){ int w=i<want.size()?want[i]:-7; if(b[i]!=w) mc::fail("%s of %s left %s in the destination, expected %s and nothing behind it",what,ctx.c_str(),show(b).c_str(),show(want).c_str()); } } };
#define CTX (show(v)+" cutoff "+std::to_string(c))
