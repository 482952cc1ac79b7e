// Shared helpers of the harnesses. Only the public API of the library is used.
#pragma once
#include "mc.h"
#include <boost/asynchronous/scheduler/single_thread_scheduler.hpp>
#include <boost/asynchronous/scheduler/threadpool_scheduler.hpp>
#include <boost/asynchronous/queue/lockfree_queue.hpp>
#include <boost/asynchronous/queue/lockfree_spsc_queue.hpp>
#include <boost/asynchronous/queue/lockfree_stack.hpp>
#include <boost/asynchronous/queue/guarded_deque.hpp>
#include <boost/asynchronous/queue/threadsafe_list.hpp>
#include <boost/asynchronous/queue/any_queue_container.hpp>
#include <boost/asynchronous/scheduler_shared_proxy.hpp>
#include <boost/asynchronous/post.hpp>
#include <stdexcept>
#include <thread>
#include <memory>
#include <vector>
#include <string>
namespace ba=boost::asynchronous;
using mc::F_RACE; using mc::F_LEAVE_THREADS; using mc::F_TRYLOCK; using mc::F_NO_TIMEOUT_DEV; using mc::F_SEQ; using mc::F_SPURIOUS; using mc::F_NONE;
typedef ba::lockfree_queue<> LQ;
typedef ba::any_shared_scheduler_proxy<> Proxy;
struct my_err : std::runtime_error { int code; my_err(int c):std::runtime_error("my_err"),code(c){} };
// index of the calling thread among the scheduler's ids, or -1
inline int id_index(std::vector<boost::thread::id> const& ids){ auto me=boost::this_thread::get_id(); for(size_t i=0;i<ids.size();i++) if(ids[i]==me) return (int)i; return -1; }
struct Counted { // payload that reports copies left alive
  static inline long live=0; int v; MC_NOSAN __attribute__((noinline)) static void inc(int d){ live+=d; } 
  explicit Counted(int v=0):v(v){ inc(1); } Counted(Counted const&o):v(o.v){ inc(1); } Counted(Counted&&o)noexcept:v(o.v){ o.v=-1; inc(1); } Counted& operator=(Counted const&)=default; Counted& operator=(Counted&&o)noexcept{ v=o.v; o.v=-1; return *this; } ~Counted(){ inc(-1); }
};
struct mk_single{ static constexpr const char*n="single"; static constexpr int T=1; static Proxy make(){ return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<LQ>>(); } };
struct mk_pool1{ static constexpr const char*n="pool1"; static constexpr int T=1; static Proxy make(){ return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<LQ>>(1); } };
struct mk_pool{ static constexpr const char*n="pool"; static constexpr int T=2; static Proxy make(){ return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<LQ>>(2); } };
