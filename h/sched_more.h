#pragma once
#include "common.h"
#include <boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/multiple_thread_scheduler.hpp>
#include <boost/asynchronous/scheduler/io_threadpool_scheduler.hpp>
struct mk_mq{ static constexpr const char*n="mq"; static constexpr int T=2; static Proxy make(){ return ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<LQ>>(2); } };
struct mk_steal{ static constexpr const char*n="steal"; static constexpr int T=2; static Proxy make(){ return ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<LQ,ba::no_cpu_load_saving,true>>(2); } };
struct mk_smq{ static constexpr const char*n="smq"; static constexpr int T=2; static Proxy make(){ return ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<LQ,ba::default_find_position<>,ba::no_cpu_load_saving,true>>(2); } };
struct mk_mt{ static constexpr const char*n="mt"; static constexpr int T=2; static Proxy make(){ return ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<LQ>>(2,2); } };
struct mk_io{ static constexpr const char*n="io"; static constexpr int T=1; static Proxy make(){ return ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<LQ>>(1,2); } };
struct mk_comp{ static constexpr const char*n="comp"; static constexpr int T=2; static Proxy make(){
  auto a=ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<LQ>>(1); auto b=ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<LQ>>(1);
  return ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<>>(a,b); } };
