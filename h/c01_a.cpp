#include "c01.h"
#define C01_DYN false
C01_SCN(mk_single,2,3)
C01_SCN(mk_pool,2,3)
// every queue type on a pool
struct mk_pool_deque{ static Proxy make(){ return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::guarded_deque<>>>(2); } };
struct mk_pool_list{ static Proxy make(){ return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::threadsafe_list<>>>(2); } };
struct mk_pool_stack{ static Proxy make(){ return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_stack<>>>(2); } };
C01_SCN(mk_pool_deque,2,3)
C01_SCN(mk_pool_list,2,3)
C01_SCN(mk_pool_stack,2,3)
