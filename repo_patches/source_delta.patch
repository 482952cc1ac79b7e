From b1cb462ce807721e306c8940a09a0519d9e596d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 01/74] fix: stealing_multiqueue_threadpool_scheduler lost
 accepted tasks at shutdown (shadowed popped flag)

---
 .../scheduler/stealing_multiqueue_threadpool_scheduler.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
index 96077c8..99d1b51 100644
--- a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
@@ -233,7 +233,7 @@ public:
         try
         {
 
-            bool popped = queues[index]->try_pop(job);
+            popped = queues[index]->try_pop(job);
             if (!popped)
             {
                 // ok we have nothing to do, maybe we can steal some work?
-- 
2.43.0


From dd0c45a760c11db107d9a8cce058098fc943de00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 02/74] fix: threadsafe_list::pop could miss the notification
 of a push and sleep although an element was there

---
 boost/asynchronous/queue/threadsafe_list.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/queue/threadsafe_list.hpp b/boost/asynchronous/queue/threadsafe_list.hpp
index 5442592..9e5cbd1 100644
--- a/boost/asynchronous/queue/threadsafe_list.hpp
+++ b/boost/asynchronous/queue/threadsafe_list.hpp
@@ -79,7 +79,7 @@ public:
             m_tail->next = std::move(p);
             m_tail = new_tail;
         }
-        m_data_cond.notify_one();
+        notify_waiting();
     }
     void push(JOB && j)
     {
@@ -91,7 +91,7 @@ public:
             m_tail->next = std::move(p);
             m_tail = new_tail;
         }
-        m_data_cond.notify_one();
+        notify_waiting();
     }
     // todo remove when type_erasure supports rvalue ref
     void push(JOB const& j, std::size_t=0)
@@ -104,7 +104,7 @@ public:
             m_tail->next = std::move(p);
             m_tail = new_tail;
         }
-        m_data_cond.notify_one();
+        notify_waiting();
     }
 
     JOB pop()
@@ -125,6 +125,13 @@ public:
     }
 
 private:
+    void notify_waiting()
+    {
+        // the waiting thread checks for data under m_head_mutex, so without it, the notification could
+        // come between this check and the wait, and be lost
+        { boost::lock_guard<boost::mutex> head_lock(m_head_mutex); }
+        m_data_cond.notify_one();
+    }
     node* get_tail()
     {
         boost::lock_guard<boost::mutex> tail_lock(m_tail_mutex);
-- 
2.43.0


From 372e2a885a7cfecf4ecdce6d7d1be8b029284698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:43 +0000
Subject: [PATCH 03/74] fix: queue_converter reported the maximum queue size as
 queue size

---
 boost/asynchronous/queue/queue_converter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/queue/queue_converter.hpp b/boost/asynchronous/queue/queue_converter.hpp
index 42cd9bc..6147929 100644
--- a/boost/asynchronous/queue/queue_converter.hpp
+++ b/boost/asynchronous/queue/queue_converter.hpp
@@ -63,7 +63,7 @@ public:
     }
     virtual std::vector<std::size_t> get_queue_size()const
     {
-        return m_from_queue->get_max_queue_size();
+        return m_from_queue->get_queue_size();
     }
     virtual std::vector<std::size_t> get_max_queue_size()const
     {
-- 
2.43.0


From ddfab8a7796cbcd56f36c8d4b71796f9bcceeefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 04/74] fix: post_future of a void continuation lost the
 continuation's exception

---
 boost/asynchronous/post.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/boost/asynchronous/post.hpp b/boost/asynchronous/post.hpp
index 806c6bf..864c696 100644
--- a/boost/asynchronous/post.hpp
+++ b/boost/asynchronous/post.hpp
@@ -410,6 +410,7 @@ namespace detail
                 {
                     try
                     {
+                        std::get<0>(continuation_res).get();
                         m_promise.set_value();
                     }
                     catch(...)
-- 
2.43.0


From 48126943e6c6ca24184d2f7bc497d434ab2fca07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 05/74] fix: post_future of a serializable continuation
 replaced its exception by task_aborted_exception

---
 boost/asynchronous/post.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/post.hpp b/boost/asynchronous/post.hpp
index 864c696..c29d70f 100644
--- a/boost/asynchronous/post.hpp
+++ b/boost/asynchronous/post.hpp
@@ -489,7 +489,7 @@ namespace detail
             template <class Res>
             void operator()(std::tuple<Res>&& continuation_res)
             {
-                if(!std::get<0>(continuation_res).has_value())
+                if(!boost::asynchronous::is_ready(std::get<0>(continuation_res)))
                 {
                     boost::asynchronous::task_aborted_exception ta;
                     m_promise.set_exception(std::make_exception_ptr(ta));
-- 
2.43.0


From c8ca903e5d86a1b427b62d003ba783de0e0abe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 06/74] fix: assigning to the last proxy of a servant destroyed
 the servant in the wrong thread

---
 boost/asynchronous/servant_proxy.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index 939eae8..bb7c3f7 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -623,7 +623,13 @@ public:
     /*!
      * \brief Move assignment.
      */
-    servant_proxy& operator=(servant_proxy&&)     =default;
+    // the servant which we have been holding so far has to be released in its own thread, as our destructor does
+    servant_proxy& operator=(servant_proxy&& rhs)
+    {
+        servant_proxy tmp(std::move(rhs));
+        swap_members(tmp);
+        return *this;
+    }
 
     /*!
      * \brief Copy constructor.
@@ -633,7 +639,12 @@ public:
     /*!
      * \brief Copy assignment.
      */
-    servant_proxy& operator=(servant_proxy const&)=default;
+    servant_proxy& operator=(servant_proxy const& rhs)
+    {
+        servant_proxy tmp(rhs);
+        swap_members(tmp);
+        return *this;
+    }
 
 #ifdef BOOST_ASYNCHRONOUS_REQUIRE_ALL_ARGUMENTS
     void post(callable_type job, std::size_t prio) const
@@ -689,6 +700,12 @@ public:
     std::size_t m_offset_id;
 
 private:
+    void swap_members(servant_proxy& rhs)
+    {
+        std::swap(m_proxy,rhs.m_proxy);
+        std::swap(m_servant,rhs.m_servant);
+        std::swap(m_offset_id,rhs.m_offset_id);
+    }
     // safe creation of servant in our thread ctor is trivial or told us so
     template <typename S,typename... Args>
     typename std::enable_if<
-- 
2.43.0


From 82bc155ed8fe9602996baa346b8c81e9a2f96238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 07/74] fix: an interrupted job left its interruption state or
 a late interruption to the next job of its thread

---
 .../scheduler/detail/interruptible_job.hpp    | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/scheduler/detail/interruptible_job.hpp b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
index febb5e0..3dd4065 100644
--- a/boost/asynchronous/scheduler/detail/interruptible_job.hpp
+++ b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
@@ -93,8 +93,7 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
         // if interrupted in this very short time, we don't need to start
         if (m_state->is_interrupted())
         {
-            // remove state from tss
-            boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
+            cleanup();
             return;
         }
         try
@@ -103,6 +102,8 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
         }
         catch(boost::thread_interrupted&)
         {
+            m_state->complete();
+            cleanup();
             throw;
         }
         // other exceptions
@@ -111,15 +112,27 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
             // exception but not interrupted
             this->set_interrupted(false);
             m_state->complete();
-            // remove state from tss
-            boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
+            cleanup();
             throw;
         }
         // ok we were not interrupted
         this->set_interrupted(false);
         m_state->complete();
+        cleanup();
+    }
+    // to be called when this job cannot be interrupted any more: neither its state nor
+    // an interruption which it did not notice any more may reach the next job of this thread
+    static void cleanup()
+    {
         // remove state from tss
         boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
+        try
+        {
+            boost::this_thread::interruption_point();
+        }
+        catch(boost::thread_interrupted&)
+        {
+        }
     }
     template<class Archive>
     void serialize(Archive & , const unsigned int /* version */){/* not implemented */}
-- 
2.43.0


From c7497f4a074f74dd2a9f01f91139df38ffcc9473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:31 +0000
Subject: [PATCH 08/74] fix: multiple_thread_scheduler used the whole priority
 as servant index in interruptible_post and enable_queue

---
 .../scheduler/multiple_thread_scheduler.hpp            | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
index 7fe0273..504fb9a 100644
--- a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
@@ -296,12 +296,13 @@ public:
         boost::asynchronous::job_traits<typename queue_type::job_type>::set_posted_time(job);
         boost::asynchronous::interruptible_job<typename queue_type::job_type,this_type>
                 ijob(std::move(job),wpromise,state);
-        if (prio >= m_queues->size())
+        std::size_t servant_index = (prio / 100000);
+        if (servant_index >= m_queues->size())
         {
             // this queue is not existing
             assert(false);
         }
-        (*m_queues)[prio].m_queues->push(std::move(ijob),prio);
+        (*m_queues)[servant_index].m_queues->push(std::move(ijob),prio % 100000);
 
         std::future<boost::thread*> fu = wpromise->get_future();
         boost::asynchronous::interrupt_helper interruptible(std::move(fu),state);
@@ -327,12 +328,13 @@ public:
     }
     void enable_queue(std::size_t queue_prio, bool enable) override
     {
-        if (queue_prio >= m_queues->size())
+        std::size_t servant_index = (queue_prio / 100000);
+        if (servant_index >= m_queues->size())
         {
             // this queue is not existing
             assert(false);
         }
-        (*m_queues)[queue_prio].m_queues->enable_queue(queue_prio,enable);
+        (*m_queues)[servant_index].m_queues->enable_queue(queue_prio % 100000,enable);
     }
 
     // try to execute a job, return true
-- 
2.43.0


From 34e4504ff92293972075ce99a63a6cd391995cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:31 +0000
Subject: [PATCH 09/74] fix: multiple_thread_scheduler released a servant
 before its task was destroyed

---
 .../scheduler/multiple_thread_scheduler.hpp   | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
index 504fb9a..8c39ec9 100644
--- a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
@@ -342,9 +342,18 @@ public:
                                 std::list<boost::asynchronous::any_continuation>& waiting)
     {
         bool popped = false;
+        // gives the servant back only after the job, with all it holds, has been destroyed
+        struct release_servant
+        {
+            ~release_servant()
+            {
+                if (m_taken)
+                    *m_taken = false;
+            }
+            std::atomic_bool* m_taken;
+        } release{nullptr};
         // get a job
         typename Q::job_type job;
-        std::size_t taken_index = 0;
         try
         {
             auto s = queues->size();
@@ -359,7 +368,7 @@ public:
                     popped = ((*queues)[current_servant].m_queues)->try_pop(job);
                     if (popped)
                     {
-                        taken_index = current_servant;
+                        release.m_taken = &(*queues)[current_servant].m_taken;
                     }
                     else
                     {
@@ -381,7 +390,6 @@ public:
                 boost::asynchronous::job_traits<typename Q::job_type>::add_current_diagnostic(index,job,diagnostics.get());
                 // execute job
                 job();
-                (*queues)[taken_index].m_taken = false;
                 boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
                 boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
                 boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
@@ -410,16 +418,11 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
-            if (popped)
-            {
-                (*queues)[taken_index].m_taken = false;
-            }
         }
         catch(std::exception&)
         {
             if (popped)
             {
-                (*queues)[taken_index].m_taken = false;
                 boost::asynchronous::job_traits<typename Q::job_type>::set_failed(job);
                 boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
                 boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
-- 
2.43.0


From 66b6e3235c63a4e66c85c73a025b9adc38138f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:39 +0000
Subject: [PATCH 10/74] fix: servant_proxy addressed the wrong servant of a
 multiple_thread_scheduler (offset added twice in POST members, not at all in
 destructor and cast)

---
 boost/asynchronous/servant_proxy.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index bb7c3f7..a41a15e 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -63,7 +63,7 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
     void funcname(Args... args)const                                                                                            \
     {                                                                                                                           \
         auto servant = this->m_servant;                                                                                         \
-        std::size_t p = 100000 * this->m_offset_id;                                                                             \
+        std::size_t p = 0;                                                                                                       \
         this->post(typename boost::asynchronous::job_traits<callable_type>::wrapper_type(boost::asynchronous::any_callable      \
         (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...))),p);   \
     }
@@ -74,7 +74,7 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
     void funcname(Args... args)const                                                                                            \
     {                                                                                                                           \
         auto servant = this->m_servant;                                                                                         \
-        std::size_t p = prio + 100000 * this->m_offset_id;                                                                      \
+        std::size_t p = prio;                                                                                                   \
         this->post(typename boost::asynchronous::job_traits<callable_type>::wrapper_type(boost::asynchronous::any_callable      \
         (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...))),p);   \
     }
@@ -88,7 +88,7 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
     void funcname(Args... args)const                                                                                                        \
     {                                                                                                                                       \
         auto servant = this->m_servant;                                                                                                     \
-        std::size_t prio = 100000 * this->m_offset_id;                                                                                      \
+        std::size_t prio = 0;                                                                                                               \
         typename boost::asynchronous::job_traits<callable_type>::wrapper_type  a(boost::asynchronous::any_callable                          \
                         (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...)));  \
         a.set_name(taskname);                                                                                                               \
@@ -101,7 +101,7 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
     void funcname(Args... args)const                                                                                                        \
     {                                                                                                                                       \
         auto servant = this->m_servant;                                                                                                     \
-        std::size_t p = prio + 100000 * this->m_offset_id;                                                                                  \
+        std::size_t p = prio;                                                                                                               \
         typename boost::asynchronous::job_traits<callable_type>::wrapper_type  a(boost::asynchronous::any_callable                          \
                         (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...)));  \
         a.set_name(taskname);                                                                                                               \
@@ -482,7 +482,7 @@ protected:
     servant_proxy(AnotherProxy p, typename std::enable_if<boost::asynchronous::has_servant_type<AnotherProxy>::value>::type* = 0)BOOST_NOEXCEPT
         : m_proxy(p.m_proxy)
         , m_servant(std::dynamic_pointer_cast<typename AnotherProxy::servant_type>(p.m_servant))
-        , m_offset_id(0)
+        , m_offset_id(p.m_offset_id)
     {
     }
 public:
@@ -609,7 +609,7 @@ public:
             servant_deleter n(std::move(m_servant));
             typename boost::asynchronous::job_traits<callable_type>::wrapper_type  a(std::move(n));
             a.set_name(ServantProxy::get_dtor_name());
-            m_proxy.post(std::move(a),ServantProxy::get_dtor_prio());
+            m_proxy.post(std::move(a),ServantProxy::get_dtor_prio() + 100000 * m_offset_id);
             m_servant.reset();
         }
         m_proxy.reset();
-- 
2.43.0


From 80d4a677de84102b0227d1b59b2068fc51f698c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:08 +0000
Subject: [PATCH 11/74] fix: queue containers built from one
 any_queue_container_config shared their queues (worlds of a
 multiple_thread_scheduler overlapped)

---
 .../queue/any_queue_container.hpp             | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/boost/asynchronous/queue/any_queue_container.hpp b/boost/asynchronous/queue/any_queue_container.hpp
index a8a3116..78104a5 100644
--- a/boost/asynchronous/queue/any_queue_container.hpp
+++ b/boost/asynchronous/queue/any_queue_container.hpp
@@ -14,6 +14,7 @@
 #include <cstddef>
 #include <utility>
 #include <numeric>
+#include <functional>
 
 #include <memory>
 #include <boost/asynchronous/queue/any_queue.hpp>
@@ -30,12 +31,18 @@ struct any_queue_container_config
     typedef Queue queue_type;
     typedef std::vector<std::shared_ptr<Queue> > queue_sequence;
     template <typename... Args>
-    any_queue_container_config(std::size_t number,Args... args):m_number(number)
+    any_queue_container_config(std::size_t number,Args... args)
+        : m_number(number)
+        , m_create([args...](){return std::make_shared<Queue>(args...);})
     {
-        for (std::size_t i = 0; i< number; ++i)
-        {
-            m_queues.push_back(std::make_shared<Queue>(std::move(args)...));
-        }
+        create_queues();
+    }
+    // every copy has its own queues, several containers built from a configuration must not share them
+    any_queue_container_config(any_queue_container_config const& rhs)
+        : m_number(rhs.m_number)
+        , m_create(rhs.m_create)
+    {
+        create_queues();
     }
     std::pair<typename queue_sequence::const_iterator,typename queue_sequence::const_iterator> queues()const
     {
@@ -43,7 +50,15 @@ struct any_queue_container_config
     }
 
 private:
+    void create_queues()
+    {
+        for (std::size_t i = 0; i< m_number; ++i)
+        {
+            m_queues.push_back(m_create());
+        }
+    }
     std::size_t m_number;
+    std::function<std::shared_ptr<Queue>()> m_create;
     queue_sequence m_queues;
 };
 
-- 
2.43.0


From cfd57c9a38af71d555299f8670189bd285ced75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:57 +0000
Subject: [PATCH 12/74] fix: parallel_search and parallel_find_end missed
 matches across a cut, looked outside of the range and used a moved-from
 functor

---
 .../asynchronous/algorithm/parallel_find_end.hpp | 16 +++++++++-------
 boost/asynchronous/algorithm/parallel_search.hpp | 15 +++++++++------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_find_end.hpp b/boost/asynchronous/algorithm/parallel_find_end.hpp
index 76c577f..868464c 100644
--- a/boost/asynchronous/algorithm/parallel_find_end.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_end.hpp
@@ -52,7 +52,7 @@ struct parallel_find_end_helper: public boost::asynchronous::continuation_task<I
             // advance up to cutoff
             Iterator1 it = boost::asynchronous::detail::find_cutoff(beg1_,cutoff_,end1_);
             // if not at end, recurse, otherwise execute here
-            if (it == end1_)
+            if (it == end1_ || beg2_ == end2_)
             {
                 task_res.set_value(std::find_end(beg1_,end1_,beg2_,end2_,func_));
             }
@@ -60,9 +60,9 @@ struct parallel_find_end_helper: public boost::asynchronous::continuation_task<I
             {
                 auto beg1 = beg1_;
                 auto end1 = end1_;
-                auto beg2 = end2_;
+                auto beg2 = beg2_;
                 auto end2 = end2_;
-                auto func = std::move(func_);
+                auto func = func_;
                 boost::asynchronous::create_callback_continuation_job<Job>(
                             // called when subtasks are done, set our result
                             [task_res,it,beg1,end1,beg2,end2,func]
@@ -82,10 +82,12 @@ struct parallel_find_end_helper: public boost::asynchronous::continuation_task<I
                                         // check in overlap region
                                         auto itbeg = beg1;
                                         auto itend = it;
-                                        auto dist2 = std::distance(beg2,end2);
-
-                                        std::advance(itbeg, std::distance(beg1,it) - dist2);
-                                        std::advance(itend, dist2);
+                                        // a match across the cut has at most size-1 elements on each side
+                                        auto overlap = std::distance(beg2,end2) - 1;
+                                        auto dist1 = std::distance(beg1,it);
+                                        if (dist1 > overlap)
+                                            std::advance(itbeg, dist1 - overlap);
+                                        boost::asynchronous::detail::safe_advance(itend, overlap, end1);
                                         auto itoverlap = std::find_end(itbeg,itend,beg2,end2,func);
                                         if(itoverlap != itend)
                                         {
diff --git a/boost/asynchronous/algorithm/parallel_search.hpp b/boost/asynchronous/algorithm/parallel_search.hpp
index 5c5cc9f..20b9fe2 100644
--- a/boost/asynchronous/algorithm/parallel_search.hpp
+++ b/boost/asynchronous/algorithm/parallel_search.hpp
@@ -52,7 +52,7 @@ struct parallel_search_helper: public boost::asynchronous::continuation_task<Ite
             // advance up to cutoff
             Iterator1 it = boost::asynchronous::detail::find_cutoff(beg1_,cutoff_,end1_);
             // if not at end, recurse, otherwise execute here
-            if (it == end1_)
+            if (it == end1_ || beg2_ == end2_)
             {
                 task_res.set_value(std::search(beg1_,end1_,beg2_,end2_,func_));
             }
@@ -60,9 +60,9 @@ struct parallel_search_helper: public boost::asynchronous::continuation_task<Ite
             {
                 auto beg1 = beg1_;
                 auto end1 = end1_;
-                auto beg2 = end2_;
+                auto beg2 = beg2_;
                 auto end2 = end2_;
-                auto func = std::move(func_);
+                auto func = func_;
                 boost::asynchronous::create_callback_continuation_job<Job>(
                             // called when subtasks are done, set our result
                             [task_res,it,beg1,end1,beg2,end2,func]
@@ -82,9 +82,12 @@ struct parallel_search_helper: public boost::asynchronous::continuation_task<Ite
                                         // check in overlap region
                                         auto itbeg = beg1;
                                         auto itend = it;
-                                        auto dist2 = std::distance(beg2,end2);
-                                        std::advance(itbeg, std::distance(beg1,it) - dist2);
-                                        std::advance(itend, dist2);
+                                        // a match across the cut has at most size-1 elements on each side
+                                        auto overlap = std::distance(beg2,end2) - 1;
+                                        auto dist1 = std::distance(beg1,it);
+                                        if (dist1 > overlap)
+                                            std::advance(itbeg, dist1 - overlap);
+                                        boost::asynchronous::detail::safe_advance(itend, overlap, end1);
                                         auto itoverlap = std::search(itbeg,itend,beg2,end2,func);
                                         if(itoverlap != itend)
                                         {
-- 
2.43.0


From 77de411855566e0a2616575fa69c0ff8cc839ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:57 +0000
Subject: [PATCH 13/74] fix: parallel_search_n looked outside of the range
 around a cut and used a moved-from functor

---
 boost/asynchronous/algorithm/parallel_search_n.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_search_n.hpp b/boost/asynchronous/algorithm/parallel_search_n.hpp
index 78f3f9b..8ae90ef 100644
--- a/boost/asynchronous/algorithm/parallel_search_n.hpp
+++ b/boost/asynchronous/algorithm/parallel_search_n.hpp
@@ -47,7 +47,7 @@ struct parallel_search_n_helper: public boost::asynchronous::continuation_task<I
             // advance up to cutoff
             Iterator1 it = boost::asynchronous::detail::find_cutoff(beg1_,cutoff_,end1_);
             // if not at end, recurse, otherwise execute here
-            if (it == end1_)
+            if (it == end1_ || count_ <= 0)
             {
                 task_res.set_value(std::search_n(beg1_,end1_,count_,value_,func_));
             }
@@ -57,7 +57,7 @@ struct parallel_search_n_helper: public boost::asynchronous::continuation_task<I
                 auto end1 = end1_;
                 auto count = count_;
                 auto value = value_;
-                auto func = std::move(func_);
+                auto func = func_;
                 boost::asynchronous::create_callback_continuation_job<Job>(
                             // called when subtasks are done, set our result
                             [task_res,it,beg1,end1,count,value,func]
@@ -77,8 +77,11 @@ struct parallel_search_n_helper: public boost::asynchronous::continuation_task<I
                                         // check in overlap region
                                         auto itbeg = beg1;
                                         auto itend = it;
-                                        std::advance(itbeg, std::distance(beg1,it) - count);
-                                        std::advance(itend, count);
+                                        // a match across the cut has at most count-1 elements on each side
+                                        auto dist1 = std::distance(beg1,it);
+                                        if (dist1 > count - 1)
+                                            std::advance(itbeg, dist1 - (count - 1));
+                                        boost::asynchronous::detail::safe_advance(itend, count - 1, end1);
                                         auto itoverlap = std::search_n(itbeg,itend,count,value,func);
                                         if(itoverlap != itend)
                                         {
-- 
2.43.0


From 79ca1c584242e8ead5ac7acb57036c09c6e4cd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:57 +0000
Subject: [PATCH 14/74] fix: parallel_is_partitioned dereferenced the end of an
 empty range

---
 boost/asynchronous/algorithm/parallel_is_partitioned.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/algorithm/parallel_is_partitioned.hpp b/boost/asynchronous/algorithm/parallel_is_partitioned.hpp
index 2747feb..a8e4477 100644
--- a/boost/asynchronous/algorithm/parallel_is_partitioned.hpp
+++ b/boost/asynchronous/algorithm/parallel_is_partitioned.hpp
@@ -46,7 +46,13 @@ struct parallel_is_partitioned_helper2:
         {
             // advance up to cutoff
             Iterator it = boost::asynchronous::detail::find_cutoff(beg_,cutoff_,end_);
-            if (it == end_)
+            if (beg_ == end_)
+            {
+                // an empty range is partitioned
+                task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_is_partitioned_state::true_,
+                                                  boost::asynchronous::detail::parallel_is_partitioned_state::false_));
+            }
+            else if (it == end_)
             {
                 bool at_begin = func_(*beg_);
                 bool current = at_begin;
-- 
2.43.0


From 64e2038994ca8348b4395756663555ad27683f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:57 +0000
Subject: [PATCH 15/74] fix: parallel_lexicographical_compare ignored that a
 first part can be greater and cut the ranges at different distances

---
 .../parallel_lexicographical_compare.hpp      | 112 ++++++++++--------
 1 file changed, 61 insertions(+), 51 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp b/boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp
index 9d187db..a07fcd0 100644
--- a/boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp
+++ b/boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp
@@ -33,40 +33,58 @@ namespace boost { namespace asynchronous
 namespace detail
 {
 // version for iterators
+// -1: first range is less, 0: equivalent, 1: first range is greater
+template <class Iterator1, class Iterator2, class Func>
+int lexicographical_compare_3way(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,Iterator2 end2, Func& func)
+{
+    for (; beg1 != end1 && beg2 != end2; ++beg1, ++beg2)
+    {
+        if (func(*beg1,*beg2))
+            return -1;
+        if (func(*beg2,*beg1))
+            return 1;
+    }
+    if (beg1 == end1)
+        return (beg2 == end2) ? 0 : -1;
+    return 1;
+}
 template <class Iterator1, class Iterator2, class Func,class Job>
-struct parallel_lexicographical_compare_helper: public boost::asynchronous::continuation_task<bool>
+struct parallel_lexicographical_compare_helper: public boost::asynchronous::continuation_task<int>
 {
     parallel_lexicographical_compare_helper(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,Iterator2 end2, Func func,long cutoff,
                         const std::string& task_name, std::size_t prio)
-        : boost::asynchronous::continuation_task<bool>(task_name)
+        : boost::asynchronous::continuation_task<int>(task_name)
         , beg1_(beg1),end1_(end1), beg2_(beg2),end2_(end2)
         ,func_(std::move(func)),cutoff_(cutoff),prio_(prio)
     {}
     void operator()()
     {
-        boost::asynchronous::continuation_result<bool> task_res = this->this_task_result();
+        boost::asynchronous::continuation_result<int> task_res = this->this_task_result();
         try
         {
             // advance up to cutoff
             Iterator1 it1 = boost::asynchronous::detail::find_cutoff(beg1_,cutoff_,end1_);
-            Iterator2 it2 = boost::asynchronous::detail::find_cutoff(beg2_,cutoff_,end2_);
+            // cut the second range at the same distance
+            Iterator2 it2 = beg2_;
+            boost::asynchronous::detail::safe_advance(it2,std::distance(beg1_,it1),end2_);
             // if not at end, recurse, otherwise execute here
             if ((it1 == end1_) || (it2 == end2_))
             {
-                task_res.set_value(std::lexicographical_compare(beg1_,end1_,beg2_,end2_,func_));
+                task_res.set_value(boost::asynchronous::detail::lexicographical_compare_3way(beg1_,end1_,beg2_,end2_,func_));
             }
             else
             {
                 boost::asynchronous::create_callback_continuation_job<Job>(
                             // called when subtasks are done, set our result
-                            [task_res](std::tuple<boost::asynchronous::expected<bool>,boost::asynchronous::expected<bool>> res) mutable
+                            [task_res](std::tuple<boost::asynchronous::expected<int>,boost::asynchronous::expected<int>> res) mutable
                             {
                                 try
                                 {
-                                    bool r1 = std::get<0>(res).get();
-                                    bool r2 = std::get<1>(res).get();
-                                    if (r1)
-                                        task_res.set_value(true);
+                                    int r1 = std::get<0>(res).get();
+                                    int r2 = std::get<1>(res).get();
+                                    // the second parts only count if the first ones are equivalent
+                                    if (r1 != 0)
+                                        task_res.set_value(r1);
                                     else
                                         task_res.set_value(r2);
                                 }
@@ -96,55 +114,37 @@ struct parallel_lexicographical_compare_helper: public boost::asynchronous::cont
     long cutoff_;
     std::size_t prio_;
 };
-template <class Iterator1, class Iterator2,class Job>
-struct parallel_lexicographical_compare_helper2: public boost::asynchronous::continuation_task<bool>
+// gives the three-way result of the subtasks as a bool
+template <class Iterator1, class Iterator2, class Func,class Job>
+struct parallel_lexicographical_compare_result_helper: public boost::asynchronous::continuation_task<bool>
 {
-    parallel_lexicographical_compare_helper2(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,Iterator2 end2,long cutoff,
+    parallel_lexicographical_compare_result_helper(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,Iterator2 end2, Func func,long cutoff,
                         const std::string& task_name, std::size_t prio)
         : boost::asynchronous::continuation_task<bool>(task_name)
         , beg1_(beg1),end1_(end1), beg2_(beg2),end2_(end2)
-        , cutoff_(cutoff),prio_(prio)
+        ,func_(std::move(func)),cutoff_(cutoff),prio_(prio)
     {}
     void operator()()
     {
         boost::asynchronous::continuation_result<bool> task_res = this->this_task_result();
         try
         {
-            // advance up to cutoff
-            Iterator1 it1 = boost::asynchronous::detail::find_cutoff(beg1_,cutoff_,end1_);
-            Iterator2 it2 = boost::asynchronous::detail::find_cutoff(beg2_,cutoff_,end2_);
-            // if not at end, recurse, otherwise execute here
-            if ((it1 == end1_) || (it2 == end2_))
-            {
-                task_res.set_value(std::lexicographical_compare(beg1_,end1_,beg2_,end2_));
-            }
-            else
-            {
-                boost::asynchronous::create_callback_continuation_job<Job>(
-                            // called when subtasks are done, set our result
-                            [task_res](std::tuple<boost::asynchronous::expected<bool>,boost::asynchronous::expected<bool>> res) mutable
+            boost::asynchronous::create_callback_continuation_job<Job>(
+                        [task_res](std::tuple<boost::asynchronous::expected<int>> res) mutable
+                        {
+                            try
                             {
-                                try
-                                {
-                                    bool r1 = std::get<0>(res).get();
-                                    bool r2 = std::get<1>(res).get();
-                                    if (r1)
-                                        task_res.set_value(true);
-                                    else
-                                        task_res.set_value(r2);
-                                }
-                                catch(...)
-                                {
-                                    task_res.set_exception(std::current_exception());
-                                }
-                            },
-                            // recursive tasks
-                            parallel_lexicographical_compare_helper2<Iterator1,Iterator2,Job>
-                                    (beg1_,it1,beg2_,it2,cutoff_,this->get_name(),prio_),
-                            parallel_lexicographical_compare_helper2<Iterator1,Iterator2,Job>
-                                    (it1,end1_,it2,end2_,cutoff_,this->get_name(),prio_)
-                );
-            }
+                                int r = std::get<0>(res).get();
+                                task_res.set_value(r < 0);
+                            }
+                            catch(...)
+                            {
+                                task_res.set_exception(std::current_exception());
+                            }
+                        },
+                        parallel_lexicographical_compare_helper<Iterator1,Iterator2,Func,Job>
+                                (beg1_,end1_,beg2_,end2_,func_,cutoff_,this->get_name(),prio_)
+            );
         }
         catch(...)
         {
@@ -155,9 +155,18 @@ struct parallel_lexicographical_compare_helper2: public boost::asynchronous::con
     Iterator1 end1_;
     Iterator2 beg2_;
     Iterator2 end2_;
+    Func func_;
     long cutoff_;
     std::size_t prio_;
 };
+struct lexicographical_compare_less
+{
+    template <class T, class U>
+    bool operator()(T const& t, U const& u)const
+    {
+        return t < u;
+    }
+};
 }
 
 // versions for iterators
@@ -172,7 +181,7 @@ parallel_lexicographical_compare(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,I
 #endif
 {
     return boost::asynchronous::top_level_callback_continuation_job<bool,Job>
-            (boost::asynchronous::detail::parallel_lexicographical_compare_helper<Iterator1,Iterator2,Func,Job>
+            (boost::asynchronous::detail::parallel_lexicographical_compare_result_helper<Iterator1,Iterator2,Func,Job>
                 (beg1,end1,beg2,end2,func,cutoff,task_name,prio));
 }
 template <class Iterator1,class Iterator2,
@@ -186,8 +195,9 @@ parallel_lexicographical_compare(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,I
 #endif
 {
     return boost::asynchronous::top_level_callback_continuation_job<bool,Job>
-            (boost::asynchronous::detail::parallel_lexicographical_compare_helper2<Iterator1,Iterator2,Job>
-                (beg1,end1,beg2,end2,cutoff,task_name,prio));
+            (boost::asynchronous::detail::parallel_lexicographical_compare_result_helper<
+                Iterator1,Iterator2,boost::asynchronous::detail::lexicographical_compare_less,Job>
+                (beg1,end1,beg2,end2,boost::asynchronous::detail::lexicographical_compare_less(),cutoff,task_name,prio));
 }
 }}
 
-- 
2.43.0


From 7d5502c0fc7d5cacd5f3511e892411a81f60b173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:44 +0000
Subject: [PATCH 16/74] fix: parallel_transform over two ranges advances the
 second range's own iterator

---
 boost/asynchronous/algorithm/parallel_transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/algorithm/parallel_transform.hpp b/boost/asynchronous/algorithm/parallel_transform.hpp
index 5e31a41..a6401c5 100644
--- a/boost/asynchronous/algorithm/parallel_transform.hpp
+++ b/boost/asynchronous/algorithm/parallel_transform.hpp
@@ -392,7 +392,7 @@ struct parallel_transform2_range_helper : public boost::asynchronous::continuati
             std::size_t dist = std::distance(boost::begin(range1_), it1);
 
             // advance seconf up to first cutoff
-            auto it2 = boost::begin(range1_) + dist;
+            auto it2 = boost::begin(range2_) + dist;
 
             // if not at end, recurse, otherwise execute here
             if (it1 == boost::end(range1_))
-- 
2.43.0


From 69f7d4578c6301d4949efd7bc08dc4f9085b7fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:44 +0000
Subject: [PATCH 17/74] fix: parallel_grouped_for/transform do not dereference
 the end iterator

---
 boost/asynchronous/algorithm/parallel_grouped_for.hpp       | 3 ++-
 boost/asynchronous/algorithm/parallel_grouped_transform.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_grouped_for.hpp b/boost/asynchronous/algorithm/parallel_grouped_for.hpp
index a79d149..0b097e6 100644
--- a/boost/asynchronous/algorithm/parallel_grouped_for.hpp
+++ b/boost/asynchronous/algorithm/parallel_grouped_for.hpp
@@ -78,7 +78,8 @@ struct parallel_grouped_for_helper : public boost::asynchronous::continuation_ta
             Iterator middle = boost::asynchronous::detail::find_cutoff(first_, cutoff_, last_);
 
             // Advance middle to the end of the group
-            middle = std::upper_bound(middle, last_, *middle, comparison_);
+            if (middle != last_)
+                middle = std::upper_bound(middle, last_, *middle, comparison_);
 
             // For full blocks, run the matching grouped_for_helper. Otherwise, recurse.
             if (middle == last_)
diff --git a/boost/asynchronous/algorithm/parallel_grouped_transform.hpp b/boost/asynchronous/algorithm/parallel_grouped_transform.hpp
index 5c16ce8..312a7e4 100644
--- a/boost/asynchronous/algorithm/parallel_grouped_transform.hpp
+++ b/boost/asynchronous/algorithm/parallel_grouped_transform.hpp
@@ -86,7 +86,8 @@ struct parallel_grouped_transform_helper : public boost::asynchronous::continuat
             Iterator middle = boost::asynchronous::detail::find_cutoff(first_, cutoff_, last_);
 
             // Advance middle to the end of the group
-            middle = std::upper_bound(middle, last_, *middle, comparison_);
+            if (middle != last_)
+                middle = std::upper_bound(middle, last_, *middle, comparison_);
 
             // For full blocks, run the matching grouped_transform_helper. Otherwise, recurse.
             if (middle == last_)
-- 
2.43.0


From 596eaec4bf9982e63fbfd3e55294c9ed170c6af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:15 +0000
Subject: [PATCH 18/74] fix: parallel_merge placed elements of the second range
 before equivalent elements of the first

---
 .../asynchronous/algorithm/parallel_merge.hpp | 41 +++++++++----------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_merge.hpp b/boost/asynchronous/algorithm/parallel_merge.hpp
index 083ea32..0caa571 100644
--- a/boost/asynchronous/algorithm/parallel_merge.hpp
+++ b/boost/asynchronous/algorithm/parallel_merge.hpp
@@ -40,30 +40,32 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
             auto length1 = std::distance(beg1_,end1_);
             auto length2 = std::distance(beg2_,end2_);
             // if not at end, recurse, otherwise execute here
-            if ((length1+length2) <= cutoff_)
+            if ((length1+length2) <= cutoff_ || (length1+length2) == 0)
             {
                 std::merge(beg1_,end1_,beg2_,end2_,out_,func_);
                 task_res.set_value();
             }
             else
             {
+                // cut the longer range in the middle and the other one where the middle element belongs.
+                // Elements of the first range stay before equivalent elements of the second one.
                 if (length1 >= length2)
                 {
-                    if (length1 == 0)
-                    {
-                        task_res.set_value();
-                        return;
-                    }
-                    helper(beg1_,end1_,beg2_,end2_,out_,std::move(task_res));
+                    auto it1 = beg1_ + length1/2;
+                    auto it2 = std::lower_bound(beg2_,end2_, *it1,func_);
+                    auto it3 = out_ + ((it1 - beg1_) + (it2 - beg2_));
+                    // TODO move?
+                    *it3 = *it1;
+                    helper(it1,it1+1,it2,it2,it3,std::move(task_res));
                 }
                 else
                 {
-                    if (length2 == 0)
-                    {
-                        task_res.set_value();
-                        return;
-                    }
-                    helper(beg2_,end2_,beg1_,end1_,out_,std::move(task_res));
+                    auto it2 = beg2_ + length2/2;
+                    auto it1 = std::upper_bound(beg1_,end1_, *it2,func_);
+                    auto it3 = out_ + ((it1 - beg1_) + (it2 - beg2_));
+                    // TODO move?
+                    *it3 = *it2;
+                    helper(it1,it1,it2,it2+1,it3,std::move(task_res));
                 }
             }
         }
@@ -72,14 +74,9 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
             task_res.set_exception(std::current_exception());
         }
     }
-    template <class It1, class It2, class OutIt>
-    void helper(It1 beg1, It1 end1, It2 beg2, It2 end2, OutIt out,boost::asynchronous::continuation_result<void> task_res)const
+    // merges [beg1_,last1) with [beg2_,last2) and [first1,end1_) with [first2,end2_) around the already placed element at it3
+    void helper(Iterator1 last1, Iterator1 first1, Iterator2 last2, Iterator2 first2, OutIterator it3,boost::asynchronous::continuation_result<void> task_res)const
     {
-        auto it1 = (beg1+ (end1 - beg1)/2);
-        auto it2 = std::lower_bound(beg2,end2, *it1,func_);
-        auto it3 = out + ((it1 - beg1) + (it2 - beg2));
-        // TODO move?
-        *it3 = *it1;
         boost::asynchronous::create_callback_continuation_job<Job>(
                     // called when subtasks are done, set our result
                     [task_res](std::tuple<boost::asynchronous::expected<void>,boost::asynchronous::expected<void> > res) mutable
@@ -98,9 +95,9 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
                     },
                     // recursive tasks
                     parallel_merge_helper<Iterator1,Iterator2,OutIterator,Func,Job>
-                        (beg1,it1,beg2,it2,out,func_,cutoff_,this->get_name(),prio_),
+                        (beg1_,last1,beg2_,last2,out_,func_,cutoff_,this->get_name(),prio_),
                     parallel_merge_helper<Iterator1,Iterator2,OutIterator,Func,Job>
-                        (it1+1,end1,it2,end2,it3+1,func_,cutoff_,this->get_name(),prio_)
+                        (first1,end1_,first2,end2_,it3+1,func_,cutoff_,this->get_name(),prio_)
         );
     }
 
-- 
2.43.0


From a77e799a640f35a364d788de12f4125f8bcc406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:15 +0000
Subject: [PATCH 19/74] fix: parallel_stable_sort reversed runs of equivalent
 elements

---
 .../algorithm/parallel_is_sorted.hpp             | 12 ++++++++++++
 boost/asynchronous/algorithm/parallel_sort.hpp   | 16 ++++++++--------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_is_sorted.hpp b/boost/asynchronous/algorithm/parallel_is_sorted.hpp
index 92cb107..7892818 100644
--- a/boost/asynchronous/algorithm/parallel_is_sorted.hpp
+++ b/boost/asynchronous/algorithm/parallel_is_sorted.hpp
@@ -117,6 +117,18 @@ namespace detail
         }
         Func func_;
     };
+    // no two equivalent elements: such a range can be reversed without changing the order of equivalent elements
+    template <class Func>
+    struct strictly_reverse_sorted
+    {
+        strictly_reverse_sorted(Func f):func_(std::move(f)){}
+        template <class T>
+        bool operator ()(T const& lhs, T const& rhs)const
+        {
+            return !func_(lhs,rhs);
+        }
+        Func func_;
+    };
 }
 
 template <class Iterator, class Func, class Job=BOOST_ASYNCHRONOUS_DEFAULT_JOB>
diff --git a/boost/asynchronous/algorithm/parallel_sort.hpp b/boost/asynchronous/algorithm/parallel_sort.hpp
index 268a2f8..3c650fd 100644
--- a/boost/asynchronous/algorithm/parallel_sort.hpp
+++ b/boost/asynchronous/algorithm/parallel_sort.hpp
@@ -71,7 +71,7 @@ struct parallel_sort_fast_helper: public boost::asynchronous::continuation_task<
             if ((it == end)&&(depth %2 == 0))
             {
                 // if already reverse sorted, only reverse
-                if (std::is_sorted(beg,it,boost::asynchronous::detail::reverse_sorted<Func>(func)))
+                if (std::is_sorted(beg,it,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func)))
                 {
                     std::reverse(beg,end);
                 }
@@ -189,7 +189,7 @@ struct parallel_sort_fast_helper: public boost::asynchronous::continuation_task<
             if ((depth_ == 0) && (end_ == it))
             {
                 // if already reverse sorted, only reverse
-                if (std::is_sorted(beg_,it,boost::asynchronous::detail::reverse_sorted<Func>(func_)))
+                if (std::is_sorted(beg_,it,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func_)))
                 {
                     std::reverse(beg_,end_);
                 }
@@ -229,8 +229,8 @@ struct parallel_sort_fast_helper: public boost::asynchronous::continuation_task<
                             task_res.set_value();
                             return;
                         }
-                        auto cont2 = boost::asynchronous::parallel_is_reverse_sorted<Iterator,Func,Job>
-                                (beg,end,func,cutoff,task_name+"_is_reverse_sorted",prio);
+                        auto cont2 = boost::asynchronous::parallel_is_sorted<Iterator,boost::asynchronous::detail::strictly_reverse_sorted<Func>,Job>
+                                (beg,end,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func),cutoff,task_name+"_is_reverse_sorted",prio);
 #if BOOST_GCC_VERSION < 40800
                         cont2.on_done([this,beg,end,depth,func,cutoff,task_name,prio,task_res]
 #else
@@ -558,7 +558,7 @@ struct parallel_sort_range_move_helper_serializable
             if (it == end)
             {
                 // if already reverse sorted, only reverse
-                if (std::is_sorted(beg,it,boost::asynchronous::detail::reverse_sorted<Func>(func)))
+                if (std::is_sorted(beg,it,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func)))
                 {
                     std::reverse(beg,end);
                 }
@@ -761,7 +761,7 @@ struct parallel_sort_range_move_helper2 : public boost::asynchronous::continuati
         if (it == end)
         {
             // if already reverse sorted, only reverse
-            if (std::is_sorted(beg,it,boost::asynchronous::detail::reverse_sorted<Func>(func)))
+            if (std::is_sorted(beg,it,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func)))
             {
                 std::reverse(beg,end);
             }
@@ -879,8 +879,8 @@ struct parallel_sort_range_move_helper2 : public boost::asynchronous::continuati
                             task_res.set_value(std::move(*range));
                             return;
                         }
-                        auto cont2 = boost::asynchronous::parallel_is_reverse_sorted<decltype(boost::begin(*range_)),Func,Job>
-                                (beg,end,func,cutoff,task_name+"_is_reverse_sorted",prio);
+                        auto cont2 = boost::asynchronous::parallel_is_sorted<decltype(boost::begin(*range_)),boost::asynchronous::detail::strictly_reverse_sorted<Func>,Job>
+                                (beg,end,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func),cutoff,task_name+"_is_reverse_sorted",prio);
 #if BOOST_GCC_VERSION < 40800
                         cont2.on_done([this,range,beg,end,depth,func,cutoff,task_name,prio,task_res]
 #else
-- 
2.43.0


From 796d262e7949750938352b2b21e416ebb16204ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:15 +0000
Subject: [PATCH 20/74] fix: parallel_partial_sort looked at elements of an
 empty range

---
 boost/asynchronous/algorithm/parallel_partial_sort.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/boost/asynchronous/algorithm/parallel_partial_sort.hpp b/boost/asynchronous/algorithm/parallel_partial_sort.hpp
index 4649ac0..aac9b57 100644
--- a/boost/asynchronous/algorithm/parallel_partial_sort.hpp
+++ b/boost/asynchronous/algorithm/parallel_partial_sort.hpp
@@ -42,6 +42,12 @@ struct parallel_partial_sort_helper: public boost::asynchronous::continuation_ta
         boost::asynchronous::continuation_result<void> task_res = this_task_result();
         try
         {
+            // nothing has to be sorted (and an empty range has no median)
+            if (beg_ == middle_)
+            {
+                task_res.set_value();
+                return;
+            }
             // if close enough, start sorting
             auto func(std::move(func_));
             auto cutoff = cutoff_;
-- 
2.43.0


From 77f0b1d8e8cec2a9c543c8d8d61cd2b0266b9cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:15 +0000
Subject: [PATCH 21/74] fix: parallel_nth_element looked in the wrong part when
 the first part ends at nth

---
 boost/asynchronous/algorithm/parallel_nth_element.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/algorithm/parallel_nth_element.hpp b/boost/asynchronous/algorithm/parallel_nth_element.hpp
index 4b4a1cc..fbff88f 100644
--- a/boost/asynchronous/algorithm/parallel_nth_element.hpp
+++ b/boost/asynchronous/algorithm/parallel_nth_element.hpp
@@ -106,7 +106,7 @@ struct parallel_nth_element_helper: public boost::asynchronous::continuation_tas
                             //std::cout << "done parallel_partition: " << res-beg << " , " << nth-beg << " , " << size_all_partitions << std::endl;
 
                             auto dist_beg_res = std::distance(beg,res);
-                            if (dist_beg_res >= std::distance(beg,nth))
+                            if (dist_beg_res > std::distance(beg,nth))
                             {
                                 // re-iterate on first part
                                 //std::cout << "1st part: " << res-beg << std::endl;
-- 
2.43.0


From 5bc8f89c300b63b760faa3f74eec05ac9d80c3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:53 +0000
Subject: [PATCH 22/74] fix: parallel_inner_product of empty continuation
 results combined the starting value with a default constructed element

---
 .../algorithm/parallel_inner_product.hpp      | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_inner_product.hpp b/boost/asynchronous/algorithm/parallel_inner_product.hpp
index 8d2cbb6..c9e87f1 100644
--- a/boost/asynchronous/algorithm/parallel_inner_product.hpp
+++ b/boost/asynchronous/algorithm/parallel_inner_product.hpp
@@ -629,7 +629,7 @@ struct parallel_inner_product_continuation_helper<Continuation1, Continuation2,
     : public boost::asynchronous::continuation_task<T>
 {
     parallel_inner_product_continuation_helper(Continuation1 && cont1, Continuation2 && cont2, BinaryOperation op, Reduce red,
-                                               long cutoff, const std::string& task_name, std::size_t prio)
+                                               long cutoff, const std::string& task_name, std::size_t prio, std::shared_ptr<T> value = std::shared_ptr<T>())
         : boost::asynchronous::continuation_task<T>(task_name)
         , cont1_(std::forward<Continuation1>(cont1))
         , cont2_(std::forward<Continuation2>(cont2))
@@ -637,6 +637,7 @@ struct parallel_inner_product_continuation_helper<Continuation1, Continuation2,
         , red_(red)
         , cutoff_(cutoff)
         , prio_(prio)
+        , value_(std::move(value))
     {}
 
     void operator()()
@@ -649,8 +650,9 @@ struct parallel_inner_product_continuation_helper<Continuation1, Continuation2,
             auto cutoff = cutoff_;
             auto prio = prio_;
             auto task_name = this->get_name();
+            auto value = value_;
             boost::asynchronous::create_callback_continuation(
-                [task_res, op, red, cutoff, prio, task_name](std::tuple<boost::asynchronous::expected<typename Continuation1::return_type>,
+                [task_res, op, red, cutoff, prio, task_name, value](std::tuple<boost::asynchronous::expected<typename Continuation1::return_type>,
                                                                         boost::asynchronous::expected<typename Continuation2::return_type>> && res) mutable
                 {
                     try
@@ -669,7 +671,9 @@ struct parallel_inner_product_continuation_helper<Continuation1, Continuation2,
                                     task_res.set_exception(std::current_exception());
                                 }
                             },
-                            parallel_inner_product(std::move(range1), std::move(range2), std::move(op), std::move(red), cutoff, task_name, prio)
+                            // the starting value, if any, is the result for empty ranges
+                            value ? parallel_inner_product(std::move(range1), std::move(range2), std::move(op), std::move(red), *value, cutoff, task_name, prio)
+                                  : parallel_inner_product(std::move(range1), std::move(range2), std::move(op), std::move(red), cutoff, task_name, prio)
                         );
                     }
                     catch(...)
@@ -693,6 +697,7 @@ struct parallel_inner_product_continuation_helper<Continuation1, Continuation2,
     Reduce red_;
     long cutoff_;
     std::size_t prio_;
+    std::shared_ptr<T> value_;
 };
 
 }
@@ -729,13 +734,8 @@ parallel_inner_product(Continuation1 && cont1, Continuation2 && cont2, BinaryOpe
                        const std::string& task_name="", std::size_t prio=0)
 #endif
 {
-    return boost::asynchronous::invoke(
-        boost::asynchronous::top_level_callback_continuation_job<T, Job>(
-            boost::asynchronous::detail::parallel_inner_product_continuation_helper<Continuation1, Continuation2, T, BinaryOperation, Reduce, Job>(std::forward<Continuation1>(cont1), std::forward<Continuation2>(cont2), op, red, cutoff, task_name, prio)
-        ),
-        [value, red](T const& t) {
-            return red(value, t);
-        }
+    return boost::asynchronous::top_level_callback_continuation_job<T, Job>(
+        boost::asynchronous::detail::parallel_inner_product_continuation_helper<Continuation1, Continuation2, T, BinaryOperation, Reduce, Job>(std::forward<Continuation1>(cont1), std::forward<Continuation2>(cont2), op, red, cutoff, task_name, prio, std::make_shared<T>(value))
     );
 }
 
-- 
2.43.0


From 2eff71abbfa0e700b9fb2211f054111c53e2702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:53 +0000
Subject: [PATCH 23/74] fix: scans required that a default constructed value is
 neutral for the operation

---
 .../algorithm/parallel_exclusive_scan.hpp     | 18 +++++++---
 .../algorithm/parallel_inclusive_scan.hpp     | 36 ++++++++++++++-----
 .../parallel_transform_exclusive_scan.hpp     |  9 +++--
 .../parallel_transform_inclusive_scan.hpp     |  9 +++--
 4 files changed, 56 insertions(+), 16 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_exclusive_scan.hpp b/boost/asynchronous/algorithm/parallel_exclusive_scan.hpp
index 3c4710e..3e381cc 100644
--- a/boost/asynchronous/algorithm/parallel_exclusive_scan.hpp
+++ b/boost/asynchronous/algorithm/parallel_exclusive_scan.hpp
@@ -26,9 +26,14 @@ parallel_exclusive_scan(Iterator beg, Iterator end, OutIterator out, T init,Func
     auto reduce = [f](Iterator beg, Iterator end)
     {
         T r = T();
-        for (;beg != end; ++beg)
+        if (beg != end)
         {
-            r = f(r , *beg);
+            // start with the first element, T() might not be neutral for f
+            r = *beg;
+            for (++beg;beg != end; ++beg)
+            {
+                r = f(r , *beg);
+            }
         }
         return r;
     };
@@ -60,9 +65,14 @@ parallel_exclusive_scan(Range&& range,OutRange&& out_range,T init,Func f,long cu
     auto reduce = [f](decltype(boost::begin(range)) beg, decltype(boost::begin(range)) end)
     {
         T r = T();
-        for (;beg != end; ++beg)
+        if (beg != end)
         {
-            r = f(r , *beg);
+            // start with the first element, T() might not be neutral for f
+            r = *beg;
+            for (++beg;beg != end; ++beg)
+            {
+                r = f(r , *beg);
+            }
         }
         return r;
     };
diff --git a/boost/asynchronous/algorithm/parallel_inclusive_scan.hpp b/boost/asynchronous/algorithm/parallel_inclusive_scan.hpp
index a09e4a2..91d8af9 100644
--- a/boost/asynchronous/algorithm/parallel_inclusive_scan.hpp
+++ b/boost/asynchronous/algorithm/parallel_inclusive_scan.hpp
@@ -29,9 +29,14 @@ parallel_inclusive_scan(Iterator beg, Iterator end, OutIterator out, T init,Func
     auto reduce = [f](Iterator beg, Iterator end)
     {
         T r = T();
-        for (;beg != end; ++beg)
+        if (beg != end)
         {
-            r = f(r , *beg);
+            // start with the first element, T() might not be neutral for f
+            r = *beg;
+            for (++beg;beg != end; ++beg)
+            {
+                r = f(r , *beg);
+            }
         }
         return r;
     };
@@ -63,9 +68,14 @@ parallel_inclusive_scan(Range&& range,OutRange&& out_range,T init,Func f,long cu
     auto reduce = [f](decltype(boost::begin(range)) beg, decltype(boost::begin(range)) end)
     {
         T r = T();
-        for (;beg != end; ++beg)
+        if (beg != end)
         {
-            r = f(r , *beg);
+            // start with the first element, T() might not be neutral for f
+            r = *beg;
+            for (++beg;beg != end; ++beg)
+            {
+                r = f(r , *beg);
+            }
         }
         return r;
     };
@@ -97,9 +107,14 @@ parallel_inclusive_scan(Range&& range,T init,Func f,long cutoff,
     auto reduce = [f](decltype(boost::begin(range)) beg, decltype(boost::begin(range)) end)
     {
         T r = T();
-        for (;beg != end; ++beg)
+        if (beg != end)
         {
-            r = f(r , *beg);
+            // start with the first element, T() might not be neutral for f
+            r = *beg;
+            for (++beg;beg != end; ++beg)
+            {
+                r = f(r , *beg);
+            }
         }
         return r;
     };
@@ -132,9 +147,14 @@ parallel_inclusive_scan(Range range,T init,Func f,long cutoff,
                       decltype(boost::begin(std::declval<typename Range::return_type>())) end)
     {
         T r = T();
-        for (;beg != end; ++beg)
+        if (beg != end)
         {
-            r = f(r , *beg);
+            // start with the first element, T() might not be neutral for f
+            r = *beg;
+            for (++beg;beg != end; ++beg)
+            {
+                r = f(r , *beg);
+            }
         }
         return r;
     };
diff --git a/boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp b/boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp
index 8c6682c..1f219d9 100644
--- a/boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp
+++ b/boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp
@@ -27,9 +27,14 @@ parallel_transform_exclusive_scan(Iterator beg, Iterator end, OutIterator out, T
     auto reduce = [f,t](Iterator beg, Iterator end)
     {
         T r = T();
-        for (;beg != end; ++beg)
+        if (beg != end)
         {
-            r = f(r , t(*beg));
+            // start with the first element, T() might not be neutral for f
+            r = t(*beg);
+            for (++beg;beg != end; ++beg)
+            {
+                r = f(r , t(*beg));
+            }
         }
         return r;
     };
diff --git a/boost/asynchronous/algorithm/parallel_transform_inclusive_scan.hpp b/boost/asynchronous/algorithm/parallel_transform_inclusive_scan.hpp
index 1d1d3db..571401b 100644
--- a/boost/asynchronous/algorithm/parallel_transform_inclusive_scan.hpp
+++ b/boost/asynchronous/algorithm/parallel_transform_inclusive_scan.hpp
@@ -27,9 +27,14 @@ parallel_transform_inclusive_scan(Iterator beg, Iterator end, OutIterator out, T
     auto reduce = [f,t](Iterator beg, Iterator end)
     {
         T r = T();
-        for (;beg != end; ++beg)
+        if (beg != end)
         {
-            r = f(r , t(*beg));
+            // start with the first element, T() might not be neutral for f
+            r = t(*beg);
+            for (++beg;beg != end; ++beg)
+            {
+                r = f(r , t(*beg));
+            }
         }
         return r;
     };
-- 
2.43.0


From cd4aeade13727221f390c5af7f9ecf72534ccdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:53 +0000
Subject: [PATCH 24/74] fix: parallel_partial_sum required that a default
 constructed value is neutral for the operation

---
 .../algorithm/parallel_partial_sum.hpp        | 135 +++++++++++++++++-
 1 file changed, 130 insertions(+), 5 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_partial_sum.hpp b/boost/asynchronous/algorithm/parallel_partial_sum.hpp
index 7932908..06998ef 100644
--- a/boost/asynchronous/algorithm/parallel_partial_sum.hpp
+++ b/boost/asynchronous/algorithm/parallel_partial_sum.hpp
@@ -10,11 +10,109 @@
 #ifndef BOOST_ASYNCHRONOUS_PARALLEL_PARTIAL_SUM_HPP
 #define BOOST_ASYNCHRONOUS_PARALLEL_PARTIAL_SUM_HPP
 
+#include <iterator>
 #include <type_traits>
+#include <utility>
+
+#include <boost/optional.hpp>
+
 #include <boost/asynchronous/algorithm/parallel_inclusive_scan.hpp>
+#include <boost/asynchronous/algorithm/parallel_scan.hpp>
 
 namespace boost { namespace asynchronous
 {
+namespace detail
+{
+// the sum of no elements is "none", so that no neutral element for Func is needed
+template <class Iterator, class T, class Func>
+struct partial_sum_reduce
+{
+    boost::optional<T> operator()(Iterator beg, Iterator end)
+    {
+        if (beg == end)
+        {
+            return boost::none;
+        }
+        T r = *beg;
+        for (++beg; beg != end; ++beg)
+        {
+            r = func_(r , *beg);
+        }
+        return boost::optional<T>(std::move(r));
+    }
+    Func func_;
+};
+template <class T, class Func>
+struct partial_sum_combine
+{
+    boost::optional<T> operator()(boost::optional<T> const& lhs, boost::optional<T> const& rhs)
+    {
+        if (!lhs)
+        {
+            return rhs;
+        }
+        if (!rhs)
+        {
+            return lhs;
+        }
+        return boost::optional<T>(func_(*lhs , *rhs));
+    }
+    Func func_;
+};
+template <class Iterator, class OutIterator, class T, class Func>
+struct partial_sum_scan
+{
+    void operator()(Iterator beg, Iterator end, OutIterator out, boost::optional<T> init)
+    {
+        for (;beg != end; ++beg)
+        {
+            if (init)
+            {
+                init = func_(*init , *beg);
+            }
+            else
+            {
+                init = *beg;
+            }
+            *out++ = *init;
+        }
+    }
+    Func func_;
+};
+// delivers the sum of all elements
+template <class Continuation, class T>
+struct partial_sum_result_helper: public boost::asynchronous::continuation_task<T>
+{
+    partial_sum_result_helper(Continuation c, const std::string& task_name)
+        : boost::asynchronous::continuation_task<T>(task_name)
+        , cont_(std::move(c))
+    {}
+    void operator()()
+    {
+        boost::asynchronous::continuation_result<T> task_res = this->this_task_result();
+        try
+        {
+            cont_.on_done([task_res](std::tuple<boost::asynchronous::expected<boost::optional<T>> >&& res) mutable
+            {
+                try
+                {
+                    auto sum = std::move(std::get<0>(res).get());
+                    task_res.set_value(sum ? std::move(*sum) : T());
+                }
+                catch(...)
+                {
+                    task_res.set_exception(std::current_exception());
+                }
+            });
+        }
+        catch(...)
+        {
+            task_res.set_exception(std::current_exception());
+        }
+    }
+    Continuation cont_;
+};
+}
 
 // version with iterators
 template <class Iterator, class OutIterator, class Func,class Job=BOOST_ASYNCHRONOUS_DEFAULT_JOB>
@@ -27,7 +125,17 @@ parallel_partial_sum(Iterator beg, Iterator end, OutIterator out, Func f,long cu
 #endif
 {
     using element_type = typename std::iterator_traits<Iterator>::value_type;
-    return boost::asynchronous::parallel_inclusive_scan<Iterator,OutIterator,element_type,Func,Job>(beg,end,out,element_type(),std::move(f),cutoff,task_name,prio);
+    using in_iterator = Iterator;
+    using out_iterator = OutIterator;
+    using reduce_type = boost::asynchronous::detail::partial_sum_reduce<in_iterator,element_type,Func>;
+    using combine_type = boost::asynchronous::detail::partial_sum_combine<element_type,Func>;
+    using scan_type = boost::asynchronous::detail::partial_sum_scan<in_iterator,out_iterator,element_type,Func>;
+    using scan_continuation = boost::asynchronous::detail::callback_continuation<boost::optional<element_type>,Job>;
+    return boost::asynchronous::top_level_callback_continuation_job<element_type,Job>
+            (boost::asynchronous::detail::partial_sum_result_helper<scan_continuation,element_type>
+                (boost::asynchronous::parallel_scan<Iterator,OutIterator,boost::optional<element_type>,reduce_type,combine_type,scan_type,Job>
+                    (beg,end,out,boost::optional<element_type>(),reduce_type{f},combine_type{f},scan_type{f},cutoff,task_name,prio),
+                 task_name));
 }
 
 // version for moved ranges
@@ -42,8 +150,13 @@ parallel_partial_sum(Range&& range,OutRange&& out_range,Func f,long cutoff,
 #endif
 {
     using element_type = typename std::remove_const<typename std::remove_reference<decltype(*boost::begin(range))>::type>::type;
-    return boost::asynchronous::parallel_inclusive_scan<Range,OutRange,element_type,Func,Job>
-            (std::forward<Range>(range),std::forward<OutRange>(out_range),element_type(),std::move(f),cutoff,task_name,prio);
+    using in_iterator = decltype(boost::begin(range));
+    using out_iterator = decltype(boost::begin(out_range));
+    using reduce_type = boost::asynchronous::detail::partial_sum_reduce<in_iterator,element_type,Func>;
+    using combine_type = boost::asynchronous::detail::partial_sum_combine<element_type,Func>;
+    using scan_type = boost::asynchronous::detail::partial_sum_scan<in_iterator,out_iterator,element_type,Func>;
+    return boost::asynchronous::parallel_scan<Range,OutRange,boost::optional<element_type>,reduce_type,combine_type,scan_type,Job>
+            (std::forward<Range>(range),std::forward<OutRange>(out_range),boost::optional<element_type>(),reduce_type{f},combine_type{f},scan_type{f},cutoff,task_name,prio);
 }
 
 // version for a single moved range (in/out) => will return the range as continuation
@@ -58,7 +171,13 @@ parallel_partial_sum(Range&& range,Func f,long cutoff,
 #endif
 {
     using element_type = typename std::remove_const<typename std::remove_reference<decltype(*boost::begin(range))>::type>::type;
-    return boost::asynchronous::parallel_inclusive_scan<Range,element_type,Func,Job>(std::forward<Range>(range),element_type(),std::move(f),cutoff,task_name,prio);
+    using in_iterator = decltype(boost::begin(range));
+    using out_iterator = decltype(boost::begin(range));
+    using reduce_type = boost::asynchronous::detail::partial_sum_reduce<in_iterator,element_type,Func>;
+    using combine_type = boost::asynchronous::detail::partial_sum_combine<element_type,Func>;
+    using scan_type = boost::asynchronous::detail::partial_sum_scan<in_iterator,out_iterator,element_type,Func>;
+    return boost::asynchronous::parallel_scan<Range,boost::optional<element_type>,reduce_type,combine_type,scan_type,Job>
+            (std::forward<Range>(range),boost::optional<element_type>(),reduce_type{f},combine_type{f},scan_type{f},cutoff,task_name,prio);
 }
 
 // version for ranges given as continuation => will return the range as continuation
@@ -73,7 +192,13 @@ parallel_partial_sum(Range range,Func f,long cutoff,
 #endif
 {
     using element_type = typename std::remove_const<typename std::remove_reference<decltype(*boost::begin(std::declval<typename Range::return_type>()))>::type>::type;
-    return boost::asynchronous::parallel_inclusive_scan<Range,element_type,Func,Job>(std::move(range),element_type(),std::move(f),cutoff,task_name,prio);
+    using in_iterator = decltype(boost::begin(std::declval<typename Range::return_type&>()));
+    using out_iterator = decltype(boost::begin(std::declval<typename Range::return_type&>()));
+    using reduce_type = boost::asynchronous::detail::partial_sum_reduce<in_iterator,element_type,Func>;
+    using combine_type = boost::asynchronous::detail::partial_sum_combine<element_type,Func>;
+    using scan_type = boost::asynchronous::detail::partial_sum_scan<in_iterator,out_iterator,element_type,Func>;
+    return boost::asynchronous::parallel_scan<Range,boost::optional<element_type>,reduce_type,combine_type,scan_type,Job>
+            (std::move(range),boost::optional<element_type>(),reduce_type{f},combine_type{f},scan_type{f},cutoff,task_name,prio);
 }
 
 }}
-- 
2.43.0


From 10a6c34bfb7f59e9e5aae7698fdc25a1279d7d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 25/74] fix: algorithms on continuations lost an exception of
 the algorithm started when the input was ready

---
 boost/asynchronous/algorithm/if_else.hpp      |  27 ++++-
 boost/asynchronous/algorithm/if_then_else.hpp |  18 ++-
 .../algorithm/parallel_all_of.hpp             |   9 +-
 .../algorithm/parallel_any_of.hpp             |   9 +-
 .../asynchronous/algorithm/parallel_copy.hpp  |  18 ++-
 .../asynchronous/algorithm/parallel_count.hpp |  18 ++-
 .../algorithm/parallel_find_all.hpp           |  18 ++-
 .../algorithm/parallel_find_end.hpp           |   9 +-
 .../algorithm/parallel_find_first_of.hpp      |   9 +-
 boost/asynchronous/algorithm/parallel_for.hpp |   9 +-
 .../asynchronous/algorithm/parallel_move.hpp  |  18 ++-
 .../algorithm/parallel_none_of.hpp            |   9 +-
 .../algorithm/parallel_partition.hpp          |   9 +-
 .../algorithm/parallel_reduce.hpp             |  18 ++-
 .../algorithm/parallel_replace_copy.hpp       |  18 ++-
 .../algorithm/parallel_reverse.hpp            |  18 ++-
 .../algorithm/parallel_search.hpp             |   9 +-
 .../asynchronous/algorithm/parallel_sort.hpp  | 108 ++++++++++++++++--
 .../algorithm/parallel_sort_inplace.hpp       |  54 ++++++++-
 .../algorithm/parallel_stable_partition.hpp   |   9 +-
 20 files changed, 368 insertions(+), 46 deletions(-)

diff --git a/boost/asynchronous/algorithm/if_else.hpp b/boost/asynchronous/algorithm/if_else.hpp
index 5f8c3ae..8655b3d 100644
--- a/boost/asynchronous/algorithm/if_else.hpp
+++ b/boost/asynchronous/algorithm/if_else.hpp
@@ -50,7 +50,14 @@ struct if_continuation_helper :
                         then_cont.on_done(
                             [task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& then_res)
                             {
-                                task_res.set_value(std::make_tuple(true,std::move(std::get<0>(then_res).get())));
+                                try
+                                {
+                                    task_res.set_value(std::make_tuple(true,std::move(std::get<0>(then_res).get())));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
@@ -113,7 +120,14 @@ struct else_continuation_helper :
                             [task_res](std::tuple<boost::asynchronous::expected<
                                                 typename std::tuple_element<1,typename Continuation::return_type>::type> >&& prev_res)
                             {
-                                task_res.set_value(std::move(std::get<0>(prev_res).get()));
+                                try
+                                {
+                                    task_res.set_value(std::move(std::get<0>(prev_res).get()));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
@@ -173,7 +187,14 @@ struct else_if_continuation_helper :
                             [task_res](std::tuple<boost::asynchronous::expected<
                                             typename std::tuple_element<1,typename Continuation::return_type>::type> >&& then_res)
                             {
-                                task_res.set_value(std::make_tuple(true,std::move(std::get<0>(then_res).get())));
+                                try
+                                {
+                                    task_res.set_value(std::make_tuple(true,std::move(std::get<0>(then_res).get())));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
diff --git a/boost/asynchronous/algorithm/if_then_else.hpp b/boost/asynchronous/algorithm/if_then_else.hpp
index 4ffdf7c..b19c902 100644
--- a/boost/asynchronous/algorithm/if_then_else.hpp
+++ b/boost/asynchronous/algorithm/if_then_else.hpp
@@ -53,7 +53,14 @@ struct if_then_else_continuation_helper :
                         then_cont.on_done(
                             [task_res](std::tuple<boost::asynchronous::expected<Return> >&& then_res)mutable
                             {
-                                task_res.set_value(std::move(std::get<0>(then_res).get()));
+                                try
+                                {
+                                    task_res.set_value(std::move(std::get<0>(then_res).get()));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
@@ -63,7 +70,14 @@ struct if_then_else_continuation_helper :
                         else_cont.on_done(
                             [task_res](std::tuple<boost::asynchronous::expected<Return> >&& then_res)mutable
                             {
-                                task_res.set_value(std::move(std::get<0>(then_res).get()));
+                                try
+                                {
+                                    task_res.set_value(std::move(std::get<0>(then_res).get()));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
diff --git a/boost/asynchronous/algorithm/parallel_all_of.hpp b/boost/asynchronous/algorithm/parallel_all_of.hpp
index 2ea9cd1..027c9fb 100644
--- a/boost/asynchronous/algorithm/parallel_all_of.hpp
+++ b/boost/asynchronous/algorithm/parallel_all_of.hpp
@@ -103,7 +103,14 @@ struct parallel_all_of_continuation_range_helper: public boost::asynchronous::co
                     new_continuation.on_done([res,task_res]
                                              (std::tuple<boost::asynchronous::expected<bool> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_any_of.hpp b/boost/asynchronous/algorithm/parallel_any_of.hpp
index b35c3d3..edb6eb6 100644
--- a/boost/asynchronous/algorithm/parallel_any_of.hpp
+++ b/boost/asynchronous/algorithm/parallel_any_of.hpp
@@ -103,7 +103,14 @@ struct parallel_any_of_continuation_range_helper: public boost::asynchronous::co
                                 (boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<bool> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_copy.hpp b/boost/asynchronous/algorithm/parallel_copy.hpp
index 5a268fa..3dfa1db 100644
--- a/boost/asynchronous/algorithm/parallel_copy.hpp
+++ b/boost/asynchronous/algorithm/parallel_copy.hpp
@@ -244,7 +244,14 @@ struct parallel_copy_continuation_range_helper: public boost::asynchronous::cont
                     auto new_continuation = boost::asynchronous::parallel_copy<typename Continuation::return_type, ResultIterator, Job>(std::move(std::get<0>(continuation_res).get()),out,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -294,7 +301,14 @@ struct parallel_copy_continuation_range_helper<Continuation, ResultIterator, Job
                     auto new_continuation = boost::asynchronous::parallel_copy<typename Continuation::return_type, ResultIterator, Job>(std::move(std::get<0>(continuation_res).get()),out,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_count.hpp b/boost/asynchronous/algorithm/parallel_count.hpp
index c062bfc..2e23e49 100644
--- a/boost/asynchronous/algorithm/parallel_count.hpp
+++ b/boost/asynchronous/algorithm/parallel_count.hpp
@@ -434,7 +434,14 @@ struct parallel_count_continuation_range_helper: public boost::asynchronous::con
                     auto new_continuation = boost::asynchronous::parallel_count_if<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<std::future<long> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -483,7 +490,14 @@ struct parallel_count_continuation_range_helper<Continuation,Func,Job,
                     auto new_continuation = boost::asynchronous::parallel_count_if<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<long> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_find_all.hpp b/boost/asynchronous/algorithm/parallel_find_all.hpp
index 7e22533..adc9076 100644
--- a/boost/asynchronous/algorithm/parallel_find_all.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_all.hpp
@@ -418,7 +418,14 @@ struct parallel_find_all_continuation_range_helper: public boost::asynchronous::
                     auto new_continuation = boost::asynchronous::parallel_find_all<typename Continuation::return_type, Func, ReturnRange, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<ReturnRange> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -468,7 +475,14 @@ struct parallel_find_all_continuation_range_helper<Continuation,Func,ReturnRange
                     auto new_continuation = boost::asynchronous::parallel_find_all<typename Continuation::return_type, Func, ReturnRange, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<ReturnRange> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_find_end.hpp b/boost/asynchronous/algorithm/parallel_find_end.hpp
index 868464c..de0d5b5 100644
--- a/boost/asynchronous/algorithm/parallel_find_end.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_end.hpp
@@ -205,7 +205,14 @@ struct parallel_find_end_range_helper: public boost::asynchronous::continuation_
                                 (beg1,end1,boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<Iterator1> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_find_first_of.hpp b/boost/asynchronous/algorithm/parallel_find_first_of.hpp
index cf09e34..5c15549 100644
--- a/boost/asynchronous/algorithm/parallel_find_first_of.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_first_of.hpp
@@ -172,7 +172,14 @@ struct parallel_find_first_of_range_helper: public boost::asynchronous::continua
                                 (beg1,end1,boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<Iterator1> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_for.hpp b/boost/asynchronous/algorithm/parallel_for.hpp
index a82ecc4..6a7b984 100644
--- a/boost/asynchronous/algorithm/parallel_for.hpp
+++ b/boost/asynchronous/algorithm/parallel_for.hpp
@@ -434,7 +434,14 @@ struct parallel_for_continuation_range_helper: public boost::asynchronous::conti
                     auto new_continuation = boost::asynchronous::parallel_for<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_move.hpp b/boost/asynchronous/algorithm/parallel_move.hpp
index 9d05d4e..d65674c 100644
--- a/boost/asynchronous/algorithm/parallel_move.hpp
+++ b/boost/asynchronous/algorithm/parallel_move.hpp
@@ -243,7 +243,14 @@ struct parallel_move_continuation_range_helper: public boost::asynchronous::cont
                     auto new_continuation = boost::asynchronous::parallel_move<typename Continuation::return_type, ResultIterator, Job>(std::move(std::get<0>(continuation_res).get()),out,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -293,7 +300,14 @@ struct parallel_move_continuation_range_helper<Continuation, ResultIterator, Job
                     auto new_continuation = boost::asynchronous::parallel_move<typename Continuation::return_type, ResultIterator, Job>(std::move(std::get<0>(continuation_res).get()),out,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_none_of.hpp b/boost/asynchronous/algorithm/parallel_none_of.hpp
index 3b675ec..656e736 100644
--- a/boost/asynchronous/algorithm/parallel_none_of.hpp
+++ b/boost/asynchronous/algorithm/parallel_none_of.hpp
@@ -103,7 +103,14 @@ struct parallel_none_of_continuation_range_helper: public boost::asynchronous::c
                                 (boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<bool> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_partition.hpp b/boost/asynchronous/algorithm/parallel_partition.hpp
index aae94b8..da778d0 100644
--- a/boost/asynchronous/algorithm/parallel_partition.hpp
+++ b/boost/asynchronous/algorithm/parallel_partition.hpp
@@ -515,7 +515,14 @@ struct parallel_partition_continuation_helper:
                     [task_res]
                     (std::tuple<boost::asynchronous::expected<return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_reduce.hpp b/boost/asynchronous/algorithm/parallel_reduce.hpp
index 6e9e808..2a3c321 100644
--- a/boost/asynchronous/algorithm/parallel_reduce.hpp
+++ b/boost/asynchronous/algorithm/parallel_reduce.hpp
@@ -487,7 +487,14 @@ struct parallel_reduce_continuation_range_helper: public boost::asynchronous::co
                     new_continuation.on_done([task_res]
                                              (std::tuple<boost::asynchronous::expected<ReturnType> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -540,7 +547,14 @@ struct parallel_reduce_continuation_range_helper<Continuation,Func,Func2,ReturnT
                           (std::move(std::get<0>(continuation_res).get()),func,func2,cutoff,task_name,prio);
                   new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<ReturnType> >&& new_continuation_res)
                   {
-                      task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                      try
+                      {
+                          task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                      }
+                      catch(...)
+                      {
+                          task_res.set_exception(std::current_exception());
+                      }
                   });
               }
               catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_replace_copy.hpp b/boost/asynchronous/algorithm/parallel_replace_copy.hpp
index 1773981..bbdaad3 100644
--- a/boost/asynchronous/algorithm/parallel_replace_copy.hpp
+++ b/boost/asynchronous/algorithm/parallel_replace_copy.hpp
@@ -76,7 +76,14 @@ struct parallel_replace_copy_if_continuation_helper: public boost::asynchronous:
                                 (boost::begin(*res),boost::end(*res),res_it,func,new_value,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<Iterator2> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -173,7 +180,14 @@ struct parallel_replace_copy_continuation_helper: public boost::asynchronous::co
                     new_continuation.on_done([res,task_res]
                                              (std::tuple<boost::asynchronous::expected<Iterator2> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_reverse.hpp b/boost/asynchronous/algorithm/parallel_reverse.hpp
index c51eb51..69d9264 100644
--- a/boost/asynchronous/algorithm/parallel_reverse.hpp
+++ b/boost/asynchronous/algorithm/parallel_reverse.hpp
@@ -157,7 +157,14 @@ struct parallel_reverse_continuation_range_helper: public boost::asynchronous::c
                        boost::asynchronous::parallel_reverse<typename Continuation::return_type, Job>(std::move(std::get<0>(continuation_res).get()),cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -206,7 +213,14 @@ struct parallel_reverse_continuation_range_helper<Continuation,Job,
                        boost::asynchronous::parallel_reverse<typename Continuation::return_type, Job>(std::move(std::get<0>(continuation_res).get()),cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_search.hpp b/boost/asynchronous/algorithm/parallel_search.hpp
index 20b9fe2..ec8cfc0 100644
--- a/boost/asynchronous/algorithm/parallel_search.hpp
+++ b/boost/asynchronous/algorithm/parallel_search.hpp
@@ -205,7 +205,14 @@ struct parallel_search_range_helper: public boost::asynchronous::continuation_ta
                                 (beg1,end1,boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<Iterator1> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_sort.hpp b/boost/asynchronous/algorithm/parallel_sort.hpp
index 3c650fd..becae3e 100644
--- a/boost/asynchronous/algorithm/parallel_sort.hpp
+++ b/boost/asynchronous/algorithm/parallel_sort.hpp
@@ -1026,7 +1026,14 @@ struct parallel_sort_continuation_range_helper: public boost::asynchronous::cont
                     auto new_continuation = boost::asynchronous::parallel_sort<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1075,7 +1082,14 @@ struct parallel_sort_continuation_range_helper<Continuation,Func,Job,
                     auto new_continuation = boost::asynchronous::parallel_sort<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1122,7 +1136,14 @@ struct parallel_stable_sort_continuation_range_helper: public boost::asynchronou
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1172,7 +1193,14 @@ struct parallel_stable_sort_continuation_range_helper<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1219,7 +1247,14 @@ struct parallel_spreadsort_continuation_range_helper: public boost::asynchronous
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1269,7 +1304,14 @@ struct parallel_spreadsort_continuation_range_helper<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1359,7 +1401,14 @@ struct parallel_sort_continuation_range_helper2: public boost::asynchronous::con
                     auto new_continuation = boost::asynchronous::parallel_sort2<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1408,7 +1457,14 @@ struct parallel_sort_continuation_range_helper2<Continuation,Func,Job,
                     auto new_continuation = boost::asynchronous::parallel_sort2<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1455,7 +1511,14 @@ struct parallel_stable_sort_continuation_range_helper2: public boost::asynchrono
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1505,7 +1568,14 @@ struct parallel_stable_sort_continuation_range_helper2<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1552,7 +1622,14 @@ struct parallel_spreadsort_continuation_range_helper2: public boost::asynchronou
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1602,7 +1679,14 @@ struct parallel_spreadsort_continuation_range_helper2<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_sort_inplace.hpp b/boost/asynchronous/algorithm/parallel_sort_inplace.hpp
index 98634b9..4294062 100644
--- a/boost/asynchronous/algorithm/parallel_sort_inplace.hpp
+++ b/boost/asynchronous/algorithm/parallel_sort_inplace.hpp
@@ -266,7 +266,14 @@ struct parallel_sort_continuation_range_inplace_helper: public boost::asynchrono
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -316,7 +323,14 @@ struct parallel_sort_continuation_range_inplace_helper<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -363,7 +377,14 @@ struct parallel_stable_sort_continuation_range_inplace_helper: public boost::asy
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -413,7 +434,14 @@ struct parallel_stable_sort_continuation_range_inplace_helper<Continuation,Func,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -460,7 +488,14 @@ struct parallel_spreadsort_continuation_range_inplace_helper: public boost::asyn
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -510,7 +545,14 @@ struct parallel_spreadsort_continuation_range_inplace_helper<Continuation,Func,J
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_stable_partition.hpp b/boost/asynchronous/algorithm/parallel_stable_partition.hpp
index 3068a05..cfcce55 100644
--- a/boost/asynchronous/algorithm/parallel_stable_partition.hpp
+++ b/boost/asynchronous/algorithm/parallel_stable_partition.hpp
@@ -508,7 +508,14 @@ struct parallel_stable_partition_continuation_helper:
                     [task_res]
                     (std::tuple<boost::asynchronous::expected<return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
-- 
2.43.0


From 3f065e4700b10eabe52f3b07ecc69160848ea849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 26/74] fix: algorithms lost exceptions not derived from
 std::exception

---
 .../asynchronous/algorithm/parallel_adjacent_find.hpp  |  2 +-
 boost/asynchronous/algorithm/parallel_copy.hpp         |  2 +-
 .../asynchronous/algorithm/parallel_inner_product.hpp  |  4 ++--
 boost/asynchronous/algorithm/parallel_iota.hpp         |  4 ++--
 boost/asynchronous/algorithm/parallel_move.hpp         |  2 +-
 boost/asynchronous/algorithm/parallel_partition.hpp    |  2 +-
 boost/asynchronous/algorithm/parallel_transform.hpp    | 10 +++++-----
 7 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_adjacent_find.hpp b/boost/asynchronous/algorithm/parallel_adjacent_find.hpp
index 87c1f9d..42b150e 100644
--- a/boost/asynchronous/algorithm/parallel_adjacent_find.hpp
+++ b/boost/asynchronous/algorithm/parallel_adjacent_find.hpp
@@ -88,7 +88,7 @@ struct parallel_adjacent_find_helper : public boost::asynchronous::continuation_
                                 task_res.set_value(std::get<1>(res).get());
                             }
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
diff --git a/boost/asynchronous/algorithm/parallel_copy.hpp b/boost/asynchronous/algorithm/parallel_copy.hpp
index 3dfa1db..dd33714 100644
--- a/boost/asynchronous/algorithm/parallel_copy.hpp
+++ b/boost/asynchronous/algorithm/parallel_copy.hpp
@@ -83,7 +83,7 @@ struct parallel_copy_helper : public boost::asynchronous::continuation_task<void
 
                             task_res.set_value();
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
diff --git a/boost/asynchronous/algorithm/parallel_inner_product.hpp b/boost/asynchronous/algorithm/parallel_inner_product.hpp
index c9e87f1..4775245 100644
--- a/boost/asynchronous/algorithm/parallel_inner_product.hpp
+++ b/boost/asynchronous/algorithm/parallel_inner_product.hpp
@@ -590,7 +590,7 @@ struct parallel_inner_product_continuation_helper: public boost::asynchronous::c
                                 {
                                     task_res.set_value(std::move(std::get<0>(res).get()));
                                 }
-                                catch (std::exception& e)
+                                catch (...)
                                 {
                                     task_res.set_exception(std::current_exception());
                                 }
@@ -666,7 +666,7 @@ struct parallel_inner_product_continuation_helper<Continuation1, Continuation2,
                                 {
                                     task_res.set_value(std::move(std::get<0>(res).get()));
                                 }
-                                catch (std::exception& e)
+                                catch (...)
                                 {
                                     task_res.set_exception(std::current_exception());
                                 }
diff --git a/boost/asynchronous/algorithm/parallel_iota.hpp b/boost/asynchronous/algorithm/parallel_iota.hpp
index 766486a..fadc7e8 100644
--- a/boost/asynchronous/algorithm/parallel_iota.hpp
+++ b/boost/asynchronous/algorithm/parallel_iota.hpp
@@ -65,7 +65,7 @@ struct parallel_iota_inplace_helper : public boost::asynchronous::continuation_t
                                 std::get<1>(res).get();
                                 task_res.set_value();
                             }
-                            catch (std::exception& e)
+                            catch (...)
                             {
                                 task_res.set_exception(std::current_exception());
                             }
@@ -143,7 +143,7 @@ struct parallel_iota_generate_helper : public boost::asynchronous::continuation_
                                 std::get<1>(res).get();
                                 task_res.set_value(std::move(*range));
                             }
-                            catch (std::exception& e)
+                            catch (...)
                             {
                                 task_res.set_exception(std::current_exception());
                             }
diff --git a/boost/asynchronous/algorithm/parallel_move.hpp b/boost/asynchronous/algorithm/parallel_move.hpp
index d65674c..5e99982 100644
--- a/boost/asynchronous/algorithm/parallel_move.hpp
+++ b/boost/asynchronous/algorithm/parallel_move.hpp
@@ -82,7 +82,7 @@ struct parallel_move_helper : public boost::asynchronous::continuation_task<void
 
                             task_res.set_value();
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
diff --git a/boost/asynchronous/algorithm/parallel_partition.hpp b/boost/asynchronous/algorithm/parallel_partition.hpp
index da778d0..d9bfa5c 100644
--- a/boost/asynchronous/algorithm/parallel_partition.hpp
+++ b/boost/asynchronous/algorithm/parallel_partition.hpp
@@ -160,7 +160,7 @@ struct partition_worker : public boost::asynchronous::continuation_task<std::pai
                         task_res.set_value(std::make_pair(std::move(l_rest), std::move(r_rest)));
                         return;
                     }
-                    catch (std::exception& )
+                    catch (...)
                     {
                         task_res.set_exception(std::current_exception());
                         return;
diff --git a/boost/asynchronous/algorithm/parallel_transform.hpp b/boost/asynchronous/algorithm/parallel_transform.hpp
index a6401c5..6c9179f 100644
--- a/boost/asynchronous/algorithm/parallel_transform.hpp
+++ b/boost/asynchronous/algorithm/parallel_transform.hpp
@@ -142,7 +142,7 @@ struct parallel_transform_helper : public boost::asynchronous::continuation_task
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -236,7 +236,7 @@ struct parallel_transform2_helper : public boost::asynchronous::continuation_tas
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -320,7 +320,7 @@ struct parallel_transform_range_helper : public boost::asynchronous::continuatio
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -411,7 +411,7 @@ struct parallel_transform2_range_helper : public boost::asynchronous::continuati
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -510,7 +510,7 @@ struct parallel_transform_any_iterators_helper : public boost::asynchronous::con
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
-- 
2.43.0


From 13cb99cdfc244ed3fc87eeca0d6916dd91476dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:27 +0000
Subject: [PATCH 27/74] fix: parallel_partition never completed when the
 predicate threw

---
 .../algorithm/parallel_partition.hpp          | 96 ++++++++++---------
 1 file changed, 51 insertions(+), 45 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_partition.hpp b/boost/asynchronous/algorithm/parallel_partition.hpp
index d9bfa5c..7401145 100644
--- a/boost/asynchronous/algorithm/parallel_partition.hpp
+++ b/boost/asynchronous/algorithm/parallel_partition.hpp
@@ -311,62 +311,68 @@ struct parallel_partition_helper : public boost::asynchronous::continuation_task
                (std::tuple<boost::asynchronous::expected<std::pair<std::list<std::pair<Iterator, Iterator>>, std::list<std::pair<Iterator, Iterator>>>> > res)
                 mutable
             {
+                try
+                {
+                    std::pair<std::list<std::pair<Iterator, Iterator>>, std::list<std::pair<Iterator, Iterator>>> R = std::move(std::get<0>(res).get());
+                    std::list<std::pair<Iterator, Iterator>> l_rest = std::move(R.first);
+                    std::list<std::pair<Iterator, Iterator>> r_rest = std::move(R.second);
 
-                std::pair<std::list<std::pair<Iterator, Iterator>>, std::list<std::pair<Iterator, Iterator>>> R = std::move(std::get<0>(res).get());
-                std::list<std::pair<Iterator, Iterator>> l_rest = std::move(R.first);
-                std::list<std::pair<Iterator, Iterator>> r_rest = std::move(R.second);
-
-                auto it_left_plus_rtrue = sd->m_left;
-                auto it_left_plus_lmove = sd->m_left;
-                std::advance(it_left_plus_rtrue,sd->m_rtrue.load());
-                std::advance(it_left_plus_lmove,sd->m_lmove.load());
+                    auto it_left_plus_rtrue = sd->m_left;
+                    auto it_left_plus_lmove = sd->m_left;
+                    std::advance(it_left_plus_rtrue,sd->m_rtrue.load());
+                    std::advance(it_left_plus_lmove,sd->m_lmove.load());
 
-                if (sd->m_lmove < sd->m_rtrue)
-                {
-                    for(auto& r : r_rest)
+                    if (sd->m_lmove < sd->m_rtrue)
                     {
-                        if(r.first < it_left_plus_rtrue) r.first = it_left_plus_rtrue;
-                        if(r.second < it_left_plus_rtrue) r.second = it_left_plus_rtrue;
+                        for(auto& r : r_rest)
+                        {
+                            if(r.first < it_left_plus_rtrue) r.first = it_left_plus_rtrue;
+                            if(r.second < it_left_plus_rtrue) r.second = it_left_plus_rtrue;
+                        }
+                        l_rest.push_back(std::make_pair(it_left_plus_lmove,it_left_plus_rtrue));
                     }
-                    l_rest.push_back(std::make_pair(it_left_plus_lmove,it_left_plus_rtrue));
-                }
-                if (sd->m_lmove > sd->m_rtrue)
-                {
-                    for(auto& l : l_rest)
+                    if (sd->m_lmove > sd->m_rtrue)
                     {
-                        if(l.first > it_left_plus_rtrue) l.first = it_left_plus_rtrue;
-                        if(l.second > it_left_plus_rtrue) l.second = it_left_plus_rtrue;
+                        for(auto& l : l_rest)
+                        {
+                            if(l.first > it_left_plus_rtrue) l.first = it_left_plus_rtrue;
+                            if(l.second > it_left_plus_rtrue) l.second = it_left_plus_rtrue;
+                        }
+                        r_rest.push_back(std::make_pair(it_left_plus_rtrue,it_left_plus_lmove));
                     }
-                    r_rest.push_back(std::make_pair(it_left_plus_rtrue,it_left_plus_lmove));
-                }
 
-                Iterator lbs = sd->m_left, rbs = sd->m_right, lbe = sd->m_left, rbe = sd->m_right;
-                while((!r_rest.empty() || rbs != rbe) && (!l_rest.empty() || lbs != lbe))
-                {
-                    if (rbs == rbe)
+                    Iterator lbs = sd->m_left, rbs = sd->m_right, lbe = sd->m_left, rbe = sd->m_right;
+                    while((!r_rest.empty() || rbs != rbe) && (!l_rest.empty() || lbs != lbe))
                     {
-                        rbs = r_rest.front().first;
-                        rbe = r_rest.front().second;
-                        r_rest.pop_front();
-                    }
-                    if (lbs == lbe)
-                    {
-                        lbs = l_rest.front().first;
-                        lbe = l_rest.front().second;
-                        l_rest.pop_front();
-                    }
+                        if (rbs == rbe)
+                        {
+                            rbs = r_rest.front().first;
+                            rbe = r_rest.front().second;
+                            r_rest.pop_front();
+                        }
+                        if (lbs == lbe)
+                        {
+                            lbs = l_rest.front().first;
+                            lbe = l_rest.front().second;
+                            l_rest.pop_front();
+                        }
 
-                    for(;;)
-                    {
-                        while (lbs < lbe && rel(*(lbs))) ++lbs;
-                        while (rbs < rbe && !rel(*(rbs))) ++rbs;
-                        if (lbs == lbe || rbs == rbe) break;
-                        std::swap(*lbs,*rbs);
+                        for(;;)
+                        {
+                            while (lbs < lbe && rel(*(lbs))) ++lbs;
+                            while (rbs < rbe && !rel(*(rbs))) ++rbs;
+                            if (lbs == lbe || rbs == rbe) break;
+                            std::swap(*lbs,*rbs);
+                        }
                     }
-                }
 
-                task_res.set_value(it_left_plus_rtrue);
-                return;
+                    task_res.set_value(it_left_plus_rtrue);
+                    return;
+                }
+                catch(...)
+                {
+                    task_res.set_exception(std::current_exception());
+                }
             });
         }
         catch(...)
-- 
2.43.0


From 7290637a2bd2ffc8cd26c733a35098cce934e90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:27 +0000
Subject: [PATCH 28/74] fix: parallel_all_of/any_of/none_of lost an exception
 thrown in a task executed inline

---
 .../detail/parallel_all_of_helper.hpp         | 89 ++++++++++---------
 1 file changed, 48 insertions(+), 41 deletions(-)

diff --git a/boost/asynchronous/algorithm/detail/parallel_all_of_helper.hpp b/boost/asynchronous/algorithm/detail/parallel_all_of_helper.hpp
index 770763b..003a173 100644
--- a/boost/asynchronous/algorithm/detail/parallel_all_of_helper.hpp
+++ b/boost/asynchronous/algorithm/detail/parallel_all_of_helper.hpp
@@ -46,57 +46,64 @@ struct parallel_all_of_helper: public boost::asynchronous::continuation_task<boo
     void operator()()const
     {
         boost::asynchronous::continuation_result<bool> task_res = this->this_task_result();
-        // advance up to cutoff
-        Iterator it = boost::asynchronous::detail::find_cutoff(beg_,cutoff_,end_);
-        // if not at end, recurse, otherwise execute here
-        if (it == end_)
+        try
         {
-            // devide into subarrays and check in each part if we can stop earlier
-            const size_t subarray_size = cutoff_ > 1000 ? 100 : 1;
-            bool result = true;
-            for(size_t i = 0; i < subarray_size; ++i)
+            // advance up to cutoff
+            Iterator it = boost::asynchronous::detail::find_cutoff(beg_,cutoff_,end_);
+            // if not at end, recurse, otherwise execute here
+            if (it == end_)
+            {
+                // devide into subarrays and check in each part if we can stop earlier
+                const size_t subarray_size = cutoff_ > 1000 ? 100 : 1;
+                bool result = true;
+                for(size_t i = 0; i < subarray_size; ++i)
+                {
+                    if (*stop_event_)
+                    {
+                        break;
+                    }
+                    result = Op().algorithm(beg_ + i * (end_ - beg_) / subarray_size, beg_ + (i + 1) * (end_ - beg_) / subarray_size, func_);
+                    if (result == Op().cancel_value())
+                    {
+                        *stop_event_ = true;
+                        break;
+                    }
+                }
+                task_res.set_value(result);
+            }
+            else
             {
                 if (*stop_event_)
                 {
-                    break;
+                    task_res.set_value(Op().cancel_value());
                 }
-                result = Op().algorithm(beg_ + i * (end_ - beg_) / subarray_size, beg_ + (i + 1) * (end_ - beg_) / subarray_size, func_);
-                if (result == Op().cancel_value())
+                else
                 {
-                    *stop_event_ = true;
-                    break;
+                    boost::asynchronous::create_callback_continuation_job<Job>(
+                                // called when subtasks are done, set our result
+                                [task_res](std::tuple<boost::asynchronous::expected<bool>,boost::asynchronous::expected<bool>> res)
+                                {
+                                    try
+                                    {
+                                        bool rt = std::get<0>(res).get();
+                                        bool rt2 = std::get<1>(res).get();
+                                        task_res.set_value( Op().merge(rt,rt2));
+                                    }
+                                    catch(...)
+                                    {
+                                        task_res.set_exception(std::current_exception());
+                                    }
+                                },
+                                // recursive tasks
+                                parallel_all_of_helper<Iterator,Func,Op,Job>(beg_,it,func_,cutoff_, stop_event_, this->get_name(),prio_),
+                                parallel_all_of_helper<Iterator,Func,Op,Job>(it,end_,func_,cutoff_, stop_event_, this->get_name(),prio_)
+                    );
                 }
             }
-            task_res.set_value(result);
         }
-        else
+        catch(...)
         {
-            if (*stop_event_)
-            {
-                task_res.set_value(Op().cancel_value());
-            }
-            else
-            {
-                boost::asynchronous::create_callback_continuation_job<Job>(
-                            // called when subtasks are done, set our result
-                            [task_res](std::tuple<boost::asynchronous::expected<bool>,boost::asynchronous::expected<bool>> res)
-                            {
-                                try
-                                {
-                                    bool rt = std::get<0>(res).get();
-                                    bool rt2 = std::get<1>(res).get();
-                                    task_res.set_value( Op().merge(rt,rt2));
-                                }
-                                catch(...)
-                                {
-                                    task_res.set_exception(std::current_exception());
-                                }
-                            },
-                            // recursive tasks
-                            parallel_all_of_helper<Iterator,Func,Op,Job>(beg_,it,func_,cutoff_, stop_event_, this->get_name(),prio_),
-                            parallel_all_of_helper<Iterator,Func,Op,Job>(it,end_,func_,cutoff_, stop_event_, this->get_name(),prio_)
-                );
-            }
+            task_res.set_exception(std::current_exception());
         }
     }
     Iterator beg_;
-- 
2.43.0


From 668d0eb7ab36e64ebf73bb04da8389263c1e7c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:37 +0000
Subject: [PATCH 29/74] fix: parallel_unique never completed when the function
 threw in a task executed inline

---
 .../algorithm/parallel_unique.hpp             | 107 ++++++++++--------
 1 file changed, 57 insertions(+), 50 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_unique.hpp b/boost/asynchronous/algorithm/parallel_unique.hpp
index d97cd0f..ebd1cd1 100644
--- a/boost/asynchronous/algorithm/parallel_unique.hpp
+++ b/boost/asynchronous/algorithm/parallel_unique.hpp
@@ -51,62 +51,69 @@ struct parallel_unique_helper: public boost::asynchronous::continuation_task<Ite
     void operator()()
     {
         boost::asynchronous::continuation_result<Iterator> task_res = this->this_task_result();
-        // advance up to cutoff
-        Iterator it = boost::asynchronous::detail::find_cutoff(beg_,cutoff_,end_);
-        // if not at end, recurse, otherwise execute here
-        if (it == end_)
+        try
         {
-            task_res.set_value(std::unique(beg_,end_,func_));
-        }
-        else
-        {
-            auto func = func_;
-            // remember our current iterators, as they will be needed for moving from within continuation's callback
-            auto end=end_;
-            auto beg=beg_;
-            boost::asynchronous::create_callback_continuation_job<Job>(
-                        // called when subtasks are done, set our result
-                        [task_res,beg,end,it,func](std::tuple<boost::asynchronous::expected<Iterator>,
-                                              boost::asynchronous::expected<Iterator>> res) mutable
-                        {
-                            try
+            // advance up to cutoff
+            Iterator it = boost::asynchronous::detail::find_cutoff(beg_,cutoff_,end_);
+            // if not at end, recurse, otherwise execute here
+            if (it == end_)
+            {
+                task_res.set_value(std::unique(beg_,end_,func_));
+            }
+            else
+            {
+                auto func = func_;
+                // remember our current iterators, as they will be needed for moving from within continuation's callback
+                auto end=end_;
+                auto beg=beg_;
+                boost::asynchronous::create_callback_continuation_job<Job>(
+                            // called when subtasks are done, set our result
+                            [task_res,beg,end,it,func](std::tuple<boost::asynchronous::expected<Iterator>,
+                                                  boost::asynchronous::expected<Iterator>> res) mutable
                             {
-                                // new end from each range
-                                Iterator itend1 = std::get<0>(res).get();
-                                Iterator itend2 = std::get<1>(res).get();
-
-                                // last of first range
-                                Iterator last1 = beg;
-                                std::advance(last1,std::distance(beg,itend1)-1);
-                                // remember valid size of total range
-                                auto size = std::distance(beg,itend1) + std::distance(it,itend2);
-                                // it is beginning of 2nd range
-                                if (func(*last1,*it))
+                                try
                                 {
-                                    // handle overlap and move range2's begin+1 to range1's end
-                                    std::move(++it,itend2,itend1);
-                                    --size;
+                                    // new end from each range
+                                    Iterator itend1 = std::get<0>(res).get();
+                                    Iterator itend2 = std::get<1>(res).get();
+
+                                    // last of first range
+                                    Iterator last1 = beg;
+                                    std::advance(last1,std::distance(beg,itend1)-1);
+                                    // remember valid size of total range
+                                    auto size = std::distance(beg,itend1) + std::distance(it,itend2);
+                                    // it is beginning of 2nd range
+                                    if (func(*last1,*it))
+                                    {
+                                        // handle overlap and move range2's begin+1 to range1's end
+                                        std::move(++it,itend2,itend1);
+                                        --size;
+                                    }
+                                    // if there were unique's in range1
+                                    else if (it != itend1)
+                                    {
+                                        // move range2's begin to range1's end
+                                        std::move(it,itend2,itend1);
+                                    }
+                                    // done
+                                    auto newend = beg;
+                                    std::advance(newend,size);
+                                    task_res.set_value(newend);
                                 }
-                                // if there were unique's in range1
-                                else if (it != itend1)
+                                catch(...)
                                 {
-                                    // move range2's begin to range1's end
-                                    std::move(it,itend2,itend1);
+                                    task_res.set_exception(std::current_exception());
                                 }
-                                // done
-                                auto newend = beg;
-                                std::advance(newend,size);
-                                task_res.set_value(newend);
-                            }
-                            catch(...)
-                            {
-                                task_res.set_exception(std::current_exception());
-                            }
-                        },
-                        // recursive tasks
-                        parallel_unique_helper<Iterator,Func,Job>(beg_,it,func_,cutoff_,this->get_name(),prio_),
-                        parallel_unique_helper<Iterator,Func,Job>(it,end_,func_,cutoff_,this->get_name(),prio_)
-            );
+                            },
+                            // recursive tasks
+                            parallel_unique_helper<Iterator,Func,Job>(beg_,it,func_,cutoff_,this->get_name(),prio_),
+                            parallel_unique_helper<Iterator,Func,Job>(it,end_,func_,cutoff_,this->get_name(),prio_)
+                );
+            }
+        }
+        catch(...)
+        {
+            task_res.set_exception(std::current_exception());
         }
     }
     Iterator beg_;
-- 
2.43.0


From d0030dcfb11becf8054ea8ac3cd457794a2aab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:44 +0000
Subject: [PATCH 30/74] fix: parallel_iota never completed when an assignment
 threw in a task executed inline

---
 .../asynchronous/algorithm/parallel_iota.hpp  | 138 ++++++++++--------
 1 file changed, 76 insertions(+), 62 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_iota.hpp b/boost/asynchronous/algorithm/parallel_iota.hpp
index fadc7e8..92079ef 100644
--- a/boost/asynchronous/algorithm/parallel_iota.hpp
+++ b/boost/asynchronous/algorithm/parallel_iota.hpp
@@ -42,38 +42,45 @@ struct parallel_iota_inplace_helper : public boost::asynchronous::continuation_t
     {
         boost::asynchronous::continuation_result<void> task_res = this_task_result();
         
-        // Advance iterator up to the cutoff
-        Iterator it = boost::asynchronous::detail::find_cutoff(beg_, cutoff_, end_);
-        // If the end is reached, use this thread to execute the subtask, otherwise recurse
-        if (it == end_)
+        try
         {
-            std::iota(beg_, it, start_);
-            task_res.set_value();
+            // Advance iterator up to the cutoff
+            Iterator it = boost::asynchronous::detail::find_cutoff(beg_, cutoff_, end_);
+            // If the end is reached, use this thread to execute the subtask, otherwise recurse
+            if (it == end_)
+            {
+                std::iota(beg_, it, start_);
+                task_res.set_value();
+            }
+            else
+            {
+                auto distance = std::distance(beg_, it);
+                boost::asynchronous::create_callback_continuation_job<Job>(
+                            // Callback
+                            [task_res]
+                            (std::tuple<boost::asynchronous::expected<void>, boost::asynchronous::expected<void> > res) mutable
+                            {
+                                try
+                                {
+                                    // Call get() to check for exceptions
+                                    std::get<0>(res).get();
+                                    std::get<1>(res).get();
+                                    task_res.set_value();
+                                }
+                                catch (...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
+                            },
+                            // recursive tasks
+                            parallel_iota_inplace_helper<Iterator, Job>(beg_, it, start_, cutoff_, this->get_name(), prio_),
+                            parallel_iota_inplace_helper<Iterator, Job>(it, end_, start_ + distance, cutoff_, this->get_name(), prio_)
+                   );
+            }
         }
-        else
+        catch(...)
         {
-            auto distance = std::distance(beg_, it);
-            boost::asynchronous::create_callback_continuation_job<Job>(
-                        // Callback
-                        [task_res]
-                        (std::tuple<boost::asynchronous::expected<void>, boost::asynchronous::expected<void> > res) mutable
-                        {
-                            try
-                            {
-                                // Call get() to check for exceptions
-                                std::get<0>(res).get();
-                                std::get<1>(res).get();
-                                task_res.set_value();
-                            }
-                            catch (...)
-                            {
-                                task_res.set_exception(std::current_exception());
-                            }
-                        },
-                        // recursive tasks
-                        parallel_iota_inplace_helper<Iterator, Job>(beg_, it, start_, cutoff_, this->get_name(), prio_),
-                        parallel_iota_inplace_helper<Iterator, Job>(it, end_, start_ + distance, cutoff_, this->get_name(), prio_)
-               );
+            task_res.set_exception(std::current_exception());
         }
     }
 
@@ -116,42 +123,49 @@ struct parallel_iota_generate_helper : public boost::asynchronous::continuation_
         std::shared_ptr<Range> range = std::move(range_);
         boost::asynchronous::continuation_result<Range> task_res = this->this_task_result();
         
-        // Get iterators
-        auto beg = boost::begin(*range);
-        auto end = boost::end(*range);
-
-        // Advance iterator up to the cutoff
-        auto it = boost::asynchronous::detail::find_cutoff(beg, cutoff_, end);
-        // If the end is reached, use this thread to execute the subtask, otherwise recurse
-        if (it == end)
+        try
         {
-            std::iota(beg, it, start_);
-            task_res.set_value(std::move(*range));
+            // Get iterators
+            auto beg = boost::begin(*range);
+            auto end = boost::end(*range);
+
+            // Advance iterator up to the cutoff
+            auto it = boost::asynchronous::detail::find_cutoff(beg, cutoff_, end);
+            // If the end is reached, use this thread to execute the subtask, otherwise recurse
+            if (it == end)
+            {
+                std::iota(beg, it, start_);
+                task_res.set_value(std::move(*range));
+            }
+            else
+            {
+                auto distance = std::distance(beg, it);
+                boost::asynchronous::create_callback_continuation_job<Job>(
+                            // Callback
+                            [task_res, range]
+                            (std::tuple<boost::asynchronous::expected<void>, boost::asynchronous::expected<void> > res) mutable
+                            {
+                                try
+                                {
+                                    // Call get() to check for exceptions
+                                    std::get<0>(res).get();
+                                    std::get<1>(res).get();
+                                    task_res.set_value(std::move(*range));
+                                }
+                                catch (...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
+                            },
+                            // recursive tasks
+                            parallel_iota_inplace_helper<decltype(it), Job>(beg, it, start_, cutoff_, this->get_name(), prio_),
+                            parallel_iota_inplace_helper<decltype(it), Job>(it, end, start_ + distance, cutoff_, this->get_name(), prio_)
+                   );
+            }
         }
-        else
+        catch(...)
         {
-            auto distance = std::distance(beg, it);
-            boost::asynchronous::create_callback_continuation_job<Job>(
-                        // Callback
-                        [task_res, range]
-                        (std::tuple<boost::asynchronous::expected<void>, boost::asynchronous::expected<void> > res) mutable
-                        {
-                            try
-                            {
-                                // Call get() to check for exceptions
-                                std::get<0>(res).get();
-                                std::get<1>(res).get();
-                                task_res.set_value(std::move(*range));
-                            }
-                            catch (...)
-                            {
-                                task_res.set_exception(std::current_exception());
-                            }
-                        },
-                        // recursive tasks
-                        parallel_iota_inplace_helper<decltype(it), Job>(beg, it, start_, cutoff_, this->get_name(), prio_),
-                        parallel_iota_inplace_helper<decltype(it), Job>(it, end, start_ + distance, cutoff_, this->get_name(), prio_)
-               );
+            task_res.set_exception(std::current_exception());
         }
     }
 
-- 
2.43.0


From a01237e3773de343226a30197e07521e0a980078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:22 +0000
Subject: [PATCH 31/74] fix: callback_continuation_as_seq reads the size of its
 results while another thread moves them

---
 boost/asynchronous/detail/continuation_impl.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/detail/continuation_impl.hpp b/boost/asynchronous/detail/continuation_impl.hpp
index bbba46c..c960601 100644
--- a/boost/asynchronous/detail/continuation_impl.hpp
+++ b/boost/asynchronous/detail/continuation_impl.hpp
@@ -1377,12 +1377,12 @@ struct callback_continuation_as_seq
     struct subtask_finished
     {
         subtask_finished(std::size_t number_of_tasks, bool , bool )
-            :m_futures(number_of_tasks),m_ready_futures(0),m_done()
+            :m_futures(number_of_tasks),m_number_of_tasks(number_of_tasks),m_ready_futures(0),m_done()
         {
         }
         void done()
         {
-            if (++m_ready_futures == m_futures.size()+1)
+            if (++m_ready_futures == m_number_of_tasks+1)
             {
                 return_result();
             }
@@ -1391,14 +1391,14 @@ struct callback_continuation_as_seq
         void on_done(Func f)
         {
             m_done = std::move(f);
-            if (++m_ready_futures == m_futures.size()+1)
+            if (++m_ready_futures == m_number_of_tasks+1)
             {
                 return_result();
             }
         }
         bool is_ready()
         {
-            return m_ready_futures == m_futures.size()+1;
+            return m_ready_futures == m_number_of_tasks+1;
         }
         void set_interrupted()
         {
@@ -1410,6 +1410,8 @@ struct callback_continuation_as_seq
         }
 
         std::vector<boost::asynchronous::expected<Return> > m_futures;
+        // m_futures is moved away by the thread which completes the continuation, so its size cannot be asked for by others
+        const std::size_t m_number_of_tasks;
         std::atomic<std::size_t> m_ready_futures;
         std::function<void(std::vector<boost::asynchronous::expected<Return> >)> m_done;
     };
-- 
2.43.0


From a9be2b0ba7ed08c281bab6b8271c1068a14c8325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:22 +0000
Subject: [PATCH 32/74] fix: completing an interrupted task hides the
 interruption from its continuations

---
 boost/asynchronous/scheduler/detail/interrupt_state.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/detail/interrupt_state.hpp b/boost/asynchronous/scheduler/detail/interrupt_state.hpp
index 9c1c326..709aeab 100644
--- a/boost/asynchronous/scheduler/detail/interrupt_state.hpp
+++ b/boost/asynchronous/scheduler/detail/interrupt_state.hpp
@@ -72,7 +72,11 @@ struct interrupt_state
     void complete()
     {
         boost::mutex::scoped_lock lock(m_mutex);
-        m_state = 1;
+        // an interrupt request which came while the task was running must stay visible to its continuations
+        if (!is_interrupted_int())
+        {
+            m_state = 1;
+        }
     }
     void run()
     {
-- 
2.43.0


From 591324b5019bdf8c5eda095feb61aa99334d750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:58 +0000
Subject: [PATCH 33/74] fix: subtasks registered after their task was
 interrupted are not interrupted

---
 .../scheduler/detail/interrupt_state.hpp      | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/scheduler/detail/interrupt_state.hpp b/boost/asynchronous/scheduler/detail/interrupt_state.hpp
index 709aeab..ed860ff 100644
--- a/boost/asynchronous/scheduler/detail/interrupt_state.hpp
+++ b/boost/asynchronous/scheduler/detail/interrupt_state.hpp
@@ -89,13 +89,32 @@ struct interrupt_state
     template <class Iterator>
     void add_subs(Iterator beg, Iterator end)
     {
-        boost::mutex::scoped_lock lock(m_interruptibles_mutex);
-        m_interruptibles.insert(m_interruptibles.end(),beg,end);
+        {
+            boost::mutex::scoped_lock lock(m_interruptibles_mutex);
+            m_interruptibles.insert(m_interruptibles.end(),beg,end);
+        }
+        // an interrupt request which came before the subs were known must reach them too
+        if (is_interrupted())
+        {
+            for (;beg != end; ++beg)
+            {
+                boost::asynchronous::any_interruptible sub(*beg);
+                sub.interrupt();
+            }
+        }
     }
     void add_sub(boost::asynchronous::any_interruptible const& i)
     {
-        boost::mutex::scoped_lock lock(m_interruptibles_mutex);
-        m_interruptibles.push_back(i);
+        {
+            boost::mutex::scoped_lock lock(m_interruptibles_mutex);
+            m_interruptibles.push_back(i);
+        }
+        // an interrupt request which came before the sub was known must reach it too
+        if (is_interrupted())
+        {
+            boost::asynchronous::any_interruptible sub(i);
+            sub.interrupt();
+        }
     }
 private:
     bool is_interrupted_int()const
-- 
2.43.0


From 1b7de2733bbea93306cd939a80d956f497ca6ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:11 +0000
Subject: [PATCH 34/74] fix: all_of reports the failure of every failed
 continuation, so its result gets lost or is set twice

---
 boost/asynchronous/algorithm/all_of.hpp | 28 +++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/algorithm/all_of.hpp b/boost/asynchronous/algorithm/all_of.hpp
index a495427..b825927 100644
--- a/boost/asynchronous/algorithm/all_of.hpp
+++ b/boost/asynchronous/algorithm/all_of.hpp
@@ -36,10 +36,12 @@ struct all_of_task_counter
 {
     all_of_task_counter()
         : task_count(std::tuple_size<ResultTuple>::value)
+        , failed(false)
     {}
 
     ResultTuple         values;
     std::atomic<size_t> task_count;
+    std::atomic<bool>   failed;
 };
 
 template <typename ResultVector>
@@ -48,10 +50,12 @@ struct all_of_vector_task_counter
     all_of_vector_task_counter(size_t count)
         : values(count)
         , task_count(count)
+        , failed(false)
     {}
 
     ResultVector        values;
     std::atomic<size_t> task_count;
+    std::atomic<bool>   failed;
 };
 
 template <typename... Continuations>
@@ -120,7 +124,11 @@ struct all_of_helper : public boost::asynchronous::continuation_task<typename bo
                 }
                 catch (...)
                 {
-                    task_res.set_exception(std::current_exception());
+                    // only the first failure is reported
+                    if (!task_counter->failed.exchange(true))
+                    {
+                        task_res.set_exception(std::current_exception());
+                    }
                 }
             }
         );
@@ -148,7 +156,11 @@ struct all_of_helper : public boost::asynchronous::continuation_task<typename bo
                 }
                 catch (...)
                 {
-                    task_res.set_exception(std::current_exception());
+                    // only the first failure is reported
+                    if (!task_counter->failed.exchange(true))
+                    {
+                        task_res.set_exception(std::current_exception());
+                    }
                 }
             }
         );
@@ -200,7 +212,11 @@ struct all_of_vector_helper : public boost::asynchronous::continuation_task<type
                     }
                     catch (...)
                     {
-                        task_res.set_exception(std::current_exception());
+                        // only the first failure is reported
+                        if (!task_counter->failed.exchange(true))
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     }
                 }
             );
@@ -228,7 +244,11 @@ struct all_of_vector_helper : public boost::asynchronous::continuation_task<type
                     }
                     catch (...)
                     {
-                        task_res.set_exception(std::current_exception());
+                        // only the first failure is reported
+                        if (!task_counter->failed.exchange(true))
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     }
                 }
             );
-- 
2.43.0


From e7a728e6f063ead9fd52b6f4b5d01e37473dc463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:11 +0000
Subject: [PATCH 35/74] fix: all_of of an empty vector never completes

---
 boost/asynchronous/algorithm/all_of.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/boost/asynchronous/algorithm/all_of.hpp b/boost/asynchronous/algorithm/all_of.hpp
index b825927..3eb8b99 100644
--- a/boost/asynchronous/algorithm/all_of.hpp
+++ b/boost/asynchronous/algorithm/all_of.hpp
@@ -259,6 +259,12 @@ struct all_of_vector_helper : public boost::asynchronous::continuation_task<type
     void operator()()
     {
         boost::asynchronous::continuation_result<return_type> task_res = this->this_task_result();
+        if (continuations_.empty())
+        {
+            // nothing to wait for
+            task_res.set_value(return_type());
+            return;
+        }
         auto task_counter = std::make_shared<task_counter_type>(continuations_.size());
 
         dispatch_all<>(task_counter, task_res);
-- 
2.43.0


From 72b0dd5a2ae367b96deda124bce058e62ee4882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:49 +0000
Subject: [PATCH 36/74] fix: all_of of a vector of bool continuations writes
 neighbouring bits from different threads

---
 boost/asynchronous/algorithm/all_of.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/algorithm/all_of.hpp b/boost/asynchronous/algorithm/all_of.hpp
index 3eb8b99..c0e7217 100644
--- a/boost/asynchronous/algorithm/all_of.hpp
+++ b/boost/asynchronous/algorithm/all_of.hpp
@@ -11,6 +11,8 @@
 #define BOOST_ASYNCHRONOUS_ALL_OF_CONT_HPP
 
 #include <atomic>
+#include <deque>
+#include <iterator>
 #include <memory>
 #include <tuple>
 #include <type_traits>
@@ -53,7 +55,13 @@ struct all_of_vector_task_counter
         , failed(false)
     {}
 
-    ResultVector        values;
+    ResultVector result()
+    {
+        return ResultVector(std::make_move_iterator(values.begin()), std::make_move_iterator(values.end()));
+    }
+
+    // not a ResultVector: the elements are set by different threads, which a std::vector<bool> does not support
+    std::deque<typename ResultVector::value_type> values;
     std::atomic<size_t> task_count;
     std::atomic<bool>   failed;
 };
@@ -207,7 +215,7 @@ struct all_of_vector_helper : public boost::asynchronous::continuation_task<type
                         size_t remaining = --(task_counter->task_count);
                         if (remaining == 0)
                         {
-                            task_res.set_value(std::move(task_counter->values));
+                            task_res.set_value(task_counter->result());
                         }
                     }
                     catch (...)
@@ -239,7 +247,7 @@ struct all_of_vector_helper : public boost::asynchronous::continuation_task<type
                         size_t remaining = --(task_counter->task_count);
                         if (remaining == 0)
                         {
-                            task_res.set_value(std::move(task_counter->values));
+                            task_res.set_value(task_counter->result());
                         }
                     }
                     catch (...)
-- 
2.43.0


From 4b3206d3cc3bac869685be87c359e8dbea81bbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:02 +0000
Subject: [PATCH 37/74] fix: the exception of a functor given to
 execute_in_all_threads is lost

---
 .../scheduler/detail/execute_in_all_threads.hpp       | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp b/boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp
index 083a7ca..7bf23b7 100644
--- a/boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp
+++ b/boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp
@@ -25,7 +25,16 @@ struct execute_in_all_threads_task
     {}
     void operator()()
     {
-        to_call_();
+        try
+        {
+            to_call_();
+        }
+        catch(...)
+        {
+            // the caller has to know
+            done_promise_->set_exception(std::current_exception());
+            return;
+        }
         done_promise_->set_value();
     }
     boost::asynchronous::any_callable to_call_;
-- 
2.43.0


From 7c3ba1473d9d3975c885b4d585383c6a5911147b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:47 +0000
Subject: [PATCH 38/74] fix: io_threadpool_scheduler::execute_in_all_threads
 returns futures which never become ready while temporary threads exist

---
 boost/asynchronous/scheduler/io_threadpool_scheduler.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index ac814ea..0614b7a 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -325,7 +325,8 @@ public:
         std::size_t idsize=0;
         {
             boost::mutex::scoped_lock lock(m_data->m_current_number_of_workers_mutex);
-            idsize = m_data->m_thread_ids.size();
+            // only the basic threads look into their private queue, a temporary one would never run the task
+            idsize = m_data->m_min_number_of_workers;
             // remember waiting callable for newly created threads
             m_data->m_execute_in_all_threads.push_back(c);
         }
-- 
2.43.0


From 70ab37209901423a2291dc4ebf4970668e578d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:25 +0000
Subject: [PATCH 39/74] fix: a functor of execute_in_all_threads which throws
 in a new thread of io_threadpool_scheduler ends the process

---
 boost/asynchronous/scheduler/io_threadpool_scheduler.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index 0614b7a..2a086a1 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -509,7 +509,14 @@ public:
         // execute tasks which were given to us and have to be executed in all threads
         for (auto& c : execute_in_all_threads_tasks)
         {
-            c();
+            try
+            {
+                c();
+            }
+            catch(...)
+            {
+                // nobody to tell, but this must not end the thread
+            }
         }
         // we run once then end
         do
-- 
2.43.0


From bbb13fd8aaf5871f76b3693e96b871591fdbd667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:13 +0000
Subject: [PATCH 40/74] fix: io_threadpool_scheduler does not grow while a
 temporary thread, which already decided to end, is still counted

---
 .../scheduler/io_threadpool_scheduler.hpp        | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index 2a086a1..935c4ee 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -573,22 +573,18 @@ private:
         bool test_worker_loop()
         {
            boost::mutex::scoped_lock lock(m_current_number_of_workers_mutex);
-           bool res = (this->calculate_queue_size() != 0);//(m_current_number_of_workers > m_min_number_of_workers);
-           /*if (res)
+           bool res = (this->calculate_queue_size() != 0) && !m_joining;//(m_current_number_of_workers > m_min_number_of_workers);
+           if (!res)
            {
+               // from now on this thread does not count any more, if a job is posted now, a new thread can be created
                --m_current_number_of_workers;
-           }*/
-           return res && !m_joining;
+               m_thread_ids.erase(boost::this_thread::get_id());
+           }
+           return res;
         }
 
         void thread_finished(boost::thread* finished_thread)
         {
-            // update number of workers
-            {
-                boost::mutex::scoped_lock lock(m_current_number_of_workers_mutex);
-                --m_current_number_of_workers;
-                m_thread_ids.erase(finished_thread->get_id());
-            }
             // update set of finished threads
             {
                 boost::mutex::scoped_lock lock(m_done_threads_mutex);
-- 
2.43.0


From 0c8508a081880ec53da29d9d2654376456b953d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:51 +0000
Subject: [PATCH 41/74] fix: continuations waiting in a temporary thread of
 io_threadpool_scheduler are lost when the thread ends

---
 .../scheduler/io_threadpool_scheduler.hpp             | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index 935c4ee..dbcef5b 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -179,7 +179,7 @@ public:
                         // make this thread an old thread
                         data->thread_finished(p);
                     };
-            std::function<bool()> c = [data]()mutable{return data->test_worker_loop();};
+            std::function<bool(bool)> c = [data](bool has_waiting_continuations)mutable{return data->test_worker_loop(has_waiting_continuations);};
             boost::thread* new_thread =
                      m_data->m_group->create_thread(std::bind(&io_threadpool_scheduler::run_once,this->m_queue,
                                                                 m_private_queues[m_data->m_current_number_of_workers-1],
@@ -490,7 +490,7 @@ public:
                          std::shared_future<boost::thread*> self,
                          std::weak_ptr<this_type> this_,
                          std::function<void(boost::thread*)> on_done,
-                         std::function<bool()> check_continue,
+                         std::function<bool(bool)> check_continue,
                          size_t index,
                          std::string name,
                          std::vector<boost::asynchronous::any_callable> execute_in_all_threads_tasks)
@@ -545,7 +545,8 @@ public:
                 // TODO, user-defined error
             }
         }
-        while (check_continue());
+        // we cannot end while continuations created in this thread are waiting, nobody else would execute them
+        while (check_continue(!waiting.empty()));
         on_done(t);
     }
 
@@ -570,10 +571,10 @@ private:
         }
         // checks if worker thread should continue
         // if queue not empty, continue
-        bool test_worker_loop()
+        bool test_worker_loop(bool has_waiting_continuations)
         {
            boost::mutex::scoped_lock lock(m_current_number_of_workers_mutex);
-           bool res = (this->calculate_queue_size() != 0) && !m_joining;//(m_current_number_of_workers > m_min_number_of_workers);
+           bool res = (has_waiting_continuations || (this->calculate_queue_size() != 0)) && !m_joining;//(m_current_number_of_workers > m_min_number_of_workers);
            if (!res)
            {
                // from now on this thread does not count any more, if a job is posted now, a new thread can be created
-- 
2.43.0


From d5aae69c1ade289392b48b0dbd97683906bfb981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:58 +0000
Subject: [PATCH 42/74] fix: the size of lockfree queues and stacks wraps below
 zero when a job is popped before it was counted

---
 boost/asynchronous/queue/lockfree_queue.hpp      | 9 ++++++---
 boost/asynchronous/queue/lockfree_spsc_queue.hpp | 9 ++++++---
 boost/asynchronous/queue/lockfree_stack.hpp      | 9 ++++++---
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/boost/asynchronous/queue/lockfree_queue.hpp b/boost/asynchronous/queue/lockfree_queue.hpp
index 18a9c94..c596179 100644
--- a/boost/asynchronous/queue/lockfree_queue.hpp
+++ b/boost/asynchronous/queue/lockfree_queue.hpp
@@ -73,30 +73,33 @@ public:
     void push(JOB && j, std::size_t)
     {
         JOB* task = new JOB(std::forward<JOB>(j));
+        // before the job can be popped, so that the size never gets negative
+        Size::increase();
         while (!m_queue.push(task))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
     void push(JOB && j)
     {
         JOB* task = new JOB(std::forward<JOB>(j));
+        // before the job can be popped, so that the size never gets negative
+        Size::increase();
         while (!m_queue.push(task))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
 #endif
     void push(JOB const& j, std::size_t=0)
     {
         JOB* task = new JOB(j);
+        // before the job can be popped, so that the size never gets negative
+        Size::increase();
         while (!m_queue.push(task))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
 
     JOB pop()
diff --git a/boost/asynchronous/queue/lockfree_spsc_queue.hpp b/boost/asynchronous/queue/lockfree_spsc_queue.hpp
index 48c2371..25f18fd 100644
--- a/boost/asynchronous/queue/lockfree_spsc_queue.hpp
+++ b/boost/asynchronous/queue/lockfree_spsc_queue.hpp
@@ -58,28 +58,31 @@ public:
 #ifndef BOOST_NO_RVALUE_REFERENCES
     void push(JOB && j, std::size_t)
     {
+        // before the job can be popped, so that the size never gets negative
+        Size::increase();
         while (!m_queue.push(std::forward<JOB>(j)))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
     void push(JOB && j)
     {
+        // before the job can be popped, so that the size never gets negative
+        Size::increase();
         while (!m_queue.push(std::forward<JOB>(j)))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
 #endif
     void push(JOB const& j, std::size_t=0)
     {
+        // before the job can be popped, so that the size never gets negative
+        Size::increase();
         while (!m_queue.push(j))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
 
     JOB pop()
diff --git a/boost/asynchronous/queue/lockfree_stack.hpp b/boost/asynchronous/queue/lockfree_stack.hpp
index 9d30229..b338648 100644
--- a/boost/asynchronous/queue/lockfree_stack.hpp
+++ b/boost/asynchronous/queue/lockfree_stack.hpp
@@ -61,30 +61,33 @@ public:
     void push(JOB && j, std::size_t)
     {
         JOB* task = new JOB(std::forward<JOB>(j));
+        // before the job can be popped, so that the size never gets negative
+        Size::increase();
         while (!m_queue.push(task))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
     void push(JOB && j)
     {
         JOB* task = new JOB(std::forward<JOB>(j));
+        // before the job can be popped, so that the size never gets negative
+        Size::increase();
         while (!m_queue.push(task))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
 #endif
     void push(JOB const& j, std::size_t=0)
     {
         JOB* task = new JOB(j);
+        // before the job can be popped, so that the size never gets negative
+        Size::increase();
         while (!m_queue.push(task))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
 
     JOB pop()
-- 
2.43.0


From 1b7e203e422336d61f29390478b7495061c7d0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:58 +0000
Subject: [PATCH 43/74] fix: guarded_deque reports a maximal size which is one
 too small

---
 boost/asynchronous/queue/guarded_deque.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/queue/guarded_deque.hpp b/boost/asynchronous/queue/guarded_deque.hpp
index f595aae..f02cd6f 100755
--- a/boost/asynchronous/queue/guarded_deque.hpp
+++ b/boost/asynchronous/queue/guarded_deque.hpp
@@ -66,16 +66,16 @@ public:
     void push(JOB && j, std::size_t)
     {
         lock_type lock(m_mutex);
-        m_max_size = std::max(m_max_size,m_jobs.size());
         m_jobs.emplace_front(std::forward<JOB>(j));
+        m_max_size = std::max(m_max_size,m_jobs.size());
         lock.unlock();
         m_not_empty.notify_one();
     }
     void push(JOB && j)
     {
         lock_type lock(m_mutex);
-        m_max_size = std::max(m_max_size,m_jobs.size());
         m_jobs.emplace_front(std::forward<JOB>(j));
+        m_max_size = std::max(m_max_size,m_jobs.size());
         lock.unlock();
         m_not_empty.notify_one();
     }
@@ -83,8 +83,8 @@ public:
     void push(JOB const& j, std::size_t=0)
     {
         lock_type lock(m_mutex);
-        m_max_size = std::max(m_max_size,m_jobs.size());
         m_jobs.push_front(j);
+        m_max_size = std::max(m_max_size,m_jobs.size());
         lock.unlock();
         m_not_empty.notify_one();
     }
-- 
2.43.0


From 0eb04425d4b22e1c0e08bf3b1b1e6eb62f55487a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:39 +0000
Subject: [PATCH 44/74] fix: copying an expected of a not default-constructible
 type which holds an exception dereferences a null pointer

---
 boost/asynchronous/expected.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/expected.hpp b/boost/asynchronous/expected.hpp
index 1838834..df3bcde 100644
--- a/boost/asynchronous/expected.hpp
+++ b/boost/asynchronous/expected.hpp
@@ -64,7 +64,7 @@ public:
      * \brief copy constructor noexcept
      */
     expected(expected const& rhs) noexcept
-        : m_value(std::make_shared<value_type>(*rhs.m_value))
+        : m_value(rhs.m_value ? std::make_shared<value_type>(*rhs.m_value) : std::shared_ptr<value_type>())
         , m_exception(rhs.m_exception)
     {
     }
@@ -84,7 +84,9 @@ public:
      */
     expected& operator=(expected const& rhs) noexcept
     {
-        if(!!m_value)
+        if(!rhs.m_value)
+            m_value.reset();
+        else if(!!m_value)
             *m_value=*rhs.m_value;
         else
             m_value = std::make_shared<value_type>(*rhs.m_value);
-- 
2.43.0


From b1e0b0de5fb71ef98338aeb9bfc180b6b9157fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:39 +0000
Subject: [PATCH 45/74] fix: the weak scheduler of a
 composite_threadpool_scheduler locks to a valid but useless scheduler after
 the composite is gone

---
 .../scheduler/composite_threadpool_scheduler.hpp           | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
index 048fe33..32430dc 100644
--- a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
@@ -534,12 +534,13 @@ private:
             for (typename std::vector<boost::asynchronous::any_weak_scheduler<job_type> >::const_iterator it = m_schedulers.begin();
                  it != m_schedulers.end(); ++it)
             {
-                // only add if valid
                 boost::asynchronous::any_shared_scheduler<job_type> s = (*it).lock();
-                if (s.is_valid())
+                // if a subpool is gone, the composite is too (and the indexes of other subpools would no more be correct)
+                if (!s.is_valid())
                 {
-                    locked_schedulers.emplace_back(std::move(s));
+                    return any_shared_scheduler<job_type>();
                 }
+                locked_schedulers.emplace_back(std::move(s));
             }
             std::shared_ptr<lockable_shared_scheduler> s = std::make_shared<lockable_shared_scheduler>(std::move(locked_schedulers));
             any_shared_scheduler_ptr<job_type> pscheduler(std::move(s));
-- 
2.43.0


From f26274ac8696d0875558954723c334289aa78c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:15 +0000
Subject: [PATCH 46/74] fix: an interruptible job stolen by a thread of a
 scheduler of another type dereferences a null pointer

---
 .../extensions/asio/asio_scheduler.hpp        | 1014 ++++++++---------
 .../scheduler/detail/interruptible_job.hpp    |    8 +
 .../detail/multi_queue_scheduler_policy.hpp   |    6 +-
 .../detail/single_queue_scheduler_policy.hpp  |    6 +-
 .../scheduler/multiple_thread_scheduler.hpp   |    6 +-
 5 files changed, 524 insertions(+), 516 deletions(-)

diff --git a/boost/asynchronous/extensions/asio/asio_scheduler.hpp b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
index f005741..0bd7466 100644
--- a/boost/asynchronous/extensions/asio/asio_scheduler.hpp
+++ b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
@@ -1,507 +1,507 @@
-// Boost.Asynchronous library
-//  Copyright (C) Christophe Henry 2013
-//
-//  Use, modification and distribution is subject to the Boost
-//  Software License, Version 1.0.  (See accompanying file
-//  LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
-//
-// For more information, see http://www.boost.org
-
-#ifndef BOOST_ASYNCHRON_EXTENSIONS_ASIO_SCHEDULER_HPP
-#define BOOST_ASYNCHRON_EXTENSIONS_ASIO_SCHEDULER_HPP
-
-#include <vector>
-#include <atomic>
-#include <memory>
-#include <future>
-#include <functional>
-
-#include <boost/thread/thread.hpp>
-#include <boost/thread/tss.hpp>
-#include <boost/asio.hpp>
-#include <boost/thread/future.hpp>
-
-#include <boost/asynchronous/callable_any.hpp>
-#include <boost/asynchronous/scheduler/detail/scheduler_helpers.hpp>
-#include <boost/asynchronous/job_traits.hpp>
-#include <boost/asynchronous/detail/any_joinable.hpp>
-#include <boost/asynchronous/queue/any_queue.hpp>
-#include <boost/asynchronous/exceptions.hpp>
-#include <boost/asynchronous/job_traits.hpp>
-#include <boost/asynchronous/queue/find_queue_position.hpp>
-#include <boost/asynchronous/scheduler/detail/interruptible_job.hpp>
-#include <boost/asynchronous/extensions/asio/tss_asio.hpp>
-#include <boost/asynchronous/any_scheduler.hpp>
-#include <boost/asynchronous/scheduler/tss_scheduler.hpp>
-#include <boost/asynchronous/scheduler/detail/lockable_weak_scheduler.hpp>
-#include <boost/asynchronous/scheduler/detail/any_continuation.hpp>
-#include <boost/asynchronous/scheduler/tss_scheduler.hpp>
-#include <boost/asynchronous/scheduler/cpu_load_policies.hpp>
-#include <boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp>
-
-// partial implementation of any_shared_scheduler_impl using boost::asio
-namespace boost { namespace asynchronous
-{
-
-template<class FindPosition=boost::asynchronous::default_find_position<boost::asynchronous::sequential_push_policy > ,
-         class CPULoad =
-#ifdef BOOST_ASYNCHRONOUS_NO_SAVING_CPU_LOAD
-         boost::asynchronous::no_cpu_load_saving
-#else
-         boost::asynchronous::default_save_cpu_load<>
-#endif
-         >
-class asio_scheduler : 
-#ifndef BOOST_ASYNCHRONOUS_USE_TYPE_ERASURE
-        public any_shared_scheduler_concept<boost::asynchronous::any_callable>,
-#endif          
-        public FindPosition
-{
-public:
-    typedef boost::asynchronous::any_callable job_type;
-    typedef asio_scheduler<FindPosition,CPULoad> this_type;
-    
-    asio_scheduler(size_t number_of_workers=1,bool immediate=true,std::string const& name="")
-        : m_next_shutdown_bucket(0)
-        , m_number_of_workers(number_of_workers)
-        , m_immediate(immediate)
-        , m_name(name)
-    {
-        set_name(name);
-    }
-    std::vector<std::size_t> get_queue_size() const override
-    {
-        // not supported
-        return std::vector<std::size_t>();
-    }
-    std::vector<std::size_t> get_max_queue_size() const override
-    {
-        // not supported
-        return std::vector<std::size_t>();
-    }
-    void reset_max_queue_size() override
-    {
-        // not supported
-    }
-
-    void init(size_t number_of_workers,std::vector<boost::asynchronous::any_queue_ptr<job_type> > const& others,std::weak_ptr<this_type> weak_self)
-    {
-        m_works.reserve(number_of_workers);
-        m_ioservices.reserve(number_of_workers);
-        m_group.reset(new boost::thread_group);
-        std::vector<std::shared_future<void> > all_threads_started;
-        all_threads_started.reserve(number_of_workers);
-        for (size_t i=0; i<number_of_workers; ++i)
-        {
-            // create worker
-            std::shared_ptr<boost::asio::io_context> ioservice = std::make_shared<boost::asio::io_context>();
-            m_ioservices.push_back(ioservice);
-            m_works.push_back(boost::asio::make_work_guard(*ioservice));
-        }
-        for (size_t i=0; i<number_of_workers; ++i)
-        {
-            // a worker gets the other io_services, so that he can try to steal
-            std::vector<std::shared_ptr<boost::asio::io_context > > other_ioservices(m_ioservices);
-            other_ioservices.erase(other_ioservices.begin()+i);
-            // create thread and add to group
-            std::promise<boost::thread*> new_thread_promise;
-            std::shared_future<boost::thread*> fu = new_thread_promise.get_future();
-            std::shared_ptr<std::promise<void> > p(new std::promise<void>);
-            boost::thread* new_thread =
-                    m_group->create_thread(std::bind(&asio_scheduler::run,m_ioservices[i],fu,p,other_ioservices,others,weak_self));
-            all_threads_started.push_back(p->get_future());
-            new_thread_promise.set_value(new_thread);
-
-            m_thread_ids.push_back(new_thread->get_id());
-        }
-        // wait for all threads to be started
-        boost::wait_for_all(all_threads_started.begin(),all_threads_started.end());
-    }
-    void constructor_done(std::weak_ptr<this_type> weak_self)
-    {
-        m_weak_self = weak_self;
-        if (m_immediate)
-            init(m_number_of_workers,std::vector<boost::asynchronous::any_queue_ptr<job_type> >(),m_weak_self);
-    }
-    ~asio_scheduler()
-    {
-        for (size_t i = 0; i< m_ioservices.size();++i)
-        {
-            boost::asynchronous::detail::default_termination_task<typename boost::asynchronous::job_traits<job_type>::diagnostic_type,boost::thread_group> ttask;
-            // this task has to be executed last => lowest prio
-#ifndef BOOST_NO_RVALUE_REFERENCES
-            job_type job(ttask);
-            this->post(std::move(job),std::numeric_limits<std::size_t>::max());
-#else
-            this->post(job_type(ttask),std::numeric_limits<std::size_t>::max());
-#endif
-        }
-        m_works.clear();
-    }
-    void set_name(std::string const& name)
-    {
-        for (size_t i = 1; i<= m_ioservices.size();++i)
-        {
-            boost::asynchronous::detail::set_name_task<typename boost::asynchronous::job_traits<job_type>::diagnostic_type> ntask(name);
-#ifndef BOOST_NO_RVALUE_REFERENCES
-            job_type job(ntask);
-            this->post(std::move(job),i);
-#else
-            this->post(job_type(ntask),i);
-#endif
-        }
-    }
-    std::string get_name()const override
-    {
-        return m_name;
-    }
-    boost::asynchronous::any_joinable get_worker()const
-    {
-        return boost::asynchronous::any_joinable (boost::asynchronous::detail::worker_wrap<boost::thread_group>(m_group));
-    }
-    void processor_bind(std::vector<std::tuple<unsigned int/*first core*/,unsigned int/*number of threads*/>> p) override
-    {
-        // our thread (queue) index. 0 means "don't care" and is therefore not desirable)
-        size_t t = 1;
-        for(auto const& v : p)
-        {
-            for (unsigned int i = 0; i< std::get<1>(v) && (t < m_ioservices.size()) ;++i)
-            {
-                boost::asynchronous::detail::processor_bind_task task(std::get<0>(v)+i);
-                job_type job(std::move(task));
-                this->post(std::move(job),t++);
-            }
-        }
-    }
-    BOOST_ATTRIBUTE_NODISCARD std::vector<std::future<void>> execute_in_all_threads(boost::asynchronous::any_callable c) override
-    {
-        // our thread (queue) index. 0 means "don't care" and is therefore not desirable)
-        size_t t = 1;
-        std::vector<std::future<void>> res;
-        res.reserve(m_number_of_workers);
-        for (size_t i = 0; i< m_number_of_workers;++i)
-        {
-            std::promise<void> p;
-            auto fu = p.get_future();
-            res.emplace_back(std::move(fu));
-            boost::asynchronous::detail::execute_in_all_threads_task task(c,std::move(p));
-            job_type job(std::move(task));
-            this->post(std::move(job),t++);
-        }
-        return res;
-    }
-    
-    std::vector<boost::thread::id> thread_ids()const override
-    {
-        return m_thread_ids;
-    }
-    
-    boost::asynchronous::scheduler_diagnostics
-    get_diagnostics(std::size_t =0)const override
-    {
-        // TODO if possible
-        return boost::asynchronous::scheduler_diagnostics();
-    }
-    void clear_diagnostics() override
-    {
-        // TODO if possible
-    }
-    void register_diagnostics_functor(std::function<void(boost::asynchronous::scheduler_diagnostics)> ,
-                                      boost::asynchronous::register_diagnostics_type =
-                                                    boost::asynchronous::register_diagnostics_type()) override
-    {
-        //TODO if possible
-    }
-    void set_steal_from_queues(std::vector<boost::asynchronous::any_queue_ptr<job_type> > const& others)
-    {
-        // this scheduler steals if offered
-        init(m_number_of_workers,others,m_weak_self);
-    }
-
-#ifndef BOOST_NO_RVALUE_REFERENCES    
-    void post(job_type job, std::size_t prio) override
-    {
-        boost::asynchronous::job_traits<job_type>::set_posted_time(job);
-        if (prio == std::numeric_limits<std::size_t>::max())
-        {
-            std::size_t pos = m_next_shutdown_bucket.load()% m_ioservices.size();
-            boost::asio::post(m_ioservices[pos]->get_executor(), std::move(job));
-            ++m_next_shutdown_bucket;
-        }
-        else
-        {
-            std::size_t pos = this->find_position(prio,m_ioservices.size());
-            boost::asio::post(m_ioservices[pos]->get_executor(), std::move(job));
-        }
-    }
-    void post(job_type job) override
-    {
-        post(std::move(job),0);
-    }
-    void post(boost::asynchronous::any_callable job,const std::string& name)
-    {
-        typename boost::asynchronous::job_traits<job_type>::wrapper_type w(std::move(job));
-        w.set_name(name);
-        post(std::move(w));        
-    }
-    void post(boost::asynchronous::any_callable job,const std::string& name,std::size_t priority)
-    {
-        typename boost::asynchronous::job_traits<job_type>::wrapper_type w(std::move(job));
-        w.set_name(name);
-        post(std::move(w),priority);
-    } 
-    boost::asynchronous::any_interruptible interruptible_post(job_type job,
-                                                          std::size_t prio) override
-    {
-        std::shared_ptr<boost::asynchronous::detail::interrupt_state>
-                state = std::make_shared<boost::asynchronous::detail::interrupt_state>();
-        // write to tss in case the task requires it
-        boost::asynchronous::get_interrupt_state<>(state,true);
-
-        std::shared_ptr<std::promise<boost::thread*> > wpromise = std::make_shared<std::promise<boost::thread*> >();
-        boost::asynchronous::job_traits<job_type>::set_posted_time(job);
-        boost::asynchronous::interruptible_job<job_type,this_type>
-                ijob(std::move(job),wpromise,state);
-        
-        boost::asynchronous::job_traits<job_type>::set_posted_time(job);
-        if (prio == std::numeric_limits<std::size_t>::max())
-        {
-            std::size_t pos = m_next_shutdown_bucket.load()% m_ioservices.size();
-            boost::asio::post(m_ioservices[pos]->get_executor(), std::move(ijob));
-            ++m_next_shutdown_bucket;
-        }
-        else
-        {
-            std::size_t pos = this->find_position(prio,m_ioservices.size());
-            boost::asio::post(m_ioservices[pos]->get_executor(), std::move(ijob));
-        }
-        
-        std::future<boost::thread*> fu = wpromise->get_future();
-        boost::asynchronous::interrupt_helper interruptible(std::move(fu),state);
-
-        return boost::asynchronous::any_interruptible(interruptible);
-    }
-    boost::asynchronous::any_interruptible interruptible_post(job_type job) override
-    {
-        return interruptible_post(std::move(job),0);
-    }
-    boost::asynchronous::any_interruptible interruptible_post(boost::asynchronous::any_callable job,const std::string& name)
-    {
-        typename boost::asynchronous::job_traits<job_type>::wrapper_type w(std::move(job));
-        w.set_name(name);
-        return interruptible_post(std::move(w));
-    }
-    boost::asynchronous::any_interruptible interruptible_post(boost::asynchronous::any_callable job,const std::string& name,
-                                                           std::size_t priority)
-    {
-        typename boost::asynchronous::job_traits<job_type>::wrapper_type w(std::move(job));
-        w.set_name(name);
-        return interruptible_post(std::move(w),priority);
-    }
-#else
-    void post(job_type& job, std::size_t prio=0)
-    {
-        boost::asynchronous::job_traits<job_type>::set_posted_time(job);
-        if (prio == std::numeric_limits<std::size_t>::max())
-        {
-            std::size_t pos = m_next_shutdown_bucket.load()% m_ioservices.size();
-            m_ioservices[pos]->post(job);
-            ++m_next_shutdown_bucket;
-        }
-        else
-        {
-            std::size_t pos = this->find_position(prio,m_ioservices.size());
-            m_ioservices[pos]->post(job);
-        }
-    }
-    void post(boost::asynchronous::any_callable&& job,const std::string& name)
-    {
-        typename boost::asynchronous::job_traits<job_type>::wrapper_type w(job);
-        w.set_name(name);
-        post(w);
-    }
-    void post(boost::asynchronous::any_callable&& job,const std::string& name,std::size_t priority)
-    {
-        typename boost::asynchronous::job_traits<job_type>::wrapper_type w(job);
-        w.set_name(name);
-        post(w,priority);
-    }  
-    boost::asynchronous::any_interruptible interruptible_post(job_type& job, std::size_t prio=0)
-    {
-        std::shared_ptr<boost::asynchronous::detail::interrupt_state>
-                state = std::make_shared<boost::asynchronous::detail::interrupt_state>();
-        std::shared_ptr<std::promise<boost::thread*> > wpromise = std::make_shared<std::promise<boost::thread*> >();
-        boost::asynchronous::job_traits<job_type>::set_posted_time(job);
-        boost::asynchronous::interruptible_job<job_type,this_type>
-                ijob(job,wpromise,state);
-        
-        boost::asynchronous::job_traits<job_type>::set_posted_time(ijob);
-        if (prio == std::numeric_limits<std::size_t>::max())
-        {
-            std::size_t pos = m_next_shutdown_bucket.load()% m_ioservices.size();
-            m_ioservices[pos]->post(ijob);
-            ++m_next_shutdown_bucket;
-        }
-        else
-        {
-            std::size_t pos = this->find_position(prio,m_ioservices.size());
-            m_ioservices[pos]->post(ijob);
-        }
-        
-        std::shared_future<boost::thread*> fu = wpromise->get_future();
-        boost::asynchronous::interrupt_helper interruptible(fu,state);
-
-        return boost::asynchronous::any_interruptible(interruptible);
-    }
-    boost::asynchronous::any_interruptible interruptible_post(boost::asynchronous::any_callable job,const std::string& name)
-    {
-        typename boost::asynchronous::job_traits<job_type>::wrapper_type w(job);
-        w.set_name(name);
-        return interruptible_post(w);
-    }
-    boost::asynchronous::any_interruptible interruptible_post(boost::asynchronous::any_callable job,const std::string& name,
-                                                           std::size_t priority)
-    {
-        typename boost::asynchronous::job_traits<job_type>::wrapper_type w(job);
-        w.set_name(name);
-        return interruptible_post(w,priority);
-    }  
-#endif
-    void enable_queue(std::size_t , bool ) override
-    {
-        // unsupported
-    }
-
-    std::vector<boost::asynchronous::any_queue_ptr<job_type> > get_queues()
-    {
-        // this scheduler doesn't give any queues for stealing
-        return std::vector<boost::asynchronous::any_queue_ptr<job_type> >();
-    }    
-    // TLS
-    static boost::thread_specific_ptr<thread_ptr_wrapper> m_self_thread;
-    
-private:
-    static void run(std::shared_ptr<boost::asio::io_context> ioservice,std::shared_future<boost::thread*> self,
-                    std::shared_ptr<std::promise<void> > started,
-                    std::vector<std::shared_ptr<boost::asio::io_context > > other_ioservices,
-                    std::vector<boost::asynchronous::any_queue_ptr<job_type> > other_queues,
-                    std::weak_ptr<this_type> this_)
-    {
-        boost::thread* t = self.get();
-        m_self_thread.reset(new thread_ptr_wrapper(t));
-        started->set_value();
-        get_io_service<>(ioservice.get());
-        // thread scheduler => tss
-        boost::asynchronous::any_weak_scheduler<job_type> self_as_weak = boost::asynchronous::detail::lockable_weak_scheduler<this_type>(this_);
-        boost::asynchronous::get_thread_scheduler<job_type>(self_as_weak,true);
-
-        std::list<boost::asynchronous::any_continuation>& waiting =
-                boost::asynchronous::get_continuations(std::list<boost::asynchronous::any_continuation>(),true);
-
-        CPULoad cpu_load;
-        while(true)
-        {
-            job_type job;
-            bool popped = false;
-            try
-            {
-                popped = (ioservice->poll_one() != 0);
-                if (popped)
-                {
-                    cpu_load.popped_job();
-                }
-                else
-                {
-                    for (std::size_t i = 0; i< other_ioservices.size();++i)
-                    {
-                        popped = (other_ioservices[i]->poll_one() != 0);
-                        if (popped)
-                        {
-                            cpu_load.popped_job();
-                            break;
-                        }
-                    }
-                }
-                bool stolen=false;
-                if (!popped)
-                {                    
-                    // ok we have nothing to do, maybe we can steal some work from other pools?
-                    for (std::size_t i=0; i< other_queues.size(); ++i)
-                    {
-                        stolen = (*other_queues[i]).try_steal(job);
-                        if (stolen)
-                            break;
-                    }
-                    if (stolen)
-                    {
-                        cpu_load.popped_job();
-                        // execute stolen job
-                        job();
-                    }
-                }
-                if (!popped && !stolen)
-                {
-                    // look for waiting tasks
-                    if (!waiting.empty())
-                    {
-                        for (std::list<boost::asynchronous::any_continuation>::iterator it = waiting.begin(); it != waiting.end();)
-                        {
-                            if ((*it).is_ready())
-                            {
-                                boost::asynchronous::any_continuation c = std::move(*it);
-                                it = waiting.erase(it);
-                                c();
-                            }
-                            else
-                            {
-                                ++it;
-                            }
-                        }
-                    }
-                    cpu_load.loop_done_no_job();
-                    // nothing for us to do, give up our time slice
-                    boost::this_thread::yield();
-                }
-                // remove state from tss
-                boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
-            }
-            catch(boost::asynchronous::detail::shutdown_exception&)
-            {
-                // we are done
-                delete m_self_thread.release();
-                return;
-            }
-            catch(boost::thread_interrupted&)
-            {
-                // task interrupted, no problem, just continue
-            }
-            catch(std::exception&)
-            {
-                if (popped)
-                {
-                    boost::asynchronous::job_traits<job_type>::set_failed(job);
-                    // remove state from tss
-                    boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
-                }
-            }
-        }
-    }
-    
-    
-    std::atomic<size_t> m_next_shutdown_bucket;
-    size_t m_number_of_workers;
-    std::vector<boost::asio::executor_work_guard<boost::asio::io_context::executor_type>> m_works;
-    std::vector<std::shared_ptr<boost::asio::io_context > > m_ioservices;
-    std::shared_ptr<boost::thread_group> m_group;
-    std::vector<boost::thread::id> m_thread_ids;
-    std::weak_ptr<this_type> m_weak_self;
-    bool m_immediate;
-    const std::string m_name;
-};
-
-template<class FindPosition,class CPULoad>
-boost::thread_specific_ptr<thread_ptr_wrapper>
-asio_scheduler<FindPosition,CPULoad>::m_self_thread;
-
-}}
-#endif // BOOST_ASYNCHRON_EXTENSIONS_ASIO_SCHEDULER_HPP
+// Boost.Asynchronous library
+//  Copyright (C) Christophe Henry 2013
+//
+//  Use, modification and distribution is subject to the Boost
+//  Software License, Version 1.0.  (See accompanying file
+//  LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
+//
+// For more information, see http://www.boost.org
+
+#ifndef BOOST_ASYNCHRON_EXTENSIONS_ASIO_SCHEDULER_HPP
+#define BOOST_ASYNCHRON_EXTENSIONS_ASIO_SCHEDULER_HPP
+
+#include <vector>
+#include <atomic>
+#include <memory>
+#include <future>
+#include <functional>
+
+#include <boost/thread/thread.hpp>
+#include <boost/thread/tss.hpp>
+#include <boost/asio.hpp>
+#include <boost/thread/future.hpp>
+
+#include <boost/asynchronous/callable_any.hpp>
+#include <boost/asynchronous/scheduler/detail/scheduler_helpers.hpp>
+#include <boost/asynchronous/job_traits.hpp>
+#include <boost/asynchronous/detail/any_joinable.hpp>
+#include <boost/asynchronous/queue/any_queue.hpp>
+#include <boost/asynchronous/exceptions.hpp>
+#include <boost/asynchronous/job_traits.hpp>
+#include <boost/asynchronous/queue/find_queue_position.hpp>
+#include <boost/asynchronous/scheduler/detail/interruptible_job.hpp>
+#include <boost/asynchronous/extensions/asio/tss_asio.hpp>
+#include <boost/asynchronous/any_scheduler.hpp>
+#include <boost/asynchronous/scheduler/tss_scheduler.hpp>
+#include <boost/asynchronous/scheduler/detail/lockable_weak_scheduler.hpp>
+#include <boost/asynchronous/scheduler/detail/any_continuation.hpp>
+#include <boost/asynchronous/scheduler/tss_scheduler.hpp>
+#include <boost/asynchronous/scheduler/cpu_load_policies.hpp>
+#include <boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp>
+
+// partial implementation of any_shared_scheduler_impl using boost::asio
+namespace boost { namespace asynchronous
+{
+
+template<class FindPosition=boost::asynchronous::default_find_position<boost::asynchronous::sequential_push_policy > ,
+         class CPULoad =
+#ifdef BOOST_ASYNCHRONOUS_NO_SAVING_CPU_LOAD
+         boost::asynchronous::no_cpu_load_saving
+#else
+         boost::asynchronous::default_save_cpu_load<>
+#endif
+         >
+class asio_scheduler : 
+#ifndef BOOST_ASYNCHRONOUS_USE_TYPE_ERASURE
+        public any_shared_scheduler_concept<boost::asynchronous::any_callable>,
+#endif          
+        public FindPosition
+{
+public:
+    typedef boost::asynchronous::any_callable job_type;
+    typedef asio_scheduler<FindPosition,CPULoad> this_type;
+    
+    asio_scheduler(size_t number_of_workers=1,bool immediate=true,std::string const& name="")
+        : m_next_shutdown_bucket(0)
+        , m_number_of_workers(number_of_workers)
+        , m_immediate(immediate)
+        , m_name(name)
+    {
+        set_name(name);
+    }
+    std::vector<std::size_t> get_queue_size() const override
+    {
+        // not supported
+        return std::vector<std::size_t>();
+    }
+    std::vector<std::size_t> get_max_queue_size() const override
+    {
+        // not supported
+        return std::vector<std::size_t>();
+    }
+    void reset_max_queue_size() override
+    {
+        // not supported
+    }
+
+    void init(size_t number_of_workers,std::vector<boost::asynchronous::any_queue_ptr<job_type> > const& others,std::weak_ptr<this_type> weak_self)
+    {
+        m_works.reserve(number_of_workers);
+        m_ioservices.reserve(number_of_workers);
+        m_group.reset(new boost::thread_group);
+        std::vector<std::shared_future<void> > all_threads_started;
+        all_threads_started.reserve(number_of_workers);
+        for (size_t i=0; i<number_of_workers; ++i)
+        {
+            // create worker
+            std::shared_ptr<boost::asio::io_context> ioservice = std::make_shared<boost::asio::io_context>();
+            m_ioservices.push_back(ioservice);
+            m_works.push_back(boost::asio::make_work_guard(*ioservice));
+        }
+        for (size_t i=0; i<number_of_workers; ++i)
+        {
+            // a worker gets the other io_services, so that he can try to steal
+            std::vector<std::shared_ptr<boost::asio::io_context > > other_ioservices(m_ioservices);
+            other_ioservices.erase(other_ioservices.begin()+i);
+            // create thread and add to group
+            std::promise<boost::thread*> new_thread_promise;
+            std::shared_future<boost::thread*> fu = new_thread_promise.get_future();
+            std::shared_ptr<std::promise<void> > p(new std::promise<void>);
+            boost::thread* new_thread =
+                    m_group->create_thread(std::bind(&asio_scheduler::run,m_ioservices[i],fu,p,other_ioservices,others,weak_self));
+            all_threads_started.push_back(p->get_future());
+            new_thread_promise.set_value(new_thread);
+
+            m_thread_ids.push_back(new_thread->get_id());
+        }
+        // wait for all threads to be started
+        boost::wait_for_all(all_threads_started.begin(),all_threads_started.end());
+    }
+    void constructor_done(std::weak_ptr<this_type> weak_self)
+    {
+        m_weak_self = weak_self;
+        if (m_immediate)
+            init(m_number_of_workers,std::vector<boost::asynchronous::any_queue_ptr<job_type> >(),m_weak_self);
+    }
+    ~asio_scheduler()
+    {
+        for (size_t i = 0; i< m_ioservices.size();++i)
+        {
+            boost::asynchronous::detail::default_termination_task<typename boost::asynchronous::job_traits<job_type>::diagnostic_type,boost::thread_group> ttask;
+            // this task has to be executed last => lowest prio
+#ifndef BOOST_NO_RVALUE_REFERENCES
+            job_type job(ttask);
+            this->post(std::move(job),std::numeric_limits<std::size_t>::max());
+#else
+            this->post(job_type(ttask),std::numeric_limits<std::size_t>::max());
+#endif
+        }
+        m_works.clear();
+    }
+    void set_name(std::string const& name)
+    {
+        for (size_t i = 1; i<= m_ioservices.size();++i)
+        {
+            boost::asynchronous::detail::set_name_task<typename boost::asynchronous::job_traits<job_type>::diagnostic_type> ntask(name);
+#ifndef BOOST_NO_RVALUE_REFERENCES
+            job_type job(ntask);
+            this->post(std::move(job),i);
+#else
+            this->post(job_type(ntask),i);
+#endif
+        }
+    }
+    std::string get_name()const override
+    {
+        return m_name;
+    }
+    boost::asynchronous::any_joinable get_worker()const
+    {
+        return boost::asynchronous::any_joinable (boost::asynchronous::detail::worker_wrap<boost::thread_group>(m_group));
+    }
+    void processor_bind(std::vector<std::tuple<unsigned int/*first core*/,unsigned int/*number of threads*/>> p) override
+    {
+        // our thread (queue) index. 0 means "don't care" and is therefore not desirable)
+        size_t t = 1;
+        for(auto const& v : p)
+        {
+            for (unsigned int i = 0; i< std::get<1>(v) && (t < m_ioservices.size()) ;++i)
+            {
+                boost::asynchronous::detail::processor_bind_task task(std::get<0>(v)+i);
+                job_type job(std::move(task));
+                this->post(std::move(job),t++);
+            }
+        }
+    }
+    BOOST_ATTRIBUTE_NODISCARD std::vector<std::future<void>> execute_in_all_threads(boost::asynchronous::any_callable c) override
+    {
+        // our thread (queue) index. 0 means "don't care" and is therefore not desirable)
+        size_t t = 1;
+        std::vector<std::future<void>> res;
+        res.reserve(m_number_of_workers);
+        for (size_t i = 0; i< m_number_of_workers;++i)
+        {
+            std::promise<void> p;
+            auto fu = p.get_future();
+            res.emplace_back(std::move(fu));
+            boost::asynchronous::detail::execute_in_all_threads_task task(c,std::move(p));
+            job_type job(std::move(task));
+            this->post(std::move(job),t++);
+        }
+        return res;
+    }
+    
+    std::vector<boost::thread::id> thread_ids()const override
+    {
+        return m_thread_ids;
+    }
+    
+    boost::asynchronous::scheduler_diagnostics
+    get_diagnostics(std::size_t =0)const override
+    {
+        // TODO if possible
+        return boost::asynchronous::scheduler_diagnostics();
+    }
+    void clear_diagnostics() override
+    {
+        // TODO if possible
+    }
+    void register_diagnostics_functor(std::function<void(boost::asynchronous::scheduler_diagnostics)> ,
+                                      boost::asynchronous::register_diagnostics_type =
+                                                    boost::asynchronous::register_diagnostics_type()) override
+    {
+        //TODO if possible
+    }
+    void set_steal_from_queues(std::vector<boost::asynchronous::any_queue_ptr<job_type> > const& others)
+    {
+        // this scheduler steals if offered
+        init(m_number_of_workers,others,m_weak_self);
+    }
+
+#ifndef BOOST_NO_RVALUE_REFERENCES    
+    void post(job_type job, std::size_t prio) override
+    {
+        boost::asynchronous::job_traits<job_type>::set_posted_time(job);
+        if (prio == std::numeric_limits<std::size_t>::max())
+        {
+            std::size_t pos = m_next_shutdown_bucket.load()% m_ioservices.size();
+            boost::asio::post(m_ioservices[pos]->get_executor(), std::move(job));
+            ++m_next_shutdown_bucket;
+        }
+        else
+        {
+            std::size_t pos = this->find_position(prio,m_ioservices.size());
+            boost::asio::post(m_ioservices[pos]->get_executor(), std::move(job));
+        }
+    }
+    void post(job_type job) override
+    {
+        post(std::move(job),0);
+    }
+    void post(boost::asynchronous::any_callable job,const std::string& name)
+    {
+        typename boost::asynchronous::job_traits<job_type>::wrapper_type w(std::move(job));
+        w.set_name(name);
+        post(std::move(w));        
+    }
+    void post(boost::asynchronous::any_callable job,const std::string& name,std::size_t priority)
+    {
+        typename boost::asynchronous::job_traits<job_type>::wrapper_type w(std::move(job));
+        w.set_name(name);
+        post(std::move(w),priority);
+    } 
+    boost::asynchronous::any_interruptible interruptible_post(job_type job,
+                                                          std::size_t prio) override
+    {
+        std::shared_ptr<boost::asynchronous::detail::interrupt_state>
+                state = std::make_shared<boost::asynchronous::detail::interrupt_state>();
+        // write to tss in case the task requires it
+        boost::asynchronous::get_interrupt_state<>(state,true);
+
+        std::shared_ptr<std::promise<boost::thread*> > wpromise = std::make_shared<std::promise<boost::thread*> >();
+        boost::asynchronous::job_traits<job_type>::set_posted_time(job);
+        boost::asynchronous::interruptible_job<job_type,this_type>
+                ijob(std::move(job),wpromise,state);
+        
+        boost::asynchronous::job_traits<job_type>::set_posted_time(job);
+        if (prio == std::numeric_limits<std::size_t>::max())
+        {
+            std::size_t pos = m_next_shutdown_bucket.load()% m_ioservices.size();
+            boost::asio::post(m_ioservices[pos]->get_executor(), std::move(ijob));
+            ++m_next_shutdown_bucket;
+        }
+        else
+        {
+            std::size_t pos = this->find_position(prio,m_ioservices.size());
+            boost::asio::post(m_ioservices[pos]->get_executor(), std::move(ijob));
+        }
+        
+        std::future<boost::thread*> fu = wpromise->get_future();
+        boost::asynchronous::interrupt_helper interruptible(std::move(fu),state);
+
+        return boost::asynchronous::any_interruptible(interruptible);
+    }
+    boost::asynchronous::any_interruptible interruptible_post(job_type job) override
+    {
+        return interruptible_post(std::move(job),0);
+    }
+    boost::asynchronous::any_interruptible interruptible_post(boost::asynchronous::any_callable job,const std::string& name)
+    {
+        typename boost::asynchronous::job_traits<job_type>::wrapper_type w(std::move(job));
+        w.set_name(name);
+        return interruptible_post(std::move(w));
+    }
+    boost::asynchronous::any_interruptible interruptible_post(boost::asynchronous::any_callable job,const std::string& name,
+                                                           std::size_t priority)
+    {
+        typename boost::asynchronous::job_traits<job_type>::wrapper_type w(std::move(job));
+        w.set_name(name);
+        return interruptible_post(std::move(w),priority);
+    }
+#else
+    void post(job_type& job, std::size_t prio=0)
+    {
+        boost::asynchronous::job_traits<job_type>::set_posted_time(job);
+        if (prio == std::numeric_limits<std::size_t>::max())
+        {
+            std::size_t pos = m_next_shutdown_bucket.load()% m_ioservices.size();
+            m_ioservices[pos]->post(job);
+            ++m_next_shutdown_bucket;
+        }
+        else
+        {
+            std::size_t pos = this->find_position(prio,m_ioservices.size());
+            m_ioservices[pos]->post(job);
+        }
+    }
+    void post(boost::asynchronous::any_callable&& job,const std::string& name)
+    {
+        typename boost::asynchronous::job_traits<job_type>::wrapper_type w(job);
+        w.set_name(name);
+        post(w);
+    }
+    void post(boost::asynchronous::any_callable&& job,const std::string& name,std::size_t priority)
+    {
+        typename boost::asynchronous::job_traits<job_type>::wrapper_type w(job);
+        w.set_name(name);
+        post(w,priority);
+    }  
+    boost::asynchronous::any_interruptible interruptible_post(job_type& job, std::size_t prio=0)
+    {
+        std::shared_ptr<boost::asynchronous::detail::interrupt_state>
+                state = std::make_shared<boost::asynchronous::detail::interrupt_state>();
+        std::shared_ptr<std::promise<boost::thread*> > wpromise = std::make_shared<std::promise<boost::thread*> >();
+        boost::asynchronous::job_traits<job_type>::set_posted_time(job);
+        boost::asynchronous::interruptible_job<job_type,this_type>
+                ijob(job,wpromise,state);
+        
+        boost::asynchronous::job_traits<job_type>::set_posted_time(ijob);
+        if (prio == std::numeric_limits<std::size_t>::max())
+        {
+            std::size_t pos = m_next_shutdown_bucket.load()% m_ioservices.size();
+            m_ioservices[pos]->post(ijob);
+            ++m_next_shutdown_bucket;
+        }
+        else
+        {
+            std::size_t pos = this->find_position(prio,m_ioservices.size());
+            m_ioservices[pos]->post(ijob);
+        }
+        
+        std::shared_future<boost::thread*> fu = wpromise->get_future();
+        boost::asynchronous::interrupt_helper interruptible(fu,state);
+
+        return boost::asynchronous::any_interruptible(interruptible);
+    }
+    boost::asynchronous::any_interruptible interruptible_post(boost::asynchronous::any_callable job,const std::string& name)
+    {
+        typename boost::asynchronous::job_traits<job_type>::wrapper_type w(job);
+        w.set_name(name);
+        return interruptible_post(w);
+    }
+    boost::asynchronous::any_interruptible interruptible_post(boost::asynchronous::any_callable job,const std::string& name,
+                                                           std::size_t priority)
+    {
+        typename boost::asynchronous::job_traits<job_type>::wrapper_type w(job);
+        w.set_name(name);
+        return interruptible_post(w,priority);
+    }  
+#endif
+    void enable_queue(std::size_t , bool ) override
+    {
+        // unsupported
+    }
+
+    std::vector<boost::asynchronous::any_queue_ptr<job_type> > get_queues()
+    {
+        // this scheduler doesn't give any queues for stealing
+        return std::vector<boost::asynchronous::any_queue_ptr<job_type> >();
+    }    
+    // TLS
+    static boost::thread_specific_ptr<thread_ptr_wrapper>& m_self_thread;
+    
+private:
+    static void run(std::shared_ptr<boost::asio::io_context> ioservice,std::shared_future<boost::thread*> self,
+                    std::shared_ptr<std::promise<void> > started,
+                    std::vector<std::shared_ptr<boost::asio::io_context > > other_ioservices,
+                    std::vector<boost::asynchronous::any_queue_ptr<job_type> > other_queues,
+                    std::weak_ptr<this_type> this_)
+    {
+        boost::thread* t = self.get();
+        m_self_thread.reset(new thread_ptr_wrapper(t));
+        started->set_value();
+        get_io_service<>(ioservice.get());
+        // thread scheduler => tss
+        boost::asynchronous::any_weak_scheduler<job_type> self_as_weak = boost::asynchronous::detail::lockable_weak_scheduler<this_type>(this_);
+        boost::asynchronous::get_thread_scheduler<job_type>(self_as_weak,true);
+
+        std::list<boost::asynchronous::any_continuation>& waiting =
+                boost::asynchronous::get_continuations(std::list<boost::asynchronous::any_continuation>(),true);
+
+        CPULoad cpu_load;
+        while(true)
+        {
+            job_type job;
+            bool popped = false;
+            try
+            {
+                popped = (ioservice->poll_one() != 0);
+                if (popped)
+                {
+                    cpu_load.popped_job();
+                }
+                else
+                {
+                    for (std::size_t i = 0; i< other_ioservices.size();++i)
+                    {
+                        popped = (other_ioservices[i]->poll_one() != 0);
+                        if (popped)
+                        {
+                            cpu_load.popped_job();
+                            break;
+                        }
+                    }
+                }
+                bool stolen=false;
+                if (!popped)
+                {                    
+                    // ok we have nothing to do, maybe we can steal some work from other pools?
+                    for (std::size_t i=0; i< other_queues.size(); ++i)
+                    {
+                        stolen = (*other_queues[i]).try_steal(job);
+                        if (stolen)
+                            break;
+                    }
+                    if (stolen)
+                    {
+                        cpu_load.popped_job();
+                        // execute stolen job
+                        job();
+                    }
+                }
+                if (!popped && !stolen)
+                {
+                    // look for waiting tasks
+                    if (!waiting.empty())
+                    {
+                        for (std::list<boost::asynchronous::any_continuation>::iterator it = waiting.begin(); it != waiting.end();)
+                        {
+                            if ((*it).is_ready())
+                            {
+                                boost::asynchronous::any_continuation c = std::move(*it);
+                                it = waiting.erase(it);
+                                c();
+                            }
+                            else
+                            {
+                                ++it;
+                            }
+                        }
+                    }
+                    cpu_load.loop_done_no_job();
+                    // nothing for us to do, give up our time slice
+                    boost::this_thread::yield();
+                }
+                // remove state from tss
+                boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
+            }
+            catch(boost::asynchronous::detail::shutdown_exception&)
+            {
+                // we are done
+                delete m_self_thread.release();
+                return;
+            }
+            catch(boost::thread_interrupted&)
+            {
+                // task interrupted, no problem, just continue
+            }
+            catch(std::exception&)
+            {
+                if (popped)
+                {
+                    boost::asynchronous::job_traits<job_type>::set_failed(job);
+                    // remove state from tss
+                    boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
+                }
+            }
+        }
+    }
+    
+    
+    std::atomic<size_t> m_next_shutdown_bucket;
+    size_t m_number_of_workers;
+    std::vector<boost::asio::executor_work_guard<boost::asio::io_context::executor_type>> m_works;
+    std::vector<std::shared_ptr<boost::asio::io_context > > m_ioservices;
+    std::shared_ptr<boost::thread_group> m_group;
+    std::vector<boost::thread::id> m_thread_ids;
+    std::weak_ptr<this_type> m_weak_self;
+    bool m_immediate;
+    const std::string m_name;
+};
+
+template<class FindPosition,class CPULoad>
+boost::thread_specific_ptr<thread_ptr_wrapper>&
+asio_scheduler<FindPosition,CPULoad>::m_self_thread = boost::asynchronous::self_thread_holder<>::m_self_thread;
+
+}}
+#endif // BOOST_ASYNCHRON_EXTENSIONS_ASIO_SCHEDULER_HPP
diff --git a/boost/asynchronous/scheduler/detail/interruptible_job.hpp b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
index 3dd4065..eaa0db9 100644
--- a/boost/asynchronous/scheduler/detail/interruptible_job.hpp
+++ b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
@@ -30,6 +30,14 @@ struct thread_ptr_wrapper
     thread_ptr_wrapper(boost::thread* t):m_thread(t){}
     boost::thread* m_thread;
 };
+// the worker thread we are in. Shared by all schedulers because a job can be stolen by a thread of a scheduler of another type
+template <class Dummy = void>
+struct self_thread_holder
+{
+    static boost::thread_specific_ptr<thread_ptr_wrapper> m_self_thread;
+};
+template <class Dummy>
+boost::thread_specific_ptr<thread_ptr_wrapper> self_thread_holder<Dummy>::m_self_thread;
 
 struct interrupt_helper
 {
diff --git a/boost/asynchronous/scheduler/detail/multi_queue_scheduler_policy.hpp b/boost/asynchronous/scheduler/detail/multi_queue_scheduler_policy.hpp
index 9fdde71..81357e7 100644
--- a/boost/asynchronous/scheduler/detail/multi_queue_scheduler_policy.hpp
+++ b/boost/asynchronous/scheduler/detail/multi_queue_scheduler_policy.hpp
@@ -174,7 +174,7 @@ public:
     }
 
     
-    static boost::thread_specific_ptr<thread_ptr_wrapper> m_self_thread;
+    static boost::thread_specific_ptr<thread_ptr_wrapper>& m_self_thread;
     
 protected:
 
@@ -208,8 +208,8 @@ protected:
 };
 
 template<class Q,class FindPosition>
-boost::thread_specific_ptr<thread_ptr_wrapper>
-multi_queue_scheduler_policy<Q,FindPosition>::m_self_thread;
+boost::thread_specific_ptr<thread_ptr_wrapper>&
+multi_queue_scheduler_policy<Q,FindPosition>::m_self_thread = boost::asynchronous::self_thread_holder<>::m_self_thread;
 
 }}}
 #endif // BOOST_ASYNC_SCHEDULER_MULTI_QUEUE_SCHEDULER_POLICY_HPP
diff --git a/boost/asynchronous/scheduler/detail/single_queue_scheduler_policy.hpp b/boost/asynchronous/scheduler/detail/single_queue_scheduler_policy.hpp
index c187acb..143208e 100644
--- a/boost/asynchronous/scheduler/detail/single_queue_scheduler_policy.hpp
+++ b/boost/asynchronous/scheduler/detail/single_queue_scheduler_policy.hpp
@@ -117,7 +117,7 @@ public:
         m_queue->enable_queue(queue_prio,enable);
     }
 
-    static boost::thread_specific_ptr<thread_ptr_wrapper> m_self_thread;
+    static boost::thread_specific_ptr<thread_ptr_wrapper>& m_self_thread;
     
 protected:
 
@@ -144,8 +144,8 @@ protected:
 };
 
 template<class Q>
-boost::thread_specific_ptr<thread_ptr_wrapper>
-single_queue_scheduler_policy<Q>::m_self_thread;
+boost::thread_specific_ptr<thread_ptr_wrapper>&
+single_queue_scheduler_policy<Q>::m_self_thread = boost::asynchronous::self_thread_holder<>::m_self_thread;
 
 }}}
 #endif // BOOST_ASYNC_SCHEDULER_SINGLE_QUEUE_SCHEDULER_POLICY_HPP
diff --git a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
index 8c39ec9..a33b0fe 100644
--- a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
@@ -493,7 +493,7 @@ public:
 
     }
 
-    static boost::thread_specific_ptr<thread_ptr_wrapper> m_self_thread;
+    static boost::thread_specific_ptr<thread_ptr_wrapper>& m_self_thread;
 
 private:
     std::shared_ptr<std::vector<job_queues>> m_queues;
@@ -509,8 +509,8 @@ private:
 };
 
 template<class Q,class CPULoad>
-boost::thread_specific_ptr<thread_ptr_wrapper>
-multiple_thread_scheduler<Q,CPULoad>::m_self_thread;
+boost::thread_specific_ptr<thread_ptr_wrapper>&
+multiple_thread_scheduler<Q,CPULoad>::m_self_thread = boost::asynchronous::self_thread_holder<>::m_self_thread;
 
 }} // boost::asynchronous
 
-- 
2.43.0


From 1962d4006b2f1c699877f41034e0d84faf531b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:02 +0000
Subject: [PATCH 47/74] fix: channel_topic with empty segments (leading or
 double separators) never matched, not even itself

---
 boost/asynchronous/notification/topics.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/notification/topics.hpp b/boost/asynchronous/notification/topics.hpp
index f3e711d..f4813b6 100644
--- a/boost/asynchronous/notification/topics.hpp
+++ b/boost/asynchronous/notification/topics.hpp
@@ -120,14 +120,13 @@ namespace boost { namespace asynchronous { namespace subscription
 
             while (!current_view.empty()) 
             {
-                auto input_token = next_token(input_view);
-                auto current_token = next_token(current_view);
-
-                if (input_token.empty()) 
+                if (input_view.empty()) 
                 {
                     // input path is shorter than own
                     return false;
                 }
+                auto input_token = next_token(input_view);
+                auto current_token = next_token(current_view);
 
                 if (!((current_token.starts_with(Wildcard) && current_token.size() == 1) || current_token == input_token))
                 {
-- 
2.43.0


From 281d9d109881a54ba8ab1918bd278e0cd8b1b5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:34 +0000
Subject: [PATCH 48/74] fix: the death of the last servant to subscribe cut its
 whole scheduler off from events published in other schedulers

---
 boost/asynchronous/trackable_servant.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/trackable_servant.hpp b/boost/asynchronous/trackable_servant.hpp
index 60f80a5..54cf061 100644
--- a/boost/asynchronous/trackable_servant.hpp
+++ b/boost/asynchronous/trackable_servant.hpp
@@ -602,22 +602,23 @@ public:
 
             // publishing to other schedulers will mean calling this function, 
             // which will post_future to our scheduler
-            auto wrapped = [tracking, uid, weak, task_name, prio]
+            auto wrapped = [uid, weak, task_name, prio]
             (Event const& ev, Topic const& published_topic)
                 {
                     auto sched = weak.lock();
                     if (sched.is_valid())
                     {
                         // not in our thread, post
+                        // (on behalf of all subscribers of our scheduler, not only of this servant, which can be gone)
                         boost::asynchronous::post_future(sched,
-                            boost::asynchronous::move_bind(boost::asynchronous::check_alive([weak](Event const& ev, Topic const& published_topic)
+                            boost::asynchronous::move_bind([weak](Event const& ev, Topic const& published_topic)
                                 {
                                     auto sched = weak.lock();
                                     if (sched.is_valid())
                                     {
                                         sched.publish_internal(ev, published_topic);
                                     }
-                                }, tracking), ev, published_topic),
+                                }, ev, published_topic),
                             task_name, prio);
                     }
                     else
-- 
2.43.0


From e2798355b7b0d0e259296b8812e93a66c34f6bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:46 +0000
Subject: [PATCH 49/74] fix: a scheduler subscribing again after its last
 unsubscription was removed by the delayed cleanup of the latter

---
 boost/asynchronous/notification/local_subscription.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/boost/asynchronous/notification/local_subscription.hpp b/boost/asynchronous/notification/local_subscription.hpp
index 7c628d6..3c15e98 100644
--- a/boost/asynchronous/notification/local_subscription.hpp
+++ b/boost/asynchronous/notification/local_subscription.hpp
@@ -72,6 +72,15 @@ struct local_subscription
     template <class Sub>
     void subscribe_scheduler(Sub&& sub, boost::uuids::uuid scheduler_id, Topic const& topic)
     {
+        // a new subscription cancels an unsubscription waiting for cleanup
+        m_deleted_scheduler_subscribers.erase(
+            std::remove_if(m_deleted_scheduler_subscribers.begin(), m_deleted_scheduler_subscribers.end(),
+                [&](auto const& deleted)
+                {
+                    auto const& deleted_topic = std::get<std::optional<Topic>>(deleted);
+                    return (std::get<boost::uuids::uuid>(deleted) == scheduler_id) && deleted_topic && (*deleted_topic == topic);
+                }),
+            m_deleted_scheduler_subscribers.end());
         // do not register double entries
         auto it = std::find_if(m_scheduler_subscribers.begin(), m_scheduler_subscribers.end(),
             [&](const auto& s)
-- 
2.43.0


From 3778aed4158ac6cf25ff96ede1776b96837c0683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:46 +0000
Subject: [PATCH 50/74] fix: a scheduler with subscribers to several matching
 topics delivered an event of another scheduler once per topic to each of them

---
 boost/asynchronous/notification/local_subscription.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/notification/local_subscription.hpp b/boost/asynchronous/notification/local_subscription.hpp
index 3c15e98..1287827 100644
--- a/boost/asynchronous/notification/local_subscription.hpp
+++ b/boost/asynchronous/notification/local_subscription.hpp
@@ -172,10 +172,14 @@ struct local_subscription
         // inform first other schedulers
         // to avoid event order inversion in case processing an event would send another event
         // external schedulers execute publishing asynchronously and therefore are not counted as handling the event
+        std::vector<boost::uuids::uuid> informed;
         for (auto& sched_sub : m_scheduler_subscribers)
         {
-            if (std::get<Topic>(sched_sub).matches(other_topic))
+            // a scheduler informs all its matching subscribers, whatever their topic, so inform it only once
+            auto const& id = std::get<boost::uuids::uuid>(sched_sub);
+            if (std::get<Topic>(sched_sub).matches(other_topic) && std::find(informed.begin(), informed.end(), id) == informed.end())
             {
+                informed.push_back(id);
                 std::get<subscriber_t>(sched_sub)(e, other_topic);
             }
         }
-- 
2.43.0


From 191916384d76174ad80980860c9d8bdc47b7e2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:02 +0000
Subject: [PATCH 51/74] fix: circular_queue::get_queue_size read the size
 without the lock of the threads pushing and popping

---
 boost/asynchronous/queue/circular_queue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/queue/circular_queue.hpp b/boost/asynchronous/queue/circular_queue.hpp
index 676868e..441438f 100644
--- a/boost/asynchronous/queue/circular_queue.hpp
+++ b/boost/asynchronous/queue/circular_queue.hpp
@@ -44,6 +44,7 @@ public:
     circular_queue& operator=(const circular_queue&) = delete;
     std::vector<std::size_t> get_queue_size() const
     {
+        lock_type lock(m_mutex);
         std::vector<std::size_t> res;
         res.push_back(m_size);
         return res;
@@ -151,7 +152,7 @@ private:
     std::size_t m_size;
     boost::circular_buffer<JOB> m_jobs;
     boost::condition m_not_empty;
-    mutex_type m_mutex;
+    mutable mutex_type m_mutex;
 };
 
 }} // boost::async::queue
-- 
2.43.0


From f116b71fe411c301969b304dfe1c3cfaa764750c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:02 +0000
Subject: [PATCH 52/74] fix: all threads pushing to a queue container shared
 the random generator of default_random_push_policy without synchronization

---
 boost/asynchronous/queue/find_queue_position.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/queue/find_queue_position.hpp b/boost/asynchronous/queue/find_queue_position.hpp
index 931965d..36a8c67 100644
--- a/boost/asynchronous/queue/find_queue_position.hpp
+++ b/boost/asynchronous/queue/find_queue_position.hpp
@@ -30,13 +30,12 @@ struct sequential_push_policy
 template <std::size_t  max_val=999>
 struct default_random_push_policy
 {
-    default_random_push_policy():m_generator(),m_distribution(0,max_val){}
     std::size_t find_any_position()const
     {
-        return m_distribution(m_generator);
+        // several threads can push at the same time, each one needs its own generator
+        static thread_local std::default_random_engine generator;
+        return std::uniform_int_distribution<std::size_t>(0,max_val)(generator);
     }
-    mutable std::default_random_engine m_generator;
-    mutable std::uniform_int_distribution<std::size_t> m_distribution;
 };
 
 template <class RandomPositionPolicy = boost::asynchronous::default_random_push_policy<> >
-- 
2.43.0


From 78f2acec88300dcf064863f3dd98925971974719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:09 +0000
Subject: [PATCH 53/74] fix: any_queue_container::enable_queue wrote a plain
 bool which other workers read

---
 boost/asynchronous/queue/any_queue_container.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/boost/asynchronous/queue/any_queue_container.hpp b/boost/asynchronous/queue/any_queue_container.hpp
index 78104a5..a20e87e 100644
--- a/boost/asynchronous/queue/any_queue_container.hpp
+++ b/boost/asynchronous/queue/any_queue_container.hpp
@@ -10,6 +10,7 @@
 #ifndef BOOST_ASYNC_ANY_QUEUE_CONTAINER_HPP
 #define BOOST_ASYNC_ANY_QUEUE_CONTAINER_HPP
 
+#include <atomic>
 #include <vector>
 #include <cstddef>
 #include <utility>
@@ -72,7 +73,7 @@ class any_queue_container:
                            public boost::asynchronous::queue_base<JOB>,
                            public PushPolicy
 {
-    typedef std::vector<std::pair<boost::asynchronous::any_queue_ptr<JOB>,bool> > queues_type;
+    typedef std::vector<std::pair<boost::asynchronous::any_queue_ptr<JOB>,std::shared_ptr<std::atomic<bool>>> > queues_type;
 public:
     typedef JOB job_type;
     any_queue_container(const any_queue_container&) = delete;
@@ -156,7 +157,7 @@ public:
             {
                 JOB j;
                 // if queue is enabled, try poppping job
-                if((*it).second && (*((*it).first)).try_pop(j))
+                if((*it).second->load() && (*((*it).first)).try_pop(j))
                 {
                     return j;
                 }
@@ -170,7 +171,7 @@ public:
         for (typename queues_type::iterator it = m_queues.begin(); it != m_queues.end();++it)
         {
             // if queue is enabled, try poppping job
-            if((*it).second && (*((*it).first)).try_pop(j))
+            if((*it).second->load() && (*((*it).first)).try_pop(j))
             {
                 return true;
             }
@@ -183,7 +184,7 @@ public:
         for (typename queues_type::iterator it = m_queues.begin(); it != m_queues.end();++it)
         {
             // if queue is enabled, try poppping job
-            if((*it).second && (*((*it).first)).try_steal(j))
+            if((*it).second->load() && (*((*it).first)).try_steal(j))
             {
                 return true;
             }
@@ -192,7 +193,7 @@ public:
     }
     void enable_queue(std::size_t queue_prio, bool enable) override
     {
-        m_queues.at(queue_prio-1).second = enable;
+        m_queues.at(queue_prio-1).second->store(enable);
     }
 
     template <typename T,typename Last>
@@ -203,7 +204,7 @@ public:
         for (typename Last::queue_sequence::const_iterator it = p.first; it != p.second; ++it)
         {
             boost::asynchronous::any_queue_ptr<JOB> q(*it);
-            t.push_back(std::make_pair(q,true));// a queue is by default enabled
+            t.push_back(std::make_pair(q,std::make_shared<std::atomic<bool>>(true)));// a queue is by default enabled
         }
     }
 
@@ -215,7 +216,7 @@ public:
         for (typename Front::queue_sequence::const_iterator it = p.first; it != p.second; ++it)
         {
             boost::asynchronous::any_queue_ptr<JOB> q(*it);
-            t.push_back(std::make_pair(q,true));// a queue is by default enabled
+            t.push_back(std::make_pair(q,std::make_shared<std::atomic<bool>>(true)));// a queue is by default enabled
         }
         ctor_helper(t,tail...);
     }
-- 
2.43.0


From 629243d3753b2ef67c1b181b0a02743664d98047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:09 +0000
Subject: [PATCH 54/74] fix: failed flag of a throwing logged task was lost

---
 boost/asynchronous/job_traits.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/job_traits.hpp b/boost/asynchronous/job_traits.hpp
index 9da066f..90c406c 100644
--- a/boost/asynchronous/job_traits.hpp
+++ b/boost/asynchronous/job_traits.hpp
@@ -141,8 +141,8 @@ namespace detail
         }
         virtual bool get_failed()const
         {
-            bool failed = m_callable.get_failed();
-            return failed;
+            // either the task itself noticed it, or the scheduler did
+            return Base::get_failed() || m_callable.get_failed();
         }
         Fct m_callable;
     };
@@ -224,7 +224,8 @@ namespace detail
         }
         virtual bool get_failed()const
         {
-            return m_callable.get_failed();
+            // either the task itself noticed it, or the scheduler did
+            return Base::get_failed() || m_callable.get_failed();
         }
         template <class Archive>
         void save(Archive & ar, const unsigned int version)const
-- 
2.43.0


From 403641df475c368390b5874e57939509bb408eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:09 +0000
Subject: [PATCH 55/74] fix: an interrupted logged task was not recorded and
 stayed current

---
 boost/asynchronous/scheduler/io_threadpool_scheduler.hpp   | 7 +++++++
 boost/asynchronous/scheduler/multiple_thread_scheduler.hpp | 7 +++++++
 .../scheduler/multiqueue_threadpool_scheduler.hpp          | 7 +++++++
 boost/asynchronous/scheduler/single_thread_scheduler.hpp   | 7 +++++++
 .../scheduler/stealing_multiqueue_threadpool_scheduler.hpp | 7 +++++++
 .../scheduler/stealing_threadpool_scheduler.hpp            | 7 +++++++
 boost/asynchronous/scheduler/threadpool_scheduler.hpp      | 7 +++++++
 7 files changed, 49 insertions(+)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index dbcef5b..e16ceac 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -395,6 +395,13 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
index a33b0fe..8cd36f4 100644
--- a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
@@ -418,6 +418,13 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
index 272bae5..6afd5fa 100755
--- a/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
@@ -282,6 +282,13 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/single_thread_scheduler.hpp b/boost/asynchronous/scheduler/single_thread_scheduler.hpp
index 1d4d88c..450b3ef 100644
--- a/boost/asynchronous/scheduler/single_thread_scheduler.hpp
+++ b/boost/asynchronous/scheduler/single_thread_scheduler.hpp
@@ -228,6 +228,13 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(0,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
index 99d1b51..f5c67db 100644
--- a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
@@ -301,6 +301,13 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
index 8499c1c..456d7d6 100644
--- a/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
@@ -278,6 +278,13 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/threadpool_scheduler.hpp b/boost/asynchronous/scheduler/threadpool_scheduler.hpp
index fc713e8..4757a2a 100644
--- a/boost/asynchronous/scheduler/threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/threadpool_scheduler.hpp
@@ -254,6 +254,13 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
-- 
2.43.0


From 12d3d5068b537e83bf781af6269c71a680a5a325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:02 +0000
Subject: [PATCH 56/74] fix: diagnostics of a composite lost the entries of
 names found in several subpools

---
 .../scheduler/composite_threadpool_scheduler.hpp   | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
index 32430dc..16974ee 100644
--- a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
@@ -172,19 +172,13 @@ public:
     {
         if (pos==0)
         {
-            std::map<std::string,
-                     std::list<typename boost::asynchronous::job_traits<job_type>::diagnostic_item_type > > res;
-
-            std::vector<std::pair<std::string,typename boost::asynchronous::job_traits<Job>::diagnostic_item_type>> res2;
+            boost::asynchronous::scheduler_diagnostics res;
             for (typename std::vector<subpool_type>::const_iterator it = m_subpools.begin(); it != m_subpools.end();++it)
             {
-                auto one_diag = (*it).get_diagnostics().totals();
-                res.insert(one_diag.begin(),one_diag.end());
-
-                auto one_diag2 = (*it).get_diagnostics().current();
-                res2.insert(res2.end(),one_diag2.begin(),one_diag2.end());
+                // the same task name can be found in several subpools
+                res.merge((*it).get_diagnostics());
             }
-            return boost::asynchronous::scheduler_diagnostics(res,res2);
+            return res;
         }
         else
         {
-- 
2.43.0


From 47be4ca298b6b8efb741f7d447b3eb52c9d06116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:02 +0000
Subject: [PATCH 57/74] fix: failed flag of an interruptible logged task was
 lost

---
 boost/asynchronous/scheduler/detail/interruptible_job.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/boost/asynchronous/scheduler/detail/interruptible_job.hpp b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
index eaa0db9..8160623 100644
--- a/boost/asynchronous/scheduler/detail/interruptible_job.hpp
+++ b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
@@ -142,6 +142,11 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
         {
         }
     }
+    // the contained job knows if it failed, the scheduler only if an exception reached it
+    bool get_failed()const
+    {
+        return boost::asynchronous::job_traits<Job>::diagnostic_type::get_failed() || boost::asynchronous::job_traits<Job>::get_failed(m_job);
+    }
     template<class Archive>
     void serialize(Archive & , const unsigned int /* version */){/* not implemented */}
     std::string get_task_name()const
-- 
2.43.0


From 7d34b886e3e1705ef90a49a037bb854df56888e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:15 +0000
Subject: [PATCH 58/74] fix: temporary threads of an io_threadpool_scheduler
 could share a diagnostics index

---
 .../scheduler/io_threadpool_scheduler.hpp     | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index e16ceac..b37cbb4 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -168,6 +168,9 @@ public:
              !m_data->m_joining)
         {
             ++m_data->m_current_number_of_workers;
+            // an index which no other thread is using
+            std::size_t index = m_data->m_free_indexes.back();
+            m_data->m_free_indexes.pop_back();
             std::promise<boost::thread*> new_thread_promise;
             std::shared_future<boost::thread*> fu = new_thread_promise.get_future();
             auto data = m_data;
@@ -179,12 +182,12 @@ public:
                         // make this thread an old thread
                         data->thread_finished(p);
                     };
-            std::function<bool(bool)> c = [data](bool has_waiting_continuations)mutable{return data->test_worker_loop(has_waiting_continuations);};
+            std::function<bool(bool)> c = [data,index](bool has_waiting_continuations)mutable{return data->test_worker_loop(has_waiting_continuations,index);};
             boost::thread* new_thread =
                      m_data->m_group->create_thread(std::bind(&io_threadpool_scheduler::run_once,this->m_queue,
-                                                                m_private_queues[m_data->m_current_number_of_workers-1],
+                                                                m_private_queues[index],
                                                                 m_diagnostics,fu,m_data->m_weak_self,d,c,
-                                                                m_data->m_current_number_of_workers-1,
+                                                                index,
                                                                 m_name,
                                                                 m_data->m_execute_in_all_threads));
             m_data->m_thread_ids.insert(new_thread->get_id());
@@ -568,7 +571,12 @@ private:
         , m_weak_self()
         , m_group(std::make_shared<boost::thread_group>())
         , m_queue(queue)
-        {}
+        {
+            for (size_t i = m_max_number_of_workers; i > m_min_number_of_workers; --i)
+            {
+                m_free_indexes.push_back(i-1);
+            }
+        }
 
         // check queue size. Used to find out when temporary threads have to shutdown
         std::size_t calculate_queue_size()const
@@ -578,7 +586,7 @@ private:
         }
         // checks if worker thread should continue
         // if queue not empty, continue
-        bool test_worker_loop(bool has_waiting_continuations)
+        bool test_worker_loop(bool has_waiting_continuations, std::size_t index)
         {
            boost::mutex::scoped_lock lock(m_current_number_of_workers_mutex);
            bool res = (has_waiting_continuations || (this->calculate_queue_size() != 0)) && !m_joining;//(m_current_number_of_workers > m_min_number_of_workers);
@@ -586,6 +594,7 @@ private:
            {
                // from now on this thread does not count any more, if a job is posted now, a new thread can be created
                --m_current_number_of_workers;
+               m_free_indexes.push_back(index);
                m_thread_ids.erase(boost::this_thread::get_id());
            }
            return res;
@@ -639,6 +648,8 @@ private:
         size_t m_min_number_of_workers;
         size_t m_max_number_of_workers;
         size_t m_current_number_of_workers;
+        // indexes available for temporary threads
+        std::vector<std::size_t> m_free_indexes;
         std::set<boost::thread*> m_done_threads;
         std::weak_ptr<this_type> m_weak_self;
         std::shared_ptr<boost::thread_group> m_group;
-- 
2.43.0


From 2632d679dc0f60a7d2a195db6654caca45ab6142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:20 +0000
Subject: [PATCH 59/74] fix: a default diagnostic_item had indeterminate flags

---
 boost/asynchronous/diagnostics/diagnostic_item.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/diagnostics/diagnostic_item.hpp b/boost/asynchronous/diagnostics/diagnostic_item.hpp
index 4559505..931998d 100644
--- a/boost/asynchronous/diagnostics/diagnostic_item.hpp
+++ b/boost/asynchronous/diagnostics/diagnostic_item.hpp
@@ -22,7 +22,7 @@ class diagnostic_item
 public:
     typedef std::chrono::high_resolution_clock Clock;
 
-    diagnostic_item():m_posted(),m_started(),m_finished(){}
+    diagnostic_item():m_posted(),m_started(),m_finished(),m_interrupted(false),m_failed(false){}
     diagnostic_item(Clock::time_point const& posted,
                     Clock::time_point const& started,
                     Clock::time_point const& finished,
-- 
2.43.0


From 4ba6f383c9b05d8a6ab2830317abda9113359db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:20 +0000
Subject: [PATCH 60/74] fix: summary_diagnostics::maxima_present was not
 initialized

---
 boost/asynchronous/scheduler_diagnostics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler_diagnostics.hpp b/boost/asynchronous/scheduler_diagnostics.hpp
index bbf9109..4150829 100644
--- a/boost/asynchronous/scheduler_diagnostics.hpp
+++ b/boost/asynchronous/scheduler_diagnostics.hpp
@@ -190,7 +190,7 @@ struct summary_diagnostics
     using time_stats = diagnostics_stats_unaccumulated<std::chrono::high_resolution_clock::time_point>;
 
     diagnostics_data<duration_stats> maxima; // We do not use .recent here.
-    diagnostics_data<bool> maxima_present;
+    diagnostics_data<bool> maxima_present = {false, false, false, false, false};
 
     bool has_fails = false;
     bool has_interrupts = false;
-- 
2.43.0


From ef07c92d04dafe3e92b5799e41f2bdcbf8403d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:20 +0000
Subject: [PATCH 61/74] fix: most recent execution time of summary_diagnostics
 included the scheduling time

---
 boost/asynchronous/scheduler_diagnostics.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/scheduler_diagnostics.hpp b/boost/asynchronous/scheduler_diagnostics.hpp
index 4150829..602f0c9 100644
--- a/boost/asynchronous/scheduler_diagnostics.hpp
+++ b/boost/asynchronous/scheduler_diagnostics.hpp
@@ -253,7 +253,7 @@ struct summary_diagnostics
                 {
                     if (job_count.failure == 0 || execution > job_durations.failure.max) { job_durations.failure.max = execution; job_last_times.failure.max = item.get_finished_time(); }
                     if (job_count.failure == 0 || execution < job_durations.failure.min) { job_durations.failure.min = execution; job_last_times.failure.min = item.get_finished_time(); }
-                    if (job_count.failure == 0 || item.get_finished_time() > job_last_times.failure.recent) { job_durations.failure.recent = total; job_last_times.failure.recent = item.get_finished_time(); }
+                    if (job_count.failure == 0 || item.get_finished_time() > job_last_times.failure.recent) { job_durations.failure.recent = execution; job_last_times.failure.recent = item.get_finished_time(); }
                     job_durations.failure.total += execution;
                     ++job_count.failure;
                 }
@@ -261,7 +261,7 @@ struct summary_diagnostics
                 {
                     if (job_count.interruption == 0 || execution > job_durations.interruption.max) { job_durations.interruption.max = execution; job_last_times.interruption.max = item.get_finished_time(); }
                     if (job_count.interruption == 0 || execution < job_durations.interruption.min) { job_durations.interruption.min = execution; job_last_times.interruption.min = item.get_finished_time(); }
-                    if (job_count.interruption == 0 || item.get_finished_time() > job_last_times.interruption.recent) { job_durations.interruption.recent = total; job_last_times.interruption.recent = item.get_finished_time(); }
+                    if (job_count.interruption == 0 || item.get_finished_time() > job_last_times.interruption.recent) { job_durations.interruption.recent = execution; job_last_times.interruption.recent = item.get_finished_time(); }
                     job_durations.interruption.total += execution;
                     ++job_count.interruption;
                 }
@@ -269,7 +269,7 @@ struct summary_diagnostics
                 {
                     if (job_count.success == 0 || execution > job_durations.success.max) { job_durations.success.max = execution; job_last_times.success.max = item.get_finished_time(); }
                     if (job_count.success == 0 || execution < job_durations.success.min) { job_durations.success.min = execution; job_last_times.success.min = item.get_finished_time(); }
-                    if (job_count.success == 0 || item.get_finished_time() > job_last_times.success.recent) { job_durations.success.recent = total; job_last_times.success.recent = item.get_finished_time(); }
+                    if (job_count.success == 0 || item.get_finished_time() > job_last_times.success.recent) { job_durations.success.recent = execution; job_last_times.success.recent = item.get_finished_time(); }
                     job_durations.success.total += execution;
                     ++job_count.success;
                 }
-- 
2.43.0


From cce9b808dcd6fa65e6f8da678619540b34868394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:20 +0000
Subject: [PATCH 62/74] fix: minimum and recent values of summary_diagnostics
 were wrong if not all merged diagnostics had such tasks

---
 boost/asynchronous/scheduler_diagnostics.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/boost/asynchronous/scheduler_diagnostics.hpp b/boost/asynchronous/scheduler_diagnostics.hpp
index 602f0c9..dea549f 100644
--- a/boost/asynchronous/scheduler_diagnostics.hpp
+++ b/boost/asynchronous/scheduler_diagnostics.hpp
@@ -122,7 +122,7 @@ struct summary_diagnostic_item
 
     std::string job_name;
 
-    void merge(diagnostics_data<duration_stats> const& ds, diagnostics_data<time_stats> const& ts, diagnostics_data<std::size_t> const& cs, bool is_new)
+    void merge(diagnostics_data<duration_stats> const& ds, diagnostics_data<time_stats> const& ts, diagnostics_data<std::size_t> const& cs)
     {
         // Update counts
         count.scheduling   += cs.scheduling;
@@ -143,9 +143,9 @@ struct summary_diagnostic_item
 
 #undef UPDATE_TOTAL
 
-        // Update min, max and last times
+        // Update min, max and last times. The counts are already updated: equal counts mean that these are the first ones
 
-#define UPDATE_IF(key, minmax, op) if (is_new || ds.key.minmax op durations.key.minmax) { durations.key.minmax = ds.key.minmax; last_times.key.minmax = ts.key.minmax; }
+#define UPDATE_IF(key, minmax, op) if (cs.key > 0 && (count.key == cs.key || ds.key.minmax op durations.key.minmax)) { durations.key.minmax = ds.key.minmax; last_times.key.minmax = ts.key.minmax; }
 #define UPDATE_MIN_MAX(key) UPDATE_IF(key, max, >) UPDATE_IF(key, min, <)
 
         UPDATE_MIN_MAX(scheduling)
@@ -159,7 +159,7 @@ struct summary_diagnostic_item
 
         // Update recent times
 
-#define UPDATE_RECENT(key) if (is_new || ts.key.recent > last_times.key.recent) { durations.key.recent = ds.key.recent; last_times.key.recent = ts.key.recent; }
+#define UPDATE_RECENT(key) if (cs.key > 0 && (count.key == cs.key || ts.key.recent > last_times.key.recent)) { durations.key.recent = ds.key.recent; last_times.key.recent = ts.key.recent; }
 
         UPDATE_RECENT(scheduling)
         UPDATE_RECENT(success)
@@ -280,14 +280,11 @@ struct summary_diagnostics
             // Add to storage
             summary_diagnostic_item& entry = items[it->first];
 
-            // New entries do not have a name yet.
-            bool is_new = entry.job_name.empty();
-
             // Set name
-            if (is_new) entry.job_name = it->first;
+            entry.job_name = it->first;
 
             // Merge
-            entry.merge(job_durations, job_last_times, job_count, is_new);
+            entry.merge(job_durations, job_last_times, job_count);
 
             // Update global statistics
 
-- 
2.43.0


From 681fbffd2500c69562fd2efb654b055809799242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:02 +0000
Subject: [PATCH 63/74] fix: rend and const rbegin of asynchronous::vector did
 not compile

---
 boost/asynchronous/container/vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 52f6a87..ebeb019 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -598,7 +598,7 @@ public:
     {
         if (!!m_data)
             return const_reverse_iterator(end());
-        return nullptr;
+        return const_reverse_iterator(nullptr);
     }
     const_reverse_iterator crbegin() const
     {
@@ -610,19 +610,19 @@ public:
     {
         if (!!m_data)
             return reverse_iterator(begin());
-        return nullptr;
+        return reverse_iterator(nullptr);
     }
     const_reverse_iterator rend() const
     {
         if (!!m_data)
             return const_reverse_iterator(begin());
-        return nullptr;
+        return const_reverse_iterator(nullptr);
     }
     const_reverse_iterator crend() const
     {
         if (!!m_data)
             return const_reverse_iterator(cbegin());
-        return nullptr;
+        return const_reverse_iterator(nullptr);
     }
 
     reference operator[] (size_type n)
-- 
2.43.0


From 884d582853b0ee919fa3c3bd253a22fed0b9a4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:02 +0000
Subject: [PATCH 64/74] fix: asynchronous::vector::pop_back destroyed the first
 element instead of the last one

---
 boost/asynchronous/container/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index ebeb019..5ef3a1f 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -789,7 +789,7 @@ public:
     }
     void pop_back()
     {
-        ((T*)(begin()))->~T();
+        ((T*)(begin() + (m_size - 1)))->~T();
         --m_size;
         --m_data->size_;
     }
-- 
2.43.0


From e8d07e57e6f87a1b1a8cf1194f9ac863c00c8968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:02 +0000
Subject: [PATCH 65/74] fix: asynchronous::vector::erase returned end() instead
 of the position following the erased elements

---
 boost/asynchronous/container/vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 5ef3a1f..00aacfb 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -889,7 +889,7 @@ public:
         {
             // nothing to move, just resize
             resize(first - cbegin());
-            return end();
+            return (iterator)first;
         }
         else if((last - first) >= cend() - last )
         {
@@ -924,7 +924,7 @@ public:
             }
             // set to new size
             resize(size()-(last - first));
-            return end();
+            return (iterator)first;
         }
         else
         {
@@ -1039,7 +1039,7 @@ public:
             }
             // remove our excess elements
             resize(size()-(last - first));
-            return end();
+            return (iterator)first;
         }
     }
     iterator erase( const_iterator pos)
-- 
2.43.0


From e492540f6203f2984e8120c65140b10ed09c3143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:02 +0000
Subject: [PATCH 66/74] fix: insert and emplace of asynchronous::vector did not
 update the capacity after a reallocation

---
 boost/asynchronous/container/vector.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 00aacfb..a920862 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -1054,7 +1054,7 @@ public:
         if (size()+1 > capacity())
         {
             auto new_capacity = calc_new_capacity(size()+1);
-            reallocate_helper(new_capacity);
+            m_capacity = reallocate_helper(new_capacity);
         }
         iterator pos = begin() + distance_begin_pos;
         // we need move twice data after pos as parallel_move does not support overlapping ranges
@@ -1199,7 +1199,7 @@ public:
         if (size()+(last-first) > capacity())
         {
             auto new_capacity = calc_new_capacity(size()+(last-first));
-            reallocate_helper(new_capacity);
+            m_capacity = reallocate_helper(new_capacity);
         }
         iterator pos = begin() + distance_begin_pos;
         // we need move twice data after pos as parallel_move does not support overlapping ranges
@@ -1367,7 +1367,7 @@ public:
         if (size()+1 > capacity())
         {
             auto new_capacity = calc_new_capacity(size()+1);
-            reallocate_helper(new_capacity);
+            m_capacity = reallocate_helper(new_capacity);
         }
         iterator pos = begin() + distance_begin_pos;
         // we need move twice data after pos as parallel_move does not support overlapping ranges
@@ -1504,7 +1504,7 @@ public:
         if (size()+1 > capacity())
         {
             auto new_capacity = calc_new_capacity(size()+1);
-            reallocate_helper(new_capacity);
+            m_capacity = reallocate_helper(new_capacity);
         }
         iterator pos = begin() + distance_begin_pos;
         // we need move twice data after pos as parallel_move does not support overlapping ranges
@@ -1674,7 +1674,7 @@ public:
         if (size()+count > capacity())
         {
             auto new_capacity = calc_new_capacity(size()+count);
-            reallocate_helper(new_capacity);
+            m_capacity = reallocate_helper(new_capacity);
         }
         iterator pos = begin() + distance_begin_pos;
         // we need move twice data after pos as parallel_move does not support overlapping ranges
-- 
2.43.0


From 088449b31677b53eb2fb97252e89a13dc0806602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:02 +0000
Subject: [PATCH 67/74] fix: an asynchronous::vector with a scheduler could not
 be used after clear(), which freed its memory but kept the capacity

---
 boost/asynchronous/container/vector.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index a920862..37984fb 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -710,17 +710,19 @@ public:
         {
             try
             {
+                auto raw = m_data->data_;
+                auto s = m_data->size_;
+                auto cutoff = m_cutoff;
+                auto task_name = m_task_name;
+                auto prio = m_prio;
+                m_data->size_=0;
                 auto fu =
                 boost::asynchronous::post_future(m_scheduler,
-                                                 boost::asynchronous::move_bind(
-                                                     [](internal_data_type data)mutable
-                                                     {
-                                                        return boost::asynchronous::top_level_callback_continuation_job<void,Job>(
-                                                         boost::asynchronous::detail::move_only<internal_data_type>
-                                                            (std::move(data)));
-                                                     },
-                                                     std::move(m_data)),
-                                                 m_task_name+"_vector_clear",m_prio);
+                                                 [raw,s,cutoff,task_name,prio]()mutable
+                                                 {
+                                                    return boost::asynchronous::parallel_placement_delete<T,Job>(raw,0,s,cutoff,task_name+"_vector_clear_delete",prio);
+                                                 },
+                                                 task_name+"_vector_clear",prio);
 
                 fu.get();
             }
-- 
2.43.0


From e891b82b28d1f060e8c3950bd0009f74c7c9e4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:02 +0000
Subject: [PATCH 68/74] fix: emplace and emplace_back of asynchronous::vector
 only compiled with exactly one argument

---
 boost/asynchronous/container/vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 37984fb..0953ea1 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -776,7 +776,7 @@ public:
     {
         if (m_size + 1 <= m_capacity )
         {
-            new (end()) T(std::forward<Args...>(args...));
+            new (end()) T(std::forward<Args>(args)...);
             ++m_size;
             ++m_data->size_;
         }
@@ -786,7 +786,7 @@ public:
             auto new_memory = reallocate_helper(calc_new_capacity(size()));
             // add new element, update size and capacity
             m_capacity = new_memory;
-            push_back(std::forward<Args...>(args...));
+            emplace_back(std::forward<Args>(args)...);
         }
     }
     void pop_back()
@@ -1125,7 +1125,7 @@ public:
 
         // add input using placement new
         ((T*) pos)->~T();
-        new ((T*) pos) T(std::forward<Args...>(args...));
+        new ((T*) pos) T(std::forward<Args>(args)...);
 
         // move back from temporary
         auto temp_end = temp_begin + n;
-- 
2.43.0


From ef3e2428d642eb6bce255157f25dc26d5ea5d61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:02 +0000
Subject: [PATCH 69/74] fix: asynchronous::vector(n,value) did not initialize
 its cutoff and priority

---
 boost/asynchronous/container/vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 0953ea1..166c920 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -120,7 +120,10 @@ public:
 
 
     vector( size_type n,const T& value = T(),const Alloc& alloc = Alloc() )noexcept
-        : m_size(n)
+        : m_cutoff(1000)
+        , m_task_name("")
+        , m_prio(0)
+        , m_size(n)
         , m_capacity(n)
         , m_allocator(alloc)
     {
-- 
2.43.0


From 8ce7a7400544d63a5ac61f2c1d74dc34a17088e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:02 +0000
Subject: [PATCH 70/74] fix: an asynchronous::vector which has been moved from
 kept a capacity without memory

---
 boost/asynchronous/container/vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 166c920..6a5d89b 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -312,6 +312,7 @@ public:
     {
         other.m_data.reset();
         other.m_size = 0;
+        other.m_capacity = 0;
     }
     vector( vector const& other )
         : m_scheduler(other.m_scheduler)
-- 
2.43.0


From 7ffded24a666aef37340f750ff4f5dbc911f1b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:11 +0000
Subject: [PATCH 71/74] fix: push_back and insert of asynchronous::vector
 inserted a destroyed or moved element if passed one of their own

---
 boost/asynchronous/container/vector.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 6a5d89b..d49b5b3 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -751,11 +751,13 @@ public:
         }
         else
         {
+            // value could be one of our elements, copy it before they are moved
+            T copied_value(value);
             // reallocate memory
             auto new_memory = reallocate_helper(calc_new_capacity(size()));
             // add new element, update size and capacity
             m_capacity = new_memory;
-            push_back(value);
+            push_back(std::move(copied_value));
         }
     }
     void push_back( T&& value )
@@ -1368,6 +1370,8 @@ public:
     }
     iterator insert( const_iterator orgpos, const T& value )
     {
+        // value could be one of our elements, copy it before they are moved
+        T copied_value(value);
         auto distance_begin_pos = orgpos-cbegin();
         // check if we need to reallocate
         if (size()+1 > capacity())
@@ -1441,7 +1445,7 @@ public:
         boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)to_add,(char*)where,T());
 
         // copy input
-        *pos = value;
+        *pos = std::move(copied_value);
         // move back from temporary
         auto temp_end = temp_begin + n;
         auto beg_move_back = pos + 1;
@@ -1675,6 +1679,8 @@ public:
 
     iterator insert( const_iterator orgpos, size_type count, const T& value )
     {
+        // value could be one of our elements, copy it before they are moved
+        std::vector<T> a(count,value);
         auto distance_begin_pos = orgpos-cbegin();
         // check if we need to reallocate
         if (size()+count > capacity())
@@ -1765,7 +1771,6 @@ public:
         }
 
         // copy input
-        std::vector<T> a(count,value);
         if (m_scheduler.is_valid())
         {
             auto fu4 = boost::asynchronous::post_future(m_scheduler,
-- 
2.43.0


From 28ea603b6f11aad8679bd0188eb3fec5b55dcac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:15 +0000
Subject: [PATCH 72/74] fix: async_resize never completed if the capacity was
 sufficient for the new elements

---
 boost/asynchronous/container/algorithms.hpp | 27 +++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/boost/asynchronous/container/algorithms.hpp b/boost/asynchronous/container/algorithms.hpp
index 4e3f5bb..4b93a71 100644
--- a/boost/asynchronous/container/algorithms.hpp
+++ b/boost/asynchronous/container/algorithms.hpp
@@ -194,6 +194,33 @@ struct resize_task: public boost::asynchronous::continuation_task<Container>
                         }
                     });
                 }
+                else
+                {
+                    // enough memory, add the missing elements
+                    auto data = c->get_internal_data();
+                    auto v = m_value;
+                    auto cont = boost::asynchronous::parallel_placement<value_type,Job>
+                            (c->size(),m_value,(char*)data->data(),value_type(),c->get_cutoff(),c->get_name()+"_vector_resize_placement",c->get_prio());
+                    cont.on_done([task_res,c,data,v]
+                                   (std::tuple<boost::asynchronous::expected<boost::asynchronous::detail::parallel_placement_helper_result> >&& res)mutable
+                    {
+                        try
+                        {
+                            auto placement_result = std::get<0>(res).get();
+                            if (placement_result.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
+                            {
+                                std::rethrow_exception(placement_result.second);
+                            }
+                            data->size_ = v;
+                            c->set_internal_data(data,c->capacity());
+                            task_res.set_value(std::move(*c));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
+                    });
+                }
             }
             else
             {
-- 
2.43.0


From b74c0a6ed774eaed07ddd3d2acdadbbd8be596ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:15 +0000
Subject: [PATCH 73/74] fix: async_merge_containers moved the elements behind
 the end of the merged container

---
 boost/asynchronous/container/algorithms.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/container/algorithms.hpp b/boost/asynchronous/container/algorithms.hpp
index 4b93a71..c8fe024 100644
--- a/boost/asynchronous/container/algorithms.hpp
+++ b/boost/asynchronous/container/algorithms.hpp
@@ -704,7 +704,7 @@ struct async_merge_task: public boost::asynchronous::continuation_task<Container
             auto name = this->get_name();
 
             auto cont = boost::asynchronous::async_resize(std::move(m_container1),s1+s2);
-            cont.on_done([task_res,name,c2]
+            cont.on_done([task_res,name,c2,s1]
                            (std::tuple<boost::asynchronous::expected<Container> >&& res)mutable
             {
                 try
@@ -712,7 +712,7 @@ struct async_merge_task: public boost::asynchronous::continuation_task<Container
                     std::shared_ptr<Container> c1 = std::make_shared<Container>(std::move(std::get<0>(res).get()));
                     using iterator = typename Container::iterator;
                     auto cont_move = boost::asynchronous::parallel_move_if_noexcept<iterator,iterator,Job>
-                                                (c2->begin(),c2->end(),c1->end(),c2->get_cutoff(),
+                                                (c2->begin(),c2->end(),c1->begin()+s1,c2->get_cutoff(),
                                                  name+"_parallel_move_if_noexcept",c2->get_prio());
                     cont_move.on_done([task_res,c1,c2]
                                    (std::tuple<boost::asynchronous::expected<void> >&& res_move)mutable
@@ -780,6 +780,7 @@ struct async_merge_container_of_containers_task: public boost::asynchronous::con
                 return;
             }
             std::size_t s=0;
+            std::size_t s0 = m_container[0].size();
             for (auto const& c : m_container)
             {
                 s += c.size();
@@ -788,7 +789,7 @@ struct async_merge_container_of_containers_task: public boost::asynchronous::con
             auto cont = boost::asynchronous::async_resize(std::move(m_container[0]),s);
             std::shared_ptr<Container> c = std::make_shared<Container>(std::move(m_container));
 
-            cont.on_done([task_res,name,c]
+            cont.on_done([task_res,name,c,s0]
                            (std::tuple<boost::asynchronous::expected<typename Container::value_type> >&& res)mutable
             {
                 try
@@ -797,11 +798,13 @@ struct async_merge_container_of_containers_task: public boost::asynchronous::con
                             std::make_shared<typename Container::value_type>(std::move(std::get<0>(res).get()));
                     using iterator = typename Container::value_type::iterator;
                     std::vector<boost::asynchronous::detail::callback_continuation<void>> subs;
+                    auto out = c1->begin() + s0;
                     for (auto it = c->begin()+1; it != c->end();++it)
                     {
                         subs.push_back(boost::asynchronous::parallel_move_if_noexcept<iterator,iterator,Job>
-                                       ((*it).begin(),(*it).end(),c1->end(),c1->get_cutoff(),
+                                       ((*it).begin(),(*it).end(),out,c1->get_cutoff(),
                                         name+"_parallel_move_if_noexcept",c1->get_prio()));
+                        out += (*it).size();
                     }
                     boost::asynchronous::create_callback_continuation(
                          [task_res,c,c1]
-- 
2.43.0


From ad2880eaa5cc6a0579466180e661192789052225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:48 +0000
Subject: [PATCH 74/74] fix: asio_scheduler::interruptible_post replaced the
 interrupt state of the posting thread

---
 boost/asynchronous/extensions/asio/asio_scheduler.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/boost/asynchronous/extensions/asio/asio_scheduler.hpp b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
index 0bd7466..fe5af72 100644
--- a/boost/asynchronous/extensions/asio/asio_scheduler.hpp
+++ b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
@@ -255,8 +255,6 @@ public:
     {
         std::shared_ptr<boost::asynchronous::detail::interrupt_state>
                 state = std::make_shared<boost::asynchronous::detail::interrupt_state>();
-        // write to tss in case the task requires it
-        boost::asynchronous::get_interrupt_state<>(state,true);
 
         std::shared_ptr<std::promise<boost::thread*> > wpromise = std::make_shared<std::promise<boost::thread*> >();
         boost::asynchronous::job_traits<job_type>::set_posted_time(job);
-- 
2.43.0

