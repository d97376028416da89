From 124e79c08f9e5aae27fcfa39bfd0c524e4ec3b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 01/20] fix: start the pool's scheduler thread while holding
 the lock

Two threads scheduling at once, or one scheduling while the scheduler was
leaving, could assign to a joinable std::thread and terminate the program.
---
 include/pluto/thread_pool.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index e0a2ac1..a22098f 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -303,7 +303,6 @@ namespace pluto
 
             if (!m_scheduler.joinable())
             {
-                lock.unlock();
                 m_scheduler = std::thread{ &thread_pool::start_scheduling, this };
             }
             else if (time == m_scheduledTasks.begin()->first)
-- 
2.43.0


From 51c5d5b76e8c16be87a0867bcb4ac542440799d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 02/20] fix: wake wait_until_all_tasks_complete when the last
 active worker leaves

A worker told to exit by a smaller target left without notifying, so a waiter
slept for ever when no other worker remained to do so.
---
 include/pluto/thread_pool.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index a22098f..542e402 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -418,6 +418,12 @@ namespace pluto
                 }
             }
 
+            // This worker may have been the last one active when it was told to leave
+            if (m_waitingTasks.empty() && m_activeWorkersSize == 0)
+            {
+                m_tasksCompleteCondition.notify_all();
+            }
+
             if (!m_isStopping)
             {
                 auto it{ m_workers.find(std::this_thread::get_id()) };
-- 
2.43.0


From 33ae72a60c06ba89818df99e31987ecda61e5f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 03/20] fix: destroy finished and scheduled tasks without
 holding the pool lock

The destructor of an object captured by a task may use the pool, which
deadlocked because the task was destroyed with the lock held.
---
 include/pluto/thread_pool.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index 542e402..279fb5e 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -367,7 +367,7 @@ namespace pluto
                 const auto begin{ m_scheduledTasks.begin() };
                 if (m_schedulerCondition.wait_until(lock, begin->first) == std::cv_status::timeout)
                 {
-                    m_waitingTasks.emplace(begin->second.priority, begin->second.task);
+                    m_waitingTasks.emplace(begin->second.priority, std::move(begin->second.task));
                     m_scheduledTasks.erase(begin);
 
                     // New task from schedule, wake one of the workers
@@ -400,7 +400,7 @@ namespace pluto
                 else
                 {
                     const auto begin{ m_waitingTasks.begin() };
-                    const auto task { std::move(begin->second) };
+                    auto task       { std::move(begin->second) };
                     m_waitingTasks.erase(begin);
 
                     if (m_waitingTasks.empty())
@@ -413,6 +413,9 @@ namespace pluto
 
                     task();
 
+                    // Destroy the task while unlocked, its captures may use this pool
+                    task = nullptr;
+
                     lock.lock();
                     --m_activeWorkersSize;
                 }
-- 
2.43.0


From 66be76811f6aae52cad8c60eb292ccabd5551ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 04/20] fix: complete waiting tasks on destruction when workers
 exceed the target

With complete_tasks set, workers still to leave because of an earlier shrink
all exited at once and dropped the waiting tasks.
---
 include/pluto/thread_pool.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index 279fb5e..61963d3 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -385,8 +385,9 @@ namespace pluto
         {
             std::unique_lock<std::mutex> lock{ m_mutex };
 
-            while (m_workers.size() <= m_targetWorkersSize &&
-                (!m_isStopping || (m_onStop == action::complete_tasks && !m_waitingTasks.empty())))
+            while (m_isStopping ?
+                (m_onStop == action::complete_tasks && !m_waitingTasks.empty()) :
+                (m_workers.size() <= m_targetWorkersSize))
             {
                 if (m_waitingTasks.empty())
                 {
-- 
2.43.0


From 044909144e8c393c0761241531e506151c3378cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 05/20] fix: stop the logging thread under the lock so that its
 wake-up is not lost

---
 include/pluto/logger.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 94100e4..51b42ec 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -380,7 +380,11 @@ namespace pluto
 
         ~logger()
         {
-            m_isLogging.store(false);
+            {
+                // The logging thread must not miss this between its check and its wait
+                const std::unique_lock<std::mutex> lock{ m_loggingMutex };
+                m_isLogging.store(false);
+            }
             m_loggingCondition.notify_all();
 
             if (m_loggingThread.joinable())
-- 
2.43.0


From 045b910aac0377e50fc222e54e3d7a9d76c2046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 06/20] fix: set the buffer flush size under the lock so that
 its wake-up is not lost

---
 include/pluto/logger.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 51b42ec..89c8cf9 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -558,7 +558,11 @@ namespace pluto
 
         inline logger& buffer_flush_size(const std::size_t bufferFlushSize)
         {
-            m_bufferFlushSize.store(bufferFlushSize);
+            {
+                // The logging thread must not miss this between its check and its wait
+                const std::unique_lock<std::mutex> lock{ m_loggingMutex };
+                m_bufferFlushSize.store(bufferFlushSize);
+            }
             m_loggingCondition.notify_one(); // wake the logging thread
             return *this;
         }
-- 
2.43.0


From aaa76394bad8f39934a29d389bf638ef6e6ad94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 07/20] fix: log an empty message when writef formats to
 nothing

---
 include/pluto/logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 89c8cf9..6425c4d 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -646,7 +646,7 @@ namespace pluto
                 {
                     // Create message from scheme and args
                     auto messageLength{ std::vsnprintf(nullptr, 0, scheme, args) };
-                    if (0 < messageLength)
+                    if (0 <= messageLength)
                     {
                         message.resize(messageLength + 1);
                         if (std::vsnprintf(&message[0], message.size(), scheme, argsCopy) == messageLength)
-- 
2.43.0


From 08e6a059e3c5ef83cd06e29ee5cc40ef93df330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:27 +0000
Subject: [PATCH 08/20] fix: make copies of lru_cache refer to their own list

---
 include/pluto/lru_cache.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/pluto/lru_cache.hpp b/include/pluto/lru_cache.hpp
index 0ed430c..29e7365 100644
--- a/include/pluto/lru_cache.hpp
+++ b/include/pluto/lru_cache.hpp
@@ -33,6 +33,27 @@ namespace pluto
         inline explicit lru_cache(const std::size_t capacity) :
             m_capacity{ capacity } {}
 
+        lru_cache(const lru_cache& other) :
+            m_capacity{ other.m_capacity },
+            m_list{ other.m_list },
+            m_map{ other.m_map }
+        {
+            // Map items still refer to the other cache's list, make them refer to ours
+            for (auto itList{ m_list.begin() }; itList != m_list.end(); ++itList)
+            {
+                m_map.find(*itList)->second.second = itList;
+            }
+        }
+
+        lru_cache(lru_cache&&) = default;
+
+        lru_cache& operator=(const lru_cache& other)
+        {
+            return (*this = lru_cache{ other });
+        }
+
+        lru_cache& operator=(lru_cache&&) = default;
+
         PLUTO_UTILS_NODISCARD inline std::size_t size() const
         {
             return m_map.size();
-- 
2.43.0


From b54fb2a2654ad9ee35076c02aac98ba66fbc2175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:51 +0000
Subject: [PATCH 09/20] fix: keep lru_cache consistent when copying or
 comparing its elements throws

---
 include/pluto/lru_cache.hpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/include/pluto/lru_cache.hpp b/include/pluto/lru_cache.hpp
index 29e7365..dcffa59 100644
--- a/include/pluto/lru_cache.hpp
+++ b/include/pluto/lru_cache.hpp
@@ -82,20 +82,21 @@ namespace pluto
 
         void capacity(const std::size_t newCapacity)
         {
-            m_capacity = newCapacity;
-
-            if (m_capacity == 0)
+            if (newCapacity == 0)
             {
                 clear();
             }
             else
             {
                 // While cache is above capacity, evict the least recently used item
-                while (m_capacity < size())
+                while (newCapacity < size())
                 {
                     evict_lru();
                 }
             }
+
+            // Evicting an item can throw, only change capacity when it didn't
+            m_capacity = newCapacity;
         }
 
         inline bool insert(const key_type& key, const value_type& value)
@@ -149,8 +150,11 @@ namespace pluto
                         evict_lru();
                     }
 
-                    m_list.push_front(key);
-                    m_map.emplace(key, std::make_pair(value, m_list.begin()));
+                    // Adding to map can throw, only add to our list when it didn't
+                    list_type list{};
+                    list.push_front(key);
+                    m_map.emplace(key, std::make_pair(value, list.begin()));
+                    m_list.splice(m_list.begin(), list);
                 }
 
                 result = true;
@@ -168,14 +172,7 @@ namespace pluto
         void move_to_front(typename map_type::iterator itMap)
         {
             // Move item to front of most recently used list
-            auto itList{ itMap->second.second };
-            if (itList != m_list.begin())
-            {
-                m_list.erase(itList);
-                m_list.push_front(itMap->first);
-
-                itMap->second.second = m_list.begin();
-            }
+            m_list.splice(m_list.begin(), m_list, itMap->second.second);
         }
 
         void evict_lru()
-- 
2.43.0


From 239a8ea054b36f16d9d8163fcc32a180ae9d826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 10/20] fix: pass left then right elements to the predicate of
 starts_with and ends_with

---
 include/pluto/iterator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/pluto/iterator.hpp b/include/pluto/iterator.hpp
index aa311c0..b5d0cec 100644
--- a/include/pluto/iterator.hpp
+++ b/include/pluto/iterator.hpp
@@ -47,7 +47,8 @@ namespace pluto
 #if PLUTO_UTILS_HAS_CXX_20
         if constexpr (std::random_access_iterator<IteratorLeft> && std::random_access_iterator<IteratorRight>)
         {
-            return (((endR - beginR) <= (endL - beginL)) && pluto::equals_same_size(beginR, endR, beginL, predicate));
+            const auto sizeR{ endR - beginR };
+            return ((sizeR <= (endL - beginL)) && pluto::equals_same_size(beginL, (beginL + sizeR), beginR, predicate));
         }
 #endif
 
@@ -75,7 +76,7 @@ namespace pluto
         if constexpr (std::random_access_iterator<IteratorLeft> && std::random_access_iterator<IteratorRight>)
         {
             const auto sizeR{ endR - beginR };
-            return ((sizeR <= (endL - beginL)) && pluto::equals_same_size(beginR, endR, (endL - sizeR), predicate));
+            return ((sizeR <= (endL - beginL)) && pluto::equals_same_size((endL - sizeR), endL, beginR, predicate));
         }
 #endif
 
-- 
2.43.0


From 26ec2420bf008dca522fc18f3adcd01a178a7716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:51 +0000
Subject: [PATCH 11/20] fix: let rfind, rfind_if and rfind_if_not accept
 pointers

---
 include/pluto/iterator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pluto/iterator.hpp b/include/pluto/iterator.hpp
index b5d0cec..853ab41 100644
--- a/include/pluto/iterator.hpp
+++ b/include/pluto/iterator.hpp
@@ -123,7 +123,7 @@ namespace pluto
 
         auto rit{ pluto::find(rbegin, rend, elem) };
 
-        return ((rit == rend) ? end : --(rit.base()));
+        return ((rit == rend) ? end : std::prev(rit.base()));
     }
 
 #if PLUTO_UTILS_HAS_CXX_17
@@ -159,7 +159,7 @@ namespace pluto
 
         auto rit{ pluto::find_if(rbegin, rend, predicate) };
 
-        return ((rit == rend) ? end : --(rit.base()));
+        return ((rit == rend) ? end : std::prev(rit.base()));
     }
 
     template<class Iterator, class Predicate>
@@ -182,7 +182,7 @@ namespace pluto
 
         auto rit{ pluto::find_if_not(rbegin, rend, predicate) };
 
-        return ((rit == rend) ? end : --(rit.base()));
+        return ((rit == rend) ? end : std::prev(rit.base()));
     }
 
     template<class Iterator, class Elem>
-- 
2.43.0


From a117009ccf8c93ad884468b9b4d919870c356fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 12/20] fix: build a slice from its range when elements can be
 constructed from iterators

---
 include/pluto/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pluto/container.hpp b/include/pluto/container.hpp
index 6bb714e..e1e5058 100644
--- a/include/pluto/container.hpp
+++ b/include/pluto/container.hpp
@@ -208,7 +208,7 @@ namespace pluto
         auto stopIt{ startIt };
         std::advance(stopIt, (stop - start));
 
-        return { startIt, stopIt };
+        return Container(startIt, stopIt);
     }
 
     template<class Container>
-- 
2.43.0


From 04f34622c24404d8d89737641978ae126d769194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:38 +0000
Subject: [PATCH 13/20] fix: return a value-initialised value when str_to and
 wstr_to have nothing to extract

---
 include/pluto/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pluto/string.hpp b/include/pluto/string.hpp
index 39bc912..9d06f2c 100644
--- a/include/pluto/string.hpp
+++ b/include/pluto/string.hpp
@@ -295,7 +295,7 @@ namespace pluto
     template<class Value>
     PLUTO_UTILS_NODISCARD inline Value str_to(const std::string& string)
     {
-        Value value;
+        Value value{};
         std::istringstream{ string } >> value;
         return value;
     }
@@ -309,7 +309,7 @@ namespace pluto
     template<class Value>
     PLUTO_UTILS_NODISCARD inline Value wstr_to(const std::wstring& wstring)
     {
-        Value value;
+        Value value{};
         std::wistringstream{ wstring } >> value;
         return value;
     }
-- 
2.43.0


From cecd0001afa22f38d5305e8984b06dfe1b77a5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:38 +0000
Subject: [PATCH 14/20] fix: put separators between the elements of single-pass
 ranges in join and map_join

---
 include/pluto/string.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/pluto/string.hpp b/include/pluto/string.hpp
index 9d06f2c..ee657ec 100644
--- a/include/pluto/string.hpp
+++ b/include/pluto/string.hpp
@@ -1305,15 +1305,17 @@ namespace pluto
         const Iterator                                  end,
         const std::basic_string<Elem, Traits, Alloc>&   separator)
     {
+        bool isFirst{ true };
         std::basic_string<Elem, Traits, Alloc> joined{};
         for (auto it{ begin }; it != end; ++it)
         {
-            if (it != begin)
+            if (!isFirst)
             {
                 joined.append(separator);
             }
 
             joined.append(*it);
+            isFirst = false;
         }
 
         return joined;
@@ -1427,15 +1429,17 @@ namespace pluto
         const std::basic_string<Elem, Traits, Alloc>&   separator,
         Function                                        function)
     {
+        bool isFirst{ true };
         std::basic_string<Elem, Traits, Alloc> joined{};
         for (auto it{ begin }; it != end; ++it)
         {
-            if (it != begin)
+            if (!isFirst)
             {
                 joined.append(separator);
             }
 
             joined.append(function(*it));
+            isFirst = false;
         }
 
         return joined;
-- 
2.43.0


From ee30e3be88bd78aa4d5c774b957c789b19479352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:38 +0000
Subject: [PATCH 15/20] fix: keep the locale of the case-insensitive
 comparators alive

---
 include/pluto/compare.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/pluto/compare.hpp b/include/pluto/compare.hpp
index d2dc899..16f1a83 100644
--- a/include/pluto/compare.hpp
+++ b/include/pluto/compare.hpp
@@ -47,10 +47,12 @@ namespace pluto
     template<class Elem>
     struct is_iequal
     {
+        const std::locale       locale; // Keeps the facet alive
         const std::ctype<Elem>& facet;
 
         inline explicit is_iequal(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale  { locale },
+            facet   { pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -61,10 +63,12 @@ namespace pluto
     template<class Elem>
     struct is_not_iequal
     {
+        const std::locale       locale; // Keeps the facet alive
         const std::ctype<Elem>& facet;
 
         inline explicit is_not_iequal(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale  { locale },
+            facet   { pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -75,10 +79,12 @@ namespace pluto
     template<class Elem>
     struct is_iless
     {
+        const std::locale       locale; // Keeps the facet alive
         const std::ctype<Elem>& facet;
 
         inline explicit is_iless(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale  { locale },
+            facet   { pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -89,10 +95,12 @@ namespace pluto
     template<class Elem>
     struct is_igreater
     {
+        const std::locale       locale; // Keeps the facet alive
         const std::ctype<Elem>& facet;
 
         inline explicit is_igreater(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale  { locale },
+            facet   { pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -103,10 +111,12 @@ namespace pluto
     template<class Elem>
     struct is_iless_equal
     {
+        const std::locale       locale; // Keeps the facet alive
         const std::ctype<Elem>& facet;
 
         inline explicit is_iless_equal(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale  { locale },
+            facet   { pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -117,10 +127,12 @@ namespace pluto
     template<class Elem>
     struct is_igreater_equal
     {
+        const std::locale       locale; // Keeps the facet alive
         const std::ctype<Elem>& facet;
 
         inline explicit is_igreater_equal(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale  { locale },
+            facet   { pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
-- 
2.43.0


From 184f648257066e473ab1a5cd4c5cb8707dbc7626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 16/20] fix: make pluto::copy use the copy constructor for
 containers of std::any and the like

---
 include/pluto/value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pluto/value.hpp b/include/pluto/value.hpp
index 07dfa44..745fa39 100644
--- a/include/pluto/value.hpp
+++ b/include/pluto/value.hpp
@@ -23,7 +23,7 @@ namespace pluto
     template<class Value>
     PLUTO_UTILS_NODISCARD_CONSTEXPR Value copy(const Value& value)
     {
-        return { value };
+        return value;
     }
 
     template<class Value>
-- 
2.43.0


From 6e864209b4552d3e80a68409d636d53fa4f140e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 17/20] fix: let tasks of scope guards add tasks to their own
 guard

---
 include/pluto/scope.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/pluto/scope.hpp b/include/pluto/scope.hpp
index 82b6ad2..b2e9b3d 100644
--- a/include/pluto/scope.hpp
+++ b/include/pluto/scope.hpp
@@ -9,6 +9,7 @@
 #define PLUTO_UTILS_SCOPE_HPP
 
 #include <stack>
+#include <utility>
 #include <exception>
 #include <functional>
 
@@ -30,9 +31,11 @@ namespace pluto
 
         ~on_scope_exit()
         {
-            for (; !m_tasks.empty(); m_tasks.pop())
+            while (!m_tasks.empty())
             {
-                const auto& task{ m_tasks.top() };
+                // Tasks can add tasks, so remove the task before performing it
+                const auto task{ std::move(m_tasks.top()) };
+                m_tasks.pop();
 
                 if (task)
                 {
@@ -79,9 +82,11 @@ namespace pluto
             if (!std::uncaught_exception())
 #endif
             {
-                for (; !m_tasks.empty(); m_tasks.pop())
+                while (!m_tasks.empty())
                 {
-                    const auto& task{ m_tasks.top() };
+                    // Tasks can add tasks, so remove the task before performing it
+                    const auto task{ std::move(m_tasks.top()) };
+                    m_tasks.pop();
 
                     if (task)
                     {
@@ -129,9 +134,11 @@ namespace pluto
             if (std::uncaught_exception())
 #endif
             {
-                for (; !m_tasks.empty(); m_tasks.pop())
+                while (!m_tasks.empty())
                 {
-                    const auto& task{ m_tasks.top() };
+                    // Tasks can add tasks, so remove the task before performing it
+                    const auto task{ std::move(m_tasks.top()) };
+                    m_tasks.pop();
 
                     if (task)
                     {
-- 
2.43.0


From 2408af4139db0104bcbd1d3d509b8f60a69fd86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 18/20] fix: tell exceptions leaving the scope of a guard from
 those already in flight

---
 include/pluto/scope.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/pluto/scope.hpp b/include/pluto/scope.hpp
index b2e9b3d..2b884ec 100644
--- a/include/pluto/scope.hpp
+++ b/include/pluto/scope.hpp
@@ -65,6 +65,9 @@ namespace pluto
     class on_scope_success
     {
         std::stack<std::function<void()>> m_tasks{};
+#if PLUTO_UTILS_HAS_CXX_17
+        const int m_exceptions{ std::uncaught_exceptions() };
+#endif
 
     public:
         inline on_scope_success() = default;
@@ -77,7 +80,7 @@ namespace pluto
         ~on_scope_success()
         {
 #if PLUTO_UTILS_HAS_CXX_17
-            if (std::uncaught_exceptions() == 0)
+            if (std::uncaught_exceptions() <= m_exceptions)
 #else
             if (!std::uncaught_exception())
 #endif
@@ -117,6 +120,9 @@ namespace pluto
     class on_scope_fail
     {
         std::stack<std::function<void()>> m_tasks{};
+#if PLUTO_UTILS_HAS_CXX_17
+        const int m_exceptions{ std::uncaught_exceptions() };
+#endif
 
     public:
         inline on_scope_fail() = default;
@@ -129,7 +135,7 @@ namespace pluto
         ~on_scope_fail()
         {
 #if PLUTO_UTILS_HAS_CXX_17
-            if (std::uncaught_exceptions() != 0)
+            if (std::uncaught_exceptions() > m_exceptions)
 #else
             if (std::uncaught_exception())
 #endif
-- 
2.43.0


From 50768f9c47e5f586c86d3faa03475d388c412b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 19/20] fix: include what platform.hpp uses

---
 include/pluto/platform.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/pluto/platform.hpp b/include/pluto/platform.hpp
index 202dda3..09c1164 100644
--- a/include/pluto/platform.hpp
+++ b/include/pluto/platform.hpp
@@ -17,6 +17,10 @@
 #include <unistd.h>
 #endif
 
+#include <cstddef>
+#include <cstdint>
+#include <ctime>
+
 #include "version.hpp"
 
 namespace pluto
-- 
2.43.0


From a610b38c008215889f7a8ba2f1dc4151bb0c3adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 20/20] fix: do not use std::size in slice and len, which C++14
 does not have

---
 include/pluto/container.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/pluto/container.hpp b/include/pluto/container.hpp
index e1e5058..18f1835 100644
--- a/include/pluto/container.hpp
+++ b/include/pluto/container.hpp
@@ -195,7 +195,7 @@ namespace pluto
         long long           start,
         long long           stop)
     {
-        const auto size{ static_cast<long long>(std::size(container)) };
+        const auto size{ static_cast<long long>(container.size()) };
 
         if (start < 0)          { start += size; if (start < 0) { start = 0; } }
         if (stop < 0)           { stop += size; }
@@ -222,7 +222,13 @@ namespace pluto
     template<class Container>
     PLUTO_UTILS_NODISCARD_CONSTEXPR auto len(const Container& container)
     {
-        return std::size(container);
+        return container.size();
+    }
+
+    template<class Elem, std::size_t size>
+    PLUTO_UTILS_NODISCARD_CONSTEXPR std::size_t len(const Elem (&)[size])
+    {
+        return size;
     }
 
     template<class Container, class Predicate = pluto::is_true>
-- 
2.43.0

