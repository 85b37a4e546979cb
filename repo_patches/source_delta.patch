From dd739386bd6c1a573b5c11bd49d56fb72ff24263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 01/29] fix: event_dispatcher handler ids are per instance

The id counter was a static reset by every dispatcher's destructor, so a
dispatcher could hand out an id that one of its live handlers already had,
and independent dispatchers raced on it.
---
 sdk/include/teiacare/sdk/event_dispatcher.hpp | 2 +-
 sdk/src/event_dispatcher.cpp                  | 3 ---
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/sdk/include/teiacare/sdk/event_dispatcher.hpp b/sdk/include/teiacare/sdk/event_dispatcher.hpp
index 808be76..22c5cf0 100644
--- a/sdk/include/teiacare/sdk/event_dispatcher.hpp
+++ b/sdk/include/teiacare/sdk/event_dispatcher.hpp
@@ -180,7 +180,7 @@ private:
     std::unordered_map<std::string, std::vector<std::shared_ptr<base_handler_t>>> _handlers;
     std::mutex _handlers_mutex;
     tc::sdk::thread_pool _tp;
-    static unsigned long handler_id;
+    unsigned long handler_id = 0;
 
     template <typename... Args>
     constexpr auto get_event_handler_id(std::string&& event_name) const
diff --git a/sdk/src/event_dispatcher.cpp b/sdk/src/event_dispatcher.cpp
index d66f54d..9b9fc28 100644
--- a/sdk/src/event_dispatcher.cpp
+++ b/sdk/src/event_dispatcher.cpp
@@ -16,8 +16,6 @@
 
 namespace tc::sdk
 {
-unsigned long event_dispatcher::handler_id = 0;
-
 event_dispatcher::event_dispatcher() noexcept
 {
 }
@@ -25,7 +23,6 @@ event_dispatcher::event_dispatcher() noexcept
 event_dispatcher::~event_dispatcher() noexcept
 {
     stop();
-    handler_id = 0;
 }
 
 auto event_dispatcher::remove_handler(unsigned long remove_handler_id) -> bool
-- 
2.43.0


From e04afe1a2eb329feeda889fe3f5748393c1a2ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 02/29] fix: event_dispatcher events are keyed by exact name
 and ordered argument types

Handlers were keyed by the event name with the decimal sum of the argument
types' hashes appended.  The sum ignores the order of the arguments, so
emit<int, double> ran handlers of (double, int) through a wrong cast, and
remove_event(name) removed every event whose name starts with name.
---
 sdk/include/teiacare/sdk/event_dispatcher.hpp | 20 ++++++++-----------
 sdk/src/event_dispatcher.cpp                  |  2 +-
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/sdk/include/teiacare/sdk/event_dispatcher.hpp b/sdk/include/teiacare/sdk/event_dispatcher.hpp
index 22c5cf0..b7eb0ea 100644
--- a/sdk/include/teiacare/sdk/event_dispatcher.hpp
+++ b/sdk/include/teiacare/sdk/event_dispatcher.hpp
@@ -20,10 +20,12 @@
 #include <teiacare/sdk/thread_pool.hpp>
 
 #include <functional>
+#include <map>
 #include <memory>
 #include <mutex>
 #include <string>
-#include <unordered_map>
+#include <typeindex>
+#include <utility>
 #include <vector>
 
 namespace tc::sdk
@@ -177,23 +179,17 @@ public:
     auto stop() -> bool;
 
 private:
-    std::unordered_map<std::string, std::vector<std::shared_ptr<base_handler_t>>> _handlers;
+    using event_handler_id_t = std::pair<std::string, std::vector<std::type_index>>;
+
+    std::map<event_handler_id_t, std::vector<std::shared_ptr<base_handler_t>>> _handlers;
     std::mutex _handlers_mutex;
     tc::sdk::thread_pool _tp;
     unsigned long handler_id = 0;
 
     template <typename... Args>
-    constexpr auto get_event_handler_id(std::string&& event_name) const
+    auto get_event_handler_id(std::string&& event_name) const -> event_handler_id_t
     {
-        if constexpr (sizeof...(Args) == 0)
-        {
-            return std::move(event_name);
-        }
-        else
-        {
-            auto args_hash = std::to_string((typeid(std::decay_t<Args>).hash_code() + ...));
-            return std::move(event_name + args_hash);
-        }
+        return {std::move(event_name), {std::type_index(typeid(std::decay_t<Args>))...}};
     }
 };
 
diff --git a/sdk/src/event_dispatcher.cpp b/sdk/src/event_dispatcher.cpp
index 9b9fc28..2092717 100644
--- a/sdk/src/event_dispatcher.cpp
+++ b/sdk/src/event_dispatcher.cpp
@@ -47,7 +47,7 @@ auto event_dispatcher::remove_event(std::string event_name) -> bool
 {
     std::unique_lock handlers_lock(_handlers_mutex);
 
-    if (std::erase_if(_handlers, [event_name](auto&& handler_iterator) { return handler_iterator.first.starts_with(event_name); }))
+    if (std::erase_if(_handlers, [event_name](auto&& handler_iterator) { return handler_iterator.first.first == event_name; }))
         return true;
 
     return false;
-- 
2.43.0


From 1c90c8ddc4665152d9de8ea7bb1dff82eb4ffd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 03/29] fix: event_dispatcher stores handlers with the types
 emit() looks for

A handler registered as add_handler<const std::string&> was stored as
handler_t<const std::string&> and called as handler_t<std::string>: an
invalid downcast.
---
 sdk/include/teiacare/sdk/event_dispatcher.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sdk/include/teiacare/sdk/event_dispatcher.hpp b/sdk/include/teiacare/sdk/event_dispatcher.hpp
index b7eb0ea..73fbae4 100644
--- a/sdk/include/teiacare/sdk/event_dispatcher.hpp
+++ b/sdk/include/teiacare/sdk/event_dispatcher.hpp
@@ -114,8 +114,13 @@ public:
 
         const auto event_handler_id = get_event_handler_id<Args...>(std::move(event_name));
 
+        // emit() only knows the decayed arguments: handlers must be stored with the same types.
+        auto handler = [h = std::move(event_handler)](std::decay_t<Args>... args) mutable {
+            h(std::forward<Args>(args)...);
+        };
+
         std::unique_lock handlers_lock(_handlers_mutex);
-        _handlers[event_handler_id].emplace_back(std::make_unique<handler_t<Args...>>(++handler_id, std::move(event_handler)));
+        _handlers[event_handler_id].emplace_back(std::make_unique<handler_t<std::decay_t<Args>...>>(++handler_id, std::move(handler)));
         return handler_id;
     }
 
@@ -141,8 +146,8 @@ public:
 
         for (auto&& h : event_handlers)
         {
-            const std::function<void()> event = [e = std::static_pointer_cast<handler_t<Args...>>(h), args...] {
-                return std::invoke(&handler_t<Args...>::call, e.get(), args...);
+            const std::function<void()> event = [e = std::static_pointer_cast<handler_t<std::decay_t<Args>...>>(h), args...] {
+                return std::invoke(&handler_t<std::decay_t<Args>...>::call, e.get(), args...);
             };
 
             _tp.run(std::move(event));
-- 
2.43.0


From b9a634cf849eca704c4337a56cd514eec6033f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 04/29] fix: task_scheduler::stop cannot be missed by the
 scheduler thread

stop() cleared the running flag and notified without holding the mutex the
scheduler thread waits with, so the thread could go to sleep after the
notification: stop() then hung (no task left) or waited for the next due
task.  The thread could also hand a due task over to the pool after it was
stopped, to be run by the next start(), and a task added while stopping was
accepted and kept.  The flag is now guarded by that mutex, the scheduler
thread ends before the pool is stopped, and start/stop exclude each other.
---
 sdk/include/teiacare/sdk/task_scheduler.hpp |  2 ++
 sdk/src/task_scheduler.cpp                  | 35 +++++++++++++--------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/sdk/include/teiacare/sdk/task_scheduler.hpp b/sdk/include/teiacare/sdk/task_scheduler.hpp
index f067f12..3f55d21 100644
--- a/sdk/include/teiacare/sdk/task_scheduler.hpp
+++ b/sdk/include/teiacare/sdk/task_scheduler.hpp
@@ -431,6 +431,8 @@ private:
     std::mutex _update_tasks_mtx;
     std::hash<std::string> _hasher;
     std::atomic<tc::sdk::clock::time_point> _next_task_timepoint;
+    std::mutex _start_stop_mtx;
+    bool _is_accepting_tasks = false; // guarded by _update_tasks_mtx
 
     bool add_task(tc::sdk::clock::time_point&& timepoint, schedulable_task&& st);
     void update_tasks();
diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 1331465..7d60f4f 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -29,22 +29,27 @@ task_scheduler::~task_scheduler()
 
 bool task_scheduler::start(const unsigned int num_threads)
 {
+    std::scoped_lock start_stop_lock(_start_stop_mtx);
     if (!_tp.start(num_threads))
         return false;
 
+    {
+        std::scoped_lock lock(_update_tasks_mtx);
+        _is_accepting_tasks = true;
+    }
+
     std::promise<void> thread_started_notifier;
     std::future<void> thread_started_watcher = thread_started_notifier.get_future();
 
     _scheduler_thread = std::thread([this, &thread_started_notifier] {
         thread_started_notifier.set_value();
 
-        while (_tp.is_running())
+        std::unique_lock lock(_update_tasks_mtx);
+        while (_is_accepting_tasks)
         {
-            std::unique_lock lock(_update_tasks_mtx);
-
             if (_tasks.empty())
             {
-                _update_tasks_cv.wait(lock, [this] { return !_tp.is_running() || !_tasks.empty(); });
+                _update_tasks_cv.wait(lock, [this] { return !_is_accepting_tasks || !_tasks.empty(); });
             }
             else
             {
@@ -57,7 +62,7 @@ bool task_scheduler::start(const unsigned int num_threads)
                     continue;
             }
 
-            if (!_tp.is_running())
+            if (!_is_accepting_tasks)
                 return;
 
             update_tasks();
@@ -71,20 +76,24 @@ bool task_scheduler::start(const unsigned int num_threads)
 
 bool task_scheduler::stop()
 {
-    if (!_tp.stop())
-        return false;
-
-    _update_tasks_cv.notify_all();
+    std::scoped_lock start_stop_lock(_start_stop_mtx);
 
     {
         std::scoped_lock lock(_update_tasks_mtx);
+        if (!_is_accepting_tasks)
+            return false;
+
+        // From now on no task is accepted, and the scheduler thread hands no task over to the thread pool.
+        _is_accepting_tasks = false;
         _tasks.clear();
     }
 
+    _update_tasks_cv.notify_all();
+
     if (_scheduler_thread.joinable())
         _scheduler_thread.join();
 
-    return true;
+    return _tp.stop();
 }
 
 size_t task_scheduler::tasks_size()
@@ -169,12 +178,12 @@ bool task_scheduler::update_interval(const std::string& task_id, interval_t inte
 
 bool task_scheduler::add_task(tc::sdk::clock::time_point&& timepoint, schedulable_task&& st)
 {
-    if (!_tp.is_running())
-        return false;
-
     {
         std::scoped_lock lock(_update_tasks_mtx);
 
+        if (!_is_accepting_tasks)
+            return false;
+
         if (already_exists(st.hash()))
             return false;
 
-- 
2.43.0


From 4180be93b7bbb898c66360466651960ee0a6adcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 05/29] fix: high_precision_timer counts a callback that ends
 on its own due time

With now == due time the next due time was left in place, so the callback
was invoked twice for it, and the missed counter wrapped below zero.
---
 sdk/src/high_precision_timer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/src/high_precision_timer.cpp b/sdk/src/high_precision_timer.cpp
index 0a5e517..c4f6aec 100644
--- a/sdk/src/high_precision_timer.cpp
+++ b/sdk/src/high_precision_timer.cpp
@@ -100,7 +100,7 @@ void high_precision_timer::update_next_start_time()
 {
     auto task_next_start_time = _next_task_timepoint;
     const auto now = clock::now();
-    while (now > task_next_start_time)
+    while (now >= task_next_start_time)
     {
         task_next_start_time += _interval;
         ++_missed_callback_count;
-- 
2.43.0


From 4bb15501cfa1f380794ec20c521c7743718b8f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 06/29] fix: service_locator stores a service as a pointer to
 its interface

The service was stored as a void pointer to the concrete class and cast back
to the interface: the wrong address when the interface is not its first base.
---
 sdk/include/teiacare/sdk/service_locator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/service_locator.hpp b/sdk/include/teiacare/sdk/service_locator.hpp
index e0ea68a..7bb6591 100644
--- a/sdk/include/teiacare/sdk/service_locator.hpp
+++ b/sdk/include/teiacare/sdk/service_locator.hpp
@@ -62,7 +62,9 @@ public:
         static_assert(std::is_base_of_v<ServiceInterfaceT, ServiceT>,
                       "\nServiceT must inherit from ServiceInterfaceT");
 
-        auto [_, is_inserted] = _services.emplace(get_id<ServiceInterfaceT>(), std::make_shared<ServiceT>(std::forward<Args>(args)...));
+        // get() casts the stored pointer back to ServiceInterfaceT, which may not be the first base of ServiceT.
+        std::shared_ptr<ServiceInterfaceT> service = std::make_shared<ServiceT>(std::forward<Args>(args)...);
+        auto [_, is_inserted] = _services.emplace(get_id<ServiceInterfaceT>(), std::move(service));
         return is_inserted;
     }
 
-- 
2.43.0


From 7a69c7d666c3e9b8e689f680487ac2f1f0242ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 07/29] fix: uuid_generator::create is safe to call from
 several threads and copies

The random state of the process-wide generator was advanced without a lock
(concurrent calls could return equal uuids), and a copy of the generator,
as in the example, created the same uuids as the original.
---
 sdk/include/teiacare/sdk/uuid_generator.hpp |  5 -----
 sdk/src/uuid_generator.cpp                  | 12 +++++++++---
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/sdk/include/teiacare/sdk/uuid_generator.hpp b/sdk/include/teiacare/sdk/uuid_generator.hpp
index 9354af1..7f973b0 100644
--- a/sdk/include/teiacare/sdk/uuid_generator.hpp
+++ b/sdk/include/teiacare/sdk/uuid_generator.hpp
@@ -16,8 +16,6 @@
 
 #include <teiacare/sdk/uuid.hpp>
 
-#include <random>
-
 namespace tc::sdk
 {
 /*!
@@ -59,9 +57,6 @@ private:
     explicit uuid_generator() noexcept;
     [[nodiscard]] inline bool is_hex(const char c) const noexcept;
     [[nodiscard]] inline uint8_t hex_to_uint8(const char c) const noexcept;
-
-    std::mt19937 _generator;
-    std::uniform_int_distribution<uint32_t> _distribution;
 };
 
 }
diff --git a/sdk/src/uuid_generator.cpp b/sdk/src/uuid_generator.cpp
index 186114e..767fc06 100644
--- a/sdk/src/uuid_generator.cpp
+++ b/sdk/src/uuid_generator.cpp
@@ -15,6 +15,7 @@
 #include <teiacare/sdk/uuid_generator.hpp>
 
 #include <limits>
+#include <mutex>
 #include <random>
 #include <stdexcept>
 
@@ -30,8 +31,15 @@ uuid_generator& uuid_generator::instance()
 {
     alignas(uint32_t) std::array<uint8_t, 16> bytes;
 
+    // The random state is shared by all the instances: copies of the generator must not create the same uuids.
+    static std::mutex mutex;
+    static std::mt19937 generator{std::random_device()()};
+    static std::uniform_int_distribution<uint32_t> distribution(std::numeric_limits<uint32_t>::min(), std::numeric_limits<uint32_t>::max());
+
+    std::unique_lock lock(mutex);
     for (int i = 0; i < 16; i += 4)
-        *reinterpret_cast<uint32_t*>(bytes.data() + i) = _distribution(_generator);
+        *reinterpret_cast<uint32_t*>(bytes.data() + i) = distribution(generator);
+    lock.unlock();
 
     // variant must be 10xxxxxx
     bytes[8] &= 0xBF;
@@ -141,8 +149,6 @@ uuid_generator& uuid_generator::instance()
 }
 
 uuid_generator::uuid_generator() noexcept
-    : _generator(std::mt19937(std::random_device()()))
-    , _distribution(std::numeric_limits<uint32_t>::min(), std::numeric_limits<uint32_t>::max())
 {
 }
 
-- 
2.43.0


From afffe23d4212e050be902c4739f5e3b2e243bc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 08/29] fix: dates outside 1677-2262 can be parsed and shifted

date::from_string and date +/- timedelta went through a time point with
nanosecond resolution, which overflows outside that range.
---
 sdk/include/teiacare/sdk/datetime/date.hpp | 4 ++--
 sdk/src/datetime/date.cpp                  | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/sdk/include/teiacare/sdk/datetime/date.hpp b/sdk/include/teiacare/sdk/datetime/date.hpp
index e7ddd81..8bba118 100644
--- a/sdk/include/teiacare/sdk/datetime/date.hpp
+++ b/sdk/include/teiacare/sdk/datetime/date.hpp
@@ -197,7 +197,7 @@ public:
      */
     constexpr tc::sdk::date operator+(const timedelta& delta) const noexcept
     {
-        return tc::sdk::date{std::chrono::sys_days(_ymd) + delta.total_nanoseconds()};
+        return tc::sdk::date{std::chrono::year_month_day(std::chrono::sys_days(_ymd) + std::chrono::floor<std::chrono::days>(delta.total_nanoseconds()))};
     }
 
     /*!
@@ -207,7 +207,7 @@ public:
      */
     constexpr tc::sdk::date operator-(const timedelta& delta) const noexcept
     {
-        return tc::sdk::date{std::chrono::sys_days(_ymd) - delta.total_nanoseconds()};
+        return tc::sdk::date{std::chrono::year_month_day(std::chrono::sys_days(_ymd) - std::chrono::ceil<std::chrono::days>(delta.total_nanoseconds()))};
     }
 
     /*!
diff --git a/sdk/src/datetime/date.cpp b/sdk/src/datetime/date.cpp
index 83eb8d0..b82ccd6 100644
--- a/sdk/src/datetime/date.cpp
+++ b/sdk/src/datetime/date.cpp
@@ -36,8 +36,7 @@ tc::sdk::date date::from_string(const std::string& str, const std::string& forma
     if (ss.fail())
         throw std::runtime_error("Failed to parse " + str);
 
-    const std::chrono::system_clock::time_point tp = parsed_date;
-    return tc::sdk::date(tp);
+    return tc::sdk::date(std::chrono::year_month_day(parsed_date));
 }
 
 tc::sdk::date date::today() noexcept
-- 
2.43.0


From 02409e369ce67eb1e329053cccd2b7b282782f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 09/29] fix: datetime::to_string rounds down before 1970 as
 well

Truncating toward zero printed the following second (and so possibly the
following day) for a datetime before the epoch with a finer fraction.
---
 sdk/src/datetime/datetime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/src/datetime/datetime.cpp b/sdk/src/datetime/datetime.cpp
index ccaf9e0..556de93 100644
--- a/sdk/src/datetime/datetime.cpp
+++ b/sdk/src/datetime/datetime.cpp
@@ -26,7 +26,7 @@ std::ostream& operator<<(std::ostream& stream, const datetime& dt)
 template <class DurationT>
 std::string datetime::to_string(const std::string& format) const noexcept(false)
 {
-    return ::date::format(format, std::chrono::time_point_cast<DurationT>(_tp));
+    return ::date::format(format, std::chrono::floor<DurationT>(_tp));
 }
 
 template std::string datetime::to_string<std::chrono::seconds>(const std::string& format) const noexcept(false);
-- 
2.43.0


From 0882c12dee179408eb05d6b78bdf5b4a66bd2824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 10/29] fix: timedelta division by zero throws
 std::domain_error as documented

---
 sdk/include/teiacare/sdk/datetime/timedelta.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdk/include/teiacare/sdk/datetime/timedelta.hpp b/sdk/include/teiacare/sdk/datetime/timedelta.hpp
index 85a6446..7668184 100644
--- a/sdk/include/teiacare/sdk/datetime/timedelta.hpp
+++ b/sdk/include/teiacare/sdk/datetime/timedelta.hpp
@@ -16,6 +16,7 @@
 
 #include <chrono>
 #include <ostream>
+#include <stdexcept>
 
 namespace tc::sdk
 {
@@ -289,6 +290,9 @@ public:
      */
     constexpr inline tc::sdk::timedelta operator/(int64_t divider) const noexcept(false)
     {
+        if (divider == 0)
+            throw std::domain_error("timedelta division by zero");
+
         return tc::sdk::timedelta{_duration / divider};
     }
 
-- 
2.43.0


From 634a5813c868d1cb0a5aff95f65517f315dc9ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 11/29] fix: rectangle::translated compiles

It called the mutating point::add_delta on a const copy.
---
 sdk/include/teiacare/sdk/geometry/rectangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/geometry/rectangle.hpp b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
index 8ae8696..2a7b3c0 100644
--- a/sdk/include/teiacare/sdk/geometry/rectangle.hpp
+++ b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
@@ -352,7 +352,7 @@ public:
      */
     tc::sdk::rectangle<T> translated(T delta_x, T delta_y) const noexcept
     {
-        const auto translated_position = tc::sdk::point<T>(_position);
+        auto translated_position = tc::sdk::point<T>(_position);
         translated_position.add_delta(delta_x, delta_y);
         return tc::sdk::rectangle<T>(translated_position, _width, _height);
     }
-- 
2.43.0


From 2392ff6b2da89216512ea4e4b0a79bf61894e485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 12/29] fix: an invalid environment value is a parse error, not
 std::terminate

parse_from_env() was noexcept, while converting or validating the value of
an environment variable may throw.
---
 sdk/include/teiacare/sdk/argparse/argument_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/argparse/argument_base.hpp b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
index 75b0c8d..c597469 100644
--- a/sdk/include/teiacare/sdk/argparse/argument_base.hpp
+++ b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
@@ -84,7 +84,7 @@ public:
      * This function checks if the specified environment variable exists and,
      * if so, parses its value using the parse method.
      */
-    void parse_from_env() noexcept
+    void parse_from_env()
     {
         if (_env.empty())
             return;
-- 
2.43.0


From cb183a066929b1493601bad640872fbfe9aaaedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 13/29] fix: an option without a name is unknown

"-", "--", "---x" and "--=x" have an empty name, which matched the first
option or flag declared without a short name.
---
 sdk/src/argparse/argument_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/src/argparse/argument_parser.cpp b/sdk/src/argparse/argument_parser.cpp
index 1217e3b..c7fc6a3 100644
--- a/sdk/src/argparse/argument_parser.cpp
+++ b/sdk/src/argparse/argument_parser.cpp
@@ -245,7 +245,7 @@ void argument_parser::print_arguments() const
 tc::sdk::argument_base* argument_parser::find_argument(std::string_view name, const std::vector<std::unique_ptr<tc::sdk::argument_base>>& args) const
 {
     auto it = std::find_if(args.begin(), args.end(), [&](const std::unique_ptr<tc::sdk::argument_base>& arg) {
-        return name == arg->get_name_short() || name == arg->get_name_long();
+        return !name.empty() && (name == arg->get_name_short() || name == arg->get_name_long());
     });
 
     return it == args.end() ? nullptr : it->get();
-- 
2.43.0


From 5cd7c22e6d2e9dd8b39fe83737e60db112ab2e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 14/29] fix: a char argument can be parsed

Extracting a single character does not reach the end of the stream, so every
value was reported as a conversion error.
---
 sdk/include/teiacare/sdk/argparse/argument_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/argparse/argument_base.hpp b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
index c597469..59f1920 100644
--- a/sdk/include/teiacare/sdk/argparse/argument_base.hpp
+++ b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
@@ -270,7 +270,7 @@ protected:
         T value;
         std::istringstream iss(str);
 
-        if (!(iss >> value) || !(iss.eof()))
+        if (!(iss >> value) || iss.peek() != std::istringstream::traits_type::eof())
         {
             throw std::runtime_error("Conversion error: " + _name_long + "=" + str);
         }
-- 
2.43.0


From ac7d98fcdbd65b2429608cf8ea5e0f74e16dfbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 15/29] fix: const char* arguments do not dangle after parse()

The variable pointed into a string local to the parser's parse(); it now
points to a copy that lives as long as the argument.
---
 sdk/include/teiacare/sdk/argparse/argument_base.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/argparse/argument_base.hpp b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
index 59f1920..625541d 100644
--- a/sdk/include/teiacare/sdk/argparse/argument_base.hpp
+++ b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
@@ -14,6 +14,7 @@
 
 #pragma once
 
+#include <deque>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -172,7 +173,7 @@ protected:
     typename std::enable_if_t<std::is_same_v<T, const char*>, T>
     convert(const std::string& str) const
     {
-        return str.c_str();
+        return _c_strings.emplace_back(str).c_str();
     }
 
     // Specialization for int
@@ -278,6 +279,7 @@ protected:
     }
 
 private:
+    mutable std::deque<std::string> _c_strings; // what const char* arguments point to
     bool _required = false;
     const std::string _name_long;
     const std::string _name_short;
-- 
2.43.0


From 31f5caecaf1d6fd0aa8c563f0ccfcf8fc0aa071d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:13 +0000
Subject: [PATCH 16/29] fix: event_dispatcher::stop discards events that are
 being emitted

A handler that emitted while stop() ran could copy the handlers before stop()
removed them and enqueue them after stop() had emptied the queue: the next
start() then ran handlers that stop() had removed.
---
 sdk/include/teiacare/sdk/event_dispatcher.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/event_dispatcher.hpp b/sdk/include/teiacare/sdk/event_dispatcher.hpp
index 73fbae4..d9dff3d 100644
--- a/sdk/include/teiacare/sdk/event_dispatcher.hpp
+++ b/sdk/include/teiacare/sdk/event_dispatcher.hpp
@@ -137,12 +137,12 @@ public:
     {
         const auto event_handler_id = get_event_handler_id<Args...>(std::move(event_name));
 
+        // Locked until all the handlers are enqueued: an event that meets stop() is either discarded by it or not emitted.
         std::unique_lock handlers_lock(_handlers_mutex);
         if (!_handlers.contains(event_handler_id))
             return false;
 
         std::vector<std::shared_ptr<base_handler_t>> event_handlers = _handlers.at(event_handler_id);
-        handlers_lock.unlock();
 
         for (auto&& h : event_handlers)
         {
-- 
2.43.0


From a369558fe635fdc8eae938252d311387d07f7fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:10 +0000
Subject: [PATCH 17/29] fix: wait_for_quit cannot miss a request when several
 threads wait

---
 sdk/src/signal_handler.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/sdk/src/signal_handler.cpp b/sdk/src/signal_handler.cpp
index a43e896..2fbed2a 100644
--- a/sdk/src/signal_handler.cpp
+++ b/sdk/src/signal_handler.cpp
@@ -14,13 +14,14 @@
 
 #include <teiacare/sdk/signal_handler.hpp>
 
+#include <atomic>
 #include <csignal>
-#include <semaphore>
 
 namespace tc::sdk
 {
 static std::function<void(const char*, int)> signal_callback;
-static std::binary_semaphore sync(0);
+// A std::binary_semaphore must not be released again before it is acquired, and libstdc++'s may miss a release when several threads wait.
+static std::atomic<int> pending_requests{0};
 
 void quit(const char* message, int signal)
 {
@@ -29,7 +30,8 @@ void quit(const char* message, int signal)
         signal_callback(message, signal);
     }
 
-    sync.release();
+    pending_requests.fetch_add(1);
+    pending_requests.notify_one();
 
     // static std::once_flag signal_flag;
     // std::call_once(signal_flag, quit, message, signal);
@@ -37,7 +39,18 @@ void quit(const char* message, int signal)
 
 void wait_for_quit()
 {
-    sync.acquire();
+    for (int pending = pending_requests.load();;)
+    {
+        if (pending == 0)
+        {
+            pending_requests.wait(0);
+            pending = pending_requests.load();
+        }
+        else if (pending_requests.compare_exchange_weak(pending, pending - 1))
+        {
+            return;
+        }
+    }
 }
 
 void signal_handler(int signal)
-- 
2.43.0


From 59874453bdcda4575e28816a07c8d8290fbd0bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:43 +0000
Subject: [PATCH 18/29] fix: a flag that is not given is false instead of
 uninitialised

---
 sdk/include/teiacare/sdk/argparse/flag_argument.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdk/include/teiacare/sdk/argparse/flag_argument.hpp b/sdk/include/teiacare/sdk/argparse/flag_argument.hpp
index c8eb3ab..9072da2 100644
--- a/sdk/include/teiacare/sdk/argparse/flag_argument.hpp
+++ b/sdk/include/teiacare/sdk/argparse/flag_argument.hpp
@@ -38,6 +38,7 @@ public:
         : argument_base(name_long, std::string(1, name_short), description, false, env_var)
         , _var{var}
     {
+        _var = false;
     }
 
     /*!
@@ -51,6 +52,7 @@ public:
         : argument_base(name_long, std::string(), description, false, env_var)
         , _var{var}
     {
+        _var = false;
     }
 
     /*!
-- 
2.43.0


From fa9dd76aea7ad4cc5f44010fd7678788be828162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:01 +0000
Subject: [PATCH 19/29] fix: any exception of a validator is a parse error

---
 sdk/src/argparse/argument_parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sdk/src/argparse/argument_parser.cpp b/sdk/src/argparse/argument_parser.cpp
index c7fc6a3..2f05b4a 100644
--- a/sdk/src/argparse/argument_parser.cpp
+++ b/sdk/src/argparse/argument_parser.cpp
@@ -44,6 +44,12 @@ parse_result argument_parser::parse(int argc, char* argv[]) const
         print_help();
         return parse_result::error;
     }
+    catch (...)
+    {
+        std::cerr << "Invalid argument" << std::endl;
+        print_help();
+        return parse_result::error;
+    }
 }
 
 parse_result argument_parser::parse(std::vector<std::string>&& args) const
-- 
2.43.0


From afb1ac8496e9ca15079c73465c910357ccce3671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:02 +0000
Subject: [PATCH 20/29] fix: task copies an lvalue callable instead of keeping
 a reference

---
 sdk/include/teiacare/sdk/task.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/task.hpp b/sdk/include/teiacare/sdk/task.hpp
index ec67bc8..54afb36 100644
--- a/sdk/include/teiacare/sdk/task.hpp
+++ b/sdk/include/teiacare/sdk/task.hpp
@@ -41,7 +41,7 @@ public:
      */
     template <typename CallableType>
     explicit task(CallableType&& callable)
-        : _callable(std::make_unique<task_impl<CallableType>>(std::move(callable)))
+        : _callable(std::make_unique<task_impl<std::decay_t<CallableType>>>(std::forward<CallableType>(callable)))
     {
     }
 
-- 
2.43.0


From fdc5412442fbf85773b27fd8098a171a0393ecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:55 +0000
Subject: [PATCH 21/29] fix: try_pop does not lose the item when copying it
 throws

---
 sdk/include/teiacare/sdk/blocking_queue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/include/teiacare/sdk/blocking_queue.hpp b/sdk/include/teiacare/sdk/blocking_queue.hpp
index 02f5a89..442ec79 100644
--- a/sdk/include/teiacare/sdk/blocking_queue.hpp
+++ b/sdk/include/teiacare/sdk/blocking_queue.hpp
@@ -162,11 +162,11 @@ public:
         if (is_empty())
             return std::nullopt;
 
-        T item = _queue.front();
+        std::optional<T> item(_queue.front());
         _queue.pop();
         pop_impl(std::move(lock));
 
-        return std::move(std::optional(item));
+        return item;
     }
 
     /*!
-- 
2.43.0


From 836ddcb7c2e3e86cdfbf5ab04c484c8c0976c1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:49 +0000
Subject: [PATCH 22/29] fix: task_scheduler compares task ids, not their hashes

---
 sdk/include/teiacare/sdk/task_scheduler.hpp | 27 ++++++++++-----------
 sdk/src/task_scheduler.cpp                  | 22 ++++++-----------
 2 files changed, 20 insertions(+), 29 deletions(-)

diff --git a/sdk/include/teiacare/sdk/task_scheduler.hpp b/sdk/include/teiacare/sdk/task_scheduler.hpp
index 3f55d21..67d71e5 100644
--- a/sdk/include/teiacare/sdk/task_scheduler.hpp
+++ b/sdk/include/teiacare/sdk/task_scheduler.hpp
@@ -54,10 +54,10 @@ private:
         }
 
         template <typename FunctionType>
-        explicit schedulable_task(FunctionType&& f, size_t hash)
+        explicit schedulable_task(FunctionType&& f, std::string id)
             : _task{std::make_shared<tc::sdk::task>(std::forward<FunctionType>(f))}
             , _is_enabled{true}
-            , _hash{hash}
+            , _id{std::move(id)}
         {
         }
 
@@ -70,11 +70,11 @@ private:
         }
 
         template <typename FunctionType>
-        explicit schedulable_task(FunctionType&& f, size_t hash, tc::sdk::clock::duration interval)
+        explicit schedulable_task(FunctionType&& f, std::string id, tc::sdk::clock::duration interval)
             : _task{std::make_shared<tc::sdk::task>(std::forward<FunctionType>(f))}
             , _is_enabled{true}
             , _interval{interval}
-            , _hash{hash}
+            , _id{std::move(id)}
         {
         }
 
@@ -86,7 +86,7 @@ private:
             : _task{std::move(other._task)}
             , _is_enabled{std::move(other._is_enabled)}
             , _interval{std::move(other._interval)}
-            , _hash{std::move(other._hash)}
+            , _id{std::move(other._id)}
         {
         }
 
@@ -118,22 +118,22 @@ private:
             return _interval;
         }
 
-        std::optional<size_t> hash() const
+        const std::optional<std::string>& id() const
         {
-            return _hash;
+            return _id;
         }
 
     private:
         std::shared_ptr<tc::sdk::task> _task;
         bool _is_enabled;
         std::optional<tc::sdk::clock::duration> _interval;
-        std::optional<size_t> _hash;
+        std::optional<std::string> _id;
 
         schedulable_task(schedulable_task* st)
             : _task{st->_task}
             , _is_enabled{st->_is_enabled}
             , _interval{st->_interval}
-            , _hash{st->_hash}
+            , _id{st->_id}
         {
         }
     };
@@ -312,7 +312,7 @@ public:
         auto task_wrapper = std::packaged_task<ReturnType()>(task);
         std::future<ReturnType> future = task_wrapper.get_future();
 
-        if (!add_task(std::move(timepoint), schedulable_task(std::move(task_wrapper), _hasher(task_id))))
+        if (!add_task(std::move(timepoint), schedulable_task(std::move(task_wrapper), task_id)))
             return std::nullopt;
 
         return future;
@@ -405,7 +405,7 @@ public:
             return std::apply(t, params);
         };
 
-        return add_task(tc::sdk::clock::now(), schedulable_task(std::move(task), _hasher(task_id), interval));
+        return add_task(tc::sdk::clock::now(), schedulable_task(std::move(task), task_id, interval));
     }
 
     /*!
@@ -420,7 +420,7 @@ public:
             return std::apply(t, params);
         };
 
-        return add_task(tc::sdk::clock::now() + delay, schedulable_task(std::move(task), _hasher(task_id), interval));
+        return add_task(tc::sdk::clock::now() + delay, schedulable_task(std::move(task), task_id, interval));
     }
 
 private:
@@ -429,7 +429,6 @@ private:
     std::multimap<tc::sdk::clock::time_point, schedulable_task> _tasks;
     std::condition_variable _update_tasks_cv;
     std::mutex _update_tasks_mtx;
-    std::hash<std::string> _hasher;
     std::atomic<tc::sdk::clock::time_point> _next_task_timepoint;
     std::mutex _start_stop_mtx;
     bool _is_accepting_tasks = false; // guarded by _update_tasks_mtx
@@ -437,7 +436,7 @@ private:
     bool add_task(tc::sdk::clock::time_point&& timepoint, schedulable_task&& st);
     void update_tasks();
     auto get_task_iterator(const std::string& task_id) -> decltype(_tasks)::iterator;
-    bool already_exists(const std::optional<size_t>& opt_hash);
+    bool already_exists(const std::optional<std::string>& task_id);
 };
 
 }
diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 7d60f4f..0f942c3 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -184,7 +184,7 @@ bool task_scheduler::add_task(tc::sdk::clock::time_point&& timepoint, schedulabl
         if (!_is_accepting_tasks)
             return false;
 
-        if (already_exists(st.hash()))
+        if (already_exists(st.id()))
             return false;
 
         _tasks.emplace(std::move(timepoint), std::move(st));
@@ -235,26 +235,18 @@ void task_scheduler::update_tasks()
 
 auto task_scheduler::get_task_iterator(const std::string& task_id) -> decltype(_tasks)::iterator
 {
-    return std::find_if(_tasks.begin(), _tasks.end(), [hash = _hasher(task_id)](auto&& it) {
-        if (it.second.hash().has_value())
-        {
-            return hash == it.second.hash().value();
-        }
-        return false;
+    return std::find_if(_tasks.begin(), _tasks.end(), [&task_id](auto&& it) {
+        return it.second.id() == task_id;
     });
 }
 
-bool task_scheduler::already_exists(const std::optional<size_t>& opt_hash)
+bool task_scheduler::already_exists(const std::optional<std::string>& task_id)
 {
-    if (!opt_hash.has_value())
+    if (!task_id.has_value())
         return false;
 
-    return std::any_of(_tasks.begin(), _tasks.end(), [hash = opt_hash.value()](auto&& it) {
-        if (it.second.hash().has_value())
-        {
-            return hash == it.second.hash().value();
-        }
-        return false;
+    return std::any_of(_tasks.begin(), _tasks.end(), [&task_id](auto&& it) {
+        return it.second.id() == task_id;
     });
 }
 
-- 
2.43.0


From e65df31dacb7b30d7ea9d57192e8a37578649872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:57 +0000
Subject: [PATCH 23/29] fix: %p is read also where the locale's time_get defers
 it

---
 sdk/src/datetime/date.h | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/sdk/src/datetime/date.h b/sdk/src/datetime/date.h
index a222017..abf96d3 100644
--- a/sdk/src/datetime/date.h
+++ b/sdk/src/datetime/date.h
@@ -4728,11 +4728,11 @@ extract_month(std::basic_ostream<CharT, Traits>& os, const fields<Duration>& fds
 
 } // namespace detail
 
-#if ONLY_C_LOCALE
-
 namespace detail
 {
 
+#if ONLY_C_LOCALE
+
 inline std::pair<const std::string*, const std::string*>
 weekday_names()
 {
@@ -4797,6 +4797,8 @@ ampm_names()
     return std::make_pair(nm, nm + sizeof(nm) / sizeof(nm[0]));
 }
 
+#endif // ONLY_C_LOCALE
+
 template <class CharT, class Traits, class FwdIter>
 FwdIter
 scan_keyword(std::basic_istream<CharT, Traits>& is, FwdIter kb, FwdIter ke)
@@ -4903,8 +4905,6 @@ scan_keyword(std::basic_istream<CharT, Traits>& is, FwdIter kb, FwdIter ke)
 
 } // namespace detail
 
-#endif // ONLY_C_LOCALE
-
 template <class CharT, class Traits, class Duration>
 std::basic_ostream<CharT, Traits>&
 to_stream(std::basic_ostream<CharT, Traits>& os, const CharT* fmt,
@@ -7017,17 +7017,18 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     {
                         int tp = not_a_ampm;
 #if !ONLY_C_LOCALE
-                        tm = std::tm{};
-                        tm.tm_hour = 1;
-                        ios::iostate err = ios::goodbit;
-                        f.get(is, nullptr, is, err, &tm, command, fmt + 1);
-                        is.setstate(err);
-                        if (tm.tm_hour == 1)
-                            tp = 0;
-                        else if (tm.tm_hour == 13)
-                            tp = 1;
-                        else
-                            is.setstate(err);
+                        // time_get may not apply %p until it reads the hour too: look for the locale's names
+                        std::basic_string<CharT, Traits> nm[2];
+                        for (int i = 0; i < 2; ++i)
+                        {
+                            std::basic_ostringstream<CharT, Traits> os;
+                            tm = std::tm{};
+                            tm.tm_hour = 12 * i + 1;
+                            std::use_facet<std::time_put<CharT>>(is.getloc()).put(os, os, os.fill(), &tm, 'p');
+                            nm[i] = os.str();
+                        }
+                        auto i = detail::scan_keyword(is, nm, nm + 2) - nm;
+                        tp = static_cast<decltype(tp)>(i);
 #else
                         auto nm = detail::ampm_names();
                         auto i = detail::scan_keyword(is, nm.first, nm.second) - nm.first;
-- 
2.43.0


From c639ee1be93139923f342d5c0254fca8eb08e866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:57 +0000
Subject: [PATCH 24/29] fix: a day of the year or an ISO week the year does not
 have is not a date

---
 sdk/src/datetime/date.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sdk/src/datetime/date.h b/sdk/src/datetime/date.h
index abf96d3..af33e88 100644
--- a/sdk/src/datetime/date.h
+++ b/sdk/src/datetime/date.h
@@ -7566,9 +7566,12 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
             bool computed = false;
             if (G != not_a_year && V != not_a_week_num && wd != not_a_weekday)
             {
-                year_month_day ymd_trial = sys_days(year{G - 1} / December / Thursday[last]) +
-                                           (Monday - Thursday) + weeks{V - 1} +
-                                           (weekday{static_cast<unsigned>(wd)} - Monday);
+                const auto week_trial = sys_days(year{G - 1} / December / Thursday[last]) +
+                                        (Monday - Thursday) + weeks{V - 1};
+                // A week belongs to the year of its Thursday
+                if (year{G} != year_month_day{week_trial + (Thursday - Monday)}.year())
+                    goto broken;
+                year_month_day ymd_trial = week_trial + (weekday{static_cast<unsigned>(wd)} - Monday);
                 if (Y == not_a_year)
                     Y = static_cast<int>(ymd_trial.year());
                 else if (year{Y} != ymd_trial.year())
@@ -7620,6 +7623,8 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
             if (j != not_a_doy && Y != not_a_year)
             {
                 auto ymd_trial = year_month_day{local_days(year{Y} / 1 / 1) + days{j - 1}};
+                if (year{Y} != ymd_trial.year())
+                    goto broken;
                 if (m == not_a_month)
                     m = static_cast<int>(static_cast<unsigned>(ymd_trial.month()));
                 else if (month(static_cast<unsigned>(m)) != ymd_trial.month())
-- 
2.43.0


From 004cb2839f3a88c406083b7f3d60567b7b206774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:50 +0000
Subject: [PATCH 25/29] fix: thread_pool is left stopped when start() cannot
 create its threads

---
 sdk/src/thread_pool.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/sdk/src/thread_pool.cpp b/sdk/src/thread_pool.cpp
index 75eb3bd..538b018 100644
--- a/sdk/src/thread_pool.cpp
+++ b/sdk/src/thread_pool.cpp
@@ -40,9 +40,26 @@ bool thread_pool::start(const unsigned int num_threads)
     _threads.reserve(thread_count);
     is_ready = std::make_shared<std::latch>(thread_count + 1);
 
-    for (unsigned int i = 0; i < thread_count; ++i)
+    try
     {
-        _threads.emplace_back([this] { worker(); });
+        for (unsigned int i = 0; i < thread_count; ++i)
+        {
+            _threads.emplace_back([this] { worker(); });
+        }
+    }
+    catch (...)
+    {
+        // Some threads could not be created: let the ones that are waiting for them go on and terminate.
+        _is_running = false;
+        is_ready->count_down(static_cast<std::ptrdiff_t>(thread_count + 1 - _threads.size()));
+
+        for (auto&& t : _threads)
+        {
+            t.join();
+        }
+
+        _threads.clear();
+        throw;
     }
 
     is_ready->arrive_and_wait();
-- 
2.43.0


From 728eaff211785de6469ceca0f75c70473e69d6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:23 +0000
Subject: [PATCH 26/29] fix: task_scheduler is left stopped when start() cannot
 create its thread

---
 sdk/src/task_scheduler.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 0f942c3..bd2e93b 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -41,7 +41,7 @@ bool task_scheduler::start(const unsigned int num_threads)
     std::promise<void> thread_started_notifier;
     std::future<void> thread_started_watcher = thread_started_notifier.get_future();
 
-    _scheduler_thread = std::thread([this, &thread_started_notifier] {
+    const auto scheduler_loop = [this, &thread_started_notifier] {
         thread_started_notifier.set_value();
 
         std::unique_lock lock(_update_tasks_mtx);
@@ -67,7 +67,24 @@ bool task_scheduler::start(const unsigned int num_threads)
 
             update_tasks();
         }
-    });
+    };
+
+    try
+    {
+        _scheduler_thread = std::thread(scheduler_loop);
+    }
+    catch (...)
+    {
+        // Without its thread the scheduler is not started.
+        {
+            std::scoped_lock lock(_update_tasks_mtx);
+            _is_accepting_tasks = false;
+            _tasks.clear();
+        }
+
+        _tp.stop();
+        throw;
+    }
 
     thread_started_watcher.wait();
 
-- 
2.43.0


From 70ef540acf0996b55e85b8760773412e34a02b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:50 +0000
Subject: [PATCH 27/29] fix: a text with an hour of 24 and its hour of 12 after
 noon is accepted

---
 sdk/src/datetime/date.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/src/datetime/date.h b/sdk/src/datetime/date.h
index af33e88..daf84fe 100644
--- a/sdk/src/datetime/date.h
+++ b/sdk/src/datetime/date.h
@@ -7709,7 +7709,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                             if (H != 0 && H != 12)
                                 goto broken;
                         }
-                        else if (!(I == H || I == H + 12))
+                        else if (!(H == I || H == I + 12))
                         {
                             goto broken;
                         }
-- 
2.43.0


From 5ab3d728f51ef44d6748ac4f1b57723537003f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:26 +0000
Subject: [PATCH 28/29] fix: datetime::from_string rejects an instant the clock
 cannot hold

---
 sdk/src/datetime/datetime.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/sdk/src/datetime/datetime.cpp b/sdk/src/datetime/datetime.cpp
index 556de93..8f5f784 100644
--- a/sdk/src/datetime/datetime.cpp
+++ b/sdk/src/datetime/datetime.cpp
@@ -37,13 +37,25 @@ template std::string datetime::to_string<std::chrono::nanoseconds>(const std::st
 template <class DurationT>
 tc::sdk::datetime tc::sdk::datetime::from_string(const std::string& str, const std::string& format) noexcept(false)
 {
-    std::chrono::sys_time<DurationT> parsed_time;
+    using std::chrono::system_clock;
+
+    ::date::fields<DurationT> parsed_fields{};
+    parsed_fields.has_tod = true;
+    std::chrono::minutes offset{};
     std::stringstream ss{str};
-    ss >> ::date::parse(format, parsed_time);
-    if (ss.fail())
+    ::date::from_stream(ss, format.c_str(), parsed_fields, static_cast<std::string*>(nullptr), &offset);
+    if (ss.fail() || !parsed_fields.ymd.ok() || !parsed_fields.tod.in_conventional_range())
+        throw std::runtime_error("Failed to parse " + str);
+
+    // The clock holds a few centuries around its epoch only: what lies beyond would overflow.
+    const auto time_of_day = parsed_fields.tod.to_duration();
+    const auto whole_seconds = std::chrono::floor<std::chrono::seconds>(time_of_day);
+    const std::chrono::sys_seconds parsed_seconds = ::date::sys_days(parsed_fields.ymd) - offset + whole_seconds;
+    if (parsed_seconds < std::chrono::sys_seconds(std::chrono::ceil<std::chrono::seconds>(system_clock::time_point::min())) ||
+        parsed_seconds >= std::chrono::sys_seconds(std::chrono::floor<std::chrono::seconds>(system_clock::time_point::max())))
         throw std::runtime_error("Failed to parse " + str);
 
-    return tc::sdk::datetime(parsed_time);
+    return tc::sdk::datetime(std::chrono::sys_time<DurationT>(parsed_seconds) + (time_of_day - whole_seconds));
 }
 
 template tc::sdk::datetime datetime::from_string<std::chrono::seconds>(const std::string& str, const std::string& format) noexcept(false);
-- 
2.43.0


From 65269e326ced8213353aa64acc1ac436598374fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:58:46 +0000
Subject: [PATCH 29/29] fix: the century deduced from a two digit year does not
 apply to the ISO year

---
 sdk/src/datetime/date.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdk/src/datetime/date.h b/sdk/src/datetime/date.h
index daf84fe..9d8e370 100644
--- a/sdk/src/datetime/date.h
+++ b/sdk/src/datetime/date.h
@@ -7505,6 +7505,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
         }
         if (!is.fail())
         {
+            bool C_is_deduced = false;
             if (y != not_a_2digit_year)
             {
                 // Convert y and an optional C to Y
@@ -7514,6 +7515,8 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                 {
                     if (Y == not_a_year)
                     {
+                        // The ISO year of g can belong to another century
+                        C_is_deduced = true;
                         if (y >= 69)
                             C = 19;
                         else
@@ -7538,7 +7541,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                 // Convert g and an optional C to G
                 if (!(0 <= g && g <= 99))
                     goto broken;
-                if (C == not_a_century)
+                if (C == not_a_century || C_is_deduced)
                 {
                     if (G == not_a_year)
                     {
-- 
2.43.0

