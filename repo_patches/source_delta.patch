From d4783b5f05d87f437fc4349a1cfc2f23ffa4b481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:18 +0000
Subject: [PATCH 1/5] fix: reload the value after registering as a waiter in
 lock pool timed waits

Timed waits emulated with the lock pool compared the value loaded before the
wait state was registered under the lock. A change of the value followed by a
notification that fell between that load and the registration was missed, and
the wait blocked until its deadline. Reload the value once the lock is held,
as the untimed wait does.
---
 include/boost/atomic/detail/wait_ops_generic.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/atomic/detail/wait_ops_generic.hpp b/include/boost/atomic/detail/wait_ops_generic.hpp
index 7503d5c..916373c 100644
--- a/include/boost/atomic/detail/wait_ops_generic.hpp
+++ b/include/boost/atomic/detail/wait_ops_generic.hpp
@@ -93,6 +93,7 @@ private:
         if (new_val == old_val)
         {
             scoped_wait_state wait_state(&storage);
+            new_val = base_type::load(storage, order);
             while (new_val == old_val)
             {
                 const std::chrono::nanoseconds nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now);
@@ -128,6 +129,7 @@ private:
         if (new_val == old_val)
         {
             scoped_wait_state wait_state(&storage);
+            new_val = base_type::load(storage, order);
             const timespec abs_timeout(posix_clock_traits< Clock >::to_timespec(timeout));
             if (BOOST_LIKELY(abs_timeout.tv_sec >= 0))
             {
-- 
2.43.0


From d53a979a4321ca6379b12b44a40fbac0087bcf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:38 +0000
Subject: [PATCH 2/5] fix: round negative durations up in the pre-C++17
 chrono::ceil

The fallback added one unit whenever the division left a remainder. Division truncates towards zero, so a
negative, inexact duration was rounded to one unit more than its ceiling, and a timed wait with a clock finer
than nanoseconds went back to sleep after its deadline had been reached.
---
 include/boost/atomic/detail/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/atomic/detail/chrono.hpp b/include/boost/atomic/detail/chrono.hpp
index 154722f..15f9bb7 100644
--- a/include/boost/atomic/detail/chrono.hpp
+++ b/include/boost/atomic/detail/chrono.hpp
@@ -47,7 +47,7 @@ inline constexpr To ceil(std::chrono::duration< Rep, Period > from) noexcept
     using conv_ratio = std::ratio_divide< Period, typename To::period >;
     using common_rep = typename std::common_type< Rep, typename To::rep, decltype(conv_ratio::num) >::type;
     return To(static_cast< typename To::rep >((static_cast< common_rep >(from.count()) * conv_ratio::num) / conv_ratio::den +
-        static_cast< common_rep >(((static_cast< common_rep >(from.count()) * conv_ratio::num) % conv_ratio::den) != static_cast< common_rep >(0))));
+        static_cast< common_rep >(((static_cast< common_rep >(from.count()) * conv_ratio::num) % conv_ratio::den) > static_cast< common_rep >(0))));
 }
 
 #endif // defined(__cpp_lib_chrono) && (__cpp_lib_chrono >= 201510l)
-- 
2.43.0


From 53ab0dbfd3848b98c3b5aff4f089bcbe9f998bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:39 +0000
Subject: [PATCH 3/5] fix: avoid overflow in lock pool timed waits using
 pthread condition variables

Adding the current nanoseconds to a relative timeout close to the maximum overflowed, the resulting timespec was
invalid, and pthread_cond_timedwait failed with EINVAL without releasing the mutex: the waiter kept spinning with
the lock held, and no notification could get through. This happened, for example, when waiting until
time_point::max() of a clock that counts from the start of the process.
---
 src/lock_pool.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lock_pool.cpp b/src/lock_pool.cpp
index fe477e3..0eec1af 100644
--- a/src/lock_pool.cpp
+++ b/src/lock_pool.cpp
@@ -490,8 +490,9 @@ inline bool wait_state::wait_for(lock_state& state, std::chrono::nanoseconds rel
     timespec ts{};
     BOOST_VERIFY(clock_gettime(m_clock_id, &ts) == 0);
 
-    std::chrono::nanoseconds::rep nsec = rel_timeout.count() + ts.tv_nsec;
-    std::chrono::nanoseconds::rep sec = static_cast< std::chrono::nanoseconds::rep >(ts.tv_sec) + nsec / 1000000000;
+    // Note: The timeout may be close to the limits of its type, so convert it to seconds before adding the current time
+    std::chrono::nanoseconds::rep nsec = rel_timeout.count() % 1000000000 + ts.tv_nsec;
+    std::chrono::nanoseconds::rep sec = static_cast< std::chrono::nanoseconds::rep >(ts.tv_sec) + rel_timeout.count() / 1000000000 + nsec / 1000000000;
     if (BOOST_LIKELY(sec <= (std::numeric_limits< decltype(ts.tv_sec) >::max)()))
     {
         ts.tv_sec = static_cast< decltype(ts.tv_sec) >(sec);
-- 
2.43.0


From a287bc5fca7578d600a2ab8ddfdf4d2071859447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:53 +0000
Subject: [PATCH 4/5] fix: avoid overflow of the deadline in wait_for with very
 long timeouts

---
 include/boost/atomic/detail/chrono.hpp                 | 10 ++++++++++
 include/boost/atomic/detail/wait_ops_darwin_ulock.hpp  |  2 +-
 .../boost/atomic/detail/wait_ops_dragonfly_umtx.hpp    |  2 +-
 include/boost/atomic/detail/wait_ops_emulated.hpp      |  2 +-
 include/boost/atomic/detail/wait_ops_freebsd_umtx.hpp  |  9 +++++----
 include/boost/atomic/detail/wait_ops_futex.hpp         |  7 ++++---
 include/boost/atomic/detail/wait_ops_generic.hpp       |  4 ++--
 include/boost/atomic/detail/wait_ops_windows.hpp       |  2 +-
 8 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/include/boost/atomic/detail/chrono.hpp b/include/boost/atomic/detail/chrono.hpp
index 15f9bb7..dce9aa2 100644
--- a/include/boost/atomic/detail/chrono.hpp
+++ b/include/boost/atomic/detail/chrono.hpp
@@ -52,6 +52,16 @@ inline constexpr To ceil(std::chrono::duration< Rep, Period > from) noexcept
 
 #endif // defined(__cpp_lib_chrono) && (__cpp_lib_chrono >= 201510l)
 
+//! Returns the time point that is `timeout` past `now`, or the latest representable time point if that one is not representable
+template< typename Clock, typename Rep, typename Period >
+inline typename Clock::time_point get_deadline(typename Clock::time_point now, std::chrono::duration< Rep, Period > timeout) noexcept
+{
+    if (timeout.count() > 0 && timeout > (Clock::time_point::max)() - now)
+        return (Clock::time_point::max)();
+
+    return now + timeout;
+}
+
 } // namespace chrono
 } // namespace detail
 
diff --git a/include/boost/atomic/detail/wait_ops_darwin_ulock.hpp b/include/boost/atomic/detail/wait_ops_darwin_ulock.hpp
index ae24b5a..e43c011 100644
--- a/include/boost/atomic/detail/wait_ops_darwin_ulock.hpp
+++ b/include/boost/atomic/detail/wait_ops_darwin_ulock.hpp
@@ -164,7 +164,7 @@ public:
     ) noexcept
     {
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, now + timeout, now, order, timed_out);
+        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::get_deadline< std::chrono::steady_clock >(now, timeout), now, order, timed_out);
     }
 
     static BOOST_FORCEINLINE void notify_one(storage_type volatile& storage) noexcept
diff --git a/include/boost/atomic/detail/wait_ops_dragonfly_umtx.hpp b/include/boost/atomic/detail/wait_ops_dragonfly_umtx.hpp
index 8035dcd..2017c9f 100644
--- a/include/boost/atomic/detail/wait_ops_dragonfly_umtx.hpp
+++ b/include/boost/atomic/detail/wait_ops_dragonfly_umtx.hpp
@@ -121,7 +121,7 @@ public:
     ) noexcept
     {
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, now + timeout, now, order, timed_out);
+        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::get_deadline< std::chrono::steady_clock >(now, timeout), now, order, timed_out);
     }
 
     static BOOST_FORCEINLINE void notify_one(storage_type volatile& storage) noexcept
diff --git a/include/boost/atomic/detail/wait_ops_emulated.hpp b/include/boost/atomic/detail/wait_ops_emulated.hpp
index 6f12f3a..3218ab8 100644
--- a/include/boost/atomic/detail/wait_ops_emulated.hpp
+++ b/include/boost/atomic/detail/wait_ops_emulated.hpp
@@ -208,7 +208,7 @@ public:
     {
         static_assert(!base_type::is_interprocess, "Boost.Atomic: operation invoked on a non-lock-free inter-process atomic object");
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, now + timeout, now, timed_out);
+        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::get_deadline< std::chrono::steady_clock >(now, timeout), now, timed_out);
     }
 
     static void notify_one(storage_type volatile& storage) noexcept
diff --git a/include/boost/atomic/detail/wait_ops_freebsd_umtx.hpp b/include/boost/atomic/detail/wait_ops_freebsd_umtx.hpp
index 12e3757..3ac35e8 100644
--- a/include/boost/atomic/detail/wait_ops_freebsd_umtx.hpp
+++ b/include/boost/atomic/detail/wait_ops_freebsd_umtx.hpp
@@ -255,8 +255,9 @@ public:
             _umtx_time umt{};
             if (BOOST_LIKELY(clock_gettime(CLOCK_MONOTONIC, &umt._timeout) == 0))
             {
-                const std::int64_t nsec = static_cast< std::int64_t >(umt._timeout.tv_nsec) + atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout).count();
-                const std::int64_t sec = static_cast< std::int64_t >(umt._timeout.tv_sec) + nsec / 1000000000;
+                const std::int64_t timeout_nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout).count();
+                const std::int64_t nsec = static_cast< std::int64_t >(umt._timeout.tv_nsec) + timeout_nsec % 1000000000;
+                const std::int64_t sec = static_cast< std::int64_t >(umt._timeout.tv_sec) + timeout_nsec / 1000000000 + nsec / 1000000000;
                 if (BOOST_LIKELY(sec <= (std::numeric_limits< decltype(timespec::tv_sec) >::max)()))
                 {
                     umt._timeout.tv_sec = static_cast< decltype(umt._timeout.tv_sec) >(sec);
@@ -269,7 +270,7 @@ public:
         }
 
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, now + timeout, now, order, timed_out);
+        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::get_deadline< std::chrono::steady_clock >(now, timeout), now, order, timed_out);
     }
 
 #else // defined(UMTX_ABSTIME)
@@ -343,7 +344,7 @@ public:
     ) noexcept
     {
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, now + timeout, now, order, timed_out);
+        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::get_deadline< std::chrono::steady_clock >(now, timeout), now, order, timed_out);
     }
 
 #endif // defined(UMTX_ABSTIME)
diff --git a/include/boost/atomic/detail/wait_ops_futex.hpp b/include/boost/atomic/detail/wait_ops_futex.hpp
index 5db7e88..94eaf40 100644
--- a/include/boost/atomic/detail/wait_ops_futex.hpp
+++ b/include/boost/atomic/detail/wait_ops_futex.hpp
@@ -294,8 +294,9 @@ public:
             timespec now{};
             if (BOOST_LIKELY(clock_gettime(CLOCK_MONOTONIC, &now) == 0))
             {
-                const std::int64_t nsec = static_cast< std::int64_t >(now.tv_nsec) + atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout).count();
-                const std::int64_t sec = static_cast< std::int64_t >(now.tv_sec) + nsec / 1000000000;
+                const std::int64_t timeout_nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout).count();
+                const std::int64_t nsec = static_cast< std::int64_t >(now.tv_nsec) + timeout_nsec % 1000000000;
+                const std::int64_t sec = static_cast< std::int64_t >(now.tv_sec) + timeout_nsec / 1000000000 + nsec / 1000000000;
                 if (BOOST_LIKELY(sec <= (std::numeric_limits< decltype(futex_timespec::tv_sec) >::max)()))
                 {
                     futex_timespec ts{};
@@ -331,7 +332,7 @@ public:
 #endif // defined(BOOST_ATOMIC_DETAIL_FUTEX_WAIT_BITSET) && defined(_POSIX_MONOTONIC_CLOCK) && (_POSIX_MONOTONIC_CLOCK >= 0)
 
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, now + timeout, now, order, timed_out);
+        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::get_deadline< std::chrono::steady_clock >(now, timeout), now, order, timed_out);
     }
 
     static BOOST_FORCEINLINE void notify_one(storage_type volatile& storage) noexcept
diff --git a/include/boost/atomic/detail/wait_ops_generic.hpp b/include/boost/atomic/detail/wait_ops_generic.hpp
index 916373c..20761b8 100644
--- a/include/boost/atomic/detail/wait_ops_generic.hpp
+++ b/include/boost/atomic/detail/wait_ops_generic.hpp
@@ -224,7 +224,7 @@ public:
     ) noexcept
     {
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, now + timeout, now, order, timed_out);
+        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::get_deadline< std::chrono::steady_clock >(now, timeout), now, order, timed_out);
     }
 
     static BOOST_FORCEINLINE void notify_one(storage_type volatile& storage) noexcept
@@ -358,7 +358,7 @@ public:
     ) noexcept
     {
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, now + timeout, now, order, timed_out);
+        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::get_deadline< std::chrono::steady_clock >(now, timeout), now, order, timed_out);
     }
 
     static BOOST_FORCEINLINE void notify_one(storage_type volatile&) noexcept
diff --git a/include/boost/atomic/detail/wait_ops_windows.hpp b/include/boost/atomic/detail/wait_ops_windows.hpp
index 1c20940..2055950 100644
--- a/include/boost/atomic/detail/wait_ops_windows.hpp
+++ b/include/boost/atomic/detail/wait_ops_windows.hpp
@@ -133,7 +133,7 @@ public:
     ) noexcept
     {
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, now + timeout, now, order, timed_out);
+        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::get_deadline< std::chrono::steady_clock >(now, timeout), now, order, timed_out);
     }
 
     static BOOST_FORCEINLINE void notify_one(storage_type volatile& storage) noexcept
-- 
2.43.0


From e56c5e844df3345db4923d5bc3cc190d63c5b48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:01 +0000
Subject: [PATCH 5/5] fix: time out at once if the timeout of a timed wait is
 far in the past

---
 .../boost/atomic/detail/wait_ops_darwin_ulock.hpp   | 13 +++++++------
 .../boost/atomic/detail/wait_ops_dragonfly_umtx.hpp |  5 +++--
 include/boost/atomic/detail/wait_ops_emulated.hpp   |  5 +++--
 .../boost/atomic/detail/wait_ops_freebsd_umtx.hpp   | 10 ++++++----
 include/boost/atomic/detail/wait_ops_futex.hpp      |  5 +++--
 include/boost/atomic/detail/wait_ops_generic.hpp    |  9 +++++----
 include/boost/atomic/detail/wait_ops_windows.hpp    |  5 +++--
 7 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/include/boost/atomic/detail/wait_ops_darwin_ulock.hpp b/include/boost/atomic/detail/wait_ops_darwin_ulock.hpp
index e43c011..8e910b0 100644
--- a/include/boost/atomic/detail/wait_ops_darwin_ulock.hpp
+++ b/include/boost/atomic/detail/wait_ops_darwin_ulock.hpp
@@ -110,17 +110,18 @@ private:
         storage_type new_val = base_type::load(storage, order);
         while (new_val == old_val)
         {
-#if defined(BOOST_ATOMIC_DETAIL_HAS_DARWIN_ULOCK_WAIT2)
-            const std::int64_t rel_timeout = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now).count();
-#else
-            const std::int64_t rel_timeout = atomics::detail::chrono::ceil< std::chrono::microseconds >(timeout - now).count();
-#endif
-            if (rel_timeout <= 0)
+            // Compare before subtracting as the difference may overflow if the timeout is far in the past
+            if (timeout <= now)
             {
                 timed_out = true;
                 break;
             }
 
+#if defined(BOOST_ATOMIC_DETAIL_HAS_DARWIN_ULOCK_WAIT2)
+            const std::int64_t rel_timeout = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now).count();
+#else
+            const std::int64_t rel_timeout = atomics::detail::chrono::ceil< std::chrono::microseconds >(timeout - now).count();
+#endif
 #if defined(BOOST_ATOMIC_DETAIL_HAS_DARWIN_ULOCK_WAIT2)
             __ulock_wait2(Opcode | ulock_flag_no_errno, const_cast< storage_type* >(&storage), old_val, static_cast< std::uint64_t >(rel_timeout), 0u);
 #else
diff --git a/include/boost/atomic/detail/wait_ops_dragonfly_umtx.hpp b/include/boost/atomic/detail/wait_ops_dragonfly_umtx.hpp
index 2017c9f..e9f23b2 100644
--- a/include/boost/atomic/detail/wait_ops_dragonfly_umtx.hpp
+++ b/include/boost/atomic/detail/wait_ops_dragonfly_umtx.hpp
@@ -75,13 +75,14 @@ private:
         storage_type new_val = base_type::load(storage, order);
         while (new_val == old_val)
         {
-            const std::int64_t usec = atomics::detail::chrono::ceil< std::chrono::microseconds >(timeout - now).count();
-            if (usec <= 0)
+            // Compare before subtracting as the difference may overflow if the timeout is far in the past
+            if (timeout <= now)
             {
                 timed_out = true;
                 break;
             }
 
+            const std::int64_t usec = atomics::detail::chrono::ceil< std::chrono::microseconds >(timeout - now).count();
             umtx_sleep
             (
                 reinterpret_cast< int* >(const_cast< storage_type* >(&storage)),
diff --git a/include/boost/atomic/detail/wait_ops_emulated.hpp b/include/boost/atomic/detail/wait_ops_emulated.hpp
index 3218ab8..d0b99c9 100644
--- a/include/boost/atomic/detail/wait_ops_emulated.hpp
+++ b/include/boost/atomic/detail/wait_ops_emulated.hpp
@@ -85,13 +85,14 @@ private:
         storage_type new_val = s;
         while (new_val == old_val)
         {
-            const std::chrono::nanoseconds nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now);
-            if (nsec.count() <= 0)
+            // Compare before subtracting as the difference may overflow if the timeout is far in the past
+            if (timeout <= now)
             {
                 timed_out = true;
                 break;
             }
 
+            const std::chrono::nanoseconds nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now);
             wait_state.wait_for(nsec);
 
             now = Clock::now();
diff --git a/include/boost/atomic/detail/wait_ops_freebsd_umtx.hpp b/include/boost/atomic/detail/wait_ops_freebsd_umtx.hpp
index 3ac35e8..7ac2515 100644
--- a/include/boost/atomic/detail/wait_ops_freebsd_umtx.hpp
+++ b/include/boost/atomic/detail/wait_ops_freebsd_umtx.hpp
@@ -112,13 +112,14 @@ private:
         storage_type new_val = base_type::load(storage, order);
         while (new_val == old_val)
         {
-            const std::int64_t nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now).count();
-            if (nsec <= 0)
+            // Compare before subtracting as the difference may overflow if the timeout is far in the past
+            if (timeout <= now)
             {
                 timed_out = true;
                 break;
             }
 
+            const std::int64_t nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now).count();
             const std::int64_t sec = nsec / 1000000000;
             if (BOOST_LIKELY(sec <= (std::numeric_limits< decltype(umt._timeout.tv_sec) >::max)()))
             {
@@ -291,13 +292,14 @@ private:
         storage_type new_val = base_type::load(storage, order);
         while (new_val == old_val)
         {
-            const std::int64_t nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now).count();
-            if (nsec <= 0)
+            // Compare before subtracting as the difference may overflow if the timeout is far in the past
+            if (timeout <= now)
             {
                 timed_out = true;
                 break;
             }
 
+            const std::int64_t nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now).count();
             const std::int64_t sec = nsec / 1000000000;
             if (BOOST_LIKELY(sec <= (std::numeric_limits< decltype(ts.tv_sec) >::max)()))
             {
diff --git a/include/boost/atomic/detail/wait_ops_futex.hpp b/include/boost/atomic/detail/wait_ops_futex.hpp
index 94eaf40..5e06f29 100644
--- a/include/boost/atomic/detail/wait_ops_futex.hpp
+++ b/include/boost/atomic/detail/wait_ops_futex.hpp
@@ -140,13 +140,14 @@ private:
         storage_type new_val = base_type::load(storage, order);
         while (new_val == old_val)
         {
-            const std::int64_t nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now).count();
-            if (nsec <= 0)
+            // Compare before subtracting as the difference may overflow if the timeout is far in the past
+            if (timeout <= now)
             {
                 timed_out = true;
                 break;
             }
 
+            const std::int64_t nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now).count();
             const std::int64_t sec = nsec / 1000000000;
             if (BOOST_LIKELY(sec <= (std::numeric_limits< decltype(ts.tv_sec) >::max)()))
             {
diff --git a/include/boost/atomic/detail/wait_ops_generic.hpp b/include/boost/atomic/detail/wait_ops_generic.hpp
index 20761b8..f20518d 100644
--- a/include/boost/atomic/detail/wait_ops_generic.hpp
+++ b/include/boost/atomic/detail/wait_ops_generic.hpp
@@ -96,13 +96,14 @@ private:
             new_val = base_type::load(storage, order);
             while (new_val == old_val)
             {
-                const std::chrono::nanoseconds nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now);
-                if (nsec.count() <= 0)
+                // Compare before subtracting as the difference may overflow if the timeout is far in the past
+                if (timeout <= now)
                 {
                     timed_out = true;
                     break;
                 }
 
+                const std::chrono::nanoseconds nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now);
                 wait_state.wait_for(nsec);
 
                 now = Clock::now();
@@ -300,7 +301,7 @@ private:
         {
             for (unsigned int i = 0u; i < fast_loop_count; ++i)
             {
-                if ((now - timeout).count() >= 0)
+                if (now >= timeout)
                 {
                     timed_out = true;
                     goto finish;
@@ -316,7 +317,7 @@ private:
 
             do
             {
-                if ((now - timeout).count() >= 0)
+                if (now >= timeout)
                 {
                     timed_out = true;
                     goto finish;
diff --git a/include/boost/atomic/detail/wait_ops_windows.hpp b/include/boost/atomic/detail/wait_ops_windows.hpp
index 2055950..446cab0 100644
--- a/include/boost/atomic/detail/wait_ops_windows.hpp
+++ b/include/boost/atomic/detail/wait_ops_windows.hpp
@@ -85,13 +85,14 @@ private:
         storage_type new_val = base_type::load(storage, order);
         while (new_val == old_val)
         {
-            const std::int64_t msec = atomics::detail::chrono::ceil< std::chrono::milliseconds >(timeout - now).count();
-            if (msec <= 0)
+            // Compare before subtracting as the difference may overflow if the timeout is far in the past
+            if (timeout <= now)
             {
                 timed_out = true;
                 break;
             }
 
+            const std::int64_t msec = atomics::detail::chrono::ceil< std::chrono::milliseconds >(timeout - now).count();
             boost::winapi::WaitOnAddress
             (
                 const_cast< storage_type* >(&storage),
-- 
2.43.0

