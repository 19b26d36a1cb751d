From 0285093f623d68c528729f3f9432af2c3893ec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:53 +0000
Subject: [PATCH 01/23] fix: keep exceptions from escaping
 ctrace_stacktrace_to_string and ctrace_demangle

---
 src/ctrace.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/ctrace.cpp b/src/ctrace.cpp
index a81841f..be96491 100644
--- a/src/ctrace.cpp
+++ b/src/ctrace.cpp
@@ -319,9 +319,14 @@ extern "C" {
         if(!trace || !trace->frames) {
             return ctrace::generate_owning_string("<empty trace>");
         }
-        auto cpp_trace = ctrace::cpp_convert(trace);
-        std::string trace_string = cpp_trace.to_string(bool(use_color));
-        return ctrace::generate_owning_string(trace_string);
+        try {
+            auto cpp_trace = ctrace::cpp_convert(trace);
+            std::string trace_string = cpp_trace.to_string(bool(use_color));
+            return ctrace::generate_owning_string(trace_string);
+        } catch(...) { // NOSONAR
+            // Don't check rethrow condition, it's risky.
+            return { nullptr };
+        }
     }
 
     void ctrace_print_stacktrace(const ctrace_stacktrace* trace, FILE* to, ctrace_bool use_color) {
@@ -396,8 +401,13 @@ extern "C" {
         if(!mangled) {
             return ctrace::generate_owning_string("");
         }
-        std::string demangled = cpptrace::demangle(mangled);
-        return ctrace::generate_owning_string(demangled);
+        try {
+            std::string demangled = cpptrace::demangle(mangled);
+            return ctrace::generate_owning_string(demangled);
+        } catch(...) { // NOSONAR
+            // Don't check rethrow condition, it's risky.
+            return { nullptr };
+        }
     }
 
     // utility::io
-- 
2.43.0


From 0cb6f73bc0acde55e3d82feba6d8a734faf5c13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:53 +0000
Subject: [PATCH 02/23] fix: return a null string from the C API when its
 allocation fails instead of terminating

---
 src/ctrace.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ctrace.cpp b/src/ctrace.cpp
index be96491..e321980 100644
--- a/src/ctrace.cpp
+++ b/src/ctrace.cpp
@@ -1,6 +1,7 @@
 #include <ctrace/ctrace.h>
 #include <cpptrace/cpptrace.hpp>
 #include <algorithm>
+#include <new>
 
 #include "symbols/symbols.hpp"
 #include "unwind/unwind.hpp"
@@ -69,7 +70,10 @@ CTRACE_FORMAT_EPILOGUE
 
     static ctrace_owning_string generate_owning_string(cpptrace::detail::string_view raw_string) noexcept {
         // Returns length to the null terminator.
-        char* new_string = new char[raw_string.size() + 1];
+        char* new_string = new (std::nothrow) char[raw_string.size() + 1];
+        if(!new_string) {
+            return { nullptr };
+        }
         std::char_traits<char>::copy(new_string, raw_string.data(), raw_string.size());
         new_string[raw_string.size()] = '\0';
         return { new_string };
-- 
2.43.0


From 0e429385f4e6e4a397f20514319f03ffa88ab29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 03/23] fix: tolerate null traces, frames and strings
 throughout the C API

---
 src/ctrace.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ctrace.cpp b/src/ctrace.cpp
index e321980..2e92381 100644
--- a/src/ctrace.cpp
+++ b/src/ctrace.cpp
@@ -120,8 +120,8 @@ CTRACE_FORMAT_EPILOGUE
         new_frame.object_address = frame.object_address;
         new_frame.line      = nullable_type{is_empty(frame.line)   ? null_v : frame.line};
         new_frame.column    = nullable_type{is_empty(frame.column) ? null_v : frame.column};
-        new_frame.filename  = frame.filename;
-        new_frame.symbol    = frame.symbol;
+        new_frame.filename  = frame.filename ? frame.filename : "";
+        new_frame.symbol    = frame.symbol ? frame.symbol : "";
         new_frame.is_inline = bool(frame.is_inline);
         return new_frame;
     }
@@ -153,7 +153,7 @@ CTRACE_FORMAT_EPILOGUE
 extern "C" {
     // ctrace::string
     ctrace_owning_string ctrace_generate_owning_string(const char* raw_string) {
-        return ctrace::generate_owning_string(raw_string);
+        return ctrace::generate_owning_string(raw_string ? raw_string : "");
     }
 
     void ctrace_free_owning_string(ctrace_owning_string* string) {
@@ -343,7 +343,7 @@ extern "C" {
             cpptrace::detail::enable_virtual_terminal_processing_if_needed();
         }
         ctrace::ffprintf(to, "Stack trace (most recent call first):\n");
-        if(trace->count == 0 || !trace->frames) {
+        if(!trace || trace->count == 0 || !trace->frames) {
             ctrace::ffprintf(to, "<empty trace>\n");
             return;
         }
@@ -446,6 +446,9 @@ extern "C" {
     }
 
     ctrace_object_frame ctrace_get_object_info(const ctrace_stacktrace_frame* frame) {
+        if(!frame) {
+            return {0, 0, nullptr};
+        }
         try {
             cpptrace::object_frame new_frame = cpptrace::detail::get_frame_object_info(frame->raw_address);
             return ctrace::convert_object_frame(new_frame);
-- 
2.43.0


From d7f8129fb77d785ad3c147672a87b0a26e8ac05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:22 +0000
Subject: [PATCH 04/23] fix: synchronise replacement of the log callback with
 logging

---
 src/logging.cpp | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/logging.cpp b/src/logging.cpp
index 98045ef..c456cf8 100644
--- a/src/logging.cpp
+++ b/src/logging.cpp
@@ -4,27 +4,53 @@
 #include <cpptrace/utils.hpp>
 
 #include <atomic>
+#include <memory>
+#include <mutex>
 
 CPPTRACE_BEGIN_NAMESPACE
 namespace detail {
     std::atomic<log_level> current_log_level(log_level::warning); // NOSONAR
 
-    void default_null_logger(log_level, const char*) {}
-
     void default_stderr_logger(log_level level, const char* message) {
         microfmt::print(std::cerr, "[cpptrace {}] {}\n", to_string(level), message);
     }
 
-    std::function<void(log_level, const char*)>& log_callback() {
-        static std::function<void(log_level, const char*)> callback{default_null_logger};
-        return callback;
+    using log_callback_type = std::function<void(log_level, const char*)>;
+
+    // The callback may be replaced while other threads are logging
+    struct log_callback_holder {
+        std::mutex mutex;
+        std::shared_ptr<const log_callback_type> callback; // null is the default null logger
+    };
+
+    log_callback_holder& get_log_callback_holder() {
+        static log_callback_holder holder;
+        return holder;
+    }
+
+    std::shared_ptr<const log_callback_type> get_log_callback() {
+        auto& holder = get_log_callback_holder();
+        std::lock_guard<std::mutex> lock(holder.mutex);
+        return holder.callback;
+    }
+
+    void replace_log_callback(log_callback_type callback) {
+        auto& holder = get_log_callback_holder();
+        // declared before the lock so that the old callback is destroyed after the lock is released
+        std::shared_ptr<const log_callback_type> new_callback
+            = std::make_shared<log_callback_type>(std::move(callback));
+        std::lock_guard<std::mutex> lock(holder.mutex);
+        holder.callback.swap(new_callback);
     }
 
     void do_log(log_level level, const char* message) {
         if(level < current_log_level) {
             return;
         }
-        log_callback()(level, message);
+        auto callback = get_log_callback();
+        if(callback) {
+            (*callback)(level, message);
+        }
     }
 
     namespace log {
@@ -53,11 +79,11 @@ CPPTRACE_BEGIN_NAMESPACE
     }
 
     void set_log_callback(std::function<void(log_level, const char*)> callback) {
-        detail::log_callback() = std::move(callback);
+        detail::replace_log_callback(std::move(callback));
     }
 
     void use_default_stderr_logger() {
-        detail::log_callback() = detail::default_stderr_logger;
+        detail::replace_log_callback(detail::default_stderr_logger);
     }
 
     const char* to_string(log_level level) {
-- 
2.43.0


From 404a505686b267660144260ee601da2866eed203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:22 +0000
Subject: [PATCH 05/23] fix: query current page protections instead of a stale,
 unsynchronised snapshot

---
 src/platform/memory_mapping.cpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/platform/memory_mapping.cpp b/src/platform/memory_mapping.cpp
index e0b092a..b17866c 100644
--- a/src/platform/memory_mapping.cpp
+++ b/src/platform/memory_mapping.cpp
@@ -208,20 +208,13 @@ namespace detail {
         throw internal_error("Couldn't successfully load /proc/self/maps after {} retries", n);
     }
 
-    const std::vector<address_range>& load_mapped_region_info() {
-        static std::vector<address_range> regions;
-        static bool has_loaded = false;
-        if(!has_loaded) {
-            has_loaded = true;
-            if(auto info = try_load_mapped_region_info_with_retries(2)) {
-                regions = std::move(info).unwrap();
-            }
-        }
-        return regions;
+    // The mappings and their protections can change at any time, so this can't be cached between queries
+    std::vector<address_range> load_mapped_region_info() {
+        return try_load_mapped_region_info_with_retries(2).unwrap();
     }
 
     int get_page_protections(void* page) {
-        const auto& mapped_region_info = load_mapped_region_info();
+        const auto mapped_region_info = load_mapped_region_info();
         auto it = first_less_than_or_equal(
             mapped_region_info.begin(),
             mapped_region_info.end(),
@@ -230,7 +223,7 @@ namespace detail {
                 return a < b.low;
             }
         );
-        if(it == mapped_region_info.end()) {
+        if(it == mapped_region_info.end() || reinterpret_cast<uintptr_t>(page) >= it->high) {
             throw internal_error(
                 "Failed to find mapping for {>16:0h} in /proc/self/maps",
                 reinterpret_cast<uintptr_t>(page)
-- 
2.43.0


From da5cd815d04cec7525cb3a8d68b66c56c24a3ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:47 +0000
Subject: [PATCH 06/23] fix: synchronise access to the jit object lists

---
 src/jit/jit_objects.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/jit/jit_objects.cpp b/src/jit/jit_objects.cpp
index 8488bab..ae81074 100644
--- a/src/jit/jit_objects.cpp
+++ b/src/jit/jit_objects.cpp
@@ -11,6 +11,8 @@
 #include <iostream>
 #include <fstream>
 #include <map>
+#include <memory>
+#include <mutex>
 #include <vector>
 
 CPPTRACE_BEGIN_NAMESPACE
@@ -35,6 +37,9 @@ namespace detail {
         // TODO: Maybe use a set...
         std::vector<range_entry> range_list;
 
+        // Objects can be registered, unregistered, and looked up from any thread
+        mutable std::mutex mutex;
+
     public:
         void add_jit_object(cbspan object) {
             auto object_res = jit_object_type::open(object);
@@ -44,8 +49,8 @@ namespace detail {
                 }
                 return;
             }
-            objects.push_back({object.data(), make_unique<jit_object_type>(std::move(object_res).unwrap_value())});
-            auto* object_file = objects.back().object.get();
+            auto object_ptr = make_unique<jit_object_type>(std::move(object_res).unwrap_value());
+            auto* object_file = object_ptr.get();
             auto ranges_res = object_file->get_pc_ranges();
             if(ranges_res.is_error()) {
                 if(!should_absorb_trace_exceptions()) {
@@ -54,6 +59,8 @@ namespace detail {
                 return;
             }
             auto& ranges = ranges_res.unwrap_value();
+            std::lock_guard<std::mutex> lock(mutex);
+            objects.push_back({object.data(), std::move(object_ptr)});
             for(auto range : ranges) {
                 range_entry entry{range.low, range.high, object.data(), object_file};
                 // TODO: Perf
@@ -62,6 +69,7 @@ namespace detail {
         }
 
         void remove_jit_object(const char* ptr) {
+            std::lock_guard<std::mutex> lock(mutex);
             // TODO: Perf
             objects.erase(
                 std::remove_if(
@@ -82,6 +90,7 @@ namespace detail {
         }
 
         optional<jit_object_lookup_result> lookup(frame_ptr pc) const {
+            std::lock_guard<std::mutex> lock(mutex);
             auto it = first_less_than_or_equal(
                 range_list.begin(),
                 range_list.end(),
@@ -102,6 +111,7 @@ namespace detail {
         }
 
         void clear_all_jit_objects() {
+            std::lock_guard<std::mutex> lock(mutex);
             objects.clear();
             range_list.clear();
         }
-- 
2.43.0


From 1b53c479dbf84cc802a602aa3ee4ab2d9a92ee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:47 +0000
Subject: [PATCH 07/23] fix: check the page size as the comment above it
 describes

---
 src/from_current.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/from_current.cpp b/src/from_current.cpp
index c620523..4eb5e96 100644
--- a/src/from_current.cpp
+++ b/src/from_current.cpp
@@ -261,7 +261,7 @@ namespace detail {
 
         // shouldn't be anything other than 4096 but out of an abundance of caution
         auto page_size = get_page_size();
-        if(page_size <= 0 && is_positive_power_of_two(page_size)) {
+        if(page_size <= 0 || !is_positive_power_of_two(page_size)) {
             throw internal_error("getpagesize() is not a power of 2 greater than zero (was {})", page_size);
         }
         if(static_cast<size_t>(page_size) < vtable_size * sizeof(void*)) {
-- 
2.43.0


From fe5d60b61dc6686453910bb03b3e0bc8863b3f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:41 +0000
Subject: [PATCH 08/23] fix: generate an empty trace for a max_depth of zero

---
 src/unwind/unwind_with_libunwind.cpp | 3 +++
 src/unwind/unwind_with_unwind.cpp    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/unwind/unwind_with_libunwind.cpp b/src/unwind/unwind_with_libunwind.cpp
index f33a5f2..ca85884 100644
--- a/src/unwind/unwind_with_libunwind.cpp
+++ b/src/unwind/unwind_with_libunwind.cpp
@@ -18,6 +18,9 @@ namespace detail {
     std::vector<frame_ptr> capture_frames(std::size_t skip, std::size_t max_depth) {
         skip++;
         std::vector<frame_ptr> frames;
+        if(max_depth == 0) {
+            return frames;
+        }
         unw_context_t context;
         unw_cursor_t cursor;
         unw_getcontext(&context);
diff --git a/src/unwind/unwind_with_unwind.cpp b/src/unwind/unwind_with_unwind.cpp
index fddae8e..64e5085 100644
--- a/src/unwind/unwind_with_unwind.cpp
+++ b/src/unwind/unwind_with_unwind.cpp
@@ -55,6 +55,9 @@ namespace detail {
     CPPTRACE_FORCE_NO_INLINE
     std::vector<frame_ptr> capture_frames(std::size_t skip, std::size_t max_depth) {
         std::vector<frame_ptr> frames;
+        if(max_depth == 0) {
+            return frames;
+        }
         unwind_state state{skip + 1, max_depth, frames};
         _Unwind_Backtrace(unwind_callback, &state); // presumably thread-safe
         return frames;
-- 
2.43.0


From 4d640d337c06329ea003c7ed71e06533a4cfd978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:41 +0000
Subject: [PATCH 09/23] fix: handle skipping the whole stack with execinfo

---
 src/unwind/unwind_with_execinfo.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/unwind/unwind_with_execinfo.cpp b/src/unwind/unwind_with_execinfo.cpp
index ef6e205..f53dd7e 100644
--- a/src/unwind/unwind_with_execinfo.cpp
+++ b/src/unwind/unwind_with_execinfo.cpp
@@ -7,6 +7,7 @@
 #include <algorithm>
 #include <climits>
 #include <cstddef>
+#include <limits>
 #include <vector>
 
 #include <execinfo.h>
@@ -16,9 +17,18 @@ namespace detail {
     CPPTRACE_FORCE_NO_INLINE
     std::vector<frame_ptr> capture_frames(std::size_t skip, std::size_t max_depth) {
         skip++;
-        std::vector<void*> addrs(skip + std::min(hard_max_frames, max_depth), nullptr);
+        const std::size_t depth = std::min(hard_max_frames, max_depth);
+        if(skip > static_cast<std::size_t>(std::numeric_limits<int>::max()) - depth) {
+            // no stack is this deep
+            return {};
+        }
+        std::vector<void*> addrs(skip + depth, nullptr);
         // thread safe
         const int n_frames = backtrace(addrs.data(), static_cast<int>(addrs.size()));
+        if(n_frames < 0 || static_cast<std::size_t>(n_frames) <= skip) {
+            // the whole stack was skipped
+            return {};
+        }
         // I hate the copy here but it's the only way that isn't UB
         std::vector<frame_ptr> frames(n_frames - skip, 0);
         for(int i = skip; i < n_frames; i++) {
-- 
2.43.0


From b96837c583da3a19c569ba8137db67cf9e1a4581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 10/23] fix: keep CPPTRACE_WRAP's lambda from being inlined

---
 include/cpptrace/exceptions_macros.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cpptrace/exceptions_macros.hpp b/include/cpptrace/exceptions_macros.hpp
index 82f66c7..45250c8 100644
--- a/include/cpptrace/exceptions_macros.hpp
+++ b/include/cpptrace/exceptions_macros.hpp
@@ -1,6 +1,13 @@
 #ifndef CPPTRACE_EXCEPTIONS_MACROS_HPP
 #define CPPTRACE_EXCEPTIONS_MACROS_HPP
 
+// The CPPTRACE_WRAP lambda's frame is skipped, it must always be a frame of its own
+#ifdef _MSC_VER
+ #define CPPTRACE_DETAIL_WRAP_NO_INLINE
+#else
+ #define CPPTRACE_DETAIL_WRAP_NO_INLINE __attribute__((noinline))
+#endif
+
 // Exception wrapper utilities
 #define CPPTRACE_WRAP_BLOCK(statements) do { \
         try { \
@@ -10,7 +17,7 @@
         } \
     } while(0)
 
-#define CPPTRACE_WRAP(expression) [&] () -> decltype((expression)) { \
+#define CPPTRACE_WRAP(expression) [&] () CPPTRACE_DETAIL_WRAP_NO_INLINE -> decltype((expression)) { \
         try { \
             return expression; \
         } catch(...) { \
-- 
2.43.0


From 20b1dbd762bda71066ecbfb5a2b5866fc609b909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 11/23] fix: account for ctrace_safe_generate_raw_trace's own
 frame

---
 src/ctrace.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ctrace.cpp b/src/ctrace.cpp
index 2e92381..698c70f 100644
--- a/src/ctrace.cpp
+++ b/src/ctrace.cpp
@@ -300,8 +300,13 @@ extern "C" {
     }
 
     // ctrace::safe:
+    CTRACE_FORCE_NO_INLINE
     size_t ctrace_safe_generate_raw_trace(ctrace_frame_ptr* buffer, size_t size, size_t skip, size_t max_depth) {
-        return cpptrace::safe_generate_raw_trace(buffer, size, skip, max_depth);
+        try { // try/catch can never be hit but it's needed to prevent TCO
+            return cpptrace::safe_generate_raw_trace(buffer, size, skip + 1, max_depth);
+        } catch(...) {
+            return 0;
+        }
     }
 
     void ctrace_get_safe_object_frame(ctrace_frame_ptr address, ctrace_safe_object_frame* out) {
-- 
2.43.0


From a2a1899e9bc03a8de149018cf1eef8195f659e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:14 +0000
Subject: [PATCH 12/23] fix: an explicit color=false overrides always-color
 mode in formatter

---
 src/formatting.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/formatting.cpp b/src/formatting.cpp
index faa7a3a..efa637b 100644
--- a/src/formatting.cpp
+++ b/src/formatting.cpp
@@ -207,15 +207,11 @@ CPPTRACE_BEGIN_NAMESPACE
         }
 
         bool should_do_color(std::ostream& stream, detail::optional<bool> color_override) const {
-            bool do_color = options.color == color_mode::always || color_override.value_or(false);
-            if(
-                (options.color == color_mode::automatic || options.color == color_mode::always) &&
-                (!color_override || color_override.unwrap() != false) &&
-                stream_is_tty(stream)
-            ) {
-                do_color = true;
+            if(color_override) {
+                return color_override.unwrap();
             }
-            return do_color;
+            return options.color == color_mode::always
+                || (options.color == color_mode::automatic && stream_is_tty(stream));
         }
 
         size_t get_trace_start(const stacktrace& trace) const {
-- 
2.43.0


From a6b992c0a891546cb19d678e3323ce963d498041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 13/23] fix: assigning a lazily resolved trace to itself used
 its destroyed trace; a failed copy left nothing alive

---
 src/exceptions.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/exceptions.cpp b/src/exceptions.cpp
index 4009c64..f7021da 100644
--- a/src/exceptions.cpp
+++ b/src/exceptions.cpp
@@ -32,16 +32,13 @@ CPPTRACE_BEGIN_NAMESPACE
             }
         }
         lazy_trace_holder& lazy_trace_holder::operator=(const lazy_trace_holder& other) {
-            clear();
-            resolved = other.resolved;
-            if(other.resolved) {
-                new (&resolved_trace) stacktrace(other.resolved_trace);
-            } else {
-                new (&trace) raw_trace(other.trace);
-            }
-            return *this;
+            // copy first: the copy may throw, and other may be *this
+            return *this = lazy_trace_holder(other);
         }
         lazy_trace_holder& lazy_trace_holder::operator=(lazy_trace_holder&& other) noexcept {
+            if(this == &other) {
+                return *this;
+            }
             clear();
             resolved = other.resolved;
             if(other.resolved) {
-- 
2.43.0


From 428563f1199df95e26fb495109b41c3ea2c15594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 14/23] fix: a copy assignment of Result that throws left
 neither alternative alive

---
 src/utils/result.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/utils/result.hpp b/src/utils/result.hpp
index ed4d1ad..40220aa 100644
--- a/src/utils/result.hpp
+++ b/src/utils/result.hpp
@@ -60,13 +60,12 @@ namespace detail {
         }
         Result& operator=(const Result& other) {
             if (this != &other) {
-                destroy();
+                // copy first: the copy may throw
                 if(other.active == member::value) {
-                    new (&value_) value_type(other.value_);
+                    *this = Result(value_type(other.value_));
                 } else {
-                    new (&error_) E(other.error_);
+                    *this = Result(E(other.error_));
                 }
-                active = other.active;
             }
             return *this;
         }
-- 
2.43.0


From 9e4feada99f8811c7b94de38a0ac9fa1d3322429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 15/23] fix: assigning a formatter to itself used deleted
 settings; a failed copy left it with deleted settings

---
 src/formatting.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/formatting.cpp b/src/formatting.cpp
index efa637b..2805746 100644
--- a/src/formatting.cpp
+++ b/src/formatting.cpp
@@ -387,17 +387,19 @@ CPPTRACE_BEGIN_NAMESPACE
     formatter::formatter(formatter&& other) : pimpl(detail::exchange(other.pimpl, nullptr)) {}
     formatter::formatter(const formatter& other) : pimpl(new impl(*other.pimpl)) {}
     formatter& formatter::operator=(formatter&& other) {
-        if(pimpl) {
+        if(this != &other) {
             delete pimpl;
+            pimpl = detail::exchange(other.pimpl, nullptr);
         }
-        pimpl = detail::exchange(other.pimpl, nullptr);
         return *this;
     }
     formatter& formatter::operator=(const formatter& other) {
-        if(pimpl) {
+        if(this != &other) {
+            // copy first: the copy may throw
+            impl* copy = new impl(*other.pimpl);
             delete pimpl;
+            pimpl = copy;
         }
-        pimpl = new impl(*other.pimpl);
         return *this;
     }
 
-- 
2.43.0


From 5d86bab4b201997c63d04c569e31cacfbbb83581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 16/23] fix: do not index past the collected lines when a
 snippet's target line does not exist

---
 src/snippets/snippet.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/snippets/snippet.cpp b/src/snippets/snippet.cpp
index cee92e6..007b30d 100644
--- a/src/snippets/snippet.cpp
+++ b/src/snippets/snippet.cpp
@@ -52,7 +52,7 @@ namespace detail {
 
         // takes a 1-index line
         std::string get_line(std::size_t line) const {
-            if(!loaded_contents || line > line_table.size()) {
+            if(!loaded_contents || line >= line_table.size()) {
                 return "";
             } else {
                 return contents.substr(line_table[line].begin, line_table[line].end - line_table[line].begin);
@@ -115,9 +115,14 @@ namespace detail {
         if(!manager.ok()) {
             return nullopt;
         }
-        auto begin = target_line <= context_size + 1 ? 1 : target_line - context_size;
+        // line table is 1-indexed so the last line is num_lines() - 1
+        if(target_line == 0 || target_line >= manager.num_lines()) {
+            return nullopt;
+        }
+        auto last_line = manager.num_lines() - 1;
+        auto begin = target_line <= context_size ? 1 : target_line - context_size;
         auto original_begin = begin;
-        auto end = std::min(target_line + context_size, manager.num_lines() - 1);
+        auto end = context_size >= last_line - target_line ? last_line : target_line + context_size;
         std::vector<std::string> lines;
         for(auto line = begin; line <= end; line++) {
             lines.push_back(manager.get_line(line));
-- 
2.43.0


From 607dbfc4a411e39ab937824b75451b20f0d2a88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 17/23] fix: don't let the bounds check of in-memory object
 reads wrap around

---
 src/utils/io/memory_file_view.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/io/memory_file_view.cpp b/src/utils/io/memory_file_view.cpp
index 30d11fb..8f9cbe4 100644
--- a/src/utils/io/memory_file_view.cpp
+++ b/src/utils/io/memory_file_view.cpp
@@ -10,7 +10,8 @@ namespace detail {
         if(offset < 0) {
             return internal_error("Illegal read in memory file {}: offset {}", path(), offset);
         }
-        if(offset + buffer.size() > data.size()) {
+        // compared this way around so that the sum can't wrap
+        if(buffer.size() > data.size() || to<std::size_t>(offset) > data.size() - buffer.size()) {
             return internal_error(
                 "Illegal read in memory file {}: offset = {}, size = {}, file size = {}",
                 path(), offset, buffer.size(), data.size()
-- 
2.43.0


From 6894764a7726bbf00624e2fe8dfb216f17db9084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 18/23] fix: check ELF string table offsets before using them

---
 src/binary/elf.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 655fa9f..b4deca0 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -143,7 +143,7 @@ namespace detail {
         if(it == symtab.entries.end()) {
             return nullopt;
         }
-        if(pc <= it->st_value + it->st_size) {
+        if(pc <= it->st_value + it->st_size && it->st_name < strtab.size()) {
             return strtab.data() + it->st_name;
         }
         return nullopt;
@@ -167,6 +167,9 @@ namespace detail {
         }
         const auto& sections = sections_res.unwrap_value();
         for(const auto& section : sections) {
+            if(section.sh_name >= strtab.size()) {
+                return internal_error("section name out of range in {}", file->path());
+            }
             if(string_view(strtab.data() + section.sh_name) == ".text") {
                 vec.push_back(
                     pc_range{to<frame_ptr>(section.sh_addr), to<frame_ptr>(section.sh_addr + section.sh_size)}
@@ -204,7 +207,7 @@ namespace detail {
         std::vector<symbol_entry> res;
         for(const auto& entry : info.entries) {
             res.push_back({
-                strtab.has_value() ? strtab.unwrap().data() + entry.st_name : "<strtab error>",
+                strtab.has_value() && entry.st_name < strtab.unwrap().size() ? strtab.unwrap().data() + entry.st_name : "<strtab error>",
                 entry.st_shndx,
                 entry.st_value,
                 entry.st_size
-- 
2.43.0


From cd26835318a8473345be0bd75cb51662e3a6647f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 19/23] fix: don't let the size of an ELF string table wrap to
 zero

---
 src/binary/elf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index b4deca0..6279be8 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -13,6 +13,7 @@
 #include <cstdint>
 #include <cstdio>
 #include <cstring>
+#include <limits>
 #include <mutex>
 #include <type_traits>
 #include <unordered_map>
@@ -334,6 +335,9 @@ namespace detail {
         if(section.sh_type != SHT_STRTAB) {
             return internal_error("requested strtab section not a strtab (requested {} of {})", index, file->path());
         }
+        if(section.sh_size >= (std::numeric_limits<std::size_t>::max)()) {
+            return internal_error("strtab section size out of range in {}", file->path());
+        }
         entry.data.resize(section.sh_size + 1);
         auto read_res = file->read_bytes(
             span<char>{entry.data.data(), to<std::size_t>(section.sh_size)},
-- 
2.43.0


From 0353be18ccbb9b73f82eb6b170930096331e1150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 20/23] fix: interpret the ELF header size in the file's byte
 order

---
 src/binary/elf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 6279be8..e15598c 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -250,7 +250,7 @@ namespace detail {
             return std::move(loaded_header).unwrap_error();
         }
         const Header& file_header = loaded_header.unwrap_value();
-        if(file_header.e_ehsize != sizeof(Header)) {
+        if(byteswap_if_needed(file_header.e_ehsize) != sizeof(Header)) {
             return internal_error("ELF file header size mismatch {}", file->path());
         }
         header_info info;
-- 
2.43.0


From 6e0e2e3436e69963485956fd9fd7c6f1aa0138d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:59 +0000
Subject: [PATCH 21/23] fix: terminate object paths truncated by
 get_safe_object_frame

---
 src/binary/safe_dl.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/binary/safe_dl.cpp b/src/binary/safe_dl.cpp
index 0ccfd78..ad0f5f4 100644
--- a/src/binary/safe_dl.cpp
+++ b/src/binary/safe_dl.cpp
@@ -25,12 +25,12 @@ namespace detail {
         if(_dl_find_object(reinterpret_cast<void*>(address), &result) == 0) { // thread-safe, signal-safe
             out->address_relative_to_object_start = address - to_frame_ptr(result.dlfo_link_map->l_addr);
             if(result.dlfo_link_map->l_name != nullptr && result.dlfo_link_map->l_name[0] != 0) {
-                std::size_t path_length = std::strlen(result.dlfo_link_map->l_name);
-                std::memcpy(
-                    out->object_path,
-                    result.dlfo_link_map->l_name,
-                    std::min(path_length + 1, std::size_t(CPPTRACE_PATH_MAX + 1))
+                std::size_t path_length = std::min(
+                    std::strlen(result.dlfo_link_map->l_name),
+                    std::size_t(CPPTRACE_PATH_MAX)
                 );
+                std::memcpy(out->object_path, result.dlfo_link_map->l_name, path_length);
+                out->object_path[path_length] = 0;
             } else {
                 // empty l_name, this means it's the currently running executable
                 memset(out->object_path, 0, CPPTRACE_PATH_MAX + 1);
-- 
2.43.0


From 9a42b4fdca944978895ebac2ba285439d47c7f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 22/23] fix: release pipes and child of addr2line on every path
 and check read and waitpid results

---
 src/symbols/symbols_with_addr2line.cpp | 39 ++++++++++++++++++++------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/symbols/symbols_with_addr2line.cpp b/src/symbols/symbols_with_addr2line.cpp
index d5f430e..3ffdf22 100644
--- a/src/symbols/symbols_with_addr2line.cpp
+++ b/src/symbols/symbols_with_addr2line.cpp
@@ -57,8 +57,7 @@ namespace addr2line {
                 _exit(magic);
             }
             int status;
-            waitpid(pid, &status, 0);
-            has_addr2line = WEXITSTATUS(status) == 0;
+            has_addr2line = waitpid(pid, &status, 0) == pid && WIFEXITED(status) && WEXITSTATUS(status) == 0;
         }
         return has_addr2line;
     }
@@ -68,21 +67,42 @@ namespace addr2line {
         int write;
     };
 
+    void close_end(int& fd) {
+        if(fd != -1) {
+            close(fd);
+            fd = -1;
+        }
+    }
+
     struct pipe_t {
         union {
             pipe_ends end;
             int data[2];
         };
+        pipe_t() : data{-1, -1} {}
+        ~pipe_t() {
+            close_end(end.read);
+            close_end(end.write);
+        }
+        pipe_t(const pipe_t&) = delete;
+        pipe_t& operator=(const pipe_t&) = delete;
     };
     static_assert(sizeof(pipe_t) == 2 * sizeof(int), "Unexpected struct packing");
 
     std::string resolve_addresses(const std::string& addresses, const std::string& executable) {
+        pid_t pid = -1;
+        // runs after the pipes are closed, otherwise the child might wait for its input forever
+        auto reap_child = scope_exit([&] {
+            if(pid > 0) {
+                waitpid(pid, nullptr, 0);
+            }
+        });
         pipe_t output_pipe;
         pipe_t input_pipe;
         if(pipe(output_pipe.data) != 0 || pipe(input_pipe.data) != 0) {
             throw internal_error("call to pipe failed: {}", errno);
         }
-        const pid_t pid = fork();
+        pid = fork();
         if(pid == -1) { return ""; } // error? TODO: Diagnostic
         if(pid == 0) { // child
             dup2(output_pipe.end.write, STDOUT_FILENO);
@@ -128,19 +148,20 @@ namespace addr2line {
         if(write(input_pipe.end.write, addresses.data(), addresses.size()) == -1) {
             throw internal_error("call to write failed: {}", errno);
         }
-        close(input_pipe.end.read);
-        close(input_pipe.end.write);
-        close(output_pipe.end.write);
+        close_end(input_pipe.end.read);
+        close_end(input_pipe.end.write);
+        close_end(output_pipe.end.write);
         std::string output;
         constexpr int buffer_size = 4096;
         char buffer[buffer_size];
-        std::size_t count = 0;
+        ssize_t count = 0;
         while((count = read(output_pipe.end.read, buffer, buffer_size)) > 0) {
             output.insert(output.end(), buffer, buffer + count);
         }
+        if(count == -1) {
+            throw internal_error("call to read failed: {}", errno);
+        }
         // TODO: check status from addr2line?
-        waitpid(pid, nullptr, 0);
-        close(output_pipe.end.read);
         return output;
     }
     #elif IS_WINDOWS
-- 
2.43.0


From f76546c35696ca7778724d5d126be4bace2906eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 23/23] fix: free partially converted C stack traces when
 demangling throws

---
 src/ctrace.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/ctrace.cpp b/src/ctrace.cpp
index 698c70f..7f23f52 100644
--- a/src/ctrace.cpp
+++ b/src/ctrace.cpp
@@ -101,13 +101,15 @@ CTRACE_FORMAT_EPILOGUE
     }
 
     static ctrace_stacktrace_frame convert_stacktrace_frame(const cpptrace::stacktrace_frame& frame) {
+        // may throw, the rest doesn't
+        const std::string symbol = cpptrace::detail::demangle(frame.symbol, true);
         ctrace_stacktrace_frame new_frame;
         new_frame.raw_address    = frame.raw_address;
         new_frame.object_address = frame.object_address;
         new_frame.line      = frame.line.value_or(invalid_pos);
         new_frame.column    = frame.column.value_or(invalid_pos);
         new_frame.filename  = generate_owning_string(frame.filename).data;
-        new_frame.symbol    = generate_owning_string(cpptrace::detail::demangle(frame.symbol, true)).data;
+        new_frame.symbol    = generate_owning_string(symbol).data;
         new_frame.is_inline = ctrace_bool(frame.is_inline);
         return new_frame;
     }
@@ -128,13 +130,18 @@ CTRACE_FORMAT_EPILOGUE
 
     static ctrace_stacktrace c_convert(const std::vector<cpptrace::stacktrace_frame>& trace) {
         std::size_t count = trace.size();
-        auto* frames = new ctrace_stacktrace_frame[count];
-        std::transform(
-            trace.begin(),
-            trace.end(), frames,
-            static_cast<ctrace_stacktrace_frame(*)(const cpptrace::stacktrace_frame&)>(convert_stacktrace_frame)
-        );
-        return { frames, count };
+        ctrace_stacktrace result = { new ctrace_stacktrace_frame[count](), count };
+        try {
+            std::transform(
+                trace.begin(),
+                trace.end(), result.frames,
+                static_cast<ctrace_stacktrace_frame(*)(const cpptrace::stacktrace_frame&)>(convert_stacktrace_frame)
+            );
+        } catch(...) {
+            ctrace_free_stacktrace(&result);
+            throw;
+        }
+        return result;
     }
 
     static cpptrace::stacktrace cpp_convert(const ctrace_stacktrace* ptrace) {
-- 
2.43.0

