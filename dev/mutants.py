# S01
M("S01", "log in safe dl", "src/binary/safe_dl.cpp", '#include <iostream>', '#include <iostream>\n#include "logging.hpp"', "src/binary/safe_dl.cpp", "                if(res == -1) {\n", "                if(res == -1) {\n                    log::warn(\"readlink failed\");\n")
M("S01", "static cache in safe unwind", "src/unwind/unwind_with_libunwind.cpp", "        // some code duplication, but whatever\n", "        static std::size_t calls; calls++;\n")
M("S01", "vector in libunwind safe", "src/unwind/unwind_with_libunwind.cpp", "        size_t i = 0;\n        while(i < size", "        std::vector<frame_ptr> tmp; tmp.push_back(1);\n        size_t i = 0;\n        while(i < size")
M("S01", "entry logs", "src/cpptrace.cpp", "            return detail::safe_capture_frames(buffer, size, skip + 1, max_depth);", "            if(!detail::has_safe_unwind()) { throw std::runtime_error(\"no\"); }\n            return detail::safe_capture_frames(buffer, size, skip + 1, max_depth);")
M("quiet", "safe dl helper", "src/binary/safe_dl.cpp", "    void get_safe_object_frame(frame_ptr address, safe_object_frame* out) {\n        out->raw_address = address;\n        dl_find", "    static void fill(safe_object_frame* o) { memset(o->object_path, 0, CPPTRACE_PATH_MAX + 1); }\n    void get_safe_object_frame(frame_ptr address, safe_object_frame* out) {\n        out->raw_address = address;\n        dl_find", "src/binary/safe_dl.cpp", "memset(out->object_path, 0, CPPTRACE_PATH_MAX + 1);\n                // sig", "fill(out);\n                // sig", checks="S01")
# C01
M("C01", "catch std only", "src/ctrace.cpp", "            return ctrace::generate_owning_string(trace_string);\n        } catch(...) {", "            return ctrace::generate_owning_string(trace_string);\n        } catch(const std::logic_error&) {")
M("C01", "catch after", "src/ctrace.cpp", "        try {\n            std::vector<cpptrace::frame_ptr> frames(trace->count, 0);\n            std::copy(", "        std::vector<cpptrace::frame_ptr> frames(trace->count, 0);\n        try {\n            std::copy(")
M("C01", "null frames", "src/ctrace.cpp", "    void ctrace_free_stacktrace(ctrace_stacktrace* trace) {\n        if(!trace || !trace->frames) {", "    void ctrace_free_stacktrace(ctrace_stacktrace* trace) {\n        if(!trace->frames) {")
M("C01", "wrong guard", "src/ctrace.cpp", "    ctrace_object_trace ctrace_resolve_raw_trace_to_object_trace(const ctrace_raw_trace* trace) {\n        if(!trace || !trace->frames) {", "    ctrace_object_trace ctrace_resolve_raw_trace_to_object_trace(const ctrace_raw_trace* trace) {\n        if(!trace || !trace->count) {")
M("C01", "rethrow if not absorb", "src/ctrace.cpp", "            // Don't check rethrow condition, it's risky.\n            return { nullptr, 0 };\n        }\n    }\n\n    ctrace_object_trace ctrace_resolve_raw", "            cpptrace::detail::log_and_maybe_propagate_exception(std::current_exception());\n            return { nullptr, 0 };\n        }\n    }\n\n    ctrace_object_trace ctrace_resolve_raw")
M("quiet", "null helper", "src/ctrace.cpp", "extern \"C\" {\n    // ctrace::string", "namespace { template<typename T> bool absent(const T* t) { return t == nullptr || t->frames == nullptr; } }\nextern \"C\" {\n    // ctrace::string", "src/ctrace.cpp", "    void ctrace_free_stacktrace(ctrace_stacktrace* trace) {\n        if(!trace || !trace->frames) {", "    void ctrace_free_stacktrace(ctrace_stacktrace* trace) {\n        if(absent(trace)) {", checks="C01")
# T03
M("T03", "catch internal only", "src/cpptrace.cpp", "            return object_trace{detail::get_frames_object_info(frames)};\n        } catch(...) {", "            return object_trace{detail::get_frames_object_info(frames)};\n        } catch(const detail::internal_error&) {")
M("T03", "inverted", "src/utils/error.cpp", "if(!should_absorb_trace_exceptions()) {", "if(should_absorb_trace_exceptions()) {")
M("T03", "swallow on resolve", "src/cpptrace.cpp", "            return {std::move(trace)};\n        } catch(...) { // NOSONAR\n            detail::log_and_maybe_propagate_exception(std::current_exception());", "            return {std::move(trace)};\n        } catch(...) { // NOSONAR\n            detail::log::error(\"x\");", "src/cpptrace.cpp", '#include "options.hpp"', '#include "options.hpp"\n#include "logging.hpp"')
M("T03", "outside try", "src/cpptrace.cpp", "        try {\n            std::vector<frame_ptr> frames = detail::capture_frames(skip + 1, max_depth);", "        std::vector<frame_ptr> frames = detail::capture_frames(skip + 1, max_depth);\n        try {")
M("T03", "lambda hop drop", "src/symbols/symbols_with_addr2line.cpp", "                detail::log_and_maybe_propagate_exception(std::current_exception());", "                detail::log::error(\"resolving failed\");", "src/symbols/symbols_with_addr2line.cpp", "#include <cstdint>\n", "#include <cstdint>\n#include \"logging.hpp\"\n")
M("T03", "not logged", "src/utils/error.cpp", '            log::error("Unhandled cpptrace internal error: {}", e.what());', '            (void)e;')
M("T03", "flag reset", "src/options.cpp", "    void enable_inlined_call_resolution(bool enable) {\n", "    void enable_inlined_call_resolution(bool enable) {\n        detail::absorb_trace_exceptions = true;\n")
M("T03", "default off", "src/options.cpp", "absorb_trace_exceptions(true)", "absorb_trace_exceptions(false)")
M("quiet", "reporter split", "src/utils/error.cpp", "        if(!should_absorb_trace_exceptions()) {\n            if(ptr) {\n                std::rethrow_exception(ptr);\n            }\n        }", "        if(should_absorb_trace_exceptions()) return;\n        if(!ptr) return;\n        std::rethrow_exception(ptr);", checks="T03,C01")
M("quiet", "explicit rethrow", "src/cpptrace.cpp", "            return object_trace{detail::get_frames_object_info(frames)};\n        } catch(...) { // NOSONAR\n            detail::log_and_maybe_propagate_exception(std::current_exception());\n            return object_trace{};", "            return object_trace{detail::get_frames_object_info(frames)};\n        } catch(...) { // NOSONAR\n            auto e = std::current_exception();\n            detail::log_and_maybe_propagate_exception(e);\n            object_trace t;\n            return t;", checks="T03")
# E01
M("E01", "absorb internal only", "src/exceptions.cpp", "                return generate_raw_trace(skip + 1, max_depth);\n            } catch(const std::exception& e) {", "                return generate_raw_trace(skip + 1, max_depth);\n            } catch(const std::runtime_error& e) {")
M("E01", "resolve rethrows", "src/exceptions.cpp", "                } catch(const std::exception& e) {\n                    if(!should_absorb_trace_exceptions()) {\n                        log::error(\n                            \"Exception occurred while resolving trace in cpptrace::detail::lazy", "                } catch(const std::exception& e) {\n                    if(!should_absorb_trace_exceptions()) {\n                        log_and_maybe_propagate_exception(std::current_exception());\n                        log::error(\n                            \"Exception occurred while resolving trace in cpptrace::detail::lazy")
M("E01", "nested non-std", "src/exceptions.cpp", "            } catch(...) {\n                message_value = \"Nested exception holding instance of \" + detail::exception_type_name();\n            }", "            }")
M("E01", "collect outside", "src/from_current.cpp", "         try {\n             auto trace = raw_trace{detail::capture_frames(skip + 1, SIZE_MAX)};\n             save_current_trace(std::move(trace));\n         } catch(...) {\n             detail::log_and_maybe_propagate_exception(std::current_exception());\n         }\n     }\n    #endif", "         auto frames = detail::capture_frames(skip + 1, SIZE_MAX);\n         try {\n             auto trace = raw_trace{std::move(frames)};\n             save_current_trace(std::move(trace));\n         } catch(...) {\n             detail::log_and_maybe_propagate_exception(std::current_exception());\n         }\n     }\n    #endif")
M("E01", "install std only", "src/from_current.cpp", "            } catch(std::exception& e) {\n                detail::log::error(\"Exception occurred while preparing from_current support: {}\", e.what());\n            } catch(...) {\n                detail::log::error(\"Unknown exception occurred while preparing from_current support\");\n            }", "            } catch(std::runtime_error& e) {\n                detail::log::error(\"Exception occurred while preparing from_current support: {}\", e.what());\n            }")
M("E01", "trace uses const getter", "src/exceptions.cpp", "        return trace_holder.get_resolved_trace();\n    }\n\n    const char* exception_with", "        return static_cast<const detail::lazy_trace_holder&>(trace_holder).get_resolved_trace();\n    }\n\n    const char* exception_with")
M("quiet", "what split", "src/exceptions.cpp", "            what_string = message() + std::string(\":\\n\") + trace_holder.get_resolved_trace().to_string();", "            std::string tmp(message());\n            tmp += \":\\n\";\n            tmp += trace().to_string();\n            what_string = std::move(tmp);", checks="E01")
# E03
M("E03", "switch static", "src/from_current.cpp", "static thread_local bool rethrow_switch", "static bool rethrow_switch")
M("E03", "saved shared", "src/from_current.cpp", "    thread_local lazy_trace_holder saved_rethrow_trace;", "    lazy_trace_holder saved_rethrow_trace;")
M("E03", "heap shared", "src/from_current.cpp", "    thread_local lazy_trace_holder current_exception_trace;", "    static lazy_trace_holder* cet_ptr = new lazy_trace_holder();\n    #define current_exception_trace (*cet_ptr)\n", "src/from_current.cpp", "        return detail::current_exception_trace.get_raw_trace();", "        return (*detail::cet_ptr).get_raw_trace();", "src/from_current.cpp", "        return detail::current_exception_trace.get_resolved_trace();", "        return (*detail::cet_ptr).get_resolved_trace();", "src/from_current.cpp", "        detail::current_exception_trace = ", "        (*detail::cet_ptr) = ")
M("E03", "last thread cache", "src/from_current.cpp", "    const stacktrace& from_current_exception() {\n", "    const stacktrace& from_current_exception() {\n        static stacktrace last; if(!last.empty()) return last; last = detail::current_exception_trace.get_resolved_trace();\n")
M("quiet", "struct state", "src/from_current.cpp", "    thread_local lazy_trace_holder current_exception_trace;\n    thread_local lazy_trace_holder saved_rethrow_trace;\n\n    bool& get_rethrow_switch() {\n        static thread_local bool rethrow_switch = false;\n        return rethrow_switch;\n    }", "    thread_local lazy_trace_holder current_exception_trace;\n    thread_local lazy_trace_holder saved_rethrow_trace;\n    thread_local bool rethrow_switch_v = false;\n    static bool& get_rethrow_switch() {\n        return rethrow_switch_v;\n    }", checks="E03,E01")

# E04
M("E04", "set after", "src/from_current.cpp", "        auto guard = detail::setup_rethrow();\n        std::rethrow_exception(exception);", "        if(!exception) std::terminate();\n        std::rethrow_exception(exception);")
M("E04", "no cleanup", "src/from_current.cpp", "        auto guard = detail::setup_rethrow();\n        std::rethrow_exception(exception);", "        detail::get_rethrow_switch() = true;\n        std::rethrow_exception(exception);")
M("E04", "cleanup inverted", "src/from_current.cpp", "        get_rethrow_switch() = false;", "        get_rethrow_switch() = true;")
M("E04", "saved not emptied", "src/from_current.cpp", "            saved_rethrow_trace = lazy_trace_holder();\n", "")
M("E04", "saved keeps previous", "src/from_current.cpp", "            current_exception_trace = lazy_trace_holder(std::move(trace));\n            saved_rethrow_trace = lazy_trace_holder();\n", "            saved_rethrow_trace = std::move(current_exception_trace);\n            current_exception_trace = lazy_trace_holder(std::move(trace));\n")
M("E04", "rethrow overwrites", "src/from_current.cpp", "        if(get_rethrow_switch()) {\n", "        if(get_rethrow_switch() && !current_exception_trace.is_resolved()) {\n")
M("E04", "only if unresolved", "src/from_current.cpp", "            saved_rethrow_trace = lazy_trace_holder();\n", "            if(saved_rethrow_trace.is_resolved()) saved_rethrow_trace = lazy_trace_holder();\n")
M("E04", "clear one", "src/from_current.cpp", "        detail::saved_rethrow_trace = detail::lazy_trace_holder{raw_trace{}};\n", "        if(get_rethrow_switchx()) detail::saved_rethrow_trace = detail::lazy_trace_holder{raw_trace{}};\n", "src/from_current.cpp", "    void clear_current_exception_traces() {", "    static bool get_rethrow_switchx() { return detail::get_rethrow_switch(); }\n    void clear_current_exception_traces() {")
M("E04", "wrong accessor", "src/from_current.cpp", "        return detail::saved_rethrow_trace.get_resolved_trace();\n    }\n\n    bool", "        return detail::current_exception_trace.get_resolved_trace();\n    }\n\n    bool")
M("E04", "wrong rethrown query", "src/from_current.cpp", "            return !detail::saved_rethrow_trace.get_raw_trace().empty();", "            return !detail::current_exception_trace.get_raw_trace().empty();")
M("quiet", "raii struct", "src/from_current.cpp", "        auto guard = detail::setup_rethrow();\n        std::rethrow_exception(exception);", "        struct flip { flip() { detail::get_rethrow_switch() = true; } ~flip() { detail::get_rethrow_switch() = false; } } f;\n        std::rethrow_exception(std::move(exception));", "src/from_current.cpp", "        if(get_rethrow_switch()) {\n            saved_rethrow_trace = lazy_trace_holder(std::move(trace));\n        } else {\n            current_exception_trace = lazy_trace_holder(std::move(trace));\n            saved_rethrow_trace = lazy_trace_holder();\n        }", "        lazy_trace_holder fresh(std::move(trace));\n        if(!get_rethrow_switch()) {\n            saved_rethrow_trace = lazy_trace_holder();\n            current_exception_trace = std::move(fresh);\n            return;\n        }\n        saved_rethrow_trace = std::move(fresh);", "src/from_current.cpp", "        detail::current_exception_trace = detail::lazy_trace_holder{raw_trace{}};\n        detail::saved_rethrow_trace = detail::lazy_trace_holder{raw_trace{}};\n", "        auto reset = [](detail::lazy_trace_holder& h) { h = detail::lazy_trace_holder{}; }; reset(detail::saved_rethrow_trace); reset(detail::current_exception_trace);\n", checks="E04,E03")
# L01
M("L01", "check outside lock", "src/symbols/symbols_with_addr2line.cpp", "        std::lock_guard<std::mutex> lock(mutex);\n        if(!checked) {", "        if(checked) { return has_addr2line; }\n        std::lock_guard<std::mutex> lock(mutex);\n        if(!checked) {")
M("L01", "lock scope too small", "src/snippets/snippet.cpp", "        std::unique_lock<std::mutex> lock(snippet_manager_mutex);\n        auto it = snippet_managers.find(path);\n", "        auto it = [&] { std::unique_lock<std::mutex> lock(snippet_manager_mutex); return snippet_managers.find(path); }();\n")
M("L01", "unlock before insert", "src/snippets/snippet.cpp", "        if(it == snippet_managers.end()) {\n            return snippet_managers.insert({path, snippet_manager(path)}).first->second;", "        if(it == snippet_managers.end()) {\n            lock.unlock();\n            snippet_manager mgr(path);\n            return snippet_managers.insert({path, std::move(mgr)}).first->second;")
M("L01", "local mutex", "src/binary/module_base.cpp", "        static std::mutex mutex;\n        std::lock_guard<std::mutex> lock(mutex);\n        static std::unordered_map<std::string, std::uintptr_t> cache;\n        auto it = cache.find(object_path);\n        if(it == cache.end()) {\n            // arguably it'd be better to release the lock while computing this, but also arguably it's good to not\n            // have two threads try to do the same computation\n            auto elf", "        thread_local std::mutex mutex;\n        std::lock_guard<std::mutex> lock(mutex);\n        static std::unordered_map<std::string, std::uintptr_t> cache;\n        auto it = cache.find(object_path);\n        if(it == cache.end()) {\n            // arguably it'd be better to release the lock while computing this, but also arguably it's good to not\n            // have two threads try to do the same computation\n            auto elf")
M("L01", "plain bool option", "src/options.cpp", "std::atomic_bool resolve_inlined_calls(true)", "bool resolve_inlined_calls(true)")
M("L01", "default formatter mutated", "src/cpptrace.cpp", "    void stacktrace::print() const {\n", "    void stacktrace::print() const {\n        const_cast<formatter&>(get_default_formatter()).columns(false);\n")
M("L01", "mutable scratch", "src/formatting.cpp", "    class formatter::impl {\n", "    class formatter::impl {\n        mutable std::size_t nprinted = 0;\n", "src/formatting.cpp", "            write_trace(stream, trace, color);\n", "            nprinted++;\n            write_trace(stream, trace, color);\n")
M("L01", "new cache", "src/demangle/demangle_with_cxxabi.cpp", "    std::string demangle(const std::string& name, bool check_prefix) {\n", "    static std::string last_name;\n    std::string demangle(const std::string& name, bool check_prefix) {\n        last_name = name;\n")
M("L01", "jit lookup unlocked", "src/jit/jit_objects.cpp", "lookup(frame_ptr pc) const {\n            std::lock_guard<std::mutex> lock(mutex);\n", "lookup(frame_ptr pc) const {\n")
M("L01", "log swap unlocked", "src/logging.cpp", "        std::lock_guard<std::mutex> lock(holder.mutex);\n        return holder.callback;", "        return holder.callback;")
M("L01", "cached elf without lock", "src/binary/module_base.cpp", "        static std::mutex mutex;\n        std::lock_guard<std::mutex> lock(mutex);\n        static std::unordered_map<std::string, std::uintptr_t> cache;\n        auto it = cache.find(object_path);\n        if(it == cache.end()) {\n            // arg", "        static std::mutex mutex;\n        std::unique_lock<std::mutex> lock(mutex);\n        static std::unordered_map<std::string, std::uintptr_t> cache;\n        auto it = cache.find(object_path);\n        if(it == cache.end()) {\n            lock.unlock();\n            // arg", "src/binary/module_base.cpp", "            cache.insert(it, {object_path, base.unwrap_value()});\n            return base;\n        } else {\n            return it->second;\n        }\n    }\n    #elif", "            lock.lock();\n            cache.insert({object_path, base.unwrap_value()});\n            return base;\n        } else {\n            return it->second;\n        }\n    }\n    #elif")
M("quiet", "cache helper struct", "src/snippets/snippet.cpp", "        static std::mutex snippet_manager_mutex;\n        static std::unordered_map<std::string, const snippet_manager> snippet_managers;\n        std::unique_lock<std::mutex> lock(snippet_manager_mutex);\n        auto it = snippet_managers.find(path);\n        if(it == snippet_managers.end()) {\n            return snippet_managers.insert({path, snippet_manager(path)}).first->second;\n        } else {\n            return it->second;\n        }", "        struct cache_t { std::mutex m; std::unordered_map<std::string, const snippet_manager> map; };\n        static cache_t cache;\n        std::lock_guard<std::mutex> lock(cache.m);\n        auto it = cache.map.find(path);\n        if(it != cache.map.end()) return it->second;\n        return cache.map.emplace(path, snippet_manager(path)).first->second;", checks="L01,L02")
M("quiet", "call_once", "src/symbols/symbols_with_addr2line.cpp", "        static std::mutex mutex;\n        static bool has_addr2line = false;\n        static bool checked = false;\n        std::lock_guard<std::mutex> lock(mutex);\n        if(!checked) {\n            checked = true;\n", "        static std::once_flag once;\n        static bool has_addr2line = false;\n        std::call_once(once, [] {\n", "src/symbols/symbols_with_addr2line.cpp", "            if(pid == -1) { return false; }\n", "            if(pid == -1) { return; }\n", "src/symbols/symbols_with_addr2line.cpp", "            has_addr2line = WEXITSTATUS(status) == 0;\n        }\n", "            has_addr2line = WEXITSTATUS(status) == 0;\n        });\n", checks="L01,L02")
M("quiet", "lock helper", "src/jit/jit_objects.cpp", "        void clear_all_jit_objects() {\n            std::lock_guard<std::mutex> lock(mutex);\n            objects.clear();\n            range_list.clear();\n        }", "        std::unique_lock<std::mutex> guard() const { return std::unique_lock<std::mutex>(mutex); }\n        void drop() { objects.clear(); range_list.clear(); }\n        void clear_all_jit_objects() {\n            auto lock = guard();\n            drop();\n        }", checks="L01,L02")
# L02
M("L02", "callback under log lock", "src/logging.cpp", "        auto callback = get_log_callback();\n        if(callback) {\n            (*callback)(level, message);\n        }", "        auto& holder = get_log_callback_holder();\n        std::lock_guard<std::mutex> lock(holder.mutex);\n        if(holder.callback) {\n            (*holder.callback)(level, message);\n        }")
M("L02", "jit parse under lock", "src/jit/jit_objects.cpp", "        void add_jit_object(cbspan object) {\n", "        void add_jit_object(cbspan object) {\n            std::lock_guard<std::mutex> lock(mutex);\n", "src/jit/jit_objects.cpp", "            auto& ranges = ranges_res.unwrap_value();\n            std::lock_guard<std::mutex> lock(mutex);\n", "            auto& ranges = ranges_res.unwrap_value();\n")
M("L02", "re-entrant remove", "src/jit/jit_objects.cpp", "            objects.push_back({object.data(), std::move(object_ptr)});\n", "            remove_jit_object(object.data());\n            objects.push_back({object.data(), std::move(object_ptr)});\n")
M("L02", "manual unlock leak", "src/snippets/snippet.cpp", "        std::unique_lock<std::mutex> lock(snippet_manager_mutex);\n        auto it = snippet_managers.find(path);\n", "        snippet_manager_mutex.lock();\n        auto it = snippet_managers.find(path);\n", "src/snippets/snippet.cpp", "            return snippet_managers.insert({path, snippet_manager(path)}).first->second;\n        } else {\n            return it->second;", "            auto& r = snippet_managers.insert({path, snippet_manager(path)}).first->second;\n            snippet_manager_mutex.unlock();\n            return r;\n        } else {\n            snippet_manager_mutex.unlock();\n            return it->second;")
M("L02", "opposite order", "src/binary/elf.cpp", "            auto it = cache.find(object_path);\n            if(it == cache.end()) {\n                auto res", "            auto it = cache.find(object_path);\n            if(it == cache.end()) {\n                (void)get_module_image_base(\"/proc/self/exe\");\n                auto res", "src/binary/elf.cpp", "#include \"binary/elf.hpp\"\n", "#include \"binary/elf.hpp\"\n#include \"binary/module_base.hpp\"\n")
M("L02", "log under lock", "src/symbols/symbols_with_addr2line.cpp", "            checked = true;\n            // Detects if addr2line exists by trying to invoke addr2line --help\n", "            checked = true;\n            log::info(\"looking for addr2line\");\n", "src/symbols/symbols_with_addr2line.cpp", "#include <cstdint>\n", "#include <cstdint>\n#include \"logging.hpp\"\n")
# G01
M("G01", "le boundary", "src/logging.cpp", "if(level < current_log_level) {", "if(level <= current_log_level) {")
M("G01", "debug always off", "src/logging.cpp", "if(level < current_log_level) {", "if(level == log_level::debug || level < current_log_level) {")
M("G01", "info as warning", "src/logging.cpp", "do_log(log_level::info, message);", "do_log(log_level::warning, message);")
M("G01", "stderr on missing addr2line", "src/symbols/symbols_with_addr2line.cpp", "            checked = true;\n", "            checked = true;\n            if(access(\"/usr/bin/addr2line\", X_OK) == -1) { fputs(\"addr2line missing\\n\", stderr); }\n")
M("G01", "default logger stderr", "src/logging.cpp", "        static log_callback_holder holder;\n", "        static log_callback_holder holder{{}, std::make_shared<log_callback_type>(default_stderr_logger)};\n")
M("G01", "setter clamps", "src/logging.cpp", "        detail::current_log_level = level;", "        if(level < detail::current_log_level || level == log_level::error) { detail::current_log_level = level; }")
M("G01", "absorb raises level", "src/options.cpp", "absorb_trace_exceptions(bool absorb) {", "absorb_trace_exceptions(bool absorb) { set_log_level(log_level::debug);")
M("G01", "throttle", "src/logging.cpp", "        auto callback = get_log_callback();\n        if(callback) {", "        static std::atomic<unsigned> n(0);\n        if(level == log_level::warning && ++n > 64) { return; }\n        auto callback = get_log_callback();\n        if(callback) {")
M("G01", "message literal", "src/logging.cpp", "(*callback)(level, message);", "(*callback)(level, message[0] == 0 ? \"(empty)\" : message);")
M("quiet", "log restructure", "src/logging.cpp", "        if(level < current_log_level) {\n            return;\n        }\n        auto callback = get_log_callback();\n        if(callback) {\n            (*callback)(level, message);\n        }", "        auto threshold = current_log_level.load();\n        if(level >= threshold) {\n            if(auto callback = get_log_callback()) {\n                const auto& fn = *callback;\n                fn(level, message);\n            }\n        }", checks="G01,L01,L02")
# T01
M("T01", "default arg", "include/cpptrace/exceptions.hpp", "rethrow_and_wrap_if_needed(std::size_t skip = 0)", "rethrow_and_wrap_if_needed(std::size_t skip = 1)")
M("T01", "overload skip", "src/cpptrace.cpp", "            return generate_object_trace(skip + 1, max_depth);", "            return generate_object_trace(skip, max_depth);")
M("T01", "overload skip2", "src/cpptrace.cpp", "            std::vector<frame_ptr> frames = detail::capture_frames(skip + 1, max_depth);", "            std::vector<frame_ptr> frames = detail::capture_frames(skip + (max_depth == SIZE_MAX ? 1 : 2), max_depth);")
M("T01", "noinline dropped", "src/cpptrace.cpp", "    CPPTRACE_FORCE_NO_INLINE\n    object_trace generate_object_trace(std::size_t skip, std::size_t max_depth) {", "    object_trace generate_object_trace(std::size_t skip, std::size_t max_depth) {")
M("T01", "tco", "src/cpptrace.cpp", "        try { // try/catch can never be hit but it's needed to prevent TCO\n            return detail::safe_capture_frames(buffer, size, skip + 1, max_depth);\n        } catch(...) {\n            detail::log_and_maybe_propagate_exception(std::current_exception());\n            return 0;\n        }", "        return detail::safe_capture_frames(buffer, size, skip + 1, max_depth);")
M("T01", "libunwind no skip++", "src/unwind/unwind_with_libunwind.cpp", "        // some code duplication, but whatever\n        skip++;\n", "        // some code duplication, but whatever\n")
M("T01", "execinfo off by one", "src/unwind/unwind_with_execinfo.cpp", "frames[i - skip] = reinterpret_cast<frame_ptr>(addrs[i]) - 1;", "frames[n_frames - 1 - i] = reinterpret_cast<frame_ptr>(addrs[i]) - 1;")
M("T01", "unwind skip forgets", "src/unwind/unwind_with_unwind.cpp", "unwind_state state{skip + 1, max_depth, frames};", "unwind_state state{skip ? skip + 1 : 0, max_depth, frames};")
M("T01", "exception ctor skip", "src/exceptions.cpp", "return get_raw_trace_and_absorb(skip + 1, SIZE_MAX);", "return get_raw_trace_and_absorb(skip, SIZE_MAX);")
M("T01", "ctrace skip", "src/ctrace.cpp", "cpptrace::detail::capture_frames(skip + 1, max_depth)\n", "cpptrace::detail::capture_frames(skip, max_depth)\n")
M("T01", "unwind skip only nonnull", "src/unwind/unwind_with_unwind.cpp", "        if(state.skip) {\n            state.skip--;\n", "        if(state.skip) {\n            if(_Unwind_GetIP(context) > 4096) { state.skip--; }\n")
M("quiet", "unwind skip var", "src/unwind/unwind_with_unwind.cpp", "        unwind_state state{skip + 1, max_depth, frames};", "        const std::size_t own_frames = 1;\n        unwind_state state{skip, max_depth, frames};\n        state.skip += own_frames;", checks="T01,T02")
M("quiet", "libunwind for", "src/unwind/unwind_with_libunwind.cpp", "        size_t i = 0;\n        while(i < size && i < max_depth) {", "        size_t i = 0;\n        const size_t limit = size < max_depth ? size : max_depth;\n        for(; i < limit;) {", checks="T01,T02")
M("quiet", "libunwind remaining", "src/unwind/unwind_with_libunwind.cpp", "            if(skip) {\n                skip--;\n            } else {\n                // pc is the instruction after the `call`, adjust back to the previous instruction\n                frames", "            const bool skipping = skip > 0;\n            if(skipping) {\n                --skip;\n            } else {\n                // pc is the instruction after the `call`, adjust back to the previous instruction\n                frames", checks="T01,T02")
M("quiet", "wrapper helper", "src/cpptrace.cpp", "            return raw_trace{detail::capture_frames(skip + 1, max_depth)};", "            auto captured = detail::capture_frames(skip + 1, max_depth);\n            raw_trace result;\n            result.frames = std::move(captured);\n            return result;", checks="T01,T02")
M("quiet", "unwind cb restructure", "src/unwind/unwind_with_unwind.cpp", "        if (ip == frame_ptr(0)) {\n            return _URC_END_OF_STACK;\n        } else {\n            state.vec.push_back(ip);\n            if(state.vec.size() >= state.max_depth) {\n                return _URC_END_OF_STACK;\n            } else {\n                return _URC_NO_REASON;\n            }\n        }", "        if (ip == frame_ptr(0)) {\n            return _URC_END_OF_STACK;\n        }\n        state.vec.push_back(ip);\n        const bool full = state.vec.size() >= state.max_depth;\n        return full ? _URC_END_OF_STACK : _URC_NO_REASON;", checks="T01,T02")
M("quiet", "execinfo iter", "src/unwind/unwind_with_execinfo.cpp", "        std::vector<frame_ptr> frames(n_frames - skip, 0);\n        for(int i = skip; i < n_frames; i++) {", "        const std::size_t count = static_cast<std::size_t>(n_frames) - skip;\n        std::vector<frame_ptr> frames(count, 0);\n        for(std::size_t j = 0; j < count; j++) {\n            const std::size_t i = j + skip;", checks="T01,T02")
M("quiet", "execinfo push", "src/unwind/unwind_with_execinfo.cpp", "        std::vector<frame_ptr> frames(n_frames - skip, 0);\n        for(int i = skip; i < n_frames; i++) {", "        std::vector<frame_ptr> frames;\n        frames.reserve(n_frames - skip);\n        for(int i = skip; i < n_frames; i++) {", "src/unwind/unwind_with_execinfo.cpp", "frames[i - skip] = reinterpret_cast<frame_ptr>(addrs[i]) - 1;", "frames.push_back(reinterpret_cast<frame_ptr>(addrs[i]) - 1);", checks="T01,T02")
# T02
M("T02", "callback off by one", "src/unwind/unwind_with_unwind.cpp", "if(state.vec.size() >= state.max_depth) {", "if(state.vec.size() > state.max_depth) {")
M("T02", "zero guard", "src/unwind/unwind_with_unwind.cpp", "        if(max_depth == 0) {\n            return frames;\n        }\n", "")
M("T02", "libunwind le", "src/unwind/unwind_with_libunwind.cpp", "frames.size() < max_depth);", "frames.size() <= max_depth);")
M("T02", "execinfo guard", "src/unwind/unwind_with_execinfo.cpp", "if(n_frames < 0 || static_cast<std::size_t>(n_frames) <= skip) {", "if(n_frames < 0) {")
M("T02", "execinfo hard", "src/unwind/unwind_with_execinfo.cpp", "std::min(hard_max_frames, max_depth)", "std::max<std::size_t>(4, std::min(hard_max_frames, max_depth))")
M("T02", "depth dropped", "src/cpptrace.cpp", "            return generate_object_trace(skip + 1, max_depth);", "            return generate_object_trace(skip + 1);")
M("T02", "depth capped", "src/exceptions.cpp", "return get_raw_trace_and_absorb(skip + 1, SIZE_MAX);", "return get_raw_trace_and_absorb(skip + 1, 128);")
M("T02", "ctrace depth", "src/ctrace.cpp", "cpptrace::detail::capture_frames(skip + 1, max_depth)\n", "cpptrace::detail::capture_frames(skip + 1, max_depth + skip)\n")
M("T02", "safe size", "src/unwind/unwind_with_libunwind.cpp", "while(i < size && i < max_depth) {", "while(i < size) {")
M("T02", "safe buffer", "src/unwind/unwind_with_libunwind.cpp", "while(i < size && i < max_depth) {", "while(i <= size && i < max_depth) {")
# C02
M("C02", "plain delete", "src/ctrace.cpp", "        delete[] owned_string;", "        delete owned_string;")
M("C02", "count minus one", "src/ctrace.cpp", "        for(std::size_t i = 0; i < trace->count; ++i) {\n            const char* path", "        for(std::size_t i = 0; i + 1 < trace->count; ++i) {\n            const char* path")
M("C02", "symbol leak", "src/ctrace.cpp", "            ctrace::free_owning_string(frames[i].symbol);\n", "            if(!frames[i].is_inline) { ctrace::free_owning_string(frames[i].symbol); }\n")
M("C02", "zero count leak", "src/ctrace.cpp", "        if(!trace || !trace->frames) {\n            return;\n        }\n        ctrace_stacktrace_frame* frames", "        if(!trace || !trace->frames || trace->count == 0) {\n            return;\n        }\n        ctrace_stacktrace_frame* frames")
M("C02", "not nulled", "src/ctrace.cpp", "        delete[] frames;\n        trace->frames = nullptr;\n        trace->count = 0;\n    }\n\n    void ctrace_free_stacktrace", "        delete[] frames;\n        trace->count = 0;\n    }\n\n    void ctrace_free_stacktrace")
M("C02", "not zeroed", "src/ctrace.cpp", "        delete[] frames;\n        trace->frames = nullptr;\n        trace->count = 0;\n    }\n\n    void ctrace_free_object", "        delete[] frames;\n        trace->frames = nullptr;\n    }\n\n    void ctrace_free_object")
M("C02", "strdup", "src/ctrace.cpp", "            std::string demangled = cpptrace::demangle(mangled);\n            return ctrace::generate_owning_string(demangled);", "            std::string demangled = cpptrace::demangle(mangled);\n            return {strdup(demangled.c_str())};", "src/ctrace.cpp", "#include <algorithm>", "#include <algorithm>\n#include <cstring>")
M("C02", "frees input", "src/ctrace.cpp", "            std::vector<cpptrace::object_frame> obj = cpptrace::detail::get_frames_object_info(frames);\n            return ctrace::c_convert(obj);", "            std::vector<cpptrace::object_frame> obj = cpptrace::detail::get_frames_object_info(frames);\n            delete[] trace->frames;\n            return ctrace::c_convert(obj);")
M("C02", "shared symbol", "src/ctrace.cpp", "        new_frame.symbol    = generate_owning_string(cpptrace::detail::demangle(frame.symbol, true)).data;", "        new_frame.symbol    = frame.symbol.empty() ? new_frame.filename : generate_owning_string(cpptrace::detail::demangle(frame.symbol, true)).data;")
M("C02", "stop at null", "src/ctrace.cpp", "            const char* path = frames[i].obj_path;\n", "            const char* path = frames[i].obj_path;\n            if(!path) { break; }\n")
M("C02", "free twice", "src/ctrace.cpp", "            ctrace::free_owning_string(frames[i].filename);\n", "            ctrace::free_owning_string(frames[i].filename);\n            if(frames[i].line == 0) { ctrace::free_owning_string(frames[i].filename); }\n")
M("C02", "string not nulled", "src/ctrace.cpp", "        ctrace::free_owning_string(*string);\n        string->data = nullptr;", "        ctrace::free_owning_string(*string);\n        if(string->data && *string->data == 0) { string->data = nullptr; }")
M("quiet", "free helper", "src/ctrace.cpp", "        for(std::size_t i = 0; i < trace->count; ++i) {\n            ctrace::free_owning_string(frames[i].filename);\n            ctrace::free_owning_string(frames[i].symbol);\n        }\n\n        delete[] frames;\n        trace->frames = nullptr;\n        trace->count = 0;", "        const std::size_t n = trace->count;\n        auto* it = frames;\n        auto* end = frames + n;\n        trace->count = 0;\n        trace->frames = nullptr;\n        for(; it != end; ++it) {\n            if(it->symbol) { delete[] it->symbol; }\n            delete[] it->filename;\n        }\n        delete[] frames;", checks="C02,C03")
M("quiet", "free down", "src/ctrace.cpp", "        for(std::size_t i = 0; i < trace->count; ++i) {\n            const char* path", "        for(std::size_t i = trace->count; i-- > 0;) {\n            const char* path", checks="C02")
M("quiet", "convert loop", "src/ctrace.cpp", "        std::transform(trace.begin(), trace.end(), frames, convert_object_frame);", "        for(std::size_t i = 0; i < count; i++) {\n            frames[i] = convert_object_frame(trace[i]);\n        }", checks="C02,C03")
M("quiet", "convert range", "src/ctrace.cpp", "        std::transform(trace.begin(), trace.end(), frames, convert_object_frame);", "        auto* out = frames;\n        for(const auto& frame : trace) {\n            *out++ = convert_object_frame(frame);\n        }", checks="C02,C03")
M("quiet", "free object foreach", "src/ctrace.cpp", "        for(std::size_t i = 0; i < trace->count; ++i) {\n            const char* path = frames[i].obj_path;\n            ctrace::free_owning_string(path);\n        }", "        std::for_each(frames, frames + trace->count, [](const ctrace_object_frame& frame) { ctrace::free_owning_string(frame.obj_path); });", checks="C02")
# C03
M("C03", "swap addresses", "src/ctrace.cpp", "new_frame.object_address = frame.object_address;\n        new_frame.line      = frame.line.value_or(invalid_pos);", "new_frame.object_address = frame.raw_address;\n        new_frame.line      = frame.line.value_or(invalid_pos);")
M("C03", "column sentinel", "src/ctrace.cpp", "frame.column.value_or(invalid_pos);", "frame.column.value_or(0);")
M("C03", "column from line back", "src/ctrace.cpp", "nullable_type{is_empty(frame.column) ? null_v : frame.column};", "nullable_type{is_empty(frame.column) ? null_v : frame.line};")
M("C03", "zero line is null", "src/ctrace.cpp", "nullable_type{is_empty(frame.line)   ? null_v : frame.line};", "nullable_type{is_empty(frame.line) || frame.line == 0 ? null_v : frame.line};")
M("C03", "inline dropped back", "src/ctrace.cpp", "        new_frame.is_inline = bool(frame.is_inline);\n", "")
M("C03", "object resolve obj addr", "src/ctrace.cpp", "                    return frame.raw_address;", "                    return frame.obj_address;")
M("C03", "symbol from filename", "src/ctrace.cpp", "cpptrace::detail::demangle(frame.symbol, true)", "cpptrace::detail::demangle(frame.symbol.empty() ? frame.filename : frame.symbol, true)")
M("C03", "skip null symbols", "src/ctrace.cpp", "            new_frames.push_back(convert_stacktrace_frame(ptrace->frames[i]));", "            if(!ptrace->frames[i].filename && !ptrace->frames[i].symbol) { continue; }\n            new_frames.push_back(convert_stacktrace_frame(ptrace->frames[i]));")
M("C03", "copy one less", "src/ctrace.cpp", "            std::copy(trace->frames, trace->frames + trace->count, frames.begin());\n            std::vector<cpptrace::object_frame>", "            std::copy(trace->frames + 1, trace->frames + trace->count, frames.begin());\n            std::vector<cpptrace::object_frame>")
M("C03", "is_inline truncation", "src/ctrace.cpp", "ctrace_bool(frame.is_inline)", "ctrace_bool(frame.is_inline && !frame.filename.empty())")
M("C03", "path basename", "src/ctrace.cpp", "        const char* new_path = generate_owning_string(frame.object_path).data;\n        return { frame.raw_address, frame.object_address, new_path };", "        const char* new_path = generate_owning_string(frame.object_path).data;\n        return { frame.object_address, frame.raw_address, new_path };")
M("quiet", "convert aggregate", "src/ctrace.cpp", "        ctrace_stacktrace_frame new_frame;\n        new_frame.raw_address    = frame.raw_address;\n        new_frame.object_address = frame.object_address;\n        new_frame.line      = frame.line.value_or(invalid_pos);\n", "        ctrace_stacktrace_frame new_frame{};\n        new_frame.object_address = frame.object_address;\n        new_frame.raw_address    = frame.raw_address;\n        if(frame.line.has_value()) {\n            new_frame.line = frame.line.value();\n        } else {\n            new_frame.line = invalid_pos;\n        }\n", checks="C02,C03")
M("quiet", "back transform", "src/ctrace.cpp", "        for(std::size_t i = 0; i < ptrace->count; ++i) {\n            new_frames.push_back(convert_stacktrace_frame(ptrace->frames[i]));\n        }", "        for(const auto* p = ptrace->frames; p != ptrace->frames + ptrace->count; ++p) {\n            new_frames.emplace_back(convert_stacktrace_frame(*p));\n        }", checks="C02,C03")
M("quiet", "resolve pushback", "src/ctrace.cpp", "            std::vector<cpptrace::frame_ptr> frames(trace->count, 0);\n            std::copy(trace->frames, trace->frames + trace->count, frames.begin());\n            std::vector<cpptrace::object_frame>", "            std::vector<cpptrace::frame_ptr> frames;\n            frames.reserve(trace->count);\n            for(std::size_t i = 0; i < trace->count; i++) {\n                frames.push_back(trace->frames[i]);\n            }\n            std::vector<cpptrace::object_frame>", checks="C02,C03")
M("quiet", "resolve range ctor", "src/ctrace.cpp", "            std::vector<cpptrace::frame_ptr> frames(trace->count, 0);\n            std::copy(trace->frames, trace->frames + trace->count, frames.begin());\n            std::vector<cpptrace::object_frame>", "            const std::vector<cpptrace::frame_ptr> frames(trace->frames, trace->frames + trace->count);\n            std::vector<cpptrace::object_frame>", checks="C02,C03")
M("quiet", "resolve object loop", "src/ctrace.cpp", "            std::transform(\n                trace->frames,\n                trace->frames + trace->count,\n                frames.begin(),\n                [] (const ctrace_object_frame& frame) -> cpptrace::frame_ptr {\n                    return frame.raw_address;\n                }\n            );", "            for(std::size_t i = 0; i < frames.size(); i++) {\n                frames[i] = trace->frames[i].raw_address;\n            }", checks="C02,C03")
M("quiet", "raw count", "src/ctrace.cpp", "            auto* frames = new ctrace_frame_ptr[count];\n            std::copy(trace.data(), trace.data() + count, frames);", "            auto* frames = new ctrace_frame_ptr[count];\n            for(std::size_t i = 0; i < count; ++i) {\n                frames[i] = trace[i];\n            }", checks="C02,C03")
# F02
SN = "src/snippets/snippet.cpp"; FM = "src/formatting.cpp"
M("F02", "reset unconditional", SN, "            if(color) {\n                snippet += RESET;\n            }\n        } else {", "            snippet += RESET;\n        } else {")
M("F02", "carrot reset col", SN, '        snippet += "^";\n        if(color) {', '        snippet += "^";\n        if(color && column > 1) {')
M("F02", "file frame drops colour", FM, "            auto str = format(frame, color_override, filename_indent);", "            auto str = format(frame, detail::nullopt, filename_indent);")
M("F02", "column no reset", FM, '                    microfmt::print(stream, ":{}{}{}", color.blue(), frame.column.value(), color.reset());', '                    microfmt::print(stream, ":{}{}", color.blue(), frame.column.value());')
M("F02", "placeholder dropped", FM, '"in {}{}{}", color.yellow(), symbol, color.reset()', '"in {}{}", color.yellow(), symbol, color.reset()')
M("F02", "none wins", FM, "            if(color_override) {\n                return color_override.unwrap();\n            }", "            if(options.color == color_mode::none) {\n                return false;\n            }\n            if(color_override) {\n                return color_override.unwrap();\n            }")
M("F02", "needs tty", FM, "            if(color_override) {\n                return color_override.unwrap();\n            }", "            if(color_override) {\n                return color_override.unwrap() && (options.color == color_mode::always || stream_is_tty(stream));\n            }")
M("F02", "ctrace green always", "src/ctrace.cpp", 'const auto green   = use_color ? ESC "32m" : "";', 'const auto green   = use_color || trace->count > 100 ? ESC "32m" : "";')
M("F02", "to_string ignores", "src/cpptrace.cpp", "    std::string stacktrace::to_string(bool color) const {\n        return get_default_formatter().format(*this, color);", "    std::string stacktrace::to_string(bool color) const {\n        return frames.empty() ? get_default_formatter().format(*this) : get_default_formatter().format(*this, color || frames.size() > 64);")
M("F02", "snippet colour", FM, "                            options.context_lines,\n                            color\n", "                            options.context_lines,\n                            options.color != color_mode::none && color_setting(true).color\n")
M("F02", "format auto tty", FM, "print_internal(oss, trace, color_override.value_or(options.color == color_mode::always));", "print_internal(oss, trace, color_override.value_or(options.color != color_mode::none && isatty(stdout_fileno)));")
M("F02", "early return active", SN, "            auto line_width = line_str.size() + 3;\n", "            auto line_width = line_str.size() + 3;\n            if(line_width > margin_width) {\n                return snippet + line_str;\n            }\n")
M("quiet", "colour ternary", FM, "            if(color_override) {\n                return color_override.unwrap();\n            }\n", "            const bool mode_on = options.color == color_mode::always || (options.color == color_mode::automatic && stream_is_tty(stream));\n            return color_override.value_or(mode_on);\n", checks="F02")
M("quiet", "carrot string", SN, '        if(color) {\n            snippet += YELLOW;\n        }\n        snippet += "^";\n        if(color) {\n            snippet += RESET;\n        }', '        snippet += color ? YELLOW "^" RESET : "^";', checks="F02")
M("quiet", "colour struct", FM, "            detail::string_view blue() const {\n                return color ? BLUE : \"\";\n            }", "            detail::string_view pick(const char* code) const {\n                if(!color) {\n                    return \"\";\n                }\n                return code;\n            }\n            detail::string_view blue() const {\n                return pick(BLUE);\n            }", checks="F02")
M("quiet", "position helper", FM, '                microfmt::print(stream, ":{}{}{}", color.blue(), frame.line.value(), color.reset());', '                write_number(stream, frame.line.value(), color);', FM, "        void write_source_location(", "        void write_number(std::ostream& stream, std::uint32_t number, color_setting color) const {\n            stream << ':' << std::string(color.blue());\n            stream << number;\n            microfmt::print(stream, \"{}\", color.reset());\n        }\n\n        void write_source_location(", checks="F02")
# F03
M("F03", "columns sets break", FM, "options.columns = columns;", "options.break_before_filename = columns;")
M("F03", "raw/object swapped", FM, "options.addresses == address_mode::raw ? frame.raw_address : frame.object_address", "options.addresses == address_mode::object ? frame.raw_address : frame.object_address")
M("F03", "columns ignored in file", FM, "if(frame.column.has_value() && options.columns) {", "if(frame.column.has_value()) {")
M("F03", "basename always", FM, "options.paths == path_mode::full ? frame.filename : detail::basename(frame.filename, true)", "options.snippets ? frame.filename : detail::basename(frame.filename, true)")
M("F03", "file frame overload no indent", FM, "            auto str = format(frame, color_override, filename_indent);", "            auto str = format(frame, color_override);")
M("F03", "print to cout", FM, "            print_internal(stream, trace, color_override);\n            stream << \"\\n\";", "            print_internal(stream, trace, color_override);\n            std::cout << \"\\n\";")
M("F03", "context constant", FM, "                            options.context_lines,", "                            2,")
M("F03", "frame print no transform", FM, "            const stacktrace_frame& frame = options.transform ? transformed_frame.unwrap() : input_frame;\n            write_frame(stream, frame, color, col_indent);", "            (void)transformed_frame;\n            write_frame(stream, input_frame, color, col_indent);")
M("F03", "pretty falls to pruned", FM, "maybe_stored_string = prettify_symbol(frame.symbol);", "maybe_stored_string = prune_symbol(frame.symbol);")
M("F03", "hide inverted", FM, "            if(!options.hide_exception_machinery) {", "            if(options.hide_exception_machinery) {")
M("F03", "placeholder inverted", FM, "if(filter_out_frame && !options.show_filtered_frames) {", "if(filter_out_frame && options.show_filtered_frames) {", checks="F03,F04")
M("F03", "snippets wrapper", "src/cpptrace.cpp", "        detail::get_default_snippet_formatter().print(stream, *this, color);", "        get_default_formatter().print(stream, *this, color);")
M("F03", "wrapper stream", "src/cpptrace.cpp", "        get_default_formatter().print(stream, *this, color);", "        get_default_formatter().print(*this, color);")
M("F03", "header only in stream", FM, "            print_internal(oss, trace, color_override.value_or(options.color == color_mode::always));", "            impl tmp(*this);\n            tmp.options.header = \"\";\n            tmp.print_internal(oss, trace, color_override.value_or(options.color == color_mode::always));")
M("F03", "break swapped", FM, "                if(options.break_before_filename) {", "                if(!options.break_before_filename) {")
M("F03", "filter setter drops", FM, "            options.filter = filter;", "            if(filter) { options.filter = nullptr; }")
# F04
M("F04", "filter sees input", FM, "bool filter_out_frame = options.filter && !options.filter(frame);", "bool filter_out_frame = options.filter && !options.filter(frames[i]);")
M("F04", "counter not consumed", FM, "                if(filter_out_frame && !options.show_filtered_frames) {\n                    counter++;", "                if(filter_out_frame && !options.show_filtered_frames) {")
M("F04", "counter skipped for placeholder", FM, "                    microfmt::print(stream, \"(filtered)\");\n", "                    microfmt::print(stream, \"(filtered)\");\n                    continue;\n")
M("F04", "number is index", FM, "write_frame_number(stream, frame_number_width, counter);", "write_frame_number(stream, frame_number_width, i);")
M("F04", "hide off by one", FM, "return it == trace.end() ? 0 : it - trace.begin() + 1;", "return it == trace.end() ? 0 : it - trace.begin();")
M("F04", "transform twice", FM, "                    write_frame(stream, frame, color, filename_indent);\n                    if(", "                    write_frame(stream, frame, color, filename_indent);\n                    if(options.snippets && options.transform) { transformed_frame = options.transform(transformed_frame.unwrap()); }\n                    if(")
M("F04", "transform only unfiltered", FM, "                if(options.transform) {\n                    transformed_frame = options.transform(frames[i]);\n                }\n                const stacktrace_frame& frame = options.transform ? transformed_frame.unwrap() : frames[i];\n                bool filter_out_frame = options.filter && !options.filter(frame);", "                bool filter_out_frame = options.filter && !options.filter(frames[i]);\n                if(options.transform) {\n                    transformed_frame = options.transform(frames[i]);\n                }\n                const stacktrace_frame& frame = options.transform ? transformed_frame.unwrap() : frames[i];")
M("F04", "stops early", FM, "                if(filter_out_frame && !options.show_filtered_frames) {\n                    counter++;\n                    continue;", "                if(filter_out_frame && !options.show_filtered_frames) {\n                    counter++;\n                    if(counter > 64) { break; }\n                    continue;")
M("F04", "placeholder prints frame", FM, "                    microfmt::print(stream, \"(filtered)\");\n                } else {", "                    microfmt::print(stream, \"(filtered)\");\n                    if(frame.is_inline) { write_symbol(stream, frame, color); }\n                } else {")
M("quiet", "iterator loop", FM, "            const auto& frames = trace.frames;\n", "            const std::vector<stacktrace_frame>& frames = trace.frames;\n", FM, "                size_t filename_indent = write_frame_number(stream, frame_number_width, counter);\n                if(filter_out_frame) {\n                    microfmt::print(stream, \"(filtered)\");\n                } else {", "                const size_t filename_indent = write_frame_number(stream, frame_number_width, counter);\n                if(filter_out_frame) {\n                    stream << \"(filtered)\";\n                } else {", checks="F02,F03,F04")
M("quiet", "snippet helper", FM, "                    if(frame.line.has_value() && !frame.filename.empty() && options.snippets) {\n                        auto snippet = detail::get_snippet(\n                            frame.filename,\n                            frame.line.value(),\n                            frame.column,\n                            options.context_lines,\n                            color\n                        );\n                        if(!snippet.empty()) {\n                            stream << '\\n';\n                            stream << snippet;\n                        }\n                    }\n", "                    if(options.snippets) {\n                        write_snippet(stream, frame, color);\n                    }\n", FM, "        /// Write the frame number, and", "        void write_snippet(std::ostream& stream, const stacktrace_frame& frame, bool color) const {\n            if(frame.filename.empty() || !frame.line.has_value()) {\n                return;\n            }\n            const auto snippet = detail::get_snippet(frame.filename, frame.line.value(), frame.column, options.context_lines, color);\n            if(!snippet.empty()) {\n                stream << '\\n' << snippet;\n            }\n        }\n\n        /// Write the frame number, and", checks="F02,F03,F04")
M("quiet", "frame helper returns ref", FM, "                detail::optional<stacktrace_frame> transformed_frame;\n                if(options.transform) {\n                    transformed_frame = options.transform(frames[i]);\n                }\n                const stacktrace_frame& frame = options.transform ? transformed_frame.unwrap() : frames[i];\n                bool filter_out", "                detail::optional<stacktrace_frame> transformed_frame;\n                const stacktrace_frame* selected = &frames[i];\n                if(options.transform) {\n                    transformed_frame = options.transform(*selected);\n                    selected = &transformed_frame.unwrap();\n                }\n                const stacktrace_frame& frame = *selected;\n                bool filter_out", checks="F02,F03,F04")
M("quiet", "number at loop head", FM, "            std::size_t counter = 0;\n            for(size_t i = get_trace_start(trace); i < frames.size(); ++i) {", "            const size_t start = get_trace_start(trace);\n            for(size_t i = start; i < frames.size(); ++i) {\n                const std::size_t counter = i - start;", FM, "                if(filter_out_frame && !options.show_filtered_frames) {\n                    counter++;", "                if(filter_out_frame && !options.show_filtered_frames) {", FM, "                    stream << '\\n';\n                }\n                counter++;\n", "                    stream << '\\n';\n                }\n", checks="F02,F03,F04")
M("quiet", "hide by loop", FM, "            return it == trace.end() ? 0 : it - trace.begin() + 1;", "            if(it == trace.end()) {\n                return 0;\n            }\n            const auto machinery = std::distance(trace.begin(), it);\n            return static_cast<size_t>(machinery) + 1;", checks="F03,F04")
M("quiet", "hide by index loop", FM, "            auto it = std::find_if(trace.begin(), trace.end(), [] (const stacktrace_frame& frame) {\n                return frame.symbol == \"__cxa_throw\"\n                    || frame.symbol == \"CxxThrowException\"\n                    || frame.symbol == \"_CxxThrowException\";\n            });\n            return it == trace.end() ? 0 : it - trace.begin() + 1;", "            for(size_t k = 0; k < trace.frames.size(); k++) {\n                const auto& symbol = trace.frames[k].symbol;\n                if(symbol == \"__cxa_throw\" || symbol == \"CxxThrowException\" || symbol == \"_CxxThrowException\") {\n                    return k + 1;\n                }\n            }\n            return 0;", checks="F03,F04")
M("quiet", "symbol if chain", FM, "            switch(options.symbols) {\n                case symbol_mode::full:\n                    symbol = frame.symbol;\n                    break;\n                case symbol_mode::pruned:\n                    maybe_stored_string = prune_symbol(frame.symbol);\n                    symbol = maybe_stored_string.unwrap();\n                    break;\n                case symbol_mode::pretty:\n                    maybe_stored_string = prettify_symbol(frame.symbol);\n                    symbol = maybe_stored_string.unwrap();\n                    break;\n                default:\n                    PANIC(\"Unhandled symbol mode\");\n            }", "            if(options.symbols == symbol_mode::full) {\n                symbol = frame.symbol;\n            } else {\n                maybe_stored_string = options.symbols == symbol_mode::pruned ? prune_symbol(frame.symbol) : prettify_symbol(frame.symbol);\n                symbol = maybe_stored_string.unwrap();\n            }", checks="F02,F03,F04")

# ---- V01
BA = "include/cpptrace/basic.hpp"
EQ = """            return raw_address == other.raw_address
                && object_address == other.object_address
                && line == other.line
                && column == other.column
                && filename == other.filename
                && symbol == other.symbol;"""
M("V01", "frame eq ignores column when no line", BA, "                && column == other.column\n", "                && (column == other.column || !line.has_value())\n")
M("V01", "frame eq basename length", BA, "                && filename == other.filename\n", "                && filename.size() == other.filename.size()\n")
M("V01", "frame eq inline", BA, "                && symbol == other.symbol;", "                && symbol == other.symbol\n                && is_inline == other.is_inline;")
M("V01", "frame ne raw only", BA, "return !operator==(other);", "return raw_address != other.raw_address || symbol != other.symbol || line != other.line || object_address != other.object_address || filename != other.filename;")
M("V01", "nullable null eq", BA, "return raw_value == other.raw_value;", "return has_value() && raw_value == other.raw_value;")
M("V01", "nullable reset", BA, "            raw_value = (std::numeric_limits<T>::max)();\n", "            raw_value = T{};\n")
M("V01", "nullable value_or zero", BA, "return has_value() ? raw_value : alternative;", "return has_value() && raw_value != 0 ? raw_value : alternative;")
M("quiet", "frame eq with ifs", BA, EQ, """            if(raw_address != other.raw_address || object_address != other.object_address) { return false; }
            if(!(symbol == other.symbol)) { return false; }
            const bool position = line == other.line && column == other.column;
            return position && filename.compare(other.filename) == 0;""", checks="V01")
M("quiet", "nullable eq by cases", BA, "return raw_value == other.raw_value;", "return has_value() ? (other.has_value() && raw_value == other.raw_value) : !other.has_value();", checks="V01")
M("quiet", "nullable value_or by less", BA, "return has_value() ? raw_value : alternative;", "return raw_value < null_value() ? raw_value : alternative;", checks="V01")

# ---- G02
UT = "src/utils.cpp"
M("G02", "traced prints fresh", UT, "            e.trace().print(std::cerr, isatty(stderr_fileno));\n", "            print_terminate_trace();\n")
M("G02", "no flush", UT, "        std::flush(std::cerr);\n        abort();", "        abort();")
M("G02", "flush cout", UT, "        std::flush(std::cerr);\n", "        std::flush(std::cout);\n")
M("G02", "std::exit", UT, "        std::flush(std::cerr);\n        abort();", "        std::flush(std::cerr);\n        std::_Exit(134);", UT, "#include <iostream>\n", "#include <iostream>\n#include <cstdlib>\n")
M("G02", "nontty returns early", UT, "        } catch(...) {\n            microfmt::print(\n                stderr, \"Term", "        } catch(...) {\n            if(!isatty(stderr_fileno)) {\n                abort();\n            }\n            microfmt::print(\n                stderr, \"Term")
M("G02", "stdout", UT, "                stderr, \"Terminate called after throwing an instance of {}: {}\\n\"", "                stdout, \"Terminate called after throwing an instance of {}: {}\\n\"")
M("G02", "what dropped", UT, "instance of {}: {}\\n\", demangle(typeid(e).name()), e.what()\n", "instance of {}: {}\\n\", demangle(typeid(e).name()), \"unknown\"\n")
M("G02", "catch order", UT, "        } catch(cpptrace::exception& e) {", "        } catch(cpptrace::lazy_exception& e) {")
M("G02", "trace first", UT, "            microfmt::print(\n                stderr, \"Terminate called after throwing an instance of {}\\n\", detail::exception_type_name()\n            );\n            print_terminate_trace();", "            print_terminate_trace();\n            microfmt::print(\n                stderr, \"Terminate called after throwing an instance of {}\\n\", detail::exception_type_name()\n            );")
M("G02", "register once", UT, "        std::set_terminate(terminate_handler);", "        if(std::get_terminate() == abort) {\n            std::set_terminate(terminate_handler);\n        }")
M("G02", "no exception silent", UT, "                fputs(\"terminate called without an active exception\", stderr);\n                print_terminate_trace();", "                fputs(\"terminate called without an active exception\", stderr);")
M("G02", "own trace to cout", UT, "e.trace().print(std::cerr, isatty(stderr_fileno));", "e.trace().print(std::cout, isatty(stderr_fileno));")
M("quiet", "terminate shared describe", UT, "    [[noreturn]] void MSVC_CDECL terminate_handler() {", "    static void describe(const std::string& type, const char* text) {\n        std::string message = \"Terminate called after throwing an instance of \" + type;\n        if(text) {\n            message += \": \";\n            message += text;\n        }\n        message += '\\n';\n        fputs(message.c_str(), stderr);\n    }\n\n    [[noreturn]] void MSVC_CDECL terminate_handler() {", UT, """            microfmt::print(
                stderr,
                "Terminate called after throwing an instance of {}: {}\\n",
                demangle(typeid(e).name()),
                e.message()
            );
""", "            describe(demangle(typeid(e).name()), e.message());\n", UT, """            microfmt::print(
                stderr, "Terminate called after throwing an instance of {}: {}\\n", demangle(typeid(e).name()), e.what()
            );
""", "            describe(demangle(typeid(e).name()), e.what());\n", checks="G02")
M("quiet", "terminate early branch", UT, """        try {
            auto ptr = std::current_exception();
            if(ptr == nullptr) {
                fputs("terminate called without an active exception", stderr);
                print_terminate_trace();
            } else {
                std::rethrow_exception(ptr);
            }
        }""", """        const std::exception_ptr pending = std::current_exception();
        if(!pending) {
            fputs("terminate called without an active exception", stderr);
            print_terminate_trace();
            std::cerr.flush();
            std::abort();
        }
        try {
            std::rethrow_exception(pending);
        }""", checks="G02")
M("quiet", "terminate trace variable", UT, "            e.trace().print(std::cerr, isatty(stderr_fileno));\n", "            const bool color = isatty(stderr_fileno);\n            const stacktrace& trace = e.trace();\n            trace.print(std::cerr, color);\n", UT, "            get_default_formatter().print(std::cerr, generate_trace(1));", "            const auto trace = generate_trace(1);\n            const auto& formatter = get_default_formatter();\n            formatter.print(std::cerr, trace);", checks="G02,T01")

# ---- E05
FC = "src/from_current.cpp"
FH = "include/cpptrace/from_current.hpp"
MMP = "src/platform/memory_mapping.cpp"
M("E05", "interceptor reports catch", FH, "                 maybe_collect_trace(&typeid(T), throw_type, throw_obj, outer);\n                 return false;", "                 maybe_collect_trace(&typeid(T), throw_type, throw_obj, outer);\n                 return throw_obj == nullptr;")
M("E05", "collect unconditionally", FC, "            if(detail::can_catch(type, throw_type, throw_obj, outer)) {\n                collect_current_trace(2);", "            if(detail::can_catch(type, throw_type, throw_obj, outer) || outer > 1) {\n                collect_current_trace(2);")
M("E05", "collect before asking", FC, "            if(detail::can_catch(type, throw_type, throw_obj, outer)) {\n                collect_current_trace(2);\n            }", "            collect_current_trace(2);\n            (void)detail::can_catch(type, throw_type, throw_obj, outer);")
M("E05", "wrong slot asked", FC, "(type_info_vtable_pointer[6]);", "(type_info_vtable_pointer[7]);")
M("E05", "outer dropped", FC, "return can_catch_fn(type, throw_type, throw_obj, outer);", "return can_catch_fn(type, throw_type, throw_obj, 1);\n        (void)outer;")
M("E05", "not restored", FC, "        mprotect_page(reinterpret_cast<void*>(page_addr), page_size, old_protections);\n", "        (void)old_protections;\n")
M("E05", "restored readonly", FC, "        mprotect_page(reinterpret_cast<void*>(page_addr), page_size, old_protections);\n", "        (void)old_protections;\n        mprotect_page(reinterpret_cast<void*>(page_addr), page_size, memory_readonly);\n")
M("E05", "restored wrong page", FC, "        mprotect_page(reinterpret_cast<void*>(page_addr), page_size, old_protections);\n", "        mprotect_page(new_vtable_page, page_size, old_protections);\n")
M("E05", "new table rw", FC, "mprotect_page(new_vtable_page, page_size, memory_readonly);", "mprotect_page(new_vtable_page, page_size, memory_readwrite);")
M("E05", "sealed after publish", FC, "        mprotect_page(new_vtable_page, page_size, memory_readonly);\n", "", FC, "        mprotect_page(reinterpret_cast<void*>(page_addr), page_size, old_protections);\n", "        mprotect_page(reinterpret_cast<void*>(page_addr), page_size, old_protections);\n        mprotect_page(new_vtable_page, page_size, memory_readonly);\n")
M("E05", "partial copy", FC, "std::memcpy(new_vtable_page, type_info_vtable_pointer, vtable_size * sizeof(void*));", "std::memcpy(new_vtable_page, type_info_vtable_pointer, (vtable_size - 1) * sizeof(void*));")
M("E05", "copies from the address point", FC, "std::memcpy(new_vtable_page, type_info_vtable_pointer, vtable_size * sizeof(void*));", "std::memcpy(new_vtable_page, type_info_vtable_pointer + 2, vtable_size * sizeof(void*));")
M("E05", "shared table edited", FC, "        new_vtable[6] = reinterpret_cast<void*>(", "        type_info_vtable_pointer[6] = reinterpret_cast<void*>(")
M("E05", "another slot too", FC, "        // make the page read-only\n", "        new_vtable[7] = new_vtable[6];\n")
M("E05", "no unknown catch", FC, """            } catch(std::exception& e) {
                detail::log::error("Exception occurred while preparing from_current support: {}", e.what());
            } catch(...) {
                detail::log::error("Unknown exception occurred while preparing from_current support");
            }""", """            } catch(std::exception& e) {
                detail::log::error("Exception occurred while preparing from_current support: {}", e.what());
                throw;
            }""")
M("E05", "propagates", FC, """                detail::log::error("Exception occurred while preparing from_current support: {}", e.what());
            } catch""", """                (void)e;
                detail::log_and_maybe_propagate_exception(std::current_exception());
            } catch""")
M("E05", "write permission letter", MMP, "        if(w == 'w') {", "        if(w == 'x') {")
M("E05", "protections after opening", MMP, "        auto old_protections = get_page_protections(page);\n        mprotect_page(page, page_size, protections);\n", "        mprotect_page(page, page_size, protections);\n        auto old_protections = get_page_protections(page);\n")
M("E05", "mprotect unchecked", MMP, "        if(mprotect(page, page_size, protections) != 0) {\n            throw internal_error(\"mprotect call failed: {}\", strerror(errno));\n        }", "        (void)mprotect(page, page_size, protections);")
M("E05", "mmap unchecked", MMP, "        if(page == MAP_FAILED) {", "        if(page == nullptr) {")
M("E05", "page address of the table", FC, "auto page_addr = type_info_addr & ~(page_size - 1);", "auto page_addr = reinterpret_cast<uintptr_t>(new_vtable_page) & ~(page_size - 1);")
M("E05", "asks for this type", FH, "maybe_collect_trace(&typeid(T), throw_type, throw_obj, outer);", "maybe_collect_trace(&typeid(unwind_interceptor<T>), throw_type, throw_obj, outer);")
M("quiet", "surgery helpers", FC, "    void perform_typeinfo_surgery(const std::type_info& info,", """    static void** make_table(void** original, int page_size, void* entry) {
        void** table = static_cast<void**>(allocate_page(page_size));
        std::memcpy(table, original, vtable_size * sizeof(void*));
        table[6] = entry;
        mprotect_page(table, page_size, memory_readonly);
        return table;
    }
    void perform_typeinfo_surgery(const std::type_info& info,""", FC, """        void* new_vtable_page = allocate_page(page_size);
""", """        void** new_vtable = make_table(type_info_vtable_pointer, page_size, reinterpret_cast<void*>(reinterpret_cast<std::uintptr_t>(do_catch_function)));
        void* new_vtable_page = new_vtable;
""", FC, "        std::memcpy(new_vtable_page, type_info_vtable_pointer, vtable_size * sizeof(void*));\n", "", FC, "        auto new_vtable = static_cast<void**>(new_vtable_page);\n", "", FC, "        new_vtable[6] = reinterpret_cast<void*>(reinterpret_cast<std::uintptr_t>(do_catch_function));\n", "", FC, "        mprotect_page(new_vtable_page, page_size, memory_readonly);\n", "", checks="E05")
M("quiet", "surgery loop copy", FC, "        std::memcpy(new_vtable_page, type_info_vtable_pointer, vtable_size * sizeof(void*));\n        // ninja in the custom __do_catch interceptor\n        auto new_vtable = static_cast<void**>(new_vtable_page);\n", "        auto new_vtable = static_cast<void**>(new_vtable_page);\n        for(std::size_t i = 0; i < vtable_size; i++) {\n            new_vtable[i] = type_info_vtable_pointer[i];\n        }\n", checks="E05")
M("quiet", "surgery early returns", FC, "            if(detail::can_catch(type, throw_type, throw_obj, outer)) {\n                collect_current_trace(2);\n            }", "            const bool would_catch = detail::can_catch(type, throw_type, throw_obj, outer);\n            if(!would_catch) {\n                return;\n            }\n            collect_current_trace(2);", checks="E05")
M("quiet", "permissions by expression", MMP, """        int perms = 0;
        if(r == 'r') {
            perms |= PROT_READ;
        }
        if(w == 'w') {
            perms |= PROT_WRITE;
        }
        if(x == 'x') {
            perms |= PROT_EXEC;
        }
        stream.ignore""", """        const int perms = (r == 'r' ? PROT_READ : 0) | (w == 'w' ? PROT_WRITE : 0) | (x == 'x' ? PROT_EXEC : 0);
        stream.ignore""", checks="E05")
M("quiet", "permissions helper", MMP, "    // returns nullopt on eof\n", "    static void set_if(int& perms, char actual, char expected, int bit) {\n        if(actual == expected) {\n            perms |= bit;\n        }\n    }\n\n    // returns nullopt on eof\n", MMP, """        if(r == 'r') {
            perms |= PROT_READ;
        }
        if(w == 'w') {
            perms |= PROT_WRITE;
        }
        if(x == 'x') {
            perms |= PROT_EXEC;
        }
        stream.ignore""", """        set_if(perms, r, 'r', PROT_READ);
        set_if(perms, w, 'w', PROT_WRITE);
        set_if(perms, x, 'x', PROT_EXEC);
        stream.ignore""", checks="E05")

# ---- M05
EL = "src/binary/elf.cpp"
PS = "src/prune_symbol.cpp"
JO = "src/jit/jit_objects.cpp"
M("M05", "symtab not tested", EL, "        if(!maybe_symtab) {\n            return nullopt;\n        }\n", "")
M("M05", "strtab error ignored", EL, "        auto strtab_ = get_strtab(symtab.strtab_link);\n        if(strtab_.is_error()) {\n            return nullopt;\n        }", "        auto strtab_ = get_strtab(symtab.strtab_link);")
M("M05", "inner optional unchecked", EL, "        if(!symtab.unwrap_value()) {\n            return nullopt;\n        }\n", "")
M("M05", "tests the other object", EL, "                strtab.has_value() ? strtab.unwrap()", "                symtab.has_value() ? strtab.unwrap()")
M("M05", "swapped arms", EL, "        if(header) {\n            return header.unwrap();\n        }\n        if(tried_to_load_header) {", "        if(header || tried_to_load_header) {\n            return header.unwrap();\n        }\n        if(tried_to_load_header) {")
M("M05", "dl base unchecked", "src/symbols/symbols_with_dl.cpp", "                base.has_value()\n", "                info.dli_fbase != nullptr\n")
M("M05", "error kept when value", "src/binary/module_base.cpp", "            auto base = elf_object.unwrap_value()->get_module_image_base();\n            if(base.is_error()) {", "            auto base = elf_object.unwrap_value()->get_module_image_base();\n            if(!base.is_error()) {")
M("M05", "pruned fallthrough", "src/formatting.cpp", "                    maybe_stored_string = prune_symbol(frame.symbol);\n                    symbol = maybe_stored_string.unwrap();\n                    break;", "                    if(!frame.symbol.empty()) {\n                        maybe_stored_string = prune_symbol(frame.symbol);\n                    }\n                    symbol = maybe_stored_string.unwrap();\n                    break;")
M("M05", "transform condition drift", "src/formatting.cpp", "                if(options.transform) {\n                    transformed_frame = options.transform(frames[i]);\n                }", "                if(options.transform && !frames[i].is_inline) {\n                    transformed_frame = options.transform(frames[i]);\n                }")
M("M05", "op2 unchecked", PS, "                        if(!op2 || op2.unwrap().str != get_corresponding", "                        if(op2 && op2.unwrap().str != get_corresponding")
M("M05", "literal name unchecked", PS, "                        if(!name) {\n                            return parse_error{};\n                        }\n                        append_output(literal.unwrap());", "                        append_output(literal.unwrap());")
M("M05", "snippet lines unchecked", "src/snippets/snippet.cpp", "        if(!context_res) {\n            return \"\";\n        }\n", "")
M("M05", "jit ranges unchecked", JO, "                if(!should_absorb_trace_exceptions()) {\n                    ranges_res.drop_error();\n                }\n                return;\n", "                if(!should_absorb_trace_exceptions()) {\n                    ranges_res.drop_error();\n                    return;\n                }\n")
M("M05", "reset before use", PS, "            source.advance(next.unwrap().str.size());\n            next_token.reset();\n            return next;", "            next_token.reset();\n            source.advance(next_token.unwrap().str.size());\n            return next;")
M("M05", "retries return nothing", "src/platform/memory_mapping.cpp", "        throw internal_error(\"Couldn't successfully load /proc/self/maps after {} retries\", n);", "        return nullopt;")
M("quiet", "opt helper predicate", EL, "    optional<std::string> elf::lookup_symbol(frame_ptr pc, const optional<symtab_info>& maybe_symtab) {\n        if(!maybe_symtab) {", "    template<typename T> static bool missing(const optional<T>& o) {\n        return !o.has_value();\n    }\n    template<typename T, typename E> static bool failed(const Result<T, E>& r) {\n        return r.is_error();\n    }\n    optional<std::string> elf::lookup_symbol(frame_ptr pc, const optional<symtab_info>& maybe_symtab) {\n        if(missing(maybe_symtab)) {", EL, "        auto strtab_ = get_strtab(symtab.strtab_link);\n        if(strtab_.is_error()) {", "        auto strtab_ = get_strtab(symtab.strtab_link);\n        if(failed(strtab_)) {", checks="M05")
M("quiet", "opt named flags", "src/symbols/symbols_with_dl.cpp", "            auto base = get_module_image_base(info.dli_fname);\n", "            auto base = get_module_image_base(info.dli_fname);\n            const bool known = base.has_value();\n", "src/symbols/symbols_with_dl.cpp", "                base.has_value()\n", "                known\n", checks="M05")
M("quiet", "opt transform flag", "src/formatting.cpp", "                detail::optional<stacktrace_frame> transformed_frame;\n                if(options.transform) {\n                    transformed_frame = options.transform(frames[i]);\n                }\n                const stacktrace_frame& frame = options.transform ? transformed_frame.unwrap() : frames[i];", "                detail::optional<stacktrace_frame> transformed_frame = maybe_transform(frames[i]);\n                const stacktrace_frame& frame = transformed_frame ? transformed_frame.unwrap() : frames[i];", "src/formatting.cpp", "        void write_trace(std::ostream& stream, const stacktrace& trace, bool color) const {", "        detail::optional<stacktrace_frame> maybe_transform(const stacktrace_frame& frame) const {\n            if(!options.transform) {\n                return detail::nullopt;\n            }\n            return options.transform(frame);\n        }\n        void write_trace(std::ostream& stream, const stacktrace& trace, bool color) const {", checks="M05,V01,F04")
M("quiet", "opt inverted arms", "src/binary/object.cpp", "            if(base.has_value()) {\n                frame.object_address = address\n                                        - reinterpret_cast<std::uintptr_t>(info.dli_fbase)\n                                        + base.unwrap_value();\n            } else {\n                if(!should_absorb_trace_exceptions()) {\n                    base.drop_error();\n                }\n            }", "            if(!base) {\n                if(!should_absorb_trace_exceptions()) {\n                    base.drop_error();\n                }\n            } else {\n                frame.object_address = address\n                                        - reinterpret_cast<std::uintptr_t>(info.dli_fbase)\n                                        + base.unwrap_value();\n            }", checks="M05,T03,V01")
M("quiet", "opt unwrap helper", PS, "            source.advance(next.unwrap().str.size());\n            next_token.reset();", "            skip_over(next);\n            next_token.reset();", PS, "        Result<optional<token>, parse_error> advance(bool in_template_argument_list = false) {", "        void skip_over(const optional<token>& t) {\n            source.advance(t.unwrap().str.size());\n        }\n        Result<optional<token>, parse_error> advance(bool in_template_argument_list = false) {", checks="M05")
M("quiet", "opt lambda", "src/binary/module_base.cpp", "            auto base = elf_object.unwrap_value()->get_module_image_base();\n", "            auto get = [&] { return elf_object.unwrap_value()->get_module_image_base(); };\n            auto base = get();\n", checks="M05,L02")
M("quiet", "opt both conditions", EL, "        if(auto symtab = get_symtab()) {\n            if(auto symbol = lookup_symbol(pc, symtab.unwrap_value())) {\n                return symbol;\n            }\n        }", "        auto symtab = get_symtab();\n        const bool usable = symtab && symtab.unwrap_value();\n        if(usable) {\n            if(auto symbol = lookup_symbol(pc, symtab.unwrap_value())) {\n                return symbol;\n            }\n        }", checks="M05")

SP = "src/snippets/snippet.cpp"
M("M03", "trim without target check", SP, "if(target_line == 0 || target_line >= manager.num_lines()) {", "if(target_line == 0) {")
M("M03", "trim target off by one", SP, "target_line >= manager.num_lines()", "target_line > manager.num_lines()")
M("M03", "context sum wraps", SP, "auto end = context_size >= last_line - target_line ? last_line : target_line + context_size;", "auto end = std::min(target_line + context_size, last_line);")
M("M03", "begin wraps", SP, "target_line <= context_size ? 1 : target_line - context_size", "target_line < context_size - 1 ? 1 : target_line - context_size")
M("M03", "trailing trim passes target", SP, "while(end > target_line && lines", "while(end >= target_line && lines")
M("M03", "leading trim passes target", SP, "while(begin < target_line && lines[begin - original_begin].empty())", "while(begin <= target_line && lines[begin - original_begin].empty())")
M("M03", "lines indexed from begin", SP, "context.lines[line - context.original_begin]", "context.lines[line - context.begin + 1]")
M("M03", "get_line bound", SP, "!loaded_contents || line >= line_table.size()", "!loaded_contents", SP, "manager.num_lines() - 1;", "manager.num_lines();")
M("M03", "line start after terminator", SP, "pos = terminator_pos + 1;", "pos = terminator_pos + 2;")
M("M03", "cr check without bound", SP, "if(end_pos > 0 && contents[end_pos - 1] == '\\r')", "if(contents[end_pos - 1] == '\\r')")
M("M03", "no size limit", SP, "size == std::ifstream::pos_type(-1) || size > max_size", "size == std::ifstream::pos_type(-1)")
M("M03", "size failure unchecked", SP, "size == std::ifstream::pos_type(-1) || size > max_size", "size > max_size")
M("M03", "resize short", SP, "contents.resize(to<std::size_t>(size));", "contents.resize(to<std::size_t>(size) / 2);")
M("M03", "target zero", SP, "target_line == 0 || target_line", "target_line")
M("M03", "stop early", SP, "line <= context.end; line++", "line < context.end; line++")
M("M03", "substr throws", SP, "contents.substr(line_table[line].begin, line_table[line].end - line_table[line].begin)", "contents.substr(line_table[line].begin + 1, line_table[line].end - line_table[line].begin)")
M("quiet", "snippet helper for range", SP, "    optional<snippet_context> get_lines(", """    std::size_t clamp_end(std::size_t target, std::size_t ctx, std::size_t last) {
        if(last - target <= ctx) {
            return last;
        }
        return target + ctx;
    }

    optional<snippet_context> get_lines(""", SP, "auto end = context_size >= last_line - target_line ? last_line : target_line + context_size;", "auto end = clamp_end(target_line, context_size, last_line);", checks="M03")
M("quiet", "snippet while collect", SP, """        for(auto line = begin; line <= end; line++) {
            lines.push_back(manager.get_line(line));
        }""", """        auto current = begin;
        lines.reserve(end - begin + 1);
        while(current <= end) {
            lines.emplace_back(manager.get_line(current));
            ++current;
        }""", checks="M03")
M("quiet", "snippet get_line early return", SP, """            if(!loaded_contents || line >= line_table.size()) {
                return "";
            } else {
                return contents.substr(line_table[line].begin, line_table[line].end - line_table[line].begin);
            }""", """            if(!loaded_contents) {
                return "";
            }
            if(line >= line_table.size()) {
                return "";
            }
            const auto& range = line_table[line];
            return contents.substr(range.begin, range.end - range.begin);""", checks="M03,F03")
M("quiet", "snippet line loop", SP, """        for(auto line = context.begin; line <= context.end; line++) {
            snippet += write_line(line, column, target_line, color, context);
            if(line != context.end) {
                snippet += '\\n';
            }
        }""", """        auto line = context.begin;
        while(true) {
            snippet += write_line(line, column, target_line, color, context);
            if(line == context.end) {
                break;
            }
            snippet += '\\n';
            line++;
        }""", checks="M03")
M("quiet", "snippet table loop", SP, """            while(true) {
                // find the end of the current line
                std::size_t terminator_pos = contents.find('\\n', pos);
                if(terminator_pos == std::string::npos) {
                    line_table.push_back({pos, contents.size()});
                    break;
                } else {""", """            for(;;) {
                // find the end of the current line
                const std::size_t terminator_pos = contents.find('\\n', pos);
                if(terminator_pos == std::string::npos) {
                    line_table.push_back({pos, contents.size()});
                    return;
                }
                {""", checks="M03")

M("J01", "ranges not purged", JO, """            range_list.erase(
                std::remove_if(
                    range_list.begin(),
                    range_list.end(),
                    [&](const range_entry& entry) { return entry.object_start == ptr; }
                ),
                range_list.end()
            );
""", "")
M("J01", "purge by low", JO, "[&](const range_entry& entry) { return entry.object_start == ptr; }", "[&](const range_entry& entry) { return entry.low == reinterpret_cast<frame_ptr>(ptr); }")
M("J01", "purge by inequality", JO, "[&](const range_entry& entry) { return entry.object_start == ptr; }", "[&](const range_entry& entry) { return entry.object_start <= ptr; }")
M("J01", "clear misses ranges", JO, "            objects.clear();\n            range_list.clear();", "            objects.clear();")
M("J01", "clear misses ranges conditionally", JO, "            range_list.clear();\n", "            if(range_list.size() > 1) range_list.clear();\n")
M("J01", "inclusive high", JO, "if(pc < it->high)", "if(pc <= it->high)")
M("J01", "no high", JO, "if(pc < it->high)", "if(pc >= it->low)")
M("J01", "unsorted", JO, "range_list.insert(std::upper_bound(range_list.begin(), range_list.end(), entry), entry);", "range_list.push_back(entry);")
M("J01", "sorted by high", JO, "return low < other.low;", "return high < other.high;")
M("J01", "registered before ranges", JO, "            auto ranges_res = object_file->get_pc_ranges();", "            objects.push_back({object.data(), std::move(object_ptr)});\n            auto ranges_res = object_file->get_pc_ranges();", JO, "            std::lock_guard<std::mutex> lock(mutex);\n            objects.push_back({object.data(), std::move(object_ptr)});\n", "            std::lock_guard<std::mutex> lock(mutex);\n")
M("J01", "swapped bounds", JO, "range_entry entry{range.low, range.high, object.data(), object_file};", "range_entry entry{range.high, range.low, object.data(), object_file};")
M("J01", "key past start", JO, "range_entry entry{range.low, range.high, object.data(), object_file};", "range_entry entry{range.low, range.high, object.data() + 1, object_file};")
M("J01", "object purge early return", JO, "        void remove_jit_object(const char* ptr) {\n            std::lock_guard<std::mutex> lock(mutex);", "        void remove_jit_object(const char* ptr) {\n            std::lock_guard<std::mutex> lock(mutex);\n            if(objects.size() == 1 && objects[0].object_start == ptr) { objects.clear(); return; }")
M("J01", "lookup comparator", JO, "return pc < entry.low;", "return pc <= entry.low;")
M("J01", "partial purge", JO, "                    range_list.begin(),\n                    range_list.end(),\n                    [&](const range_entry& entry) {", "                    range_list.begin() + (range_list.empty() ? 0 : 1),\n                    range_list.end(),\n                    [&](const range_entry& entry) {")
M("quiet", "jit purge helper", JO, """        void remove_jit_object(const char* ptr) {
            std::lock_guard<std::mutex> lock(mutex);
            // TODO: Perf
            objects.erase(
                std::remove_if(
                    objects.begin(),
                    objects.end(),
                    [&](const object_entry& entry) { return entry.object_start == ptr; }
                ),
                objects.end()
            );
            range_list.erase(
                std::remove_if(
                    range_list.begin(),
                    range_list.end(),
                    [&](const range_entry& entry) { return entry.object_start == ptr; }
                ),
                range_list.end()
            );
        }""", """        template<typename T> static void purge(std::vector<T>& table, const char* ptr) {
            auto end = std::remove_if(table.begin(), table.end(), [ptr](const T& entry) { return ptr == entry.object_start; });
            table.erase(end, table.end());
        }

        void remove_jit_object(const char* ptr) {
            std::lock_guard<std::mutex> lock(mutex);
            purge(range_list, ptr);
            purge(objects, ptr);
        }""", checks="J01")
M("quiet", "jit lookup restructured", JO, """            ASSERT(pc >= it->low);
            if(pc < it->high) {
                return jit_object_lookup_result{*it->object, it->low};
            } else {
                return nullopt;
            }""", """            ASSERT(pc >= it->low);
            const range_entry& found = *it;
            if(found.high <= pc) {
                return nullopt;
            }
            return jit_object_lookup_result{*found.object, found.low};""", checks="J01")
M("quiet", "jit purge loop", JO, """            range_list.erase(
                std::remove_if(
                    range_list.begin(),
                    range_list.end(),
                    [&](const range_entry& entry) { return entry.object_start == ptr; }
                ),
                range_list.end()
            );
""", """            for(auto it = range_list.begin(); it != range_list.end(); ) {
                if(it->object_start == ptr) {
                    it = range_list.erase(it);
                } else {
                    ++it;
                }
            }
""", checks="J01")
M("quiet", "jit insert reordered", JO, """            objects.push_back({object.data(), std::move(object_ptr)});
            for(auto range : ranges) {
                range_entry entry{range.low, range.high, object.data(), object_file};
                // TODO: Perf
                range_list.insert(std::upper_bound(range_list.begin(), range_list.end(), entry), entry);
            }""", """            const char* key = object.data();
            object_entry owner{key, std::move(object_ptr)};
            objects.push_back(std::move(owner));
            for(const auto& range : ranges) {
                range_entry entry{};
                entry.low = range.low;
                entry.high = range.high;
                entry.object = object_file;
                entry.object_start = key;
                auto position = std::upper_bound(range_list.begin(), range_list.end(), entry);
                range_list.insert(position, entry);
            }""", checks="J01")

# ---- M01
MV = "src/utils/io/memory_file_view.cpp"
FI = "src/utils/io/file.cpp"
M("M01", "elf view check wraps", MV, "if(buffer.size() > data.size() || to<std::size_t>(offset) > data.size() - buffer.size()) {", "if(offset + buffer.size() > data.size()) {")
M("M01", "elf view off by one", MV, "to<std::size_t>(offset) > data.size() - buffer.size()", "to<std::size_t>(offset) > data.size() - buffer.size() + 1")
M("M01", "elf symbol name check", EL, "it->st_value + it->st_size && it->st_name < strtab.size()", "it->st_value + it->st_size && it->st_name <= strtab.size()")
M("M01", "elf section name unchecked", EL, "if(section.sh_name >= strtab.size()) {", "if(section.sh_name == strtab.size()) {")
M("M01", "elf entry name unchecked", EL, "strtab.has_value() && entry.st_name < strtab.unwrap().size() ? strtab", "strtab.has_value() ? strtab")
M("M01", "elf strtab wrap", EL, "if(section.sh_size >= (std::numeric_limits<std::size_t>::max)()) {", "if(section.sh_size > (std::numeric_limits<std::size_t>::max)()) {")
M("M01", "elf section index", EL, "if(index >= sections.size()) {", "if(index > sections.size()) {")
M("M01", "elf unswapped link", EL, "info.sh_link = byteswap_if_needed(section_header.sh_link);", "info.sh_link = section_header.sh_link;")
M("M01", "elf unswapped shndx", EL, "normalized.st_shndx = byteswap_if_needed(entry.st_shndx);", "normalized.st_shndx = entry.st_shndx;")
M("M01", "elf unswapped type", EL, "if(byteswap_if_needed(program_header.p_type) == PT_PHDR) {", "if(program_header.p_type == PT_PHDR) {")
M("M01", "elf ehsize", EL, "if(byteswap_if_needed(file_header.e_ehsize) != sizeof(Header)) {", "if(file_header.e_ehsize != sizeof(Header)) {")
M("M01", "elf swap inverted", EL, "if(detail::is_little_endian() == is_little_endian) {", "if(detail::is_little_endian() != is_little_endian) {")
M("M01", "elf data encoding", EL, "bool is_little_endian = ei_data.unwrap_value() == 1;", "bool is_little_endian = ei_data.unwrap_value() == 2;")
M("M01", "elf short read", FI, "if(std::fread(buffer.data(), buffer.size(), 1, file_obj) != 1) {", "if(std::fread(buffer.data(), 1, buffer.size(), file_obj) == 0) {")
M("M01", "elf seek unchecked", FI, "if(std::fseek(file_obj, offset, SEEK_SET) != 0) {", "if(std::fseek(file_obj, offset, SEEK_SET) > 0) {")
M("M01", "elf no end check", EL, "if(it == symtab.entries.end()) {", "if(symtab.entries.empty()) {")
M("M01", "elf swap 32 typo", "src/utils/utils.hpp", "((val & 0x0000ff00) <<  8) |\n                    ((val & 0x000000ff) << 24));", "((val & 0x0000ff00) <<  8) |\n                    ((val & 0x000000ff) << 16));")
M("M01", "elf strtab not terminated", EL, "entry.data.resize(section.sh_size + 1);", "entry.data.resize(section.sh_size);", EL, "        entry.data[section.sh_size] = 0; // just out of an abundance of caution\n", "")
M("M01", "elf search start", "src/utils/utils.hpp", "value, compare);\n        // it is first > value, we want first <= value\n        if(it != begin) {", "value, compare);\n        // it is first > value, we want first <= value\n        if(it != end) {")
M("quiet", "elf view check rewritten", MV, "if(buffer.size() > data.size() || to<std::size_t>(offset) > data.size() - buffer.size()) {", "const auto start = to<std::size_t>(offset);\n        if(start > data.size() || data.size() - start < buffer.size()) {", checks="M01")
M("quiet", "elf fread counts bytes", FI, "if(std::fread(buffer.data(), buffer.size(), 1, file_obj) != 1) {", "const auto got = std::fread(buffer.data(), 1, buffer.size(), file_obj);\n        if(got != buffer.size()) {", checks="M01")
M("quiet", "elf pc ranges index loop", EL, "        for(const auto& section : sections) {\n            if(section.sh_name", "        for(std::size_t i = 0; i < sections.size(); i++) {\n            const auto& section = sections[i];\n            if(section.sh_name", checks="M01")
M("quiet", "elf name helper", EL, "    Result<std::vector<elf::pc_range>, internal_error> elf::get_pc_ranges() {", """    static const char* string_at(const std::vector<char>& table, std::size_t offset) {
        if(offset < table.size()) {
            return table.data() + offset;
        }
        return nullptr;
    }

    Result<std::vector<elf::pc_range>, internal_error> elf::get_pc_ranges() {""", EL, """            if(section.sh_name >= strtab.size()) {
                return internal_error("section name out of range in {}", file->path());
            }
            if(string_view(strtab.data() + section.sh_name) == ".text") {""", """            const char* name = string_at(strtab, section.sh_name);
            if(!name) {
                return internal_error("section name out of range in {}", file->path());
            }
            if(string_view(name) == ".text") {""", checks="M01")
M("quiet", "elf lookup nested", EL, """        if(pc <= it->st_value + it->st_size && it->st_name < strtab.size()) {
            return strtab.data() + it->st_name;
        }
        return nullopt;""", """        const auto& symbol = *it;
        if(pc > symbol.st_value + symbol.st_size) {
            return nullopt;
        }
        const std::size_t name = symbol.st_name;
        if(name >= strtab.size()) {
            return nullopt;
        }
        return std::string(strtab.data() + name);""", checks="M01")
M("quiet", "elf strtab local size", EL, """        entry.data.resize(section.sh_size + 1);
        auto read_res = file->read_bytes(
            span<char>{entry.data.data(), to<std::size_t>(section.sh_size)},
            section.sh_offset
        );""", """        const auto table_size = to<std::size_t>(section.sh_size);
        std::vector<char> table(table_size + 1);
        auto read_res = file->read_bytes(span<char>{table.data(), table_size}, section.sh_offset);""", EL, "        entry.data[section.sh_size] = 0; // just out of an abundance of caution\n", "        entry.data = std::move(table);\n", checks="M01")
M("quiet", "elf swap ternary", EL, """        if(detail::is_little_endian() == is_little_endian) {
            return value;
        } else {
            return byteswap(value);
        }""", """        const bool same_order = is_little_endian == detail::is_little_endian();
        return same_order ? value : byteswap(value);""", checks="M01")

# ---------------------------------------------------------------- S02
SD = "src/binary/safe_dl.cpp"; UL = "src/unwind/unwind_with_libunwind.cpp"
TRUNC = """                std::size_t path_length = std::min(
                    std::strlen(result.dlfo_link_map->l_name),
                    std::size_t(CPPTRACE_PATH_MAX)
                );
                std::memcpy(out->object_path, result.dlfo_link_map->l_name, path_length);
                out->object_path[path_length] = 0;
"""
M("S02", "safe frame unterminated", SD, TRUNC, """                std::size_t path_length = std::strlen(result.dlfo_link_map->l_name);
                std::memcpy(out->object_path, result.dlfo_link_map->l_name, std::min(path_length + 1, std::size_t(CPPTRACE_PATH_MAX + 1)));
""")
M("S02", "safe frame off by one", SD, TRUNC, TRUNC.replace("std::size_t(CPPTRACE_PATH_MAX)", "std::size_t(CPPTRACE_PATH_MAX + 1)"))
M("S02", "safe frame strcpy", SD, TRUNC, "                std::strcpy(out->object_path, result.dlfo_link_map->l_name);\n")
M("S02", "safe frame strncpy full", SD, TRUNC, "                std::strncpy(out->object_path, result.dlfo_link_map->l_name, CPPTRACE_PATH_MAX + 1);\n")
M("S02", "safe frame memset dropped", SD, "                memset(out->object_path, 0, CPPTRACE_PATH_MAX + 1);\n", "")
M("S02", "safe frame memset short", SD, "memset(out->object_path, 0, CPPTRACE_PATH_MAX + 1);", "memset(out->object_path, 0, CPPTRACE_PATH_MAX);")
M("S02", "safe frame readlink full", SD, 'readlink("/proc/self/exe", out->object_path, CPPTRACE_PATH_MAX);', 'readlink("/proc/self/exe", out->object_path, CPPTRACE_PATH_MAX + 1);')
M("S02", "safe frame readlink sizeof", SD, 'readlink("/proc/self/exe", out->object_path, CPPTRACE_PATH_MAX);', 'readlink("/proc/self/exe", out->object_path, sizeof(*out));')
M("S02", "safe frame terminate at result", SD, '                memset(out->object_path, 0, CPPTRACE_PATH_MAX + 1);\n', '', SD, """                if(res == -1) {
                    // error handling?
                }""", "                out->object_path[res] = 0;")
M("S02", "safe frame miss keeps relative", SD, """            out->address_relative_to_object_start = 0;
            out->object_path[0] = 0;
        }
        // TODO""", """            out->object_path[0] = 0;
        }
        // TODO""")
M("S02", "safe frame miss keeps path", SD, """            out->address_relative_to_object_start = 0;
            out->object_path[0] = 0;
        }
        // TODO""", """            out->address_relative_to_object_start = 0;
        }
        // TODO""")
M("S02", "safe frame miss absolute", SD, """            out->address_relative_to_object_start = 0;
            out->object_path[0] = 0;
        }
        // TODO""", """            out->address_relative_to_object_start = address;
            out->object_path[0] = 0;
        }
        // TODO""")
M("S02", "safe frame raw only on hit", SD, """        out->raw_address = address;
        dl_find_object result;""", """        dl_find_object result;""", SD, "            if(result.dlfo_link_map->l_name != nullptr", "            out->raw_address = address;\n            if(result.dlfo_link_map->l_name != nullptr")
M("S02", "safe fallback path unset", SD, """        out->address_relative_to_object_start = 0;
        out->object_path[0] = 0;
    }""", """        out->address_relative_to_object_start = 0;
    }""")
M("S02", "safe buffer bound le", UL, "while(i < size && i < max_depth) {", "while(i <= size && i < max_depth) {")
M("S02", "safe buffer only depth", UL, "while(i < size && i < max_depth) {", "while(i < max_depth) {")
M("S02", "safe buffer counts skipped", UL, """            if(skip) {
                skip--;
            } else {
                // thread and signal-safe
                if(unw_is_signal_frame(&cursor)) {
                    // pc is the instruction that caused the signal
                    // just a cast, thread and signal safe
                    buffer[i] = to_frame_ptr(pc);
                } else {
                    // pc is the instruction after the `call`, adjust back to the previous instruction
                    // just a cast, thread and signal safe
                    buffer[i] = to_frame_ptr(pc) - 1;
                }
                i++;
            }""", """            if(skip) {
                skip--;
            } else {
                // thread and signal-safe
                if(unw_is_signal_frame(&cursor)) {
                    // pc is the instruction that caused the signal
                    // just a cast, thread and signal safe
                    buffer[i] = to_frame_ptr(pc);
                } else if(pc != 0) {
                    // pc is the instruction after the `call`, adjust back to the previous instruction
                    // just a cast, thread and signal safe
                    buffer[i] = to_frame_ptr(pc) - 1;
                }
                i++;
            }""")
M("S02", "safe buffer returns before write", UL, """            if(unw_step(&cursor) <= 0) {
                break;
            }
        }
        return i;
    }

    bool has_safe_unwind() {""", """            if(unw_step(&cursor) <= 0) {
                return i + 1;
            }
        }
        return i;
    }

    bool has_safe_unwind() {""")
M("S02", "safe wrapper size", "src/cpptrace.cpp", "return detail::safe_capture_frames(buffer, size, skip + 1, max_depth);", "return detail::safe_capture_frames(buffer, size + 1, skip + 1, max_depth);")
M("S02", "safe wrapper byte size", "src/ctrace.cpp", "return cpptrace::safe_generate_raw_trace(buffer, size, skip + 1, max_depth);", "return cpptrace::safe_generate_raw_trace(buffer, size * sizeof(*buffer), skip + 1, max_depth);")
M("quiet", "safe frame string view", SD, TRUNC, """                const char* name = result.dlfo_link_map->l_name;
                std::size_t length = std::strlen(name);
                if(length > CPPTRACE_PATH_MAX) {
                    length = CPPTRACE_PATH_MAX;
                }
                std::memcpy(out->object_path, name, length);
                out->object_path[length] = '\\0';
""", checks="S02,S01")
M("quiet", "safe frame byte loop", SD, TRUNC, """                const char* name = result.dlfo_link_map->l_name;
                std::size_t n = 0;
                while(n < CPPTRACE_PATH_MAX && name[n] != 0) {
                    out->object_path[n] = name[n];
                    n++;
                }
                out->object_path[n] = 0;
""", checks="S02,S01")
M("quiet", "safe frame strncpy", SD, TRUNC, """                std::strncpy(out->object_path, result.dlfo_link_map->l_name, CPPTRACE_PATH_MAX);
                out->object_path[CPPTRACE_PATH_MAX] = 0;
""", checks="S02")
M("quiet", "safe frame early clear", SD, "        out->raw_address = address;\n        dl_find_object result;", "        out->raw_address = address;\n        out->address_relative_to_object_start = 0;\n        out->object_path[0] = 0;\n        dl_find_object result;", SD, """        } else {
            out->address_relative_to_object_start = 0;
            out->object_path[0] = 0;
        }
        // TODO""", "        }\n        // TODO", checks="S02,S01")
M("quiet", "safe frame early return", SD, """        if(_dl_find_object(reinterpret_cast<void*>(address), &result) == 0) { // thread-safe, signal-safe
""", """        const int found = _dl_find_object(reinterpret_cast<void*>(address), &result); // thread-safe, signal-safe
        if(found != 0) {
            out->address_relative_to_object_start = 0;
            out->object_path[0] = 0;
            return;
        }
        {
""", SD, """        } else {
            out->address_relative_to_object_start = 0;
            out->object_path[0] = 0;
        }
        // TODO""", "        }\n        // TODO", checks="S02,S01")
M("quiet", "safe frame readlink terminate", SD, "                memset(out->object_path, 0, CPPTRACE_PATH_MAX + 1);\n", "", SD, """                if(res == -1) {
                    // error handling?
                }""", "                out->object_path[res == -1 ? 0 : res] = 0;", checks="S02")
M("quiet", "safe buffer for loop", UL, """        size_t i = 0;
        while(i < size && i < max_depth) {
            unw_word_t pc;
            unw_word_t sp;
            // thread and signal-safe https""", """        size_t i = 0;
        const std::size_t limit = size < max_depth ? size : max_depth;
        while(i < limit) {
            unw_word_t pc;
            unw_word_t sp;
            // thread and signal-safe https""", checks="S02,T02")
M("quiet", "safe buffer pc variable", UL, """                if(unw_is_signal_frame(&cursor)) {
                    // pc is the instruction that caused the signal
                    // just a cast, thread and signal safe
                    buffer[i] = to_frame_ptr(pc);
                } else {
                    // pc is the instruction after the `call`, adjust back to the previous instruction
                    // just a cast, thread and signal safe
                    buffer[i] = to_frame_ptr(pc) - 1;
                }
                i++;""", """                frame_ptr address = to_frame_ptr(pc);
                if(!unw_is_signal_frame(&cursor)) {
                    address--;
                }
                buffer[i++] = address;""", checks="S02,T02")
M("quiet", "safe buffer pointer", UL, """                if(unw_is_signal_frame(&cursor)) {
                    // pc is the instruction that caused the signal
                    // just a cast, thread and signal safe
                    buffer[i] = to_frame_ptr(pc);
                } else {
                    // pc is the instruction after the `call`, adjust back to the previous instruction
                    // just a cast, thread and signal safe
                    buffer[i] = to_frame_ptr(pc) - 1;
                }
                i++;
            }
            // thread and signal-safe as long""", """                *out++ = to_frame_ptr(pc) - (unw_is_signal_frame(&cursor) ? 0 : 1);
            }
            // thread and signal-safe as long""", UL, """        size_t i = 0;
        while(i < size && i < max_depth) {
            unw_word_t pc;
            unw_word_t sp;
            // thread and signal-safe https""", """        frame_ptr* out = buffer;
        while(std::size_t(out - buffer) < size && std::size_t(out - buffer) < max_depth) {
            unw_word_t pc;
            unw_word_t sp;
            // thread and signal-safe https""", UL, """                break;
            }
        }
        return i;
    }

    bool has_safe_unwind() {""", """                break;
            }
        }
        return out - buffer;
    }

    bool has_safe_unwind() {""", checks="S02")

# ---------------------------------------------------------------- M04
AL = "src/symbols/symbols_with_addr2line.cpp"
CT = "src/ctrace.cpp"
DX = "src/demangle/demangle_with_cxxabi.cpp"
UTH = "src/utils/utils.hpp"
FIO = "src/utils/io/file.cpp"
OB = "src/binary/object.cpp"
M("M04", "child not reaped on errors", AL, "            if(pid > 0) {\n                waitpid(pid, nullptr, 0);\n            }\n        });", "        });", AL, "        // TODO: check status from addr2line?\n        return output;", "        waitpid(pid, nullptr, 0);\n        return output;")
M("M04", "child not reaped at all", AL, "            if(pid > 0) {\n                waitpid(pid, nullptr, 0);\n            }\n        });", "        });")
M("M04", "failed fork reaped", AL, "            if(pid > 0) {\n                waitpid(pid, nullptr, 0);\n            }\n        });", "            waitpid(pid, nullptr, 0);\n        });")
M("M04", "child returns when exec fails", AL, "            _exit(1); // TODO: Diagnostic?", "            return \"\";")
M("M04", "child of probe continues", AL, "            _exit(magic);", "            return false;")
M("M04", "probe child not reaped", AL, "waitpid(pid, &status, 0) == pid && WIFEXITED(status) && WEXITSTATUS(status) == 0", "waitpid(pid, &status, 1) == pid && WIFEXITED(status) && WEXITSTATUS(status) == 0")
M("M04", "close without forgetting", AL, "            close(fd);\n            fd = -1;", "            close(fd);")
M("M04", "pipe destructor closes one end", AL, "            close_end(end.read);\n            close_end(end.write);\n        }", "            close_end(end.read);\n        }", AL, "        close_end(output_pipe.end.write);\n        std::string", "        close_end(output_pipe.end.write);\n        close_end(output_pipe.end.read);\n        std::string")
M("M04", "reads after closing", AL, "        close_end(output_pipe.end.write);\n        std::string", "        close_end(output_pipe.end.write);\n        close_end(output_pipe.end.read);\n        std::string")
M("M04", "write result as offset", AL, "        if(write(input_pipe.end.write, addresses.data(), addresses.size()) == -1) {\n            throw internal_error(\"call to write failed: {}\", errno);\n        }", "        auto rest = addresses.substr(write(input_pipe.end.write, addresses.data(), addresses.size()));\n        (void)rest;")
M("M04", "read result unchecked", AL, "        while((count = read(output_pipe.end.read, buffer, buffer_size)) > 0) {", "        while((count = read(output_pipe.end.read, buffer, buffer_size)) != 0) {")
M("M04", "raw pipes", AL, "        pipe_t() : data{-1, -1} {}\n        ~pipe_t() {\n            close_end(end.read);\n            close_end(end.write);\n        }\n        pipe_t(const pipe_t&) = delete;\n        pipe_t& operator=(const pipe_t&) = delete;", "")
M("M04", "demangled not freed on empty rest", DX, "            [] (char* str) { std::free(str); }", "            [] (char* str) { if(*str) std::free(str); }")
M("M04", "demangled raw pointer", DX, "        auto demangled = raii_wrap(\n            abi::__cxa_demangle(to_demangle.get().c_str() + offset, nullptr, nullptr, &status),\n            [] (char* str) { std::free(str); }\n        );", "        char* demangled = abi::__cxa_demangle(to_demangle.get().c_str() + offset, nullptr, nullptr, &status);",
  DX, "if(demangled.get()) {\n            std::string str = demangled.get();", "if(demangled) {\n            std::string str = demangled;\n            std::free(demangled);", DX, "            if(!rest.empty()) {\n                str += rest;\n            }", "            if(!rest.empty()) {\n                str += rest;\n            }")
M("M04", "wrapper move keeps deleter", UTH, "            other.deleter = nullopt;\n", "")
M("M04", "wrapper never releases", UTH, "            if(deleter.has_value()) {\n                deleter.unwrap()(obj);\n            }", "            if(deleter.has_value() && !obj) {\n                deleter.unwrap()(obj);\n            }")
M("M04", "file handle raw", FIO, "auto file_obj = raii_wrap(std::fopen(object_path.c_str(), \"rb\"), file_deleter);\n        if(file_obj == nullptr) {", "auto handle = std::fopen(object_path.c_str(), \"rb\");\n        auto file_obj = raii_wrap(handle, file_deleter);\n        if(file_obj == nullptr) {\n            fclose(handle);")
M("M04", "file handle leaked on empty", FIO, "        auto file_obj = raii_wrap(std::fopen(object_path.c_str(), \"rb\"), file_deleter);\n        if(file_obj == nullptr) {", "        auto handle = std::fopen(object_path.c_str(), \"rb\");\n        if(handle && std::fgetc(handle) == EOF) { return internal_error(\"empty\"); }\n        auto file_obj = raii_wrap(handle, file_deleter);\n        if(file_obj == nullptr) {")
M("M04", "c array leaked on exception", CT, "        } catch(...) {\n            ctrace_free_stacktrace(&result);\n            throw;\n        }", "        } catch(...) {\n            throw;\n        }")
M("M04", "c raw array leaked", CT, "            std::copy(trace.data(), trace.data() + count, frames);\n            return { frames, count };", "            if(count == 0) { return { nullptr, 0 }; }\n            std::copy(trace.data(), trace.data() + count, frames);\n            return { frames, count };")
M("M04", "c strings leaked when demangling throws", CT, "        new_frame.filename  = generate", "        new_frame.filename  = generate", CT, "        const std::string symbol = cpptrace::detail::demangle(frame.symbol, true);\n", "        const char* early = generate_owning_string(frame.filename).data;\n        const std::string symbol = cpptrace::detail::demangle(frame.symbol, true);\n        delete[] early;\n")
M("M04", "mmap unchecked", "src/platform/memory_mapping.cpp", "        if(page == MAP_FAILED) {", "        if(page == nullptr) {")
M("M04", "readlink unchecked", OB, "            if(res == -1) {\n                return \"\"; // TODO\n            } else {\n                return buffer;\n            }", "            return std::string(buffer, res);")
M("quiet", "pipe close in loop", AL, "            close_end(end.read);\n            close_end(end.write);\n        }\n        pipe_t(", "            for(int& fd : data) {\n                close_end(fd);\n            }\n        }\n        pipe_t(", checks="M04")
M("quiet", "pipe explicit test", AL, "        if(pipe(output_pipe.data) != 0 || pipe(input_pipe.data) != 0) {\n            throw internal_error(\"call to pipe failed: {}\", errno);\n        }", "        for(pipe_t* p : {&output_pipe, &input_pipe}) {\n            if(pipe(p->data) == -1) {\n                throw internal_error(\"call to pipe failed: {}\", errno);\n            }\n        }", checks="M04")
M("quiet", "open pipe helper", AL, "    std::string resolve_addresses(const std::string& addresses, const std::string& executable) {\n        pid_t pid = -1;", "    static void open_pipe(pipe_t& p) {\n        if(pipe(p.data) < 0) {\n            throw internal_error(\"call to pipe failed: {}\", errno);\n        }\n    }\n\n    std::string resolve_addresses(const std::string& addresses, const std::string& executable) {\n        pid_t pid = -1;", AL, "        if(pipe(output_pipe.data) != 0 || pipe(input_pipe.data) != 0) {\n            throw internal_error(\"call to pipe failed: {}\", errno);\n        }", "        open_pipe(output_pipe);\n        open_pipe(input_pipe);", checks="M04")
M("quiet", "run child helper", AL, "    std::string resolve_addresses(const std::string& addresses, const std::string& executable) {\n        pid_t pid = -1;", "    [[noreturn]] static void child_fail() {\n        _exit(1);\n    }\n\n    std::string resolve_addresses(const std::string& addresses, const std::string& executable) {\n        pid_t pid = -1;", AL, "            _exit(1); // TODO: Diagnostic?", "            child_fail();", checks="M04")
M("quiet", "read loop do while", AL, "        while((count = read(output_pipe.end.read, buffer, buffer_size)) > 0) {\n            output.insert(output.end(), buffer, buffer + count);\n        }", "        do {\n            count = read(output_pipe.end.read, buffer, buffer_size);\n            if(count > 0) {\n                output.append(buffer, count);\n            }\n        } while(count > 0);", checks="M04")
M("quiet", "reap via struct", AL, "        auto reap_child = scope_exit([&] {\n            if(pid > 0) {\n                waitpid(pid, nullptr, 0);\n            }\n        });", "        struct reaper {\n            const pid_t& pid;\n            ~reaper() {\n                if(pid != -1) {\n                    int status = 0;\n                    waitpid(pid, &status, 0);\n                }\n            }\n        } reap_child{pid};\n        (void)reap_child;", checks="M04")
M("quiet", "demangled unique_ptr", DX, "#include <functional>", "#include <functional>\n#include <memory>", DX, "        auto demangled = raii_wrap(\n            abi::__cxa_demangle(to_demangle.get().c_str() + offset, nullptr, nullptr, &status),\n            [] (char* str) { std::free(str); }\n        );", "        std::unique_ptr<char, void(*)(void*)> demangled(\n            abi::__cxa_demangle(to_demangle.get().c_str() + offset, nullptr, nullptr, &status),\n            std::free\n        );", checks="M04")
M("quiet", "wrapper deleter reset", UTH, "            other.deleter = nullopt;\n", "            other.deleter.reset();\n", checks="M04")
M("quiet", "file handle tested first", FIO, "auto file_obj = raii_wrap(std::fopen(object_path.c_str(), \"rb\"), file_deleter);\n        if(file_obj == nullptr) {\n            return internal_error(\"Unable to read object file {}\", object_path);\n        }\n        return", "auto handle = std::fopen(object_path.c_str(), \"rb\");\n        if(!handle) {\n            return internal_error(\"Unable to read object file {}\", object_path);\n        }\n        auto file_obj = raii_wrap(handle, file_deleter);\n        return", checks="M04")
M("quiet", "c array unique_ptr", CT, "#include <new>", "#include <new>\n#include <memory>", CT, "            auto* frames = new ctrace_frame_ptr[count];\n            std::copy(trace.data(), trace.data() + count, frames);\n            return { frames, count };", "            std::unique_ptr<ctrace_frame_ptr[]> frames(new ctrace_frame_ptr[count]);\n            std::copy(trace.data(), trace.data() + count, frames.get());\n            return { frames.release(), count };", checks="M04")
M("quiet", "readlink length", OB, "            if(res == -1) {\n                return \"\"; // TODO\n            } else {\n                return buffer;\n            }", "            return res < 0 ? std::string() : std::string(buffer, res);", checks="M04")
M("quiet", "mmap helper", "src/platform/memory_mapping.cpp", "    void* allocate_page(int page_size) {\n        auto page = mmap(", "    static void* raw_page(int page_size) {\n        return mmap(", "src/platform/memory_mapping.cpp", "MAP_ANONYMOUS | MAP_PRIVATE, -1, 0);\n", "MAP_ANONYMOUS | MAP_PRIVATE, -1, 0);\n    }\n    void* allocate_page(int page_size) {\n        void* page = raw_page(page_size);\n", checks="M04")
