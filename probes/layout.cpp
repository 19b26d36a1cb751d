// sizes and field offsets of the public value types, as the compiler lays them out (constants read by the analyses)
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/formatting.hpp>
#include <ctrace/ctrace.h>
#include <cstddef>
#define OFF(T, name, field) extern "C" const unsigned long vp_off_##name##__##field; const unsigned long vp_off_##name##__##field = offsetof(T, field);
#define SZ(T, name) extern "C" const unsigned long vp_size_##name; const unsigned long vp_size_##name = sizeof(T);
SZ(cpptrace::stacktrace_frame, frame)
OFF(cpptrace::stacktrace_frame, frame, raw_address)
OFF(cpptrace::stacktrace_frame, frame, object_address)
OFF(cpptrace::stacktrace_frame, frame, line)
OFF(cpptrace::stacktrace_frame, frame, column)
OFF(cpptrace::stacktrace_frame, frame, filename)
OFF(cpptrace::stacktrace_frame, frame, symbol)
OFF(cpptrace::stacktrace_frame, frame, is_inline)
SZ(cpptrace::object_frame, object_frame)
OFF(cpptrace::object_frame, object_frame, raw_address)
OFF(cpptrace::object_frame, object_frame, object_address)
OFF(cpptrace::object_frame, object_frame, object_path)
SZ(ctrace_stacktrace_frame, c_frame)
OFF(ctrace_stacktrace_frame, c_frame, raw_address)
OFF(ctrace_stacktrace_frame, c_frame, object_address)
OFF(ctrace_stacktrace_frame, c_frame, line)
OFF(ctrace_stacktrace_frame, c_frame, column)
OFF(ctrace_stacktrace_frame, c_frame, filename)
OFF(ctrace_stacktrace_frame, c_frame, symbol)
OFF(ctrace_stacktrace_frame, c_frame, is_inline)
SZ(ctrace_object_frame, c_object_frame)
OFF(ctrace_object_frame, c_object_frame, raw_address)
OFF(ctrace_object_frame, c_object_frame, obj_address)
OFF(ctrace_object_frame, c_object_frame, obj_path)
SZ(ctrace_frame_ptr, c_frame_ptr)
SZ(std::string, string)
OFF(ctrace_stacktrace, c_trace, frames)
OFF(ctrace_stacktrace, c_trace, count)
OFF(ctrace_object_trace, c_object_trace, frames)
OFF(ctrace_object_trace, c_object_trace, count)
OFF(ctrace_raw_trace, c_raw_trace, frames)
OFF(ctrace_raw_trace, c_raw_trace, count)
SZ(cpptrace::safe_object_frame, safe_frame)
OFF(cpptrace::safe_object_frame, safe_frame, raw_address)
OFF(cpptrace::safe_object_frame, safe_frame, address_relative_to_object_start)
OFF(cpptrace::safe_object_frame, safe_frame, object_path)
SZ(ctrace_safe_object_frame, c_safe_frame)
OFF(ctrace_safe_object_frame, c_safe_frame, raw_address)
OFF(ctrace_safe_object_frame, c_safe_frame, relative_obj_address)
OFF(ctrace_safe_object_frame, c_safe_frame, object_path)
SZ(decltype(cpptrace::safe_object_frame::object_path), safe_path)
SZ(decltype(ctrace_safe_object_frame::object_path), c_safe_path)
