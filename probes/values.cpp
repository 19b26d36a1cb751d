// operations of the public value types, as a client instantiates them (never executed)
#include <cpptrace/cpptrace.hpp>
#include <cstdint>
#include <limits>
#include <new>
#define NULLABLE(N, T) \
    using N = cpptrace::nullable<T>; \
    extern "C" bool vp_##N##_has(const N& o) { return o.has_value(); } \
    extern "C" bool vp_##N##_eq(const N& a, const N& b) { return a == b; } \
    extern "C" bool vp_##N##_ne(const N& a, const N& b) { return a != b; } \
    extern "C" T vp_##N##_or(const N& o, T d) { return o.value_or(d); } \
    extern "C" T vp_##N##_value(const N& o) { return o.value(); } \
    extern "C" T* vp_##N##_ref(N& o) { return &o.value(); } \
    extern "C" void vp_##N##_reset(N& o) { o.reset(); } \
    extern "C" void vp_##N##_assign(N& o, T v) { o = v; } \
    extern "C" void vp_##N##_swap(N& a, N& b) { a.swap(b); } \
    extern "C" void vp_##N##_copy(N& a, const N& b) { a = b; } \
    extern "C" void vp_##N##_make(N* o, T v) { new (o) N(v); } \
    extern "C" void vp_##N##_null(N* o) { new (o) N(N::null()); } \
    extern "C" void vp_##N##_def(N* o) { new (o) N(); } \
    extern "C" T vp_##N##_nullv() { return N::null_value(); } \
    extern "C" T vp_##N##_max() { return (std::numeric_limits<T>::max)(); }
NULLABLE(n8, std::uint8_t)
NULLABLE(n32, std::uint32_t)
NULLABLE(n64, std::uint64_t)
NULLABLE(ni, int)
extern "C" bool vp_frame_eq(const cpptrace::stacktrace_frame& a, const cpptrace::stacktrace_frame& b) { return a == b; }
extern "C" bool vp_frame_ne(const cpptrace::stacktrace_frame& a, const cpptrace::stacktrace_frame& b) { return a != b; }
extern "C" bool vp_stack_empty(const cpptrace::stacktrace& t) { return t.empty(); }
extern "C" bool vp_raw_empty(const cpptrace::raw_trace& t) { return t.empty(); }
extern "C" bool vp_object_empty(const cpptrace::object_trace& t) { return t.empty(); }
extern "C" void vp_stack_clear(cpptrace::stacktrace& t) { t.clear(); }
extern "C" void vp_raw_clear(cpptrace::raw_trace& t) { t.clear(); }
extern "C" void vp_object_clear(cpptrace::object_trace& t) { t.clear(); }
