// special members of the hand-written holders, reached through the public headers and utils (never executed)
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/formatting.hpp>
#include "utils/optional.hpp"
#include "utils/result.hpp"
#include "utils/error.hpp"
#include <string>
#include <new>
using std::string;
using opt = cpptrace::detail::optional<string>;
using cpptrace::detail::internal_error;
using res = cpptrace::detail::Result<string, internal_error>;
using lazy = cpptrace::detail::lazy_trace_holder;
using fmt = cpptrace::formatter;
#define HOLDER(T) \
    extern "C" void vp_##T##_copy(T* p, const T& o) { new (p) T(o); } \
    extern "C" void vp_##T##_copyassign(T& a, const T& b) { a = b; } \
    extern "C" void vp_##T##_moveassign(T& a, T& b) { a = std::move(b); } \
    extern "C" void vp_##T##_move(T* p, T& o) { new (p) T(std::move(o)); } \
    extern "C" void vp_##T##_dtor(T& o) { o.~T(); }
HOLDER(opt)
HOLDER(lazy)
HOLDER(fmt)
extern "C" void vp_res_move(res* p, res& o) { new (p) res(std::move(o)); }
extern "C" void vp_res_copyassign(res& a, const res& b) { a = b; }
extern "C" void vp_res_moveassign(res& a, res& b) { a = std::move(b); }
extern "C" void vp_res_dtor(res& o) { o.~res(); }
// constructors that establish each alternative
extern "C" void vp_opt_make_null(opt* p) { new (p) opt(); }
extern "C" void vp_opt_make_value(opt* p, string& s) { new (p) opt(std::move(s)); }
extern "C" void vp_res_make_value(res* p, string& s) { new (p) res(std::move(s)); }
extern "C" void vp_res_make_error(res* p, internal_error& e) { new (p) res(std::move(e)); }
extern "C" void vp_lazy_make_raw(lazy* p, cpptrace::raw_trace& t) { new (p) lazy(std::move(t)); }
extern "C" void vp_lazy_make_resolved(lazy* p, cpptrace::stacktrace& t) { new (p) lazy(std::move(t)); }
extern "C" void vp_fmt_make_live(fmt* p) { new (p) fmt(); }
// queries and mutations
extern "C" bool vp_opt_has(const opt& o) { return o.has_value(); }
extern "C" void vp_opt_reset(opt& o) { o.reset(); }
extern "C" void vp_opt_assign_null(opt& o) { o = cpptrace::detail::nullopt; }
extern "C" void vp_opt_assign_value(opt& o, string& s) { o = std::move(s); }
extern "C" void vp_opt_swap(opt& a, opt& b) { a.swap(b); }
extern "C" bool vp_res_has(const res& o) { return o.has_value(); }
extern "C" bool vp_res_err(const res& o) { return o.is_error(); }
extern "C" void vp_res_drop(const res& o) { o.drop_error(); }
extern "C" void vp_res_value_or(string* p, res& o, string& d) { new (p) string(std::move(o).value_or(std::move(d))); }
extern "C" void vp_res_opt_value(opt* p, res& o) { new (p) opt(std::move(o).value()); }
extern "C" void vp_opt_value_or(string* p, const opt& o, string& d) { new (p) string(o.value_or(std::move(d))); }
extern "C" bool vp_lazy_resolved(const lazy& o) { return o.is_resolved(); }
extern "C" const void* vp_lazy_get(lazy& o) { return &o.get_resolved_trace(); }
extern "C" const void* vp_lazy_cget(const lazy& o) { return &o.get_resolved_trace(); }
extern "C" const void* vp_lazy_raw(const lazy& o) { return &o.get_raw_trace(); }
