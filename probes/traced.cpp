// client of the traced-exception API; only analysed, never run
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/from_current.hpp>
#include <stdexcept>
namespace vp_traced {
template<typename E> const char* use(const E& e) { e.message(); (void)e.trace().empty(); return e.what(); }
const char* lazy() { cpptrace::lazy_exception e; return use(e); }
const char* with_message() { cpptrace::exception_with_message e("m"); return use(e); }
const char* logic() { cpptrace::logic_error e("m"); return use(e); }
const char* domain() { cpptrace::domain_error e("m"); return use(e); }
const char* invalid() { cpptrace::invalid_argument e("m"); return use(e); }
const char* length() { cpptrace::length_error e("m"); return use(e); }
const char* range1() { cpptrace::out_of_range e("m"); return use(e); }
const char* runtime() { cpptrace::runtime_error e("m"); return use(e); }
const char* range2() { cpptrace::range_error e("m"); return use(e); }
const char* overflow() { cpptrace::overflow_error e("m"); return use(e); }
const char* underflow() { cpptrace::underflow_error e("m"); return use(e); }
const char* nested(const std::exception_ptr& p) { cpptrace::nested_exception e(p); (void)e.nested_ptr(); return use(e); }
const char* system() { cpptrace::system_error e(1, "m"); (void)e.code(); return use(e); }
const char* base(const cpptrace::exception& e) { return use(e); }
}
namespace vp_intercept {
bool value(const std::type_info* a, const std::type_info* b, void** c, unsigned d) {
    return cpptrace::detail::unwind_interceptor<std::runtime_error>::can_catch(a, b, c, d);
}
bool any(const std::type_info* a, const std::type_info* b, void** c, unsigned d) {
    return cpptrace::detail::unwind_interceptor<void>::can_catch(a, b, c, d);
}
int install() { return cpptrace::detail::prepare_unwind_interceptor<std::runtime_error>(); }
}
#include <new>
namespace vp_capture {
void lazy(void* p) { new (p) cpptrace::lazy_exception; }
void nested(void* p, const std::exception_ptr& e) { new (p) cpptrace::nested_exception(e); }
void message(void* p, std::string&& s) { new (p) cpptrace::runtime_error(std::move(s)); }
}
