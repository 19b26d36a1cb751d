// client of everything that generates a trace; only analysed, never run
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/from_current.hpp>
#include <cpptrace/exceptions_macros.hpp>
#include <ctrace/ctrace.h>
#include <stdexcept>
namespace vp_chain {
int work();
void sink(const void*);
void raw() { auto t = cpptrace::generate_raw_trace(); sink(&t); }
void object() { auto t = cpptrace::generate_object_trace(); sink(&t); }
void resolved() { auto t = cpptrace::generate_trace(); sink(&t); }
void raw_current() { auto t = cpptrace::raw_trace::current(); sink(&t); }
void object_current() { auto t = cpptrace::object_trace::current(); sink(&t); }
void current() { auto t = cpptrace::stacktrace::current(); sink(&t); }
void safe(cpptrace::frame_ptr* b) { cpptrace::safe_generate_raw_trace(b, 10); sink(b); }
void lazy() { throw cpptrace::lazy_exception(); }
void with_message() { throw cpptrace::exception_with_message("m"); }
void logic() { throw cpptrace::logic_error("m"); }
void domain() { throw cpptrace::domain_error("m"); }
void invalid() { throw cpptrace::invalid_argument("m"); }
void length() { throw cpptrace::length_error("m"); }
void range1() { throw cpptrace::out_of_range("m"); }
void runtime() { throw cpptrace::runtime_error("m"); }
void range2() { throw cpptrace::range_error("m"); }
void overflow() { throw cpptrace::overflow_error("m"); }
void underflow() { throw cpptrace::underflow_error("m"); }
void nested() { throw cpptrace::nested_exception(std::current_exception()); }
void system() { throw cpptrace::system_error(1, "m"); }
int wrap() { return CPPTRACE_WRAP(work()); }
void wrap_block() { CPPTRACE_WRAP_BLOCK(work();); }
}
namespace vp_current {
int work();
bool typed(const std::type_info* a, const std::type_info* b, void** c, unsigned d) {
    return cpptrace::detail::unwind_interceptor<std::runtime_error>::can_catch(a, b, c, d);
}
}
