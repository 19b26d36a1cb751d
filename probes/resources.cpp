// the life of an opened file: opened, moved around and destroyed (never executed)
#include "utils/io/file.hpp"
#include "utils/utils.hpp"
#include <utility>
using cpptrace::detail::file;
extern "C" void vp_probe_use(const file&) noexcept;
extern "C" void vp_probe_file_dies(const char* path) { auto r = file::open(path); }
extern "C" void vp_probe_file_moved(const char* path) {
    auto r = file::open(path);
    if(r.has_value()) {
        file a = std::move(r).unwrap_value();
        file b(std::move(a));
        vp_probe_use(b);
    }
}
