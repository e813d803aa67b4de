#include "drv.hpp"
#include "../harness/c16.cpp"
#include <cerrno>
#include <map>
#include <set>
#include <stdarg.h>
#include <sys/stat.h>
#include <type_traits>
static_assert(!std::is_copy_constructible_v<kl::file_view> && !std::is_copy_assignable_v<kl::file_view>, "a copy would unmap twice");
// case: "<file size> <none|open|fstat|mmap> <errno> <close clobbers errno> [number the descriptor gets]"
static std::string fail_at, problem;
static int fail_errno, clobber;
static bool active;
static int vfd = -1, rfd = -1;   // the descriptor is handed out under the number vfd
static int real_fd(int fd) { return active && vfd >= 0 && fd == vfd ? rfd : fd; }
static std::set<int> fds;
static std::map<void*, std::size_t> maps;
extern "C" {
int __real_open(const char*, int, ...);
int __real_fstat(int, struct stat*);
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_close(int);
int __wrap_open(const char* p, int f, ...)
{
    if (!active) { va_list ap; va_start(ap, f); int m = va_arg(ap, int); va_end(ap); return __real_open(p, f, m); }
    if (fail_at == "open") { errno = fail_errno; return -1; }
    int r = __real_open(p, f, 0);
    if (r >= 0 && vfd >= 0) { rfd = r; r = vfd; }
    if (r >= 0) fds.insert(r);
    return r;
}
int __wrap_fstat(int fd, struct stat* s)
{
    if (active && fail_at == "fstat") { errno = fail_errno; return -1; }
    return __real_fstat(real_fd(fd), s);
}
void* __wrap_mmap(void* a, size_t l, int p, int f, int fd, off_t o)
{
    if (!active || fd < 0) return __real_mmap(a, l, p, f, fd, o);
    if (fail_at == "mmap") { errno = fail_errno; return MAP_FAILED; }
    void* r = __real_mmap(a, l, p, f, real_fd(fd), o);
    if (r != MAP_FAILED) maps[r] = l;
    return r;
}
int __wrap_munmap(void* a, size_t l)
{
    if (active) { auto i = maps.find(a); if (i == maps.end()) { problem = "munmap of something that is not mapped"; return -1; } if (i->second != l) problem = "munmap with another size"; l = i->second; maps.erase(i); }
    return __real_munmap(a, l);
}
int __wrap_close(int fd)
{
    if (active) { if (!fds.erase(fd)) { problem = "close of a descriptor that is not open"; return -1; } if (clobber) { __real_close(real_fd(fd)); errno = 99; return -1; } }
    return __real_close(real_fd(fd));
}
int __wrap_open64(const char* p, int f, ...) { return __wrap_open(p, f); }
int __wrap_fstat64(int fd, struct stat* s) { return __wrap_fstat(fd, s); }
void* __wrap_mmap64(void* a, size_t l, int p, int f, int fd, off_t o) { return __wrap_mmap(a, l, p, f, fd, o); }
}
static std::string content(std::size_t n) { std::string s(n, 0); for (std::size_t i = 0; i < n; ++i) s[i] = char(i * 131 + 7); return s; }
std::string run_case(const std::string& c)
{
    auto w = words(c);
    std::size_t n = std::stoull(w[0]);
    static std::string path = std::string(getenv("KLV_SCRATCH") ? getenv("KLV_SCRATCH") : "/tmp") + "/klv_c16_" + std::to_string(getpid());
    auto body = content(n);
    static std::size_t last = ~std::size_t(0);
    if (last != n) { std::ofstream(path, std::ios::binary) << body; last = n; }
    fail_at = w[1]; fail_errno = std::stoi(w[2]); clobber = std::stoi(w[3]); vfd = w.size() > 4 ? std::stoi(w[4]) : -1; rfd = -1; problem.clear(); fds.clear(); maps.clear();
    std::string err;
    alignas(kl::file_view) unsigned char mem[sizeof(kl::file_view)];
    auto v = reinterpret_cast<kl::file_view*>(mem);
    int code = 0;
    active = true;
    bool missing = w[1] == "missing";
    int r = klv_open_view(missing ? (path + ".missing").c_str() : path.c_str(), v, &code);
    active = false;
    bool expect_fail = fail_at == "open" || fail_at == "fstat" || (fail_at == "mmap" && n) || missing;
    if (r == 2) err = "throws something else";
    else if ((r == 1) != expect_fail) err = expect_fail ? "a failing call was not reported" : "throws although every call succeeded";
    else if (r == 1 && code != (missing ? ENOENT : fail_errno)) err = "wrong error code";
    if (err.empty() && !problem.empty()) err = problem;
    if (err.empty() && !fds.empty()) err = "descriptor leaked";
    if (r == 1 && err.empty() && !maps.empty()) err = "mapping leaked";
    if (r == 0) {
        if (err.empty() && klv_size(v) != n) err = "wrong size";
        if (err.empty() && n && std::memcmp(klv_data(v), body.data(), n) != 0) err = "wrong bytes";
        active = true;
        klv_close_view(v);
        active = false;
        if (err.empty() && !problem.empty()) err = problem;
        if (err.empty() && !maps.empty()) err = "mapping leaked";
    }
    for (auto& m : maps) __real_munmap(m.first, m.second);
    for (int f : fds) __real_close(vfd >= 0 && f == vfd ? rfd : f);
    return err;
}
std::string gen_case(Rng& r, std::uint64_t i)
{
    static const char* f[] = {"none", "none", "open", "fstat", "mmap", "missing"};
    static const std::size_t sz[] = {0, 1, 2, 4095, 4096, 4097, 70000};
    static const int e[] = {1, 2, 5, 12, 13, 24};
    return std::to_string(sz[(i / 16) % 7]) + " " + r.pick(f) + " " + std::to_string(r.pick(e)) + " " + (r.coin() ? "1" : "0") + (r.coin(3) ? "" : r.coin() ? " 0" : r.coin() ? " 1" : " 2147483647");
}
