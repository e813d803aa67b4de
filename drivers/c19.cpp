#include "drv.hpp"
#include "../harness/c19.cpp"
struct step { const void *a, *b, *c; };
static std::vector<step> steps;
static std::vector<std::pair<std::uint64_t, const void*>> idx;
static std::vector<std::int64_t> vals;
static void cap(std::size_t n) { if (n > 100000) { std::cout << "FAIL: runaway loop" << std::endl; std::_Exit(1); } }
extern "C" {
void klv_visit(const void* a, const void* b, const void* c) { steps.push_back({a, b, c}); cap(steps.size()); }
void klv_value(std::int64_t v) { vals.push_back(v); cap(vals.size()); }
void klv_index(std::size_t i, const void* p) { idx.push_back({i, p}); cap(idx.size()); }
}
static std::string chk(const char* what, std::size_t want, const int* a, const short* b, const char* c)
{
    std::string e;
    if (steps.size() != want) e = std::string(what) + ": " + std::to_string(steps.size()) + " steps instead of " + std::to_string(want);
    for (std::size_t i = 0; i < steps.size() && i < want && e.empty(); ++i)
        if (steps[i].a != a + i || (b && steps[i].b != b + i) || (c && steps[i].c != c + i)) e = std::string(what) + ": step " + std::to_string(i) + " misaligned";
    steps.clear();
    return e;
}
static std::string chki(const char* what, std::size_t want, std::uint64_t from, const void* p, std::size_t sz)
{
    std::string e;
    if (idx.size() != want) e = std::string(what) + ": " + std::to_string(idx.size()) + " steps instead of " + std::to_string(want);
    for (std::size_t i = 0; i < idx.size() && i < want && e.empty(); ++i)
        if (idx[i].first != from + i || idx[i].second != static_cast<const char*>(p) + i * sz) e = std::string(what) + ": step " + std::to_string(i);
    idx.clear();
    return e;
}
std::string run_case(const std::string& cs)
{
    auto w = words(cs);
    if (w.empty()) return "";
    if (w[0] == "zip" && w.size() >= 4)
    {
        std::size_t n = std::stoul(w[1]), m = std::stoul(w[2]), k = std::stoul(w[3]);
        std::vector<int> a(n); std::vector<short> b(m); std::vector<char> c(k);
        a.shrink_to_fit(); b.shrink_to_fit(); c.shrink_to_fit();
        std::string e;
        klv_zip1(a.data(), n);
        if (!(e = chk("zip1", n, a.data(), nullptr, nullptr)).empty()) return e;
        klv_zip2(a.data(), n, b.data(), m);
        if (!(e = chk("zip2", std::min(n, m), a.data(), b.data(), nullptr)).empty()) return e;
        klv_zip3(a.data(), n, b.data(), m, c.data(), k);
        if (!(e = chk("zip3", std::min(std::min(n, m), k), a.data(), b.data(), c.data())).empty()) return e;
        klv_zip3r(a.data(), n, b.data(), m, c.data(), k);
        if (!(e = chk("zip3r", std::min(std::min(n, m), k), a.data(), b.data(), c.data())).empty()) return e;
        klv_zipvec(&a, &b);
        if (!(e = chk("zipvec", std::min(n, m), a.data(), b.data(), nullptr)).empty()) return e;
        int arr[5] = {};
        klv_ziparr(&arr, b.data(), m);
        if (!(e = chk("ziparr", std::min<std::size_t>(5, m), arr, b.data(), nullptr)).empty()) return e;
    }
    if (w[0] == "enum" && w.size() >= 4)
    {
        std::size_t n = std::stoul(w[1]), cnt = std::stoul(w[3]);
        std::uint64_t from = std::stoull(w[2]);
        std::vector<int> a(n); std::vector<short> b(n);
        a.shrink_to_fit(); b.shrink_to_fit();
        std::string e;
        klv_enum(a.data(), n);
        if (!(e = chki("enumerated", n, 0, a.data(), 4)).empty()) return e;
        klv_enumvec(&a);
        if (!(e = chki("enumerated vector", n, 0, a.data(), 4)).empty()) return e;
        klv_zipiota(from, b.data(), n);
        if (!(e = chki("counter", n, from, b.data(), 2)).empty()) return e;
        if (from + cnt >= from)
        {
            klv_zipiota2(from, from + cnt, b.data(), n);
            if (!(e = chki("bounded counter", std::min(n, cnt), from, b.data(), 2)).empty()) return e;
        }
    }
    if (w[0] == "iota" && w.size() >= 3)
    {
        std::int64_t a = std::stoll(w[1]), c = std::stoll(w[2]);
        if (a > INT64_MAX - c) return "";
        klv_iota(a, a + c);
        std::string e;
        if (vals.size() != (std::size_t)c) e = "count";
        for (std::size_t i = 0; i < vals.size() && e.empty(); ++i) if (vals[i] != a + (std::int64_t)i) e = "value";
        vals.clear();
        return e;
    }
    return "";
}
std::string gen_case(Rng& r, std::uint64_t i)
{
    auto n = [&] { return std::to_string(r.below(r.coin() ? 4 : 20)); };
    if (i % 3 == 0) return "zip " + n() + " " + n() + " " + n();
    if (i % 3 == 1) return "enum " + n() + " " + std::to_string(r.coin() ? r.next() : r.below(10)) + " " + n();
    return "iota " + std::to_string(static_cast<std::int64_t>(r.next()) >> r.below(64)) + " " + n();
}
