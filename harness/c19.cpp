#include <kl/range.hpp>
#include <kl/zip.hpp>
#include <cstddef>
#include <cstdint>
#include <list>
#include <vector>

extern "C" {
void klv_visit(const void* a, const void* b, const void* c);
void klv_value(std::int64_t v);
void klv_index(std::size_t i, const void* p);
}

// a range over an arbitrary stretch of memory
template <typename T>
struct view
{
    T* b;
    std::size_t n;
    T* begin() const { return b; }
    T* end() const { return b + n; }
};

// a user's iterator whose end has another type than its begin
template <typename T>
struct counted
{
    struct sentinel { std::size_t n; };
    struct iterator
    {
        using iterator_category = std::input_iterator_tag;
        using value_type = T;
        using difference_type = std::ptrdiff_t;
        using reference = T&;
        using pointer = T*;
        T* p;
        std::size_t i;
        T& operator*() const { return p[i]; }
        iterator& operator++() { ++i; return *this; }
        friend bool operator!=(const iterator& a, const sentinel& s) { return a.i != s.n; }
    };
    T* b;
    std::size_t n;
    iterator begin() const { return {b, 0}; }
    sentinel end() const { return {n}; }
};

extern "C" {
void klv_zip1(int* a, std::size_t n)
{
    view<int> x{a, n};
    for (auto t : kl::zipped(x)) klv_visit(&std::get<0>(t), nullptr, nullptr);
}
void klv_zip2(int* a, std::size_t n, const short* b, std::size_t m)
{
    view<int> x{a, n};
    const view<const short> y{b, m};
    for (auto t : kl::zipped(x, y)) klv_visit(&std::get<0>(t), &std::get<1>(t), nullptr);
}
void klv_zip3(int* a, std::size_t n, const short* b, std::size_t m, char* c, std::size_t k)
{
    view<int> x{a, n};
    view<const short> y{b, m};
    counted<char> z{c, k};
    for (auto t : kl::zipped(x, y, z)) klv_visit(&std::get<0>(t), &std::get<1>(t), &std::get<2>(t));
}
void klv_zip3r(int* a, std::size_t n, const short* b, std::size_t m, char* c, std::size_t k)
{
    kl::range<int*> x(a, a + n);
    kl::range<const short*> y(b, b + m);
    counted<char> z{c, k};
    auto zip = kl::zipped(z, y, x);
    auto it = zip.begin();
    const auto last = zip.end();
    while (it != last)
    {
        auto t = *it;
        klv_visit(&std::get<2>(t), &std::get<1>(t), &std::get<0>(t));
        ++it;
    }
}
void klv_zipvec(const std::vector<int>* a, const std::vector<short>* b)
{
    for (auto t : kl::zipped(*a, *b)) klv_visit(&std::get<0>(t), &std::get<1>(t), nullptr);
}
void klv_ziparr(int (*a)[5], const short* b, std::size_t m)
{
    view<const short> y{b, m};
    for (auto t : kl::zipped(*a, y)) klv_visit(&std::get<0>(t), &std::get<1>(t), nullptr);
}
void klv_enum(int* a, std::size_t n)
{
    view<int> x{a, n};
    for (auto t : kl::enumerated(x)) klv_index(std::get<0>(t), &std::get<1>(t));
}
void klv_enumvec(const std::vector<int>* a)
{
    for (auto t : kl::enumerated(*a)) klv_index(std::get<0>(t), &std::get<1>(t));
}
void klv_zipiota(std::size_t from, const short* b, std::size_t m)
{
    view<const short> y{b, m};
    for (auto t : kl::zipped(kl::unbounded_iota_range<std::size_t>{from}, y)) klv_index(std::get<0>(t), &std::get<1>(t));
}
void klv_zipiota2(std::size_t from, std::size_t to, const short* b, std::size_t m)
{
    view<const short> y{b, m};
    for (auto t : kl::zipped(y, kl::iota_range<std::size_t>{from, to})) klv_index(std::get<1>(t), &std::get<0>(t));
}
void klv_iota(std::int64_t a, std::int64_t b)
{
    for (auto v : kl::iota_range<std::int64_t>{a, b}) klv_value(v);
}
}
