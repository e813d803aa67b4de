#include <kl/enum_range.hpp>
#include <kl/range.hpp>
#include <cstdint>
#include <limits>
#include <type_traits>

extern "C" void klv_visit(std::int64_t v);

#define ENUM(N, T, LO, HI)                                                     \
    enum class e_##N : T { lo = LO, hi = HI };                                 \
    namespace kl { template <> struct enum_traits<e_##N> : enum_trait_support_range<e_##N, e_##N::lo, e_##N::hi>, enum_trait_support_indexing {}; } \
    enum class c_##N : T { lo = LO, last = HI - 1 };                           \
    namespace kl { template <> struct enum_traits<c_##N> : enum_trait_support_range<c_##N, c_##N::lo, c_##N::last, false>, enum_trait_support_indexing {}; }
ENUM(i8, std::int8_t, -128, 127)
ENUM(u8, std::uint8_t, 0, 255)
ENUM(i16, std::int16_t, -32768, 32767)
ENUM(u16, std::uint16_t, 3, 65535)
ENUM(i32, std::int32_t, -1000000000, 1000000000)
ENUM(u32, std::uint32_t, 7, 4294967295u)
ENUM(i64, std::int64_t, -4000000000000000000, 4000000000000000000)
ENUM(u64, std::uint64_t, 1, 9223372036854775807u)
ENUM(one, int, 41, 42)

// an iterator of a user: a pointer walk built on the facade
struct klv_it : kl::iterator_facade<klv_it, const int&, std::random_access_iterator_tag>
{
    const int* p{};
    klv_it() = default;
    explicit klv_it(const int* q) : p(q) {}
    void advance(std::ptrdiff_t n) { p += n; }
    void increment() { ++p; }
    void decrement() { --p; }
    std::ptrdiff_t distance_to(const klv_it& o) const { return p - o.p; }
    bool equal_to(const klv_it& o) const { return p == o.p; }
    const int& dereference() const { return *p; }
};
// and one yielding values
struct klv_cnt : kl::iterator_facade<klv_cnt, std::int64_t, std::random_access_iterator_tag>
{
    std::int64_t k{};
    klv_cnt() = default;
    explicit klv_cnt(std::int64_t v) : k(v) {}
    void advance(std::ptrdiff_t n) { k += n; }
    void increment() { ++k; }
    void decrement() { --k; }
    std::ptrdiff_t distance_to(const klv_cnt& o) const { return k - o.k; }
    bool equal_to(const klv_cnt& o) const { return k == o.k; }
    std::int64_t dereference() const { return k; }
};

// every operation reports what it returned and what became of its operands
#define LAWS(N, It, V, MK)                                                     \
    void klv_##N##_add(V a, std::ptrdiff_t n, V* r) { It i(MK(a)); auto j = i + n; r[0] = V(*j); r[1] = V(*i); } \
    void klv_##N##_radd(V a, std::ptrdiff_t n, V* r) { It i(MK(a)); auto j = n + i; r[0] = V(*j); r[1] = V(*i); } \
    void klv_##N##_adda(V a, std::ptrdiff_t n, V* r) { It i(MK(a)); auto& j = (i += n); r[0] = V(*j); r[1] = V(*i); } \
    void klv_##N##_sub(V a, std::ptrdiff_t n, V* r) { It i(MK(a)); auto j = i - n; r[0] = V(*j); r[1] = V(*i); } \
    void klv_##N##_suba(V a, std::ptrdiff_t n, V* r) { It i(MK(a)); auto& j = (i -= n); r[0] = V(*j); r[1] = V(*i); } \
    void klv_##N##_idx(V a, std::ptrdiff_t n, V* r) { It i(MK(a)); r[0] = V(i[n]); r[1] = V(*i); } \
    void klv_##N##_inc(V a, V* r) { It i(MK(a)); auto& j = ++i; r[0] = V(*j); r[1] = V(*i); } \
    void klv_##N##_pinc(V a, V* r) { It i(MK(a)); auto j = i++; r[0] = V(*j); r[1] = V(*i); } \
    void klv_##N##_dec(V a, V* r) { It i(MK(a)); auto& j = --i; r[0] = V(*j); r[1] = V(*i); } \
    void klv_##N##_pdec(V a, V* r) { It i(MK(a)); auto j = i--; r[0] = V(*j); r[1] = V(*i); } \
    void klv_##N##_arrow(V a, V* r) { It i(MK(a)); r[0] = V(*i.operator->().operator->()); r[1] = V(*i); } \
    void klv_##N##_copy(V a, V* r) { It i(MK(a)); It j; j = i; r[0] = V(*j); r[1] = V(*i); } \
    std::ptrdiff_t klv_##N##_diff(V a, V b) { return It(MK(a)) - It(MK(b)); }  \
    bool klv_##N##_eq(V a, V b) { return It(MK(a)) == It(MK(b)); }             \
    bool klv_##N##_ne(V a, V b) { return It(MK(a)) != It(MK(b)); }             \
    bool klv_##N##_lt(V a, V b) { return It(MK(a)) < It(MK(b)); }              \
    bool klv_##N##_gt(V a, V b) { return It(MK(a)) > It(MK(b)); }              \
    bool klv_##N##_le(V a, V b) { return It(MK(a)) <= It(MK(b)); }             \
    bool klv_##N##_ge(V a, V b) { return It(MK(a)) >= It(MK(b)); }
#define VAL(x) (x)
#define RANGE(N, T)                                                            \
    T klv_##N##_min() { return (T)kl::enum_traits<e_##N>::min(); }             \
    T klv_##N##_max() { return (T)kl::enum_traits<e_##N>::max(); }             \
    T klv_##N##_minv() { return kl::enum_traits<e_##N>::min_value(); }         \
    T klv_##N##_maxv() { return kl::enum_traits<e_##N>::max_value(); }         \
    T klv_##N##_cmaxv() { return kl::enum_traits<c_##N>::max_value(); }        \
    std::size_t klv_##N##_count() { return kl::enum_traits<e_##N>::count(); }  \
    std::size_t klv_##N##_ccount() { return kl::enum_traits<c_##N>::count(); } \
    bool klv_##N##_in(T v) { return kl::enum_traits<e_##N>::in_range(static_cast<e_##N>(v)); } \
    bool klv_##N##_inv(T v) { return kl::enum_traits<e_##N>::in_range(v); }    \
    bool klv_##N##_cin(T v) { return kl::enum_traits<c_##N>::in_range(static_cast<c_##N>(v)); } \
    void klv_##N##_range() { for (auto e : kl::enum_range<e_##N>{}) klv_visit(static_cast<std::int64_t>(e)); } \
    void klv_##N##_crange() { for (auto e : kl::enum_range<c_##N>{}) klv_visit(static_cast<std::int64_t>(e)); } \
    void klv_##N##_foreach(T a, T b) { kl::for_each_enum(static_cast<e_##N>(a), static_cast<e_##N>(b), [](e_##N e) { klv_visit(static_cast<std::int64_t>(e)); }); } \
    void klv_##N##_einc(T a, T* r) { auto e = static_cast<e_##N>(a); auto& j = ++e; r[0] = (T)j; r[1] = (T)e; } \
    void klv_##N##_epinc(T a, T* r) { auto e = static_cast<e_##N>(a); auto j = e++; r[0] = (T)j; r[1] = (T)e; } \
    T klv_##N##_plus(T a) { return +static_cast<e_##N>(a); }
#define E_I(N) static_cast<e_##N>
extern "C" {
LAWS(i8, kl::enum_iterator<e_i8>, std::int8_t, E_I(i8)) RANGE(i8, std::int8_t)
LAWS(u8, kl::enum_iterator<e_u8>, std::uint8_t, E_I(u8)) RANGE(u8, std::uint8_t)
LAWS(i16, kl::enum_iterator<e_i16>, std::int16_t, E_I(i16)) RANGE(i16, std::int16_t)
LAWS(u16, kl::enum_iterator<e_u16>, std::uint16_t, E_I(u16)) RANGE(u16, std::uint16_t)
LAWS(i32, kl::enum_iterator<e_i32>, std::int32_t, E_I(i32)) RANGE(i32, std::int32_t)
LAWS(u32, kl::enum_iterator<e_u32>, std::uint32_t, E_I(u32)) RANGE(u32, std::uint32_t)
LAWS(i64, kl::enum_iterator<e_i64>, std::int64_t, E_I(i64)) RANGE(i64, std::int64_t)
LAWS(u64, kl::enum_iterator<e_u64>, std::uint64_t, E_I(u64)) RANGE(u64, std::uint64_t)
RANGE(one, int)
LAWS(cnt, klv_cnt, std::int64_t, VAL)
// pointer walk: positions relative to the start of an array
void klv_ptr_add(const int* a, std::ptrdiff_t n, const int** r) { klv_it i(a); auto j = i + n; r[0] = j.p; r[1] = i.p; }
void klv_ptr_radd(const int* a, std::ptrdiff_t n, const int** r) { klv_it i(a); auto j = n + i; r[0] = j.p; r[1] = i.p; }
void klv_ptr_adda(const int* a, std::ptrdiff_t n, const int** r) { klv_it i(a); auto& j = (i += n); r[0] = j.p; r[1] = i.p; }
void klv_ptr_sub(const int* a, std::ptrdiff_t n, const int** r) { klv_it i(a); auto j = i - n; r[0] = j.p; r[1] = i.p; }
void klv_ptr_suba(const int* a, std::ptrdiff_t n, const int** r) { klv_it i(a); auto& j = (i -= n); r[0] = j.p; r[1] = i.p; }
void klv_ptr_inc(const int* a, const int** r) { klv_it i(a); auto& j = ++i; r[0] = j.p; r[1] = i.p; }
void klv_ptr_pinc(const int* a, const int** r) { klv_it i(a); auto j = i++; r[0] = j.p; r[1] = i.p; }
void klv_ptr_dec(const int* a, const int** r) { klv_it i(a); auto& j = --i; r[0] = j.p; r[1] = i.p; }
void klv_ptr_pdec(const int* a, const int** r) { klv_it i(a); auto j = i--; r[0] = j.p; r[1] = i.p; }
const int* klv_ptr_idx(const int* a, std::ptrdiff_t n) { klv_it i(a); return &i[n]; }
const int* klv_ptr_deref(const int* a) { klv_it i(a); return &*i; }
const int* klv_ptr_arrow(const int* a) { klv_it i(a); return i.operator->(); }
std::ptrdiff_t klv_ptr_diff(const int* a, const int* b) { return klv_it(a) - klv_it(b); }
bool klv_ptr_eq(const int* a, const int* b) { return klv_it(a) == klv_it(b); }
bool klv_ptr_ne(const int* a, const int* b) { return klv_it(a) != klv_it(b); }
bool klv_ptr_lt(const int* a, const int* b) { return klv_it(a) < klv_it(b); }
bool klv_ptr_gt(const int* a, const int* b) { return klv_it(a) > klv_it(b); }
bool klv_ptr_le(const int* a, const int* b) { return klv_it(a) <= klv_it(b); }
bool klv_ptr_ge(const int* a, const int* b) { return klv_it(a) >= klv_it(b); }
// kl::range over the same
std::size_t klv_range_size(const int* a, const int* b) { return kl::range<const int*>(a, b).size(); }
std::size_t klv_range_isize(const int* a, const int* b) { return kl::range<klv_it>(klv_it(a), klv_it(b)).size(); }
const int* klv_range_begin(const int* a, const int* b) { return kl::range<const int*>(a, b).begin(); }
const int* klv_range_end(const int* a, const int* b) { return kl::range<const int*>(a, b).end(); }
}
