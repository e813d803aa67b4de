#include <kl/enum_reflector.hpp>
#include <kl/reflect_enum.hpp>
#include <cstdint>
#include <optional>
#include <string_view>

namespace c20 {
enum class ord : int { a, b, ccc, dd };
enum class ord8 : std::uint8_t { zero, one, two };
enum class sord8 : signed char { p, q, r };
enum class sparse : int { lo = -5, x = 3, hi = 2000000000 };
enum class perm : int { c0 = 0, c2 = 2, c1 = 1, c3 = 3 };
enum class notzero : unsigned short { one = 1, two = 2, three = 3 };
enum class wide : std::int64_t { neg = INT64_MIN, mid = 1ll << 32, top = INT64_MAX };
enum class uwide : std::uint64_t { z = 0, top = UINT64_MAX };
enum class single : int { only = 0 };
enum class single7 : int { only = 7 };
enum class prefix : int { A = 0, AB = 1, ABC = 2, abc = 3 };
enum class renamed : int { alpha = 0, beta = 1, gamma = 5 };
enum flat : unsigned { flat_a, flat_b = 4, flat_c = 5 };
enum class alias : int { x = 0, y = 1, z = 1, w = 2 };
enum class gap : int { a = 0, b = 1, d = 3 };
enum class dup : int { x = 0, y = 1, z = 1, w = 3 };
enum class dup0 : unsigned char { x = 0, y = 0, z = 2 };
enum class dip : short { a = 0, b = -1, c = 2 };
enum class jump : long { a = 0, b = 5, c = 2 };
enum class rev : int { a = 2, b = 1, c = 0 };
enum class swap0 : unsigned { b = 1, a = 0, c = 2 };
enum class big : int { v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19 };
enum class bigger : short { k0 = 100, k1 = 99, k2 = 98, k3 = -1, k4 = 0, k5 = 1, k6 = 32767, k7 = -32768 };

KL_REFLECT_ENUM(ord, a, b, ccc, dd)
KL_REFLECT_ENUM(ord8, zero, one, two)
KL_REFLECT_ENUM(sord8, p, q, r)
KL_REFLECT_ENUM(sparse, lo, x, hi)
KL_REFLECT_ENUM(perm, c0, c2, c1, c3)
KL_REFLECT_ENUM(notzero, one, two, three)
KL_REFLECT_ENUM(wide, neg, mid, top)
KL_REFLECT_ENUM(uwide, z, top)
KL_REFLECT_ENUM(single, only)
KL_REFLECT_ENUM(single7, only)
KL_REFLECT_ENUM(prefix, A, AB, ABC, abc)
KL_REFLECT_ENUM(renamed, (alpha, first), beta, (gamma, the_third_one))
KL_REFLECT_ENUM(flat, flat_a, (flat_b, B), flat_c)
KL_REFLECT_ENUM(alias, x, y, z, w)
KL_REFLECT_ENUM(gap, a, b, d)
KL_REFLECT_ENUM(dup, x, y, z, w)
KL_REFLECT_ENUM(dup0, x, y, z)
KL_REFLECT_ENUM(dip, a, b, c)
KL_REFLECT_ENUM(jump, a, b, c)
KL_REFLECT_ENUM(rev, a, b, c)
KL_REFLECT_ENUM(swap0, b, a, c)
KL_REFLECT_ENUM_SEQ(big, (v0)(v1)(v2)(v3)(v4)(v5)(v6)(v7)(v8)(v9)(v10)(v11)(v12)(v13)(v14)(v15)(v16)(v17)(v18)((v19, last)))
KL_REFLECT_ENUM_SEQ(bigger, (k0)(k1)(k2)(k3)(k4)(k5)(k6)(k7))
} // namespace c20

template <typename E>
using U = std::underlying_type_t<E>;

#define ENUM(N)                                                                \
    const char* klv_to_##N(U<c20::N> v) { return kl::enum_reflector<c20::N>::to_string(static_cast<c20::N>(v)); } \
    const char* klv_todef_##N(U<c20::N> v, const char* def) { return kl::enum_reflector<c20::N>::to_string(static_cast<c20::N>(v), def); } \
    const char* klv_free_##N(U<c20::N> v) { return kl::to_string(static_cast<c20::N>(v)); } \
    int klv_from_##N(const char* p, std::size_t n, U<c20::N>* out)             \
    {                                                                          \
        auto r = kl::enum_reflector<c20::N>::from_string(std::string_view(p, n)); \
        if (!r) return 0;                                                      \
        *out = static_cast<U<c20::N>>(*r);                                     \
        return 1;                                                              \
    }                                                                          \
    int klv_ffree_##N(const char* p, std::size_t n, U<c20::N>* out)            \
    {                                                                          \
        auto r = kl::from_string<c20::N>(std::string_view(p, n));              \
        if (!r) return 0;                                                      \
        *out = static_cast<U<c20::N>>(*r);                                     \
        return 1;                                                              \
    }                                                                          \
    std::size_t klv_count_##N() { return kl::reflect_enum<c20::N>().count(); } \
    const c20::N* klv_vbegin_##N() { return kl::enum_reflector<c20::N>::values().begin(); } \
    const c20::N* klv_vend_##N() { return kl::enum_reflector<c20::N>::values().end(); } \
    std::size_t klv_cvals_##N(c20::N* out)                                     \
    {                                                                          \
        auto v = kl::enum_reflector<c20::N>::constexpr_values();               \
        std::size_t i = 0;                                                     \
        for (auto e : v) out[i++] = e;                                         \
        return v.size();                                                       \
    }                                                                          \
    int klv_view_##N(std::size_t i, U<c20::N>* v, const char** p, std::size_t* n) \
    {                                                                          \
        auto rng = reflect_enum(kl::enum_<c20::N>);                            \
        if (i >= rng.size()) return 0;                                         \
        auto it = rng.begin() + i;                                             \
        *v = static_cast<U<c20::N>>(it->value);                                \
        *p = it->name.data();                                                  \
        *n = it->name.size();                                                  \
        return rng.begin() + rng.size() == rng.end() ? 1 : 2;                  \
    }
extern "C" {
ENUM(ord)
ENUM(ord8)
ENUM(sord8)
ENUM(sparse)
ENUM(perm)
ENUM(notzero)
ENUM(wide)
ENUM(uwide)
ENUM(single)
ENUM(single7)
ENUM(prefix)
ENUM(renamed)
ENUM(flat)
ENUM(alias)
ENUM(gap)
ENUM(dup)
ENUM(dup0)
ENUM(dip)
ENUM(jump)
ENUM(rev)
ENUM(swap0)
ENUM(big)
ENUM(bigger)
}
