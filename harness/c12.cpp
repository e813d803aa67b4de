// entry points over the real enum_set / enum_traits operators, for every underlying type
#include <kl/enum_set.hpp>
#include <kl/enum_traits.hpp>
#include <cstdint>
#define OPS(N, T)                                                              \
    enum class E_##N : T {};                                                   \
    template <> struct kl::enum_traits<E_##N> : kl::enum_trait_support_bitmask, kl::enum_trait_support_indexing, kl::enum_trait_support_bitshift {}; \
    using S_##N = kl::enum_set<E_##N>;                                         \
    static constexpr S_##N mk_##N(T v) { return S_##N{static_cast<E_##N>(v)}; } \
    extern "C" {                                                               \
    T klv_##N##_ctor() { return S_##N{}.underlying_value(); }                  \
    T klv_##N##_value(T a) { return static_cast<T>(mk_##N(a).value()); }       \
    T klv_##N##_uvalue(T a) { return mk_##N(a).underlying_value(); }           \
    bool klv_##N##_bool(T a) { return static_cast<bool>(mk_##N(a)); }          \
    T klv_##N##_not(T a) { return (~mk_##N(a)).underlying_value(); }           \
    T klv_##N##_and(T a, T b) { return (mk_##N(a) & mk_##N(b)).underlying_value(); } \
    T klv_##N##_or(T a, T b) { return (mk_##N(a) | mk_##N(b)).underlying_value(); } \
    T klv_##N##_xor(T a, T b) { return (mk_##N(a) ^ mk_##N(b)).underlying_value(); } \
    T klv_##N##_and_se(T a, T b) { return (mk_##N(a) & E_##N(b)).underlying_value(); } \
    T klv_##N##_or_se(T a, T b) { return (mk_##N(a) | E_##N(b)).underlying_value(); } \
    T klv_##N##_xor_se(T a, T b) { return (mk_##N(a) ^ E_##N(b)).underlying_value(); } \
    T klv_##N##_and_es(T a, T b) { return (E_##N(a) & mk_##N(b)).underlying_value(); } \
    T klv_##N##_or_es(T a, T b) { return (E_##N(a) | mk_##N(b)).underlying_value(); } \
    T klv_##N##_xor_es(T a, T b) { return (E_##N(a) ^ mk_##N(b)).underlying_value(); } \
    bool klv_##N##_any_s(T a, T b) { return mk_##N(a).has_any(mk_##N(b)); }    \
    bool klv_##N##_any_e(T a, T b) { return mk_##N(a).has_any(E_##N(b)); }     \
    bool klv_##N##_all_s(T a, T b) { return mk_##N(a).has_all(mk_##N(b)); }    \
    bool klv_##N##_all_e(T a, T b) { return mk_##N(a).has_all(E_##N(b)); }     \
    bool klv_##N##_all_t(T a, T b) { return mk_##N(a).test(E_##N(b)); }        \
    bool klv_##N##_eq_ss(T a, T b) { return mk_##N(a) == mk_##N(b); }          \
    bool klv_##N##_eq_se(T a, T b) { return mk_##N(a) == E_##N(b); }           \
    bool klv_##N##_eq_es(T a, T b) { return E_##N(a) == mk_##N(b); }           \
    bool klv_##N##_ne_ss(T a, T b) { return mk_##N(a) != mk_##N(b); }          \
    bool klv_##N##_ne_se(T a, T b) { return mk_##N(a) != E_##N(b); }           \
    bool klv_##N##_ne_es(T a, T b) { return E_##N(a) != mk_##N(b); }           \
    bool klv_##N##_lt_ss(T a, T b) { return mk_##N(a) < mk_##N(b); }           \
    bool klv_##N##_lt_se(T a, T b) { return mk_##N(a) < E_##N(b); }            \
    bool klv_##N##_lt_es(T a, T b) { return E_##N(a) < mk_##N(b); }            \
    void* klv_##N##_and_asg_s(S_##N* a, const S_##N* b) { return &(*a &= *b); } \
    void* klv_##N##_or_asg_s(S_##N* a, const S_##N* b) { return &(*a |= *b); } \
    void* klv_##N##_xor_asg_s(S_##N* a, const S_##N* b) { return &(*a ^= *b); } \
    void* klv_##N##_and_asg_e(S_##N* a, const E_##N* b) { return &(*a &= *b); } \
    void* klv_##N##_or_asg_e(S_##N* a, const E_##N* b) { return &(*a |= *b); } \
    void* klv_##N##_xor_asg_e(S_##N* a, const E_##N* b) { return &(*a ^= *b); } \
    T klv_##N##_and_ee(T a, T b) { return static_cast<T>(E_##N(a) & E_##N(b)); } \
    T klv_##N##_or_ee(T a, T b) { return static_cast<T>(E_##N(a) | E_##N(b)); } \
    T klv_##N##_xor_ee(T a, T b) { return static_cast<T>(E_##N(a) ^ E_##N(b)); } \
    T klv_##N##_not_e(T a) { return static_cast<T>(~E_##N(a)); }               \
    bool klv_##N##_any_mask(T a, T b) { return check_mask(E_##N(a), E_##N(b)); } \
    void* klv_##N##_and_asg_ee(E_##N* a, const E_##N* b) { return &(*a &= *b); } \
    void* klv_##N##_or_asg_ee(E_##N* a, const E_##N* b) { return &(*a |= *b); } \
    void* klv_##N##_xor_asg_ee(E_##N* a, const E_##N* b) { return &(*a ^= *b); } \
    }
OPS(i8, std::int8_t)
OPS(u8, std::uint8_t)
OPS(i16, std::int16_t)
OPS(u16, std::uint16_t)
OPS(i32, std::int32_t)
OPS(u32, std::uint32_t)
OPS(i64, std::int64_t)
OPS(u64, std::uint64_t)
