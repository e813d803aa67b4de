#include "drv.hpp"
#include "../harness/c12.cpp"
// case: "<type> <op> <a> <b>"
template <class T> using F2 = T (*)(T, T);
#define R2(N, op, expr) if (o == #op) { T w = static_cast<T>(expr); T g = klv_##N##_##op(a, b); if (g != w) return "wrong result"; return ""; }
#define B2(N, op, expr) if (o == #op) { bool w = (expr); bool g = klv_##N##_##op(a, b); if (g != w) return "wrong answer"; return ""; }
#define A2(N, op, S, R, expr) if (o == #op) { S x{static_cast<E_##N>(a)}; R y{static_cast<E_##N>(b)}; void* p = klv_##N##_##op(&x, &y); \
    T xv, yv; std::memcpy(&xv, &x, sizeof xv); std::memcpy(&yv, &y, sizeof yv); \
    if (p != &x || xv != static_cast<T>(expr) || yv != b) return "wrong assignment"; return ""; }
#define DO(N, TT)                                                              \
    if (w[0] == #N) {                                                          \
        using T = TT;                                                          \
        T a = static_cast<T>(std::strtoull(w[2].c_str(), nullptr, 10));        \
        T b = static_cast<T>(std::strtoull(w[3].c_str(), nullptr, 10));        \
        const std::string o = w[1];                                            \
        R2(N, and, a & b) R2(N, or, a | b) R2(N, xor, a ^ b)                   \
        R2(N, and_se, a & b) R2(N, or_se, a | b) R2(N, xor_se, a ^ b)          \
        R2(N, and_es, a & b) R2(N, or_es, a | b) R2(N, xor_es, a ^ b)          \
        R2(N, and_ee, a & b) R2(N, or_ee, a | b) R2(N, xor_ee, a ^ b)          \
        B2(N, any_s, (a & b) != 0) B2(N, any_e, (a & b) != 0) B2(N, any_mask, (a & b) != 0) \
        B2(N, all_s, (a & b) == b) B2(N, all_e, (a & b) == b) B2(N, all_t, (a & b) == b) \
        B2(N, eq_ss, a == b) B2(N, eq_se, a == b) B2(N, eq_es, a == b)         \
        B2(N, ne_ss, a != b) B2(N, ne_se, a != b) B2(N, ne_es, a != b)         \
        B2(N, lt_ss, a < b) B2(N, lt_se, a < b) B2(N, lt_es, a < b)            \
        A2(N, and_asg_s, S_##N, S_##N, a & b) A2(N, or_asg_s, S_##N, S_##N, a | b) A2(N, xor_asg_s, S_##N, S_##N, a ^ b) \
        A2(N, and_asg_e, S_##N, E_##N, a & b) A2(N, or_asg_e, S_##N, E_##N, a | b) A2(N, xor_asg_e, S_##N, E_##N, a ^ b) \
        A2(N, and_asg_ee, E_##N, E_##N, a & b) A2(N, or_asg_ee, E_##N, E_##N, a | b) A2(N, xor_asg_ee, E_##N, E_##N, a ^ b) \
        if (o == "not") return klv_##N##_not(a) == static_cast<T>(~a) ? "" : "wrong complement"; \
        if (o == "not_e") return klv_##N##_not_e(a) == static_cast<T>(~a) ? "" : "wrong complement"; \
        if (o == "value") return klv_##N##_value(a) == a ? "" : "wrong value"; \
        if (o == "uvalue") return klv_##N##_uvalue(a) == a ? "" : "wrong value"; \
        if (o == "bool") return klv_##N##_bool(a) == (a != 0) ? "" : "wrong emptiness"; \
        if (o == "ctor") return klv_##N##_ctor() == 0 ? "" : "default is not empty"; \
        return "";                                                             \
    }
std::string run_case(const std::string& c)
{
    auto w = words(c);
    if (w.size() < 4) return "";
    DO(i8, std::int8_t) DO(u8, std::uint8_t) DO(i16, std::int16_t) DO(u16, std::uint16_t)
    DO(i32, std::int32_t) DO(u32, std::uint32_t) DO(i64, std::int64_t) DO(u64, std::uint64_t)
    return "";
}
std::string gen_case(Rng& r, std::uint64_t)
{
    static const char* ts[] = {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"};
    static const char* ops[] = {"and", "or", "xor", "and_se", "or_se", "xor_se", "and_es", "or_es", "xor_es", "and_ee", "or_ee", "xor_ee", "any_s", "any_e", "any_mask",
        "all_s", "all_e", "all_t", "eq_ss", "eq_se", "eq_es", "ne_ss", "ne_se", "ne_es", "lt_ss", "lt_se", "lt_es", "and_asg_s", "or_asg_s", "xor_asg_s",
        "and_asg_e", "or_asg_e", "xor_asg_e", "and_asg_ee", "or_asg_ee", "xor_asg_ee", "not", "not_e", "value", "uvalue", "bool", "ctor"};
    auto v = [&] { std::uint64_t x = r.next(); switch (r.below(6)) { case 0: return x & 3; case 1: return std::uint64_t(1) << (x & 63); case 2: return ~std::uint64_t(0) << (x & 63); case 3: return x & (x >> 7) & (x >> 13); default: return x; } };
    std::uint64_t a = v(), b = r.coin(4) ? a : r.coin(4) ? (a & v()) : v();
    return std::string(r.pick(ts)) + " " + r.pick(ops) + " " + std::to_string(a) + " " + std::to_string(b);
}
