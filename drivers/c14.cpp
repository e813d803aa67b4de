#include "drv.hpp"
#include "../harness/c14.cpp"
// case: "<fnv|hsieh> <hex>"
static std::uint32_t ref_fnv(const std::string& s)
{
    std::uint32_t h = 2166136261u;
    for (unsigned char c : s) { h ^= c; h *= 16777619u; }
    return h;
}
static std::uint32_t ref_sfh(const std::string& str)
{
    const auto* d = reinterpret_cast<const unsigned char*>(str.data());
    std::size_t len = str.size();
    std::uint32_t h = static_cast<std::uint32_t>(len), t;
    if (!len) return 0;
    auto g = [](const unsigned char* p) { return std::uint32_t(p[1]) * 256u + p[0]; };
    auto sc = [](unsigned char c) { return static_cast<std::uint32_t>(static_cast<std::int32_t>(static_cast<signed char>(c))); };
    unsigned rem = len & 3;
    for (len >>= 2; len; --len) { h += g(d); t = (g(d + 2) << 11) ^ h; h = (h << 16) ^ t; d += 4; h += h >> 11; }
    if (rem == 3) { h += g(d); h ^= h << 16; h ^= sc(d[2]) << 18; h += h >> 11; }
    if (rem == 2) { h += g(d); h ^= h << 11; h += h >> 17; }
    if (rem == 1) { h += sc(*d); h ^= h << 10; h += h >> 1; }
    h ^= h << 3; h += h >> 5; h ^= h << 4; h += h >> 17; h ^= h << 25; h += h >> 6;
    return h;
}
std::string run_case(const std::string& c)
{
    auto w = words(c);
    std::string in = w.size() > 1 ? unhex(w[1]) : "";
    if (w.size() > 2) // padded to a long input
        in.resize(std::min<std::size_t>(std::stoull(w[2]), 1u << 24), 'x');
    std::vector<char> b(in.begin(), in.end());
    if (w[0] == "hsieh")
        return klv_hsieh(b.data(), b.size()) == ref_sfh(in) ? "" : "hsieh differs from SuperFastHash";
    auto want = ref_fnv(in);
    if (klv_fnv(b.data(), b.size()) != want) return "fnv1a differs";
    if (klv_fnv_lit(b.data(), b.size()) != want) return "literal differs";
    if (klv_fnv_str(&in) != want) return "string overload differs";
    if (in.size() == 6) { char a[7]; std::memcpy(a, in.data(), 6); a[6] = 0; if (klv_fnv_a7(&a) != want) return "array overload differs"; }
    if (in.size() == 1) { char a[2] = {in[0], 0}; if (klv_fnv_a2(&a) != want) return "array overload differs"; }
    if (in.size() == 0) { char a[1] = {0}; if (klv_fnv_a1(&a) != want) return "array overload differs"; }
    return "";
}
std::string gen_case(Rng& r, std::uint64_t i)
{
    if (i % 500 == 499)
        return std::string(r.coin() ? "fnv " : "hsieh ") + hex(rnd_bytes(r, 5, nullptr)) + "00 " + std::to_string(60000 + r.below(100000));
    return std::string(r.coin() ? "fnv " : "hsieh ") + hex(rnd_bytes(r, i < 1000 ? i % 12 : r.coin(20) ? 3000 : 20, r.coin() ? nullptr : "abcXYZ 019"));
}
