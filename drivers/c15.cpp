#include "drv.hpp"
#include "../harness/c15.cpp"
// cases: "<type> <kind> <bits>" and "round_<type> 0 <value>"
static std::vector<std::pair<int, std::uint64_t>> wrote;
extern "C" void klv_wrote(int k, std::uint64_t v) { wrote.push_back({k, v}); }
using big = __int128;
static big jsonval(int k, std::uint64_t b)
{
    switch (k)
    {
    case 0: return static_cast<int>(b);
    case 1: return static_cast<unsigned>(b);
    case 2: return static_cast<std::int64_t>(b);
    default: return b;
    }
}
template <class T>
static std::string de_case(int k, std::uint64_t b)
{
    for (int ref = 0; ref < 2; ++ref)
    {
        T out{};
        int r = ref ? de_ref<T>(k, b, &out) : de<T>(k, b, &out);
        bool want;
        big v = 0;
        if constexpr (std::is_same_v<T, bool>) { want = k == 6 || k == 7; v = k == 7; }
        else { want = k < 4; if (want) { v = jsonval(k, b); want = v >= big(std::numeric_limits<T>::min()) && v <= big(std::numeric_limits<T>::max()); } }
        if (r == 2) return "threw something else than deserialize_error";
        if (want != (r == 0)) return want ? "a representable integer is rejected" : "an unrepresentable value is accepted";
        if (want && big(out) != v) return "the value differs";
    }
    return "";
}
template <class T>
static std::string round_case(std::uint64_t b)
{
    if constexpr (std::is_same_v<T, long long> || std::is_same_v<T, unsigned long long>) return "";
    else {
    T in = static_cast<T>(b), out{};
    if (round<T>(in, &out)) return "the serialized value is rejected";
    if (in != out) return "round trip changes the value";
    wrote.clear();
    put<T>(in);
    if (wrote.size() != 1) return "not one value written";
    if (std::is_same_v<T, bool> ? wrote[0].first != 4 : wrote[0].first > 3) return "written as something else";
    if (std::is_same_v<T, bool> ? wrote[0].second != std::uint64_t(in) : jsonval(wrote[0].first, wrote[0].second) != big(in)) return "writes a different value";
    return "";
    }
}
#define ALL X(i8, std::int8_t) X(u8, std::uint8_t) X(ch, char) X(i16, std::int16_t) X(u16, std::uint16_t) X(i32, std::int32_t) X(u32, std::uint32_t) X(i64, std::int64_t) X(u64, std::uint64_t) X(ll, long long) X(ull, unsigned long long) X(bool, bool)
static const char* names[] = {
#define X(n, t) #n,
    ALL
#undef X
};
std::string run_case(const std::string& c)
{
    auto w = words(c);
    if (w.size() != 3) return "";
    int k = std::stoi(w[1]);
    std::uint64_t b = w[2][0] == '-' ? static_cast<std::uint64_t>(std::stoll(w[2])) : std::stoull(w[2]);
#define X(n, t) if (w[0] == #n) return de_case<t>(k, b); if (w[0] == "round_" #n) return round_case<t>(b);
    ALL
#undef X
    return "";
}
std::string gen_case(Rng& r, std::uint64_t i)
{
    std::uint64_t b = r.next();
    switch (r.below(4))
    {
    case 0: b = (1ull << r.below(64)) + r.below(5) - 2; break;
    case 1: b = -(1ull << r.below(64)) + r.below(5) - 2; break;
    case 2: b >>= r.below(64); break;
    }
    if (i % 4 == 0) return std::string("round_") + r.pick(names) + " 0 " + std::to_string(b);
    return std::string(r.pick(names)) + " " + std::to_string(r.below(r.coin() ? 4 : 11)) + " " + std::to_string(b);
}
