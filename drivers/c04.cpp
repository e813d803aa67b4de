#include "../harness/c04.cpp"
#include "drv.hpp"
#include <new>
#include <memory>
// Cases: "<type> <value words> <cap> <len>" from the verifier, or "T <type number> <seed> <mode>" (random values
// of a random type: written to every capacity, read back from every prefix, then from damaged bytes)
static std::string word(int r, const char* w)
{
    static const char* t[] = {"", "writing failed", "reading failed", "the reader stops elsewhere than the writer", "the value read back differs", "position past the input"};
    return std::string(w) + ": " + (r >= 0 && r < 6 ? t[r] : "?");
}
template <typename T> struct tag {};
static Rng* G;
static std::int64_t num() { static const std::int64_t s[] = {0, 1, -1, 127, 128, 255, 256, 32767, 65535, 65536, 0x7fffffff, 0x80000000ll, -0x80000000ll, 0xffffffffll}; return G->coin(3) ? s[G->below(14)] : static_cast<std::int64_t>(G->next()); }
template <typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0> T make(tag<T>) { if constexpr (std::is_same_v<T, bool>) return G->coin(2); else return static_cast<T>(num()); }
template <typename T, std::enable_if_t<std::is_floating_point_v<T>, int> = 0> T make(tag<T>) { return static_cast<T>(num()) / 3; }
static klv_e make(tag<klv_e>) { return static_cast<klv_e>(num()); }
template <boost::endian::order O, typename T, std::size_t N, boost::endian::align A> auto make(tag<boost::endian::endian_arithmetic<O, T, N, A>>) { return boost::endian::endian_arithmetic<O, T, N, A>(static_cast<T>(num() & 0x7fff)); }
static std::string make(tag<std::string>);
template <typename A, typename B> std::pair<A, B> make(tag<std::pair<A, B>>);
template <typename A> std::optional<A> make(tag<std::optional<A>>);
template <typename A> std::vector<A> make(tag<std::vector<A>>);
template <typename A> std::set<A> make(tag<std::set<A>>);
template <typename A, typename B> std::map<A, B> make(tag<std::map<A, B>>);
template <typename... A> std::variant<A...> make(tag<std::variant<A...>>);
static std::size_t BIG = 0;
static std::size_t cnt() { if (BIG) { auto b = BIG; BIG = 0; return b; } return G->coin(3) ? G->below(20) : G->below(4); }
static std::string make(tag<std::string>) { std::string s; for (auto n = cnt() * (G->coin(4) ? 5 : 1); n; --n) s += static_cast<char>(G->next()); return s; }
template <typename A, typename B> std::pair<A, B> make(tag<std::pair<A, B>>) { auto a = make(tag<A>{}); return {std::move(a), make(tag<B>{})}; }
template <typename A> std::optional<A> make(tag<std::optional<A>>) { if (G->coin(3)) return std::nullopt; return make(tag<A>{}); }
template <typename A> std::vector<A> make(tag<std::vector<A>>) { std::vector<A> v; for (auto n = cnt(); n; --n) v.push_back(make(tag<A>{})); return v; }
template <typename A> std::set<A> make(tag<std::set<A>>) { std::set<A> v; for (auto n = cnt(); n; --n) v.insert(make(tag<A>{})); return v; }
template <typename A, typename B> std::map<A, B> make(tag<std::map<A, B>>) { std::map<A, B> v; for (auto n = cnt(); n; --n) { auto k = make(tag<A>{}); v[k] = make(tag<B>{}); } return v; }
template <typename... A> std::variant<A...> make(tag<std::variant<A...>>)
{
    using V = std::variant<A...>;
    std::size_t k = G->below(sizeof...(A)), i = 0;
    std::optional<V> r;
    ((i++ == k ? (void)(r = V(make(tag<A>{}))) : (void)0), ...);
    return *r;
}
// independent encoder of the documented format
using Out = std::string;
template <typename T> void raw(Out& o, const T& v) { o.append(reinterpret_cast<const char*>(&v), sizeof v); }
template <typename T, std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>, int> = 0> void enc(Out& o, const T& v) { raw(o, v); }
template <boost::endian::order O, typename T, std::size_t N, boost::endian::align A> void enc(Out& o, const boost::endian::endian_arithmetic<O, T, N, A>& v)
{
    T x = v;
    for (std::size_t i = 0; i < N / 8; ++i) o += static_cast<char>(x >> (8 * (O == boost::endian::order::little ? i : N / 8 - 1 - i)));
}
static void enc(Out& o, const std::string& v) { raw(o, std::uint32_t(v.size())); o += v; }
template <typename A, typename B> void enc(Out& o, const std::pair<A, B>& v);
template <typename A> void enc(Out& o, const std::optional<A>& v);
template <typename A> void enc(Out& o, const std::vector<A>& v);
template <typename A> void enc(Out& o, const std::set<A>& v);
template <typename A, typename B> void enc(Out& o, const std::map<A, B>& v);
template <typename... A> void enc(Out& o, const std::variant<A...>& v);
template <typename A, typename B> void enc(Out& o, const std::pair<A, B>& v) { enc(o, v.first); enc(o, v.second); }
template <typename A> void enc(Out& o, const std::optional<A>& v) { o += static_cast<char>(v ? 1 : 0); if (v) enc(o, *v); }
template <typename A> void enc(Out& o, const std::vector<A>& v) { raw(o, std::uint32_t(v.size())); for (auto& x : v) enc(o, x); }
template <typename A> void enc(Out& o, const std::set<A>& v) { raw(o, std::uint32_t(v.size())); for (auto& x : v) enc(o, x); }
template <typename A, typename B> void enc(Out& o, const std::map<A, B>& v) { raw(o, std::uint32_t(v.size())); for (auto& x : v) { enc(o, x.first); enc(o, x.second); } }
template <typename... A> void enc(Out& o, const std::variant<A...>& v) { o += static_cast<char>(v.index()); std::visit([&](auto& x) { enc(o, x); }, v); }
// how many bytes a decoder of the documented format consumes (-1: truncated or invalid)
struct In { const std::string& s; std::size_t p; bool bad; };
static void need(In& i, std::size_t n) { if (i.bad || i.s.size() - i.p < n) i.bad = true; else i.p += n; }
static std::uint64_t u(In& i, std::size_t n) { std::uint64_t r = 0; if (i.bad || i.s.size() - i.p < n) { i.bad = true; return 0; } std::memcpy(&r, i.s.data() + i.p, n); i.p += n; return r; }
template <typename T, std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>, int> = 0> void dec(In& i, tag<T>) { need(i, sizeof(T)); }
template <boost::endian::order O, typename T, std::size_t N, boost::endian::align A> void dec(In& i, tag<boost::endian::endian_arithmetic<O, T, N, A>>) { need(i, N / 8); }
static void dec(In& i, tag<std::string>) { need(i, u(i, 4)); }
template <typename A, typename B> void dec(In& i, tag<std::pair<A, B>>);
template <typename A> void dec(In& i, tag<std::optional<A>>);
template <typename A> void dec(In& i, tag<std::vector<A>>);
template <typename A> void dec(In& i, tag<std::set<A>>);
template <typename A, typename B> void dec(In& i, tag<std::map<A, B>>);
template <typename... A> void dec(In& i, tag<std::variant<A...>>);
template <typename A, typename B> void dec(In& i, tag<std::pair<A, B>>) { dec(i, tag<A>{}); if (!i.bad) dec(i, tag<B>{}); }
template <typename A> void dec(In& i, tag<std::optional<A>>) { if (u(i, 1) && !i.bad) dec(i, tag<A>{}); }
template <typename A> void dec(In& i, tag<std::vector<A>>) { for (auto n = u(i, 4); n && !i.bad; --n) dec(i, tag<A>{}); }
template <typename A> void dec(In& i, tag<std::set<A>>) { for (auto n = u(i, 4); n && !i.bad; --n) dec(i, tag<A>{}); }
template <typename A, typename B> void dec(In& i, tag<std::map<A, B>>) { for (auto n = u(i, 4); n && !i.bad; --n) { dec(i, tag<A>{}); dec(i, tag<B>{}); } }
template <typename... A> void dec(In& i, tag<std::variant<A...>>)
{
    auto k = u(i, 1);
    if (i.bad) return;
    if (k >= sizeof...(A)) { i.bad = true; return; }
    std::size_t j = 0;
    ((j++ == k ? dec(i, tag<A>{}) : (void)0), ...);
}
template <typename T> std::string one(std::uint64_t seed)
{
    Rng r{seed};
    G = &r;
    T v = make(tag<T>{});
    Out want;
    enc(want, v);
    const std::size_t E = want.size();
    auto at = [&](std::size_t n) { return std::unique_ptr<std::byte[]>(new std::byte[n ? n : 1]); };
    std::string tail = " (encoded size " + std::to_string(E) + ")";
    for (std::size_t k = 0; k < 6; ++k)
    {
        std::size_t cap = k < 3 ? E + k : k == 3 && E ? E - 1 : E ? r.below(E) : 0;
        std::unique_ptr<std::byte[]> b(new std::byte[cap]);
        std::memset(b.get(), 0x5a, cap);
        kl::binary_writer w{gsl::span<std::byte>{b.get(), cap}};
        w << v;
        if (w.err() != (cap < E)) return "writing to " + std::to_string(cap) + " bytes: error flag " + std::to_string(w.err()) + tail;
        if (w.err()) continue;
        if (w.pos() != E || std::memcmp(b.get(), want.data(), E) != 0) return "the bytes written are not the documented encoding" + tail;
        for (std::size_t x = E; x < cap; ++x) if (b[x] != std::byte{0x5a}) return "bytes after the encoding were changed" + tail;
    }
    for (std::size_t k = 0; k < 8; ++k)
    {
        std::size_t len = k < 2 ? E + k : k == 2 && E ? E - 1 : E ? r.below(E) : 0;
        std::unique_ptr<std::byte[]> b(new std::byte[len]);
        if (len) { std::memset(b.get(), 0x5a, len); std::memcpy(b.get(), want.data(), std::min(len, E)); }
        kl::binary_reader rd{gsl::span<const std::byte>{b.get(), len}};
        T out = k & 1 ? make(tag<T>{}) : T{};
        try {
            if (k == 4) out = rd.read<T>();
            else if (k == 5) { bool ok = rd.read(out); if (ok == rd.err()) return "read() result contradicts the error flag" + tail; }
            else rd >> out;
        } catch (const std::exception& e) { return std::string("reading throws ") + e.what() + tail; }
        if (rd.err() != (len < E)) return "reading " + std::to_string(len) + " bytes: error flag " + std::to_string(rd.err()) + tail;
        if (rd.pos() > len) return "position past the input" + tail;
        if (!rd.err() && rd.pos() != E) return "the reader stops at " + std::to_string(rd.pos()) + tail;
        if (!rd.err() && !(out == v)) return "the value read back differs" + tail;
    }
    // damaged input
    for (int k = 0; k < 3; ++k)
    {
        std::string s = want;
        if (s.empty()) break;
        for (auto n = 1 + r.below(3); n; --n) s[r.coin(2) ? r.below(std::min<std::size_t>(5, s.size())) : r.below(s.size())] = static_cast<char>(r.coin(2) ? r.next() : (r.coin(2) ? 0xff : r.below(6)));
        if (r.coin(3)) s.resize(r.below(s.size() + 1));
        In in{s, 0, false};
        dec(in, tag<T>{});
        std::unique_ptr<std::byte[]> b(new std::byte[s.size()]);
        if (!s.empty()) std::memcpy(b.get(), s.data(), s.size());
        kl::binary_reader rd{gsl::span<const std::byte>{b.get(), s.size()}};
        T out = make(tag<T>{});
        try { rd >> out; } catch (const std::exception& e) { return std::string("reading damaged input throws ") + e.what(); }
        if (rd.err() != in.bad) return std::string("damaged input ") + hex(s) + ": error flag " + std::to_string(rd.err());
        if (rd.pos() > s.size()) return "position past the input";
        if (!in.bad && rd.pos() != in.p) return std::string("damaged input ") + hex(s) + ": reader at " + std::to_string(rd.pos()) + " instead of " + std::to_string(in.p);
    }
    return "";
}
using S = std::string;
template <typename... T> struct types {};
using All = types<std::uint8_t, bool, std::int16_t, std::uint32_t, std::int64_t, float, double, klv_e, boost::endian::big_int32_t, boost::endian::little_uint16_t, boost::endian::big_uint64_t, S,
    std::pair<std::uint8_t, std::int32_t>, std::pair<S, std::int16_t>, std::optional<int>, std::optional<S>, std::optional<std::optional<std::int16_t>>, std::optional<std::vector<int>>, std::vector<std::uint8_t>, std::vector<std::int32_t>,
    std::vector<double>, std::vector<klv_e>, std::vector<S>, std::vector<std::vector<std::int16_t>>, std::vector<std::optional<std::uint8_t>>, std::vector<std::pair<int, S>>, std::set<int>, std::set<S>, std::map<int, std::int16_t>,
    std::map<S, S>, std::map<std::uint8_t, std::vector<int>>, std::map<S, std::map<int, S>>, V3, VS, std::variant<std::uint8_t, std::optional<S>, std::map<int, int>, double>, std::vector<VS>, std::map<int, V3>, std::vector<std::set<std::uint8_t>>,
    std::vector<std::pair<boost::endian::big_int32_t, klv_e>>, std::optional<std::variant<std::int16_t, S>>>;
template <typename... T> std::string go(types<T...>, std::size_t k, std::uint64_t seed)
{
    std::string r = "?";
    std::size_t i = 0;
    ((i++ == k % sizeof...(T) ? (void)(r = one<T>(seed)) : (void)0), ...);
    if (!r.empty()) r = "type " + std::to_string(k % sizeof...(T)) + ": " + r;
    return r;
}
std::string run_case(const std::string& c)
{
    auto w = words(c);
    if (w.size() < 3) return "";
    if (w[0] == "B")
    {
        // large containers: type number, count
        BIG = std::stoul(w[2]);
        auto r = go(All{}, std::stoul(w[1]), 12345);
        BIG = 0;
        return r;
    }
    if (w[0] == "T") return go(All{}, std::stoul(w[1]), std::stoull(w[2]));
    // from the verifier
    std::vector<long long> a;
    for (std::size_t i = 1; i < w.size(); ++i) a.push_back(static_cast<long long>(std::stoull(w[i])));
    std::size_t len = static_cast<std::size_t>(a.back()), cap = static_cast<std::size_t>(a[a.size() - 2]);
    if (cap > (1u << 24)) cap = 1u << 24;
    if (len > cap) len = cap;
    std::unique_ptr<std::byte[]> b(new std::byte[cap]);
    std::size_t pos = 0, E = 0;
    int r = 0;
    auto n = w[0];
    auto* p = b.get();
    bool any = n.back() == '#';
    if (any) { n.pop_back(); if (a[0] > (1 << 20)) a[0] = 1 << 20; }
    std::vector<std::int32_t> ei;
    std::vector<char> ec;
    std::size_t k0 = n == "vs" ? 2 : 1;
    bool cont = n == "vec" || n == "str" || n == "vecpair" || n == "vecstr" || n == "set" || n == "map" || n == "mapstr" || n == "vs";
    int N = 0;
    if (cont)
    {
        N = static_cast<int>(a[k0 - 1]);
        for (int i = 0; i < N; ++i) { auto x = any ? i * 77 : a[k0 + i]; ei.push_back(static_cast<std::int32_t>(x)); ec.push_back(static_cast<char>(x)); }
        ei.push_back(0); ec.push_back(0);
    }
    if (n == "u8") r = klv_rt_u8(a[0], p, cap, len, &pos), E = 1;
    else if (n == "bool") r = klv_rt_bool(a[0], p, cap, len, &pos), E = 1;
    else if (n == "i16") r = klv_rt_i16(a[0], p, cap, len, &pos), E = 2;
    else if (n == "u32") r = klv_rt_u32(a[0], p, cap, len, &pos), E = 4;
    else if (n == "i64") r = klv_rt_i64(a[0], p, cap, len, &pos), E = 8;
    else if (n == "enum") r = klv_rt_enum(static_cast<klv_e>(a[0]), p, cap, len, &pos), E = 2;
    else if (n == "le") r = klv_rt_le(a[0], p, cap, len, &pos), E = 4;
    else if (n == "be") r = klv_rt_be(a[0], p, cap, len, &pos), E = 2;
    else if (n == "pair") r = klv_rt_pair(a[0], a[1], p, cap, len, &pos), E = 5;
    else if (n == "opt") r = klv_rt_opt(a[0], a[1], p, cap, len, &pos), E = a[0] ? 5 : 1;
    else if (n == "optopt") r = klv_rt_optopt(a[0], a[1], p, cap, len, &pos), E = a[0] == 0 ? 1 : a[0] == 1 ? 2 : 4;
    else if (n == "var") r = klv_rt_var(a[0], a[1], p, cap, len, &pos), E = a[0] == 0 ? 2 : a[0] == 1 ? 9 : 3;
    else if (n == "vec") r = klv_rt_vec(ei.data(), N, p, cap, len, &pos), E = 4 + 4 * N;
    else if (n == "str") r = klv_rt_str(ec.data(), N, p, cap, len, &pos), E = 4 + N;
    else if (n == "vecpair") r = klv_rt_vecpair(ei.data(), N, p, cap, len, &pos), E = 4 + 5 * N;
    else if (n == "vecstr") r = klv_rt_vecstr(ec.data(), N, p, cap, len, &pos), E = 4 + 4 * N + N * (N - 1) / 2;
    else if (n == "set") r = klv_rt_set(ei.data(), N, p, cap, len, &pos), E = 4 + 4 * N;
    else if (n == "map") r = klv_rt_map(ei.data(), N, p, cap, len, &pos), E = 4 + 6 * N;
    else if (n == "mapstr") r = klv_rt_mapstr(ei.data(), N, p, cap, len, &pos), E = 4 + 8 * N + N * (N - 1) / 2;
    else if (n == "vs") r = klv_rt_vs(a[0], ec.data(), N, p, cap, len, &pos), E = a[0] == 0 ? 5 : 5 + N;
    else return "";
    int want = cap < E ? 1 : len < E ? 2 : 0;
    if (r != want) return word(r, c.c_str()) + " (expected " + word(want, "") + ")";
    return "";
}
std::string gen_case(Rng& r, std::uint64_t i)
{
    static const int big[] = {11, 18, 19, 22, 25, 26, 28, 34, 35, 36, 37};
    static const int sizes[] = {127, 128, 255, 256, 257, 1000, 70000};
    if (i < 77) return "B " + std::to_string(big[i % 11]) + " " + std::to_string(sizes[i / 11]);
    return "T " + std::to_string(i % 40) + " " + std::to_string(r.next() >> 1);
}
