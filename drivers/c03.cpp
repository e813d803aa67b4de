#include "drv.hpp"
#include "../harness/c03.cpp"
#include <memory>
// case: "rseq <n> <op:arg>..." / "wseq <n> <op:arg>..."   or a single operation from an arbitrary state
static std::string mism(const char* what, std::size_t i) { return std::string(what) + " at step " + std::to_string(i); }
static unsigned char pat(std::size_t i) { return static_cast<unsigned char>(i * 37 + 11); }
template <class C> static std::string obs(C& c, std::size_t n, std::size_t pos, bool err, std::size_t i)
{
    if (c.pos() != pos) return mism("position", i);
    if (c.left() != n - pos) return mism("left", i);
    if (c.err() != err) return mism("error flag", i);
    if (c.empty() != (n == pos)) return mism("empty", i);
    return "";
}
template <class T> static std::string rd(kl::binary_reader& r, int how, std::size_t n, std::size_t& pos, bool& err, std::size_t cnt, std::size_t i)
{
    const bool spn = how == 2 || how == 7;
    if (!spn) cnt = 1;
    std::unique_ptr<T[]> d(new T[cnt ? cnt : 1]);
    auto* b = reinterpret_cast<unsigned char*>(d.get());
    const std::size_t size = cnt * sizeof(T);
    std::memset(b, 0xEE, size);
    bool fits = !err && size <= n - pos, ok = fits;
    switch (how)
    {
    case 0: ok = r.read_raw(d[0]); break;
    case 1: ok = r.peek(d[0]); break;
    case 2: ok = r.read_span(gsl::span<T>(d.get(), cnt)); break;
    case 3: ok = r.template read<T>(d[0]); break;
    case 4: r >> d[0]; break;
    case 5: { T v = r.template read<T>(); std::memcpy(b, &v, sizeof v); break; }
    case 6: { T v = r.template peek<T>(); std::memcpy(b, &v, sizeof v); break; }
    case 7: r >> gsl::span<T>(d.get(), cnt); break;
    }
    if (ok != fits) return mism("success report", i);
    for (std::size_t k = 0; k < size; ++k)
        if (b[k] != (fits ? pat(pos + k) : (how == 5 || how == 6) ? 0 : 0xEE)) return mism("destination", i);
    bool peek = how == 1 || how == 6;
    if (fits && !peek) pos += size;
    if (!fits && !peek) err = true;
    return "";
}
template <class T> static std::string wr(kl::binary_writer& w, int how, std::vector<unsigned char>& model, std::size_t n, std::size_t& pos, bool& err, std::size_t cnt, std::size_t i)
{
    const bool spn = how == 1 || how == 3;
    if (!spn) cnt = 1;
    std::unique_ptr<T[]> d(new T[cnt ? cnt : 1]);
    auto* b = reinterpret_cast<unsigned char*>(d.get());
    const std::size_t size = cnt * sizeof(T);
    for (std::size_t k = 0; k < size; ++k) b[k] = static_cast<unsigned char>(i * 13 + k * 7 + 1);
    bool fits = !err && size <= n - pos, ok = fits;
    switch (how)
    {
    case 0: ok = w.write_raw(d[0]); break;
    case 1: ok = w.write_span(gsl::span<const T>(d.get(), cnt)); break;
    case 2: w << d[0]; break;
    case 3: w << gsl::span<const T>(d.get(), cnt); break;
    }
    if (ok != fits) return mism("success report", i);
    if (fits) { std::memcpy(model.data() + pos, b, size); pos += size; } else err = true;
    return "";
}
static std::string seq(const std::vector<std::string>& w)
{
    const bool wrt = w[0][0] == 'w';
    std::size_t n = std::strtoull(w[1].c_str(), nullptr, 10);
    if (n > 1000000) return "";
    std::unique_ptr<std::byte[]> buf(new std::byte[n ? n : 1]);
    std::vector<unsigned char> model(n);
    for (std::size_t i = 0; i < n; ++i) { buf[i] = std::byte(pat(i)); model[i] = pat(i); }
    std::unique_ptr<std::byte[]> exact(new std::byte[n]);
    std::memcpy(exact.get(), buf.get(), n);
    kl::binary_reader r{gsl::span<const std::byte>(exact.get(), n)};
    kl::binary_writer wr_{gsl::span<std::byte>(exact.get(), n)};
    std::size_t pos = 0;
    bool err = false;
    for (std::size_t i = 2; i < w.size(); ++i)
    {
        char op = w[i][0], t = w[i][1];
        std::size_t a = std::strtoull(w[i].c_str() + 2, nullptr, 10);
        std::string e;
        if (op == 'k')
        {
            auto off = static_cast<std::ptrdiff_t>(a);
            bool fits = !err && (off >= 0 ? static_cast<std::size_t>(off) <= n - pos : std::size_t(0) - static_cast<std::size_t>(off) <= pos);
            if (wrt) wr_.skip(off); else r.skip(off);
            if (fits) pos += off; else err = true;
        }
        else if (op == 'e') { err = true; if (wrt) wr_.notify_error(); else r.notify_error(); }
        else if (op == 's' && !wrt)
        {
            bool mv = t == '1';
            bool fits = !err && a <= n - pos;
            auto s = r.span(a, mv);
            if (!fits && !s.empty()) return mism("span not empty", i);
            if (fits && (s.size() != a || (a && s.data() != exact.get() + pos))) return mism("span", i);
            if (fits && mv) pos += a;
            if (!fits) err = true;
        }
        else if (op >= '0' && op <= '7')
        {
            if (a > 100000) a = 100000;
            int h = op - '0';
            if (!wrt)
                e = t == 'a' ? rd<std::uint8_t>(r, h, n, pos, err, a, i) : t == 'b' ? rd<std::int16_t>(r, h, n, pos, err, a, i) : t == 'c' ? rd<std::int32_t>(r, h, n, pos, err, a, i)
                  : t == 'd' ? rd<std::uint64_t>(r, h, n, pos, err, a, i) : rd<klv_enum>(r, h, n, pos, err, a, i);
            else
                e = t == 'a' ? wr<std::uint8_t>(wr_, h & 3, model, n, pos, err, a, i) : t == 'b' ? wr<std::int16_t>(wr_, h & 3, model, n, pos, err, a, i) : t == 'c' ? wr<std::int32_t>(wr_, h & 3, model, n, pos, err, a, i)
                  : t == 'd' ? wr<std::uint64_t>(wr_, h & 3, model, n, pos, err, a, i) : wr<klv_enum>(wr_, h & 3, model, n, pos, err, a, i);
        }
        if (!e.empty()) return e;
        e = wrt ? obs(wr_, n, pos, err, i) : obs(r, n, pos, err, i);
        if (!e.empty()) return e;
        if (n && std::memcmp(exact.get(), model.data(), n)) return mism("buffer contents", i);
    }
    return "";
}
std::string run_case(const std::string& c)
{
    auto w = words(c);
    if (w[0] == "rseq" || w[0] == "wseq") return seq(w);
    // single operation: "<r|w>_<kind>_<type> n pos err extra"
    std::string s = w[0].substr(0, 1) + "seq " + w[1] + " k0" + w[2];
    if (w[3] == "1") s += " e0";
    std::string x = w.size() > 4 ? w[4] : "0";
    std::string k = w[0].substr(2);
    if (k == "skip") s += " k0" + x;
    else if (k == "span") s += std::string(" s") + (w.size() > 5 && w[5] == "1" ? "1" : "0") + x;
    else
    {
        auto u = k.find('_');
        std::string kind = k.substr(0, u), ty = k.substr(u + 1);
        static const char* rk[] = {"raw", "peek", "spn", "read", "op", "ret", "pret", "ops"};
        static const char* wk[] = {"raw", "spn", "op", "ops"};
        int h = 0;
        if (w[0][0] == 'r') { for (int i = 0; i < 8; ++i) if (kind == rk[i]) h = i; }
        else { for (int i = 0; i < 4; ++i) if (kind == wk[i]) h = i; }
        char t = ty == "u8" ? 'a' : ty == "i16" || ty == "u16" ? 'b' : ty == "i32" || ty == "u32" ? 'c' : ty == "u64" || ty == "pod" ? 'd' : 'e';
        s += std::string(" ") + char('0' + h) + t + x;
    }
    return seq(words(s));
}
std::string gen_case(Rng& r, std::uint64_t)
{
    std::size_t n = r.below(40);
    std::string s = std::string(r.coin() ? "rseq " : "wseq ") + std::to_string(n);
    auto amount = [&]() -> std::uint64_t { switch (r.below(8)) { case 0: return r.next(); case 1: return std::uint64_t(1) << 63; case 2: return (std::uint64_t(1) << 63) - 1; case 3: return ~std::uint64_t(0) - r.below(50); default: return r.below(12); } };
    for (int i = 0, k = 1 + r.below(12); i < k; ++i)
    {
        switch (r.below(9))
        {
        case 0: s += " k0" + std::to_string(r.coin() ? amount() : r.coin() ? r.below(n + 2) : std::uint64_t(0) - r.below(n + 2)); break;
        case 1: if (r.coin(6)) s += " e0"; break;
        case 2: s += std::string(" s") + (r.coin() ? "1" : "0") + std::to_string(r.coin() ? amount() : r.below(n + 2)); break;
        default: s += std::string(" ") + char('0' + r.below(8)) + "abcde"[r.below(5)] + std::to_string(r.below(r.coin() ? 4 : 20));
        }
    }
    return s;
}
