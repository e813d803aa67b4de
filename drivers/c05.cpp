#include "drv.hpp"
#include "../harness/c05.cpp"
static int xd(unsigned char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
// reference: the rules of the property, written independently
static bool want(const std::string& s, std::vector<std::string>& out)
{
    std::vector<std::string> pieces(1);
    for (char c : s)
        if (c == '/') pieces.emplace_back();
        else pieces.back() += c;
    for (auto& p : pieces)
    {
        if (p.empty() || p == ".") continue;
        if (p == "..") { if (!out.empty()) out.pop_back(); continue; }
        std::string d;
        for (std::size_t i = 0; i < p.size(); ++i)
        {
            if (p[i] != '%') { d += p[i]; continue; }
            if (i + 2 >= p.size() || xd(p[i + 1]) < 0 || xd(p[i + 2]) < 0) return false;
            char c = static_cast<char>(xd(p[i + 1]) * 16 + xd(p[i + 2]));
            if (c == '/') return false;
            d += c;
            i += 2;
        }
        out.push_back(d);
    }
    return true;
}
static std::string join(const std::vector<std::string>& v, std::size_t a, std::size_t b)
{
    std::string r;
    for (std::size_t i = a; i < b; ++i) { if (i > a) r += '/'; r += v[i]; }
    return r;
}
static std::string accessors(const kl::path& p, const std::vector<std::string>& e)
{
    if (p.size() != e.size() || p.empty() != e.empty()) return "number of segments";
    for (std::size_t i = 0; i < e.size(); ++i)
    {
        if (p[i] != e[i]) return "segment " + std::to_string(i);
        if (p.joined(i) != join(e, i, e.size())) return "joined " + std::to_string(i);
    }
    if (!p.joined(e.size()).empty() || !p.joined(e.size() + 3).empty()) return "joined past the end";
    for (std::size_t a = 0; a <= e.size(); ++a)
        for (std::size_t b = 0; a + b <= e.size(); ++b)
        {
            kl::path_view v;
            klv_view_drop(&p, a, b, &v);
            if (v.size() != e.size() - a - b || v.empty() != (v.size() == 0)) return "view size";
            if (!v.empty() && v.front() != e[a]) return "view front";
            for (std::size_t i = 0; i < v.size(); ++i)
                if (v[i] != e[a + i]) return "view element";
            for (std::size_t n = 0; n <= v.size(); ++n)
                if (v.prefix(n) != (n ? join(e, 0, a + n) : "")) return "prefix";
            if (e.size() > 12 && b > 3) break;
        }
    return "";
}
static std::string one(kl::path& p, const std::string& s, const char* prior)
{
    std::vector<std::string> e;
    bool ok = want(s, e);
    std::vector<char> buf(s.begin(), s.end());
    buf.shrink_to_fit();
    try
    {
        p.set(std::string_view(buf.data(), buf.size()));
#ifdef KLV_OWN_SEGMENTS
        ok = true;
#endif
        if (!ok) return std::string(prior) + ": accepted";
    }
    catch (const kl::path_parse_error&)
    {
#ifdef KLV_OWN_SEGMENTS
        ok = false;
#endif
        return ok ? std::string(prior) + ": rejected" : "";
    }
    catch (...)
    {
        return std::string(prior) + ": other exception";
    }
    std::vector<char>().swap(buf);   // the path must not refer to its input
#ifdef KLV_OWN_SEGMENTS
    e.clear();
    for (std::size_t i = 0; i < p.size(); ++i) e.emplace_back(p[i]);
#endif
    auto r = accessors(p, e);
    return r.empty() ? "" : std::string(prior) + ": " + r;
}
std::string run_case(const std::string& c)
{
    auto w = words(c);
    if (w.size() < 2) return "";
    std::string s = w[1] == "-" ? "" : unhex(w[1]);
    {
        kl::path p;
        auto r = one(p, s, "new path");
        if (!r.empty()) return r;
        r = one(p, s, "same path again");
        if (!r.empty()) return r;
        p.set("p/q");
        r = accessors(p, {"p", "q"});
        if (!r.empty()) return "later set: " + r;
    }
    {
        kl::path p(std::string_view("a/b/c%41/d/e/f/g/h/i/j/k/l/m/n/o/p/q/r"));
        auto r = one(p, s, "long path");
        if (!r.empty()) return r;
        p.clear();
        if (!p.empty() || p.size() != 0 || !p.view().empty() || !p.joined(0).empty()) return "clear";
    }
#ifndef KLV_OWN_SEGMENTS
    {
        std::vector<std::string> e;
        bool ok = want(s, e), got = true;
        try
        {
            kl::path p{std::string_view(s)};
            auto r = accessors(p, e);
            if (ok && !r.empty()) return "constructor: " + r;
        }
        catch (const kl::path_parse_error&) { got = false; }
        if (ok != got) return "constructor accepts differently";
    }
#endif
    return "";
}
std::string gen_case(Rng& r, std::uint64_t)
{
    static const char* bits[] = {"/", "/", "/", ".", "..", "a", "b", "%", "%4", "%41", "%2F", "%2f", "%2e", "%2E%2e", "%zz", "%00", "xyz", "%g1", "%1G", "%fF", "%25", "//", "/../", "/./"};
    std::string s;
    bool bad = r.coin(3);
    for (std::uint64_t n = r.below(r.coin(4) ? 60 : 12); n; --n)
    {
        std::string b = r.coin(8) ? rnd_bytes(r, 2) : std::string(r.pick(bits));
        if (!bad && (b.find('%') != std::string::npos && (b.size() < 3 || b == "%2F" || b == "%2f" || b == "%zz" || b == "%g1" || b == "%1G"))) b = "/k";
        s += b;
    }
    return "set " + (s.empty() ? std::string("-") : hex(s));
}
