#include "drv.hpp"
#include "../harness/c07.cpp"
// case: operations separated by ';':  "n <path> <subtree>" notify, "q <path>" query; paths are hex-free text with %XX escapes
struct Note { std::vector<std::string> segs; bool sub; std::uint64_t gen; };
static std::vector<std::string> segs(const kl::path& p) { std::vector<std::string> r; for (std::size_t i = 0; i < p.size(); ++i) r.emplace_back(p[i]); return r; }
static bool is_prefix(const std::vector<std::string>& a, const std::vector<std::string>& b)
{
    if (a.size() > b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return false;
    return true;
}
std::string run_case(const std::string& c)
{
    klv_tracker t;
    std::vector<Note> hist;
    std::vector<kl::path> known;
    std::uint64_t cur = klv_trk_current(&t);
    if (cur == 0) return "a new tracker's generation is 0";
    auto want = [&](const kl::path& q) {
        auto s = segs(q);
        std::uint64_t w = 0;
        for (auto& h : hist) if (is_prefix(s, h.segs) || (h.sub && is_prefix(h.segs, s))) w = h.gen;
        return w;
    };
    auto query = [&](const kl::path& q) -> std::string {
        auto w = want(q);
        kl::path_view v = q.view();
        if (klv_trk_at(&t, &q) != w || klv_trk_at_view(&t, &v) != w) return "changed_at reports " + std::to_string(klv_trk_at(&t, &q)) + " instead of " + std::to_string(w);
        for (std::uint64_t old : {std::uint64_t(0), w ? w - 1 : 0, w, w + 1, cur, cur - 1, std::uint64_t(1)})
            if (klv_trk_since(&t, &q, old) != (w > old) || klv_trk_since_view(&t, &v, old) != (w > old)) return "changed_since is wrong";
        if (klv_trk_current(&t) != cur) return "a query changed the generation";
        return "";
    };
    std::istringstream is(c);
    std::string op;
    int k = 0;
    while (std::getline(is, op, ';'))
    {
        auto w = words(op);
        if (w.size() < 2) continue;
        kl::path p;
        try { p.set(w[1]); } catch (const kl::path_parse_error&) { continue; }
        known.push_back(p);
        if (w[0] == "n" && w.size() > 2)
        {
            bool sub = w[2] == "1";
            kl::path_view v = p.view();
            std::uint64_t g;
            ++k;
            if (!sub && k % 4 == 1) g = klv_trk_notify_dflt(&t, &p);
            else if (!sub && k % 4 == 2) g = klv_trk_notify_view_dflt(&t, &v);
            else if (k % 2) g = klv_trk_notify(&t, &p, sub);
            else g = klv_trk_notify_view(&t, &v, sub);
            if (g <= cur) return "the generation does not increase";
            if (klv_trk_current(&t) != g) return "current() is not the returned generation";
            cur = g;
            hist.push_back({segs(p), sub, g});
            for (auto& q : known) { auto e = query(q); if (!e.empty()) return e; }
        }
        else
        {
            auto e = query(p);
            if (!e.empty()) return e;
        }
    }
    return "";
}
std::string gen_case(Rng& r, std::uint64_t i)
{
    static const char* seg[] = {"a", "b", "ab", "a%00", "a%FF", "%2E", "a-", "a%2Eb", "A", "aa"};
    std::string c;
    int n = 1 + r.below(i < 2000 ? 6 : 14);
    for (int k = 0; k < n; ++k)
    {
        std::string p = "/";
        int d = r.below(r.coin(4) ? 7 : 4);
        for (int j = 0; j < d; ++j) { p += seg[r.below(r.coin(3) ? 10 : 3)]; p += "/"; }
        if (d && r.coin()) p.pop_back();
        c += (r.coin() ? "n " + p + (r.coin(3) ? " 1" : " 0") : "q " + p) + ";";
    }
    return c;
}
