#include "drv.hpp"
#include <deque>
static std::deque<int> g_picks, g_anys;
static Rng g_rng{1};
static bool g_random;
extern "C" int klv_any()
{
    if (!g_anys.empty()) { int v = g_anys.front(); g_anys.pop_front(); return v; }
    static const int edge[] = {0, 1, -1, 2147483647, -2147483647 - 1, 7, 127, 128};
    if (!g_random) return 11;
    return g_rng.coin(2) ? edge[g_rng.below(8)] : static_cast<int>(g_rng.next());
}
extern "C" int klv_pick(int n)
{
    if (!g_picks.empty()) { int v = g_picks.front(); g_picks.pop_front(); return v % n; }
    if (!g_random) return 0;
    // mostly plain documents, so that long conjunctions of conditions still occur
    return n == 4 && g_rng.coin(2) ? 1 : static_cast<int>(g_rng.below(n));
}
#include "../harness/c21.cpp"
static std::string text_case()
{
    S4 s, back;
    s.oe = any_opt(); s.os = any_opt(); if (klv_pick(2)) s.oi = In{klv_any(), klv_any()};
    for (int n = klv_pick(6); n; --n) s.list.push_back(klv_any());
    for (int n = klv_pick(4); n; --n) s.ins.push_back({klv_any(), klv_any()});
    static const char* keys[] = {"", "a", "zz", "a\"b", "\n", "key"};
    for (int n = klv_pick(5); n; --n) s.m[keys[klv_pick(6)]] = klv_any();
    s.s = std::string(keys[klv_pick(6)]) + std::string(static_cast<std::size_t>(klv_pick(3)), '\0');
    s.b = klv_pick(2); s.c = klv_pick(2) ? Color::green : Color::blue; s.p = {klv_any(), klv_pick(2)};
    try
    {
        kl::json::deserialize(back, kl::json::parse(kl::json::dump(s)));
        if (!same(s, back)) return "text round trip differs: " + kl::json::dump(s);
        if (kl::json::dump(back) != kl::json::dump(s)) return "second dump differs";
    }
    catch (const std::exception& e) { return std::string("text round trip throws ") + e.what(); }
    return "";
}
// case: "<function> <a> <b> | p1 p0 ... | 5 6 ..." or "R <seed>"
std::string run_case(const std::string& c)
{
    g_picks.clear(); g_anys.clear();
    auto w = words(c);
    if (w.size() < 2) return "";
    std::string fn = w[0];
    int a = 0, b = 0;
    g_random = fn == "R";
    if (g_random)
    {
        g_rng.s = std::stoull(w[1]);
        static const char* fns[] = {"klv_s1", "klv_s2", "klv_s3", "klv_ser1", "klv_ser2", "klv_ser3", "klv_ser4", "text", "klv_s5", "klv_s6", "klv_ser6"};
        fn = fns[g_rng.below(11)];
        a = static_cast<int>(g_rng.below(2));
        b = fn == "klv_s1" ? 7 : fn == "klv_ser4" ? static_cast<int>(g_rng.below(3)) : 3;
    }
    else
    {
        a = std::stoi(w[1]); b = std::stoi(w[2]);
        for (std::size_t i = 3, bars = 0; i < w.size(); ++i)
            if (w[i] == "|") ++bars;
            else if (bars == 1) g_picks.push_back(std::stoi(w[i].substr(1)));
            else g_anys.push_back(static_cast<int>(std::stoll(w[i])));
    }
    std::string what = fn + " " + std::to_string(a) + " " + std::to_string(b) + ": ";
    if (fn == "text") return text_case();
    if (fn.compare(0, 7, "klv_ser") == 0)
    {
        klv_ser r{};
        if (fn == "klv_ser1") klv_ser1(a, &r); else if (fn == "klv_ser2") klv_ser2(a, &r); else if (fn == "klv_ser3") klv_ser3(a, &r); else if (fn == "klv_ser6") klv_ser6(a, &r); else klv_ser4(a, b, &r);
        if (r.threw) return what + "threw";
        if (!r.fields) return what + "the emitted fields are wrong";
        if (!r.dump) return what + "streaming writes something else than the tree";
        if (!r.round) return what + "the round trip does not reproduce the struct";
        return "";
    }
    klv_res r{};
    if (fn == "klv_s1") klv_s1(a, b, &r); else if (fn == "klv_s2") klv_s2(a, b, &r); else if (fn == "klv_s3") klv_s3(a, b, &r); else if (fn == "klv_s5") klv_s5(a, b, &r); else if (fn == "klv_s6") klv_s6(a, b, &r); else return "";
    if (r.other) return what + "something else than a deserialization error was thrown";
    if (r.threw != r.want_error) return what + (r.threw ? "an unexpected error" : "no error for a key that cannot be applied");
    if (r.threw && !r.named) return what + "the error does not name the field";
    if (!r.threw && !r.exact) return what + "a field has the wrong value";
    if (a && !r.frame) return what + "a field that is not mentioned changed";
    return "";
}
std::string gen_case(Rng& r, std::uint64_t) { return "R " + std::to_string(r.next() >> 1); }
