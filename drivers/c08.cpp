#include "drv.hpp"
#include <algorithm>
static std::vector<int> g_script;      // explicit callback results, then the generator's
static std::size_t g_at;
static std::uint64_t g_rng;
static int g_fail_rate;
static bool g_failed;
static Rng rng() { Rng r{g_rng}; g_rng = r.next(); return r; }
extern "C" int klv_any() { Rng r = rng(); return static_cast<int>(r.next() % 7); }
extern "C" int klv_pick(int n)
{
    if (g_at < g_script.size()) return g_script[g_at++] % n;
    Rng r = rng();
    return static_cast<int>(r.below(n));
}
extern "C" int klv_fails(int)
{
    int f;
    if (g_at < g_script.size()) f = g_script[g_at++];
    else { Rng r = rng(); f = g_fail_rate && r.below(g_fail_rate) == 0 ? 1 + static_cast<int>(r.below(2)) : 0; }
    if (f) g_failed = true;
    return f;
}
#include "../harness/c08.cpp"
#include <memory>
static const char* VERB[] = {"get", "put", "patch", "post", "del"};
static std::vector<std::string> all_paths()
{
    return {"/", "/plain", "/fixed", "/maybe", "/rmaybe", "/opt", "/opt/v", "/opt/lock", "/olist", "/olist/0", "/inner", "/inner/v", "/inner/lock", "/rinner", "/rinner/v", "/rinner/lock", "/sinner", "/sinner/v", "/sinner/lock",
            "/list", "/list/0", "/list/1", "/list/7", "/list/x", "/rlist", "/rlist/0", "/slist", "/slist/0", "/kids", "/kids/a", "/kids/b", "/kids/c", "/kids/a/id", "/kids/b/id", "/kids/a/n", "/kids/a/in", "/kids/a/in/v", "/kids/a/in/lock",
            "/kids/zz", "/skids", "/skids/a", "/skids/a/id", "/skids/a/n", "/skids/a/in/v", "/dict", "/dict/a", "/dict/b", "/dict/q", "/rdict", "/rdict/a", "/rdict/a/v", "/rdict/a/lock", "/nothing", "/plain/x", "/list/0/0", "/kids/b/in", "/olist/1", "/kids/a/toys", "/kids/a/toys/1", "/kids/a/toys/2", "/kids/a/toys/1/id", "/kids/a/toys/2/n", "/kids/b/toys", "/kids/b/toys/0", "/sopt", "/sopt/v", "/sopt/lock", "/sdict", "/sdict/a", "/sdict/a/v", "/sdict/b", "/rlist/1"};
}
static bool guarded(const std::string& p, int verb)
{
    if (verb == GET) return false;
    auto w = std::vector<std::string>{};
    std::string cur;
    for (std::size_t i = 1; i <= p.size(); ++i) if (i == p.size() || p[i] == '/') { w.push_back(cur); cur.clear(); } else cur += p[i];
    auto in = [&](std::initializer_list<const char*> l) { return std::any_of(l.begin(), l.end(), [&](const char* x) { return w[0] == x; }); };
    if (w.back() == "lock" || w.back() == "id") return true;
    if (w.size() == 1 && in({"fixed", "rmaybe", "rinner", "rlist", "rdict"})) return true;
    if (w.size() > 1 && in({"sinner", "slist", "skids", "sopt", "sdict"})) return true;
    if (verb == POST && in({"slist", "skids"})) return true;
    return verb == DEL && w.size() == 2 && in({"rlist", "rdict"});
}
static bool has_below(const std::string& p)
{
    static const char* l[] = {"/", "/opt", "/olist", "/inner", "/rinner", "/sinner", "/list", "/rlist", "/slist", "/kids", "/kids/a", "/kids/b", "/kids/c", "/skids", "/skids/a", "/kids/a/in", "/kids/b/in", "/dict", "/rdict", "/rdict/a", "/kids/a/toys", "/kids/b/toys", "/kids/a/toys/1", "/kids/a/toys/2", "/kids/b/toys/0", "/sopt", "/sdict"};
    return std::any_of(std::begin(l), std::end(l), [&](const char* x) { return p == x; });
}
// case: "<shape> <verb> <path> | f0 p1 ..." (one operation, scripted) or "R <seed> <steps> <fail rate>" (random history)
std::string run_case(const std::string& c)
{
    g_script.clear(); g_at = 0; g_rng = 1; g_fail_rate = 0;
    auto w = words(c);
    if (w.size() < 3) return "";
    int steps = 1, shape = 2;
    bool random = w[0] == "R";
    Rng r{1};
    if (random) { r.s = std::stoull(w[1]); g_rng = r.next(); steps = std::stoi(w[2]); g_fail_rate = std::stoi(w[3]); shape = static_cast<int>(r.below(3)); }
    else { shape = std::stoi(w[0]); for (std::size_t i = 4; i < w.size(); ++i) g_script.push_back(std::stoi(w[i].substr(1))); }
    int a[26];
    for (auto& x : a) x = static_cast<int>(r.below(5)) + 10;
    struct del { void operator()(Res* p) const { p->~Res(); ::operator delete(p); } };
    void* m = ::operator new(sizeof(Res));
    klv_res_make(m, shape, a);
    std::unique_ptr<Res, del> res{static_cast<Res*>(m)};
    auto paths = all_paths();
    for (int k = 0; k < steps; ++k)
    {
        int verb = 0;
        std::string path = "/";
        if (random) { verb = 1 + static_cast<int>(r.below(4)); if (r.coin(12)) verb = GET; path = paths[r.below(paths.size())]; if (r.coin(2)) { static const char* hot[] = {"/kids", "/kids/a", "/kids/b", "/dict/a", "/list", "/opt", "/olist", "/dict", "/list/0", "/maybe", "/kids/a/toys"}; path = hot[r.below(11)]; } }
        else { while (verb < 5 && w[1] != VERB[verb]) ++verb; path = w[2]; }
        if (!random && path.size() % 2) klv_notify(res.get(), path.rfind('/') ? path.substr(0, path.rfind('/')).c_str() : "/", 1);
        klv_out o{};
        g_failed = false;
        const Root before = res->value;
        klv_run(res.get(), verb, path.c_str(), (path == "/" ? "/zz" : path + "/zz").c_str(), &o);
        std::string what = std::string(VERB[verb]) + " " + path + " (status " + std::to_string(o.status) + ", step " + std::to_string(k) + "): ";
        bool ok = o.status >= 200 && o.status < 300;
        if (o.status == -1) return what + "no outcome";
#ifndef KLV_KEYS_ONLY
        if (!ok || verb == GET)
        {
            if (!o.same) return what + "the value changed";
            if (!o.untouched) return what + "the change tracker changed";
        }
        else
        {
            if (g_failed) return what + "succeeds although the document or the validation failed";
            if (o.advance != 1) return what + "the generation advanced by " + std::to_string(o.advance);
            if (!o.at || !o.root) return what + "the addressed path or the root does not report the change";
            if ((has_below(path) || verb == POST) && !o.below) return what + "descendants do not report the change";
            if (!o.reported) return what + "an element that moved does not report the change";
            if (verb == POST && path == "/list" && !(res->value.list.size() == before.list.size() + 1 && std::equal(before.list.begin(), before.list.end(), res->value.list.begin()))) return what + "the list does not gain one element";
            if (verb == DEL && path == "/list/0" && !(before.list.size() == res->value.list.size() + 1 && std::equal(res->value.list.begin(), res->value.list.end(), before.list.begin() + 1))) return what + "the wrong element was removed";
            if (verb == DEL && path == "/dict/a" && (res->value.dict.count("a") || before.dict.size() != res->value.dict.size() + 1)) return what + "the wrong element was removed";
            if (verb == DEL && path == "/maybe" && res->value.maybe) return what + "the optional still has a value";
        }
#endif
        if (guarded(path, verb) && (ok || !o.same)) return what + "a read-only node was modified or the operation succeeded";
        if (!o.unique) return what + "child keys are no longer unique";
        if ((verb == PUT || verb == PATCH) && path.find('/', 1) != std::string::npos && !o.keys) return what + "keys changed by an operation on a child";
        if ((verb == PUT || verb == PATCH) && std::count(path.begin(), path.end(), '/') >= 4 && !o.toys) return what + "keys changed by an operation on a grandchild";
    }
    return "";
}
std::string gen_case(Rng& r, std::uint64_t i)
{
    return "R " + std::to_string(r.next() >> 1) + " " + std::to_string(1 + r.below(i % 4 ? 6 : 30)) + " " + std::to_string(i % 3 == 0 ? 0 : i % 3 == 1 ? 12 : 40);
}
