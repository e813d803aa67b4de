#include "drv.hpp"
#include <memory>
#include <vector>
#include <string>
#include <cstdlib>
#include <map>
static std::map<int, int> g_live;
static bool g_bad;
extern "C" void klv_val_born(int v) { ++g_live[v]; }
extern "C" void klv_val_dead(int v) { if (--g_live[v] < 0) g_bad = true; }
#include "../harness/c17.cpp"
struct N { int tag; int val; std::shared_ptr<N> next; };
using L = std::shared_ptr<N>;
struct O { std::unique_ptr<X> x; L l; const char* f; int line; const char* fn; };
static bool member(const L& l, const N* n) { for (auto p = l.get(); p; p = p->next.get()) if (p == n) return true; return false; }
std::string run_case(const std::string& c)
{
    g_live.clear(); g_bad = false;
    std::vector<O> v;
    static const char* names[] = {"f0", "f1", nullptr};
    auto fresh = [&](int k) { O o; o.f = names[k % 3]; o.line = k - 1; o.fn = names[(k + 1) % 3];
        o.x = k == 9 ? std::make_unique<X>() : std::make_unique<X>(o.f, o.line, o.fn);
        if (k == 9) { o.f = o.fn = nullptr; o.line = 0; } return o; };
    v.push_back(fresh(1));
    int next = 0;
    auto verify = [&](const char* w) -> std::string {
        std::map<int, int> want;
        std::map<const N*, int> seen;
        for (auto& o : v) for (auto p = o.l.get(); p; p = p->next.get()) seen[p] = 1;
        for (auto& [p, _] : seen) if (p->tag < 3) ++want[p->val];
        for (size_t i = 0; i < v.size(); ++i)
        {
            auto& o = v[i];
            for (int t = 0; t < 4; ++t)
            {
                const N* m = nullptr;
                for (auto p = o.l.get(); p && !m; p = p->next.get()) if (p->tag == t) m = p;
                int out = -1;
                int r = t == 0 ? klv_get_a(o.x.get(), &out) : t == 1 ? klv_get_b(o.x.get(), &out) : t == 2 ? klv_get_c(o.x.get(), &out) : klv_get_i(o.x.get(), &out);
                if (r != (m ? 1 : 0)) return std::string(w) + ": tag " + char('a' + t) + " of object " + std::to_string(i) + (m ? " is missing" : " should not be there");
                if (m && out != m->val) return std::string(w) + ": tag " + char('a' + t) + " of object " + std::to_string(i) + " has value " + std::to_string(out) + " instead of " + std::to_string(m->val);
                if (t < 2) { int o2 = -1; int r2 = t ? klv_gem_b(o.x.get(), &o2) : klv_gem_a(o.x.get(), &o2); if (r2 != r || o2 != out) return std::string(w) + ": get on a non-const object differs"; }
            }
            if (o.x->file() != o.f || o.x->line() != o.line || o.x->function() != o.fn) return std::string(w) + ": source location lost";
        }
        if (g_bad) return std::string(w) + ": a value is destroyed twice";
        for (auto& [val, n] : g_live) if (n != (want.count(val) ? want[val] : 0)) return std::string(w) + ": value " + std::to_string(val) + " has " + std::to_string(n) + " live copies";
        return "";
    };
    size_t i = 0;
    while (i < c.size())
    {
        char op = c[i++];
        if (op == ' ' || i >= c.size()) continue;
        size_t x = (c[i++] - '0') % v.size();
        int arg = i < c.size() && c[i] != ' ' ? c[i++] : 'a';
        int t = (arg - 'a') & 3;
        X* p = v[x].x.get();
        if (op == 's')
        {
            int val = ++next;
            X* r = t == 0 ? klv_set_a(p, val) : t == 1 ? klv_set_b(p, val) : t == 2 ? klv_set_c(p, val) : klv_set_i(p, val);
            if (r != p) return "set does not return the object";
            v[x].l = std::make_shared<N>(N{t, val, v[x].l});
        }
        else if (op == 'u')
        {
            L prev; L cur = v[x].l;
            while (cur && cur->tag != t) { prev = cur; cur = cur->next; }
            bool shared = false;
            if (cur && prev) for (size_t j = 0; j < v.size(); ++j) if (j != x && member(v[j].l, prev.get())) shared = true;
            if (shared) continue;  // known finding
            X* r = t == 0 ? klv_unset_a(p) : t == 1 ? klv_unset_b(p) : t == 2 ? klv_unset_c(p) : klv_unset_i(p);
            if (r != p) return "unset does not return the object";
            if (cur) { if (prev) prev->next = cur->next; else v[x].l = cur->next; }
        }
        else if (op == 'n') { if (v.size() < 5) v.push_back(fresh(arg % 10)); }
        else if (op == 'k') { if (v.size() < 5) { O o; o.x = std::make_unique<X>(*v[x].x); o.l = v[x].l; o.f = v[x].f; o.line = v[x].line; o.fn = v[x].fn; v.push_back(std::move(o)); } }
        else if (op == 'M') { O o; o.x = std::make_unique<X>(std::move(*v[x].x)); o.l = v[x].l; o.f = v[x].f; o.line = v[x].line; o.fn = v[x].fn; v[x] = std::move(o); }
        else if (op == '=' ) { size_t y = (arg % v.size()); *v[x].x = *v[y].x; if (x != y) { v[x].l = v[y].l; v[x].f = v[y].f; v[x].line = v[y].line; v[x].fn = v[y].fn; } }
        else if (op == 'm') { size_t y = (arg % v.size()); if (x != y) { *v[x].x = std::move(*v[y].x); v[x].l = v[y].l; v[x].f = v[y].f; v[x].line = v[y].line; v[x].fn = v[y].fn; v.erase(v.begin() + y); } }
        else if (op == 'd') { if (v.size() > 1) v.erase(v.begin() + x); }
        else if (op == 't')
        {
            std::string err = "the exception is not caught as exception_info";
            try {
                if (arg & 1) kl::throw_with_info(klv_error("w"), *v[x].x); else kl::throw_with_info(klv_error("w"), X(*v[x].x));
            } catch (const klv_error& e) {
                auto q = kl::get_exception_info(e);
                if (!q) err = "no exception info on the exception";
                else if (std::string(e.what()) != "w") err = "what() lost";
                else { O o; o.x = std::make_unique<X>(*q); o.l = v[x].l; o.f = v[x].f; o.line = v[x].line; o.fn = v[x].fn; if (v.size() < 5) v.push_back(std::move(o)); else v[x] = std::move(o); err.clear(); }
            }
            if (!err.empty()) return err;
        }
        auto e = verify((std::string("after ") + op).c_str());
        if (!e.empty()) return e;
    }
    while (!v.empty()) { v.pop_back(); auto e = verify("while destroying"); if (!e.empty()) return e; }
    return "";
}
std::string gen_case(Rng& r, std::uint64_t i)
{
    std::string s;
    int n = 1 + r.next() % (i % 3 ? 12 : 40);
    static const char ops[] = "sssssuuuuknM=mdt";
    for (int k = 0; k < n; ++k) { char op = ops[r.next() % 16]; s += op; s += char('0' + r.next() % 5); s += char('a' + r.next() % 4); s += ' '; }
    return s;
}
