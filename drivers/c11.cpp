#include "drv.hpp"
#include <kl/signal.hpp>
#include <memory>
// cases: "H k a b k a b ..." a history of handle operations; "<op> <refs> <same>" one operation
using C = kl::connection;
using B = kl::connection::blocker;
using S = kl::scoped_connection;
static const int NH = 3, NS = 24;
struct World
{
    int calls[NS] = {};
    std::weak_ptr<int> alive[NS];
    bool conn[NS] = {};
    int sigof[NS] = {};
    int n = 0;
    std::unique_ptr<kl::signal<void()>> sig[2];
    alignas(C) unsigned char cm[NH][sizeof(C)];
    alignas(B) unsigned char bm[NH][sizeof(B)];
    alignas(S) unsigned char sm[NH][sizeof(S)];
    int cr[NH], br[NH], sr[NH];
    C& c(int i) { return *reinterpret_cast<C*>(cm[i]); }
    B& b(int i) { return *reinterpret_cast<B*>(bm[i]); }
    S& s(int i) { return *reinterpret_cast<S*>(sm[i]); }
    World()
    {
        for (auto& x : sig) x = std::make_unique<kl::signal<void()>>();
        for (int i = 0; i < NH; ++i) { new (cm[i]) C(); new (bm[i]) B(); new (sm[i]) S(); cr[i] = br[i] = sr[i] = -1; }
    }
    std::string finish()
    {
        for (int i = 0; i < NH; ++i) { b(i).~B(); br[i] = -1; new (bm[i]) B(); auto e = check(); if (!e.empty()) return e; }
        for (int i = 0; i < NH; ++i) { c(i).~C(); cr[i] = -1; new (cm[i]) C(); auto e = check(); if (!e.empty()) return e; }
        for (int i = 0; i < NH; ++i) { s(i).~S(); if (sr[i] >= 0) conn[sr[i]] = false; sr[i] = -1; new (sm[i]) S(); auto e = check(); if (!e.empty()) return e; }
        sig[0].reset(); sig[1].reset();
        for (int i = 0; i < n; ++i) if (!alive[i].expired()) return "a slot is never destroyed";
        for (int i = 0; i < NH; ++i) { c(i).~C(); b(i).~B(); s(i).~S(); }
        return "";
    }
    int connect(int g, int h)
    {
        auto tok = std::make_shared<int>(n);
        alive[n] = tok;
        int* cnt = &calls[n];
        c(h) = sig[g]->connect([tok, cnt] { ++*cnt; });
        conn[n] = true;
        sigof[n] = g;
        cr[h] = n;
        return n++;
    }
    std::string check()
    {
        for (int i = 0; i < NH; ++i)
        {
            if (c(i).connected() != (cr[i] >= 0 && conn[cr[i]])) return "connection::connected is wrong";
            if (s(i).get().connected() != (sr[i] >= 0 && conn[sr[i]])) return "scoped_connection::get().connected is wrong";
            if (b(i).blocking() != (br[i] >= 0)) return "blocker::blocking is wrong";
            for (int j = 0; j < NH; ++j)
            {
                if ((c(i) == c(j)) != (cr[i] == cr[j])) return "connections compare wrongly";
                if ((s(i) == s(j)) != (sr[i] == sr[j])) return "scoped connections compare wrongly";
                if ((c(i) == s(j).get()) != (cr[i] == sr[j])) return "connections compare wrongly";
                if (c(i) == c(j) && (c(i).hash() != c(j).hash() || c(i) < c(j))) return "equal connections differ in hash or order";
                if (!(c(i) == c(j)) && (c(i) < c(j)) == (c(j) < c(i))) return "order is not total";
            }
        }
        int before[NS];
        std::memcpy(before, calls, sizeof calls);
        std::size_t live[2] = {0, 0};
        for (int i = 0; i < n; ++i) if (conn[i]) ++live[sigof[i]];
        for (int g = 0; g < 2; ++g) { (*sig[g])(); if (sig[g]->num_slots() != live[g]) return "number of slots is wrong"; }
        for (int i = 0; i < n; ++i)
        {
            bool blocked = false, ref = conn[i];
            for (int j = 0; j < NH; ++j) { blocked |= br[j] == i; ref |= br[j] == i || cr[j] == i || sr[j] == i; }
            if (calls[i] - before[i] != (conn[i] && !blocked ? 1 : 0)) return blocked ? "a blocked slot is called" : "a slot is called or skipped wrongly";
            if (alive[i].expired() == ref) return ref ? "a slot with a handle is destroyed" : "a slot without signal and handle stays alive";
        }
        return "";
    }
    void drop(int r) { if (r >= 0) conn[r] = false; }
    template <class T>
    void redo(T& x) { x.~T(); new (&x) T(); }
    std::string op(int k, int a, int h)
    {
        using std::swap;
        switch (k)
        {
        case 0: if (n < NS) connect(a & 1, h); break;
        case 1: c(a) = c(h); cr[a] = cr[h]; break;
        case 2: c(a) = std::move(c(h)); if (a != h) { redo(c(h)); cr[a] = cr[h]; cr[h] = -1; } break;
        case 3: if (a != h) { c(a).~C(); new (&c(a)) C(static_cast<const C&>(c(h))); cr[a] = cr[h]; } break;
        case 4: if (a != h) { c(a).~C(); new (&c(a)) C(std::move(c(h))); cr[a] = cr[h]; cr[h] = -1; } break;
        case 5: swap(c(a), c(h)); std::swap(cr[a], cr[h]); break;
        case 6: c(a).disconnect(); drop(cr[a]); redo(c(a)); cr[a] = -1; break;
        case 7: redo(c(a)); cr[a] = -1; break;
        case 8: b(a) = c(h).get_blocker(); br[a] = cr[h]; break;
        case 9: b(a) = b(h); br[a] = br[h]; break;
        case 10: b(a) = std::move(b(h)); if (a != h) { redo(b(h)); br[a] = br[h]; br[h] = -1; } break;
        case 11: if (a != h) { b(a).~B(); new (&b(a)) B(static_cast<const B&>(b(h))); br[a] = br[h]; } break;
        case 12: if (a != h) { b(a).~B(); new (&b(a)) B(std::move(b(h))); br[a] = br[h]; br[h] = -1; } break;
        case 13: swap(b(a), b(h)); std::swap(br[a], br[h]); break;
        case 14: redo(b(a)); br[a] = -1; break;
        case 15: s(a) = S(c(h)); drop(sr[a]); sr[a] = cr[h]; if (sr[a] >= 0) conn[sr[a]] = conn[sr[a]]; break;
        case 16: s(a) = std::move(s(h)); if (a != h) { redo(s(h)); drop(sr[a]); sr[a] = sr[h]; sr[h] = -1; } break;
        case 17: if (a != h) { s(a).~S(); drop(sr[a]); new (&s(a)) S(std::move(s(h))); sr[a] = sr[h]; sr[h] = -1; } break;
        case 18: swap(s(a), s(h)); std::swap(sr[a], sr[h]); break;
        case 19: redo(s(a)); drop(sr[a]); sr[a] = -1; break;
        case 20: c(h) = s(a).release(); cr[h] = sr[a]; sr[a] = -1; break;
        case 21: b(a).~B(); new (&b(a)) B(c(h)); br[a] = cr[h]; break;
        case 22: sig[a & 1]->disconnect_all_slots(); for (int i = 0; i < n; ++i) if (sigof[i] == (a & 1)) conn[i] = false; break;
        case 23: std::swap(c(a), c(h)); std::swap(cr[a], cr[h]); break;
        case 24: std::swap(b(a), b(h)); std::swap(br[a], br[h]); break;
        case 25: std::swap(s(a), s(h)); std::swap(sr[a], sr[h]); break;
        case 26: s(a).~S(); drop(sr[a]); new (&s(a)) S(std::move(c(h))); sr[a] = cr[h]; cr[h] = -1; break;
        case 27: *sig[0] = std::move(*sig[1]); sig[1] = std::make_unique<kl::signal<void()>>(); for (int i = 0; i < n; ++i) { if (sigof[i] == 0) conn[i] = false; sigof[i] = 0; } break;
        }
        return check();
    }
};
static std::string history(const std::vector<int>& v)
{
    World w;
    for (std::size_t i = 0; i + 2 < v.size(); i += 3)
    {
        auto e = w.op(v[i], v[i + 1] % NH, v[i + 2] % NH);
        if (!e.empty()) std::cout << "FAIL: " << e << " after operation " << i / 3 << std::endl, std::_Exit(1);
    }
    auto e = w.finish();
    if (!e.empty()) std::cout << "FAIL: " << e << " at the end" << std::endl, std::_Exit(1);
    return "";
}
std::string run_case(const std::string& c)
{
    auto w = words(c);
    if (w.empty()) return "";
    std::vector<int> v;
    if (w[0] == "H")
    {
        for (std::size_t i = 1; i < w.size(); ++i) v.push_back(std::stoi(w[i]));
        return history(v);
    }
    if (w.size() != 3) return "";
    // slots A and B by handles 2 of each kind
    static const std::vector<std::pair<std::string, int>> map = {{"C_copy_assign", 1}, {"C_move_assign", 2}, {"C_copy_ctor", 3}, {"C_move_ctor", 4}, {"C_swap", 5}, {"C_disconnect", 6}, {"C_dtor", 7}, {"C_get_blocker", 8}, {"B_copy_assign", 9}, {"B_move_assign", 10}, {"B_copy_ctor", 11}, {"B_move_ctor", 12}, {"B_swap", 13}, {"B_dtor", 14}, {"S_from_copy", 15}, {"S_move_assign", 16}, {"S_move_ctor", 17}, {"S_swap", 18}, {"S_dtor", 19}, {"S_release", 20}, {"B_from", 21}, {"C_std_swap", 23}, {"B_std_swap", 24}, {"S_std_swap", 25}, {"S_from_move", 26}};
    int op = -1;
    for (auto& p : map) if (p.first == w[0]) op = p.second;
    if (op < 0) return "";
    char T = w[0][0];
    std::vector<char> refs;
    for (char ch : w[1]) if (ch == 'A' || ch == 'B' || ch == '-') refs.push_back(ch);
    auto setup = [&](char type, int i, char ref) {
        if (ref == '-') return;
        std::vector<int> o = {1, 0, ref == 'A' ? 1 : 2};   // C0 = C1 or C2
        v.insert(v.end(), o.begin(), o.end());
        if (type == 'B') v.insert(v.end(), {8, i, 0});
        if (type == 'S') v.insert(v.end(), {15, i, 0});
        if (type == 'C' && i != 0) v.insert(v.end(), {4, i, 0});
        if (type != 'C') v.insert(v.end(), {7, 0, 0});
    };
    // C1 = slot A, C2 = slot B
    v = {0, 0, 1, 0, 1, 2};
    char srcT = w[0] == "B_from" || w[0] == "C_get_blocker" || w[0] == "S_from_copy" || w[0] == "S_from_move" ? 'C' : T;
    bool same = w[2] == "1";
    bool make = op == 3 || op == 4 || op == 11 || op == 12 || op == 17;
    if (make) { if (refs.size() == 1) setup(srcT, 0, refs[0]); v.insert(v.end(), {op, 1, 0}); }
    else if (refs.size() == 2)
    {
        setup(srcT, srcT == 'C' ? 1 : 1, refs[1]);
        if (!(srcT == 'C' && refs[1] == 'A') && srcT == 'C' && refs[1] == '-') v.insert(v.end(), {7, 1, 0});
        setup(srcT, 0, refs[0]);
        v.insert(v.end(), {op, 0, same ? 0 : 1});
    }
    else if (refs.size() == 1) { setup(srcT, 0, refs[0]); v.insert(v.end(), {op, 0, op == 20 ? 1 : 0}); }
    return history(v);
}
std::string gen_case(Rng& r, std::uint64_t)
{
    std::string s = "H";
    int n = 2 + r.below(r.coin(4) ? 60 : 12);
    for (int i = 0; i < n; ++i)
    {
        int k = i < 2 || r.coin(5) ? 0 : r.below(28);
        if ((k == 22 || k == 27) && !r.coin(4)) k = 1;
        s += " " + std::to_string(k) + " " + std::to_string(r.below(NH)) + " " + std::to_string(r.below(NH));
    }
    return s;
}
