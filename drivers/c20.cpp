#include "drv.hpp"
#include "../harness/c20.cpp"
// cases: "<enum> to <value>", "<enum> from <hex>", "<enum> list"
struct Ent { long long v; const char* s; };
using Table = std::vector<Ent>;
template <class Un>
struct Fns
{
    const char* (*to)(Un);
    const char* (*todef)(Un, const char*);
    const char* (*free_)(Un);
    int (*from)(const char*, std::size_t, Un*);
    int (*ffree)(const char*, std::size_t, Un*);
    std::size_t (*count)();
};
template <class E, class Un>
static std::string chk(const char* name, const Table& t, const Fns<Un>& f, const E* vb, const E* ve, const std::vector<std::string>& w)
{
    std::string unknown = std::string("unknown <") + name + ">";
    auto is = [&](std::string got, Un v) { for (auto& e : t) if (static_cast<Un>(e.v) == v && got == e.s) return true; return false; };
    auto known = [&](Un v) { for (auto& e : t) if (static_cast<Un>(e.v) == v) return true; return false; };
    if (w[1] == "to" && w.size() > 2)
    {
        Un v = static_cast<Un>(w[2][0] == '-' ? static_cast<unsigned long long>(std::stoll(w[2])) : std::stoull(w[2]));
        static const char def[] = "DEFAULT";
        std::string a = f.to(v), c = f.free_(v);
        const char* b = f.todef(v, def);
        if (known(v)) return is(a, v) && is(b, v) && is(c, v) ? "" : "an enumerator's name is wrong: " + a;
        return a == unknown && c == unknown && b == def ? "" : "a value that is no enumerator is not reported unknown: " + a;
    }
    if (w[1] == "from" && w.size() > 2)
    {
        std::string s = w[2] == "-" ? "" : unhex(w[2]);
        std::vector<char> buf(s.begin(), s.end());
        for (int k = 0; k < 2; ++k)
        {
            Un out{};
            int r = k ? f.ffree(buf.data(), buf.size(), &out) : f.from(buf.data(), buf.size(), &out);
            const Ent* want = nullptr;
            for (auto& e : t) if (s == e.s) { want = &e; break; }
            if (!want != !r) return want ? "a declared name is rejected" : "an undeclared name is accepted";
            if (want && static_cast<Un>(want->v) != out) return "wrong value for a name";
        }
        return "";
    }
    if (f.count() != t.size() || std::size_t(ve - vb) != t.size()) return "count differs";
    for (std::size_t i = 0; i < t.size(); ++i)
        if (static_cast<Un>(vb[i]) != static_cast<Un>(t[i].v)) return "listed values differ";
    auto cv = kl::enum_reflector<E>::constexpr_values();
    for (std::size_t i = 0; i < t.size(); ++i)
        if (static_cast<Un>(cv[i]) != static_cast<Un>(t[i].v)) return "listed values differ";
    auto rng = reflect_enum(kl::enum_<E>);
    if (rng.size() != t.size()) return "table size differs";
    std::size_t i = 0;
    for (auto& e : rng) { if (i >= t.size() || static_cast<Un>(e.value) != static_cast<Un>(t[i].v) || e.name != t[i].s) return "table differs"; ++i; }
    return "";
}
#define ALL                                                                                            \
    X(ord, {0, "a"}, {1, "b"}, {2, "ccc"}, {3, "dd"})                                                  \
    X(ord8, {0, "zero"}, {1, "one"}, {2, "two"})                                                       \
    X(sord8, {0, "p"}, {1, "q"}, {2, "r"})                                                             \
    X(sparse, {-5, "lo"}, {3, "x"}, {2000000000, "hi"})                                                \
    X(perm, {0, "c0"}, {2, "c2"}, {1, "c1"}, {3, "c3"})                                                \
    X(notzero, {1, "one"}, {2, "two"}, {3, "three"})                                                   \
    X(wide, {INT64_MIN, "neg"}, {1ll << 32, "mid"}, {INT64_MAX, "top"})                                \
    X(uwide, {0, "z"}, {-1, "top"})                                                                    \
    X(single, {0, "only"})                                                                             \
    X(single7, {7, "only"})                                                                            \
    X(prefix, {0, "A"}, {1, "AB"}, {2, "ABC"}, {3, "abc"})                                             \
    X(renamed, {0, "first"}, {1, "beta"}, {5, "the_third_one"})                                        \
    X(flat, {0, "flat_a"}, {4, "B"}, {5, "flat_c"})                                                    \
    X(alias, {0, "x"}, {1, "y"}, {1, "z"}, {2, "w"})                                                   \
    X(gap, {0, "a"}, {1, "b"}, {3, "d"})                                                               \
    X(dup, {0, "x"}, {1, "y"}, {1, "z"}, {3, "w"}) \
    X(dup0, {0, "x"}, {0, "y"}, {2, "z"}) \
    X(dip, {0, "a"}, {-1, "b"}, {2, "c"}) \
    X(jump, {0, "a"}, {5, "b"}, {2, "c"}) \
    X(rev, {2, "a"}, {1, "b"}, {0, "c"}) \
    X(swap0, {1, "b"}, {0, "a"}, {2, "c"}) \
    X(big, {0, "v0"}, {1, "v1"}, {2, "v2"}, {3, "v3"}, {4, "v4"}, {5, "v5"}, {6, "v6"}, {7, "v7"}, {8, "v8"}, {9, "v9"}, {10, "v10"}, {11, "v11"}, {12, "v12"}, {13, "v13"}, {14, "v14"}, {15, "v15"}, {16, "v16"}, {17, "v17"}, {18, "v18"}, {19, "last"}) \
    X(bigger, {100, "k0"}, {99, "k1"}, {98, "k2"}, {-1, "k3"}, {0, "k4"}, {1, "k5"}, {32767, "k6"}, {-32768, "k7"})
#define X(N, ...) {#N, Table{__VA_ARGS__}},
static const std::vector<std::pair<std::string, Table>> tables = {ALL};
#undef X
std::string run_case(const std::string& c)
{
    auto w = words(c);
    if (w.size() < 2) return "";
    std::size_t k = 0;
#define X(N, ...) if (w[0] == #N) return chk<c20::N, U<c20::N>>(#N, tables[k].second, {klv_to_##N, klv_todef_##N, klv_free_##N, klv_from_##N, klv_ffree_##N, klv_count_##N}, klv_vbegin_##N(), klv_vend_##N(), w); ++k;
    ALL
#undef X
    return "";
}
std::string gen_case(Rng& r, std::uint64_t i)
{
    auto& t = tables[i < 200 ? i % tables.size() : r.below(tables.size())];
    if (i < tables.size()) return t.first + " list";
    auto& e = t.second[r.below(t.second.size())];
    if (r.coin())
        return t.first + " to " + std::to_string(static_cast<long long>(r.coin(3) ? r.next() : static_cast<unsigned long long>(e.v) + r.below(5) * (r.coin() ? 1 : 1ull << (r.below(64)))));
    std::string s = e.s;
    switch (r.below(6))
    {
    case 0: s += static_cast<char>(r.coin() ? 0 : 'a' + r.below(26)); break;
    case 1: s.pop_back(); break;
    case 2: s[r.below(s.size())] ^= 1 << r.below(8); break;
    case 3: s = rnd_bytes(r, 8, "abcxyzABC_"); break;
    case 4: s = s.substr(1); break;
    }
    return t.first + " from " + (s.empty() ? "-" : hex(s));
}
