#include "drv.hpp"
#include "../harness/c18.cpp"
static std::vector<std::string>* sink;
extern "C" void klv_token(const char* f, const char* l) { sink->push_back(std::string(f, l)); }
static std::vector<std::string> want(const std::string& s, const std::string& d, bool skip)
{
    std::vector<std::string> r;
    std::string cur;
    for (std::size_t i = 0; i < s.size(); ++i)
    {
        if (d.find(s[i]) != std::string::npos) { r.push_back(cur); cur.clear(); }
        else cur += s[i];
    }
    if (!cur.empty()) r.push_back(cur);
    if (skip) { std::vector<std::string> q; for (auto& x : r) if (!x.empty()) q.push_back(x); return q; }
    return r;
}
std::string run_case(const std::string& c)
{
    auto w = words(c);
    if (w.size() != 3) return "";
    std::string s = w[1] == "-" ? "" : unhex(w[1]), d = w[2] == "-" ? "" : unhex(w[2]);
    // exact-size heap copies: any read outside is seen by the address sanitizer
    std::vector<char> sb(s.begin(), s.end()), db(d.begin(), d.end());
    sb.shrink_to_fit(); db.shrink_to_fit();
    std::vector<std::string> got;
    bool skip = w[0] == "split1" || w[0] == "default";
    if (w[0] == "tok") { sink = &got; klv_tokens(sb.data(), sb.size(), db.data(), db.size()); }
    else
    {
        alignas(8) char mem[sizeof got];
        auto v = reinterpret_cast<std::vector<std::string>*>(mem);
        if (w[0] == "default") klv_split_default(v, sb.data(), sb.size(), db.data(), db.size());
        else klv_split(v, sb.data(), sb.size(), db.data(), db.size(), skip);
        got = *v; v->~vector();
        if (w[0] != "default") { klv_split_str(v, s, d, skip); bool same = got == *v; v->~vector(); if (!same) return "std::string and string_view disagree"; }
    }
    auto e = want(s, d, skip);
    if (got == e) return "";
    std::string m = "got";
    for (auto& x : got) m += " [" + hex(x) + "]";
    m += " want";
    for (auto& x : e) m += " [" + hex(x) + "]";
    return m;
}
std::string gen_case(Rng& r, std::uint64_t)
{
    static const char* op[] = {"tok", "split0", "split1", "default"};
    auto h = [](std::string x) { return x.empty() ? std::string("-") : hex(x); };
    return std::string(r.pick(op)) + " " + h(rnd_bytes(r, 1 + r.below(24), ",; ab")) + " " + h(rnd_bytes(r, r.below(4), ",; "));
}
