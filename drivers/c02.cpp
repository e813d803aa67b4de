#include "drv.hpp"
#include <kl/base64.hpp>
#include <memory>
// case: "<std|url> <hex of text>"
static std::optional<std::string> ref(std::string s, bool url)
{
    const std::string al = std::string("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789") + (url ? "-_" : "+/");
    if (!url && s.size() % 4) return {};
    int e = 0;
    while (!s.empty() && s.back() == '=' && e < 2) { s.pop_back(); ++e; }
    if (s.size() % 4 == 1) return {};
    std::string o;
    unsigned acc = 0;
    int bits = 0;
    for (char c : s)
    {
        auto p = c ? al.find(c) : std::string::npos;
        if (p == std::string::npos) return {};
        acc = ((acc << 6) | static_cast<unsigned>(p)) & 0xFFFFF;
        bits += 6;
        if (bits >= 8) { bits -= 8; o += static_cast<char>((acc >> bits) & 255); }
    }
    return o;
}
std::string run_case(const std::string& c)
{
    auto w = words(c);
    bool url = w[0] == "url";
    std::string in = w.size() > 1 ? unhex(w[1]) : "";
    std::unique_ptr<char[]> b(new char[in.size()]);
    std::memcpy(b.get(), in.data(), in.size());
    std::string_view sv(b.get(), in.size());
    std::optional<std::vector<std::byte>> got;
    try { got = url ? kl::base64url_decode(sv) : kl::base64_decode(sv); }
    catch (const std::exception& e) { return std::string("throws ") + e.what(); }
    auto want = ref(in, url);
    if (got.has_value() != want.has_value()) return want ? "well-formed text rejected" : "ill-formed text accepted";
    if (got && (got->size() != want->size() || std::memcmp(got->data(), want->data(), want->size()))) return "wrong bytes";
    return "";
}
std::string gen_case(Rng& r, std::uint64_t i)
{
    bool url = r.coin();
    const std::string al = std::string("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789") + (url ? "-_" : "+/");
    std::size_t n = i < 500 ? i % 10 : r.coin(30) ? r.below(2000) : r.below(20);
    std::string s;
    for (std::size_t k = 0; k < n; ++k) s += al[r.below(64)];
    switch (r.below(6))
    {
    case 0: for (auto k = r.below(5); k--;) s += '='; break;
    case 1: while (s.size() % 4) s += '='; break;
    case 2: for (auto k = r.below(3); k-- && !s.empty();) s[r.below(s.size())] = static_cast<char>(r.next()); break;
    case 3: if (!s.empty()) s[s.size() - 1 - r.below(std::min<std::size_t>(4, s.size()))] = "=+/-_ \n\x80\xff@[`{"[r.below(13)]; break;
    case 4: if (!s.empty()) { s[r.below(s.size())] = static_cast<char>(r.next()); while (s.size() % 4) s += '='; } break;
    }
    return std::string(url ? "url " : "std ") + hex(s);
}
