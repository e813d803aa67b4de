#include "drv.hpp"
#include <kl/base64.hpp>
// case: "<std|url> <hex>"
static std::string ref(const std::string& s, bool url)
{
    const std::string al = std::string("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789") + (url ? "-_" : "+/");
    std::string o;
    unsigned acc = 0;
    int bits = 0;
    for (unsigned char c : s)
    {
        acc = (acc << 8) | c;
        bits += 8;
        while (bits >= 6) { bits -= 6; o += al[(acc >> bits) & 63]; }
        acc &= (1u << bits) - 1;
    }
    if (bits) o += al[(acc << (6 - bits)) & 63];
    if (!url) while (o.size() % 4) o += '=';
    return o;
}
std::string run_case(const std::string& c)
{
    auto w = words(c);
    bool url = w[0] == "url";
    std::string in = w.size() > 1 ? unhex(w[1]) : "";
    // exact-size heap copy, so that any read outside is reported
    std::vector<std::byte> buf(in.size());
    if (!in.empty()) std::memcpy(buf.data(), in.data(), in.size());
    gsl::span<const std::byte> sp(buf.data(), buf.size());
    std::string got;
    try { got = url ? kl::base64url_encode(sp) : kl::base64_encode(sp); }
    catch (const std::exception& e) { return std::string("throws ") + e.what(); }
    std::string want = ref(in, url);
    return got == want ? "" : "got " + got + " want " + want;
}
std::string gen_case(Rng& r, std::uint64_t i)
{
    static const char* fav[] = {nullptr, "\x01\xff\x80\xfb\xfc", "abc\xff"};
    std::size_t mx = i < 2000 ? i % 40 : (r.coin(50) ? 5000 : r.coin(4) ? 300 : 24);
    return std::string(r.coin() ? "std " : "url ") + hex(rnd_bytes(r, mx, r.pick(fav)));
}
