#include <kl/base64.hpp>
#include <new>
using opt = std::optional<std::vector<std::byte>>;
extern "C" {
void klv_decode(opt* out, const char* p, std::size_t n) { new (out) opt(kl::base64_decode(std::string_view(p, n))); }
void klv_decode_url(opt* out, const char* p, std::size_t n) { new (out) opt(kl::base64url_decode(std::string_view(p, n))); }
bool klv_has(const opt* o) { return o->has_value(); }
std::size_t klv_size(const opt* o) { return (*o)->size(); }
const std::byte* klv_data(const opt* o) { return (*o)->data(); }
}
