// entry points: call the real API; nothing of /repo is re-implemented here
#include <kl/base64.hpp>
#include <new>
extern "C" void klv_encode(std::string* out, const std::byte* p, std::size_t n)
{
    new (out) std::string(kl::base64_encode(gsl::span<const std::byte>(p, n)));
}
extern "C" void klv_encode_url(std::string* out, const std::byte* p, std::size_t n)
{
    new (out) std::string(kl::base64url_encode(gsl::span<const std::byte>(p, n)));
}
