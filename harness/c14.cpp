#include <kl/hash.hpp>
extern "C" {
std::uint32_t klv_fnv(const char* p, std::size_t n) { return kl::hash::fnv1a(p, n); }
std::uint32_t klv_fnv_str(const std::string* s) { return kl::hash::fnv1a(*s); }
std::uint32_t klv_fnv_lit(const char* p, std::size_t n) { return kl::hash::operators::operator""_h(p, n); }
std::uint32_t klv_fnv_a1(const char (*a)[1]) { return kl::hash::fnv1a(*a); }
std::uint32_t klv_fnv_a2(const char (*a)[2]) { return kl::hash::fnv1a(*a); }
std::uint32_t klv_fnv_a7(const char (*a)[7]) { return kl::hash::fnv1a(*a); }
std::uint32_t klv_hsieh(const char* p, std::size_t n) { return kl::hash::hsieh(p, n); }
}
