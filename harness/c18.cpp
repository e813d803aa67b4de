#include <kl/split.hpp>
#include <cstddef>
#include <new>
#include <string>
#include <string_view>
#include <vector>

extern "C" void klv_token(const char* first, const char* last);

extern "C" {
void klv_tokens(const char* s, std::size_t n, const char* d, std::size_t nd)
{
    kl::for_each_token(s, s + n, d, d + nd, [](const char* f, const char* l) { klv_token(f, l); });
}
void klv_split(std::vector<std::string>* out, const char* s, std::size_t n, const char* d, std::size_t nd, bool skip_empty)
{
    new (out) std::vector<std::string>(kl::split(std::string_view(s, n), std::string_view(d, nd), skip_empty));
}
void klv_split_default(std::vector<std::string>* out, const char* s, std::size_t n, const char* d, std::size_t nd)
{
    new (out) std::vector<std::string>(kl::split(std::string_view(s, n), std::string_view(d, nd)));
}
void klv_split_str(std::vector<std::string>* out, const std::string& s, const std::string& d, bool skip_empty)
{
    new (out) std::vector<std::string>(kl::split(s, d, skip_empty));
}
}
