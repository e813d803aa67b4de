#include <cstdint>
#include <kl/binary_rw.hpp>
#include <kl/binary_rw/endian.hpp>
#include <kl/binary_rw/map.hpp>
#include <kl/binary_rw/optional.hpp>
#include <kl/binary_rw/pair.hpp>
#include <kl/binary_rw/set.hpp>
#include <kl/binary_rw/string.hpp>
#include <kl/binary_rw/variant.hpp>
#include <kl/binary_rw/vector.hpp>
#include <cstdint>
enum class klv_e : std::uint16_t { a, b };
// writes v to a buffer of cap bytes, reads it back from the first len of them
template <typename T>
static int rt(const T& v, std::byte* buf, std::size_t cap, std::size_t len, std::size_t* wpos, T out = T{})
{
    kl::binary_writer w{gsl::span<std::byte>{buf, cap}};
    w << v;
    *wpos = w.pos();
    if (w.err())
        return 1;
    kl::binary_reader r{gsl::span<const std::byte>{buf, len}};
    r >> out;
    if (r.err())
        return r.pos() <= len ? 2 : 5;
    if (r.pos() != w.pos())
        return 3;
    return out == v ? 0 : 4;
}
#define ARGS std::byte *buf, std::size_t cap, std::size_t len, std::size_t *wpos
#define PASS buf, cap, len, wpos
using V3 = std::variant<std::int8_t, std::int64_t, std::uint16_t>;
using VS = std::variant<std::int32_t, std::string, std::vector<std::uint8_t>>;
extern "C" {
int klv_rt_u8(std::uint8_t v, ARGS) { return rt(v, PASS); }
int klv_rt_bool(bool v, ARGS) { return rt(v, PASS); }
int klv_rt_i16(std::int16_t v, ARGS) { return rt(v, PASS); }
int klv_rt_u32(std::uint32_t v, ARGS) { return rt(v, PASS); }
int klv_rt_i64(std::int64_t v, ARGS) { return rt(v, PASS); }
int klv_rt_enum(klv_e v, ARGS) { return rt(v, PASS); }
int klv_rt_le(std::uint32_t v, ARGS) { return rt(boost::endian::little_uint32_t(v), PASS); }
int klv_rt_be(std::uint16_t v, ARGS) { return rt(boost::endian::big_uint16_t(v), PASS); }
int klv_rt_pair(std::uint8_t a, std::int32_t b, ARGS) { return rt(std::pair<std::uint8_t, std::int32_t>(a, b), PASS); }
int klv_rt_opt(bool has, std::int32_t a, ARGS) { return rt(has ? std::optional<std::int32_t>(a) : std::nullopt, PASS, std::optional<std::int32_t>(7)); }
int klv_rt_optopt(int k, std::int16_t a, ARGS)
{
    using O = std::optional<std::optional<std::int16_t>>;
    return rt(k == 0 ? O{} : k == 1 ? O{std::optional<std::int16_t>{}} : O{std::optional<std::int16_t>{a}}, PASS);
}
int klv_rt_var(int k, std::int64_t a, ARGS)
{
    V3 v;
    if (k == 0) v.emplace<0>(static_cast<std::int8_t>(a)); else if (k == 1) v.emplace<1>(a); else v.emplace<2>(static_cast<std::uint16_t>(a));
    return rt(v, PASS, V3{std::int64_t{5}});
}
// any input bytes: an index with no alternative is an error
int klv_read_var(const std::byte* buf, std::size_t len, std::size_t* pos)
{
    kl::binary_reader r{gsl::span<const std::byte>{buf, len}};
    V3 v;
    r >> v;
    *pos = r.pos();
    return r.err() ? -1 : static_cast<int>(v.index());
}
int klv_read_opt(const std::byte* buf, std::size_t len, std::size_t* pos, int* val)
{
    kl::binary_reader r{gsl::span<const std::byte>{buf, len}};
    std::optional<int> v{1};
    r >> v;
    *pos = r.pos();
    if (v) *val = *v;
    return r.err() ? -1 : v.has_value();
}
// containers of n elements taken from e
int klv_rt_vec(const std::int32_t* e, int n, ARGS) { return rt(std::vector<std::int32_t>(e, e + n), PASS, std::vector<std::int32_t>{1, 2}); }
int klv_rt_str(const char* e, int n, ARGS) { return rt(std::string(e, e + n), PASS, std::string("xy")); }
int klv_rt_vecpair(const std::int32_t* e, int n, ARGS)
{
    std::vector<std::pair<std::int32_t, std::uint8_t>> v;
    for (int i = 0; i < n; ++i) v.push_back({e[i], static_cast<std::uint8_t>(e[i])});
    return rt(v, PASS, decltype(v){{1, 2}});
}
int klv_rt_vecstr(const char* e, int n, ARGS)
{
    std::vector<std::string> v;
    for (int i = 0; i < n; ++i) v.push_back(std::string(e, e + i));
    return rt(v, PASS, decltype(v){"q"});
}
int klv_rt_set(const std::int32_t* e, int n, ARGS) { return rt(std::set<std::int32_t>(e, e + n), PASS, std::set<std::int32_t>{1, 2}); }
int klv_rt_map(const std::int32_t* e, int n, ARGS)
{
    std::map<std::int32_t, std::int16_t> m;
    for (int i = 0; i < n; ++i) m.insert({e[i], static_cast<std::int16_t>(i * 1000)});
    return rt(m, PASS, decltype(m){{1, 2}});
}
int klv_rt_mapstr(const std::int32_t* e, int n, ARGS)
{
    std::map<std::int32_t, std::string> m;
    for (int i = 0; i < n; ++i) m.insert({e[i], std::string(static_cast<std::size_t>(i), 'c')});
    return rt(m, PASS);
}
int klv_rt_vs(int k, const char* e, int n, ARGS)
{
    VS v;
    if (k == 0) v.emplace<0>(n); else if (k == 1) v.emplace<1>(e, e + n); else v.emplace<2>(e, e + n);
    return rt(v, PASS, VS{std::string("abc")});
}
}
