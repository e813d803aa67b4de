#include <kl/binary_rw.hpp>
#include <cstdint>
// obs: what a user can see of the cursor afterwards
struct klv_obs { std::size_t pos, left; bool err, empty; };
struct klv_pod { std::uint64_t a; std::uint32_t b; std::uint16_t c; std::uint8_t d, e; };
enum class klv_enum : std::uint16_t {};
using B = const std::byte*;
#define READER(stmt)                                                           \
    kl::binary_reader r{gsl::span<const std::byte>(p, n)};                     \
    r.skip(static_cast<std::ptrdiff_t>(pos));                                  \
    if (err) r.notify_error();                                                 \
    stmt;                                                                      \
    *o = {r.pos(), r.left(), r.err(), r.empty()};
#define WRITER(stmt)                                                           \
    kl::binary_writer w{gsl::span<std::byte>(p, n)};                           \
    w.skip(static_cast<std::ptrdiff_t>(pos));                                  \
    if (err) w.notify_error();                                                 \
    stmt;                                                                      \
    *o = {w.pos(), w.left(), w.err(), w.empty()};
#define SIG B p, std::size_t n, std::size_t pos, bool err, klv_obs* o
#define WSIG std::byte* p, std::size_t n, std::size_t pos, bool err, klv_obs* o
#define SCALAR(N, T)                                                           \
    bool klv_r_raw_##N(SIG, T* d) { READER(bool ok = r.read_raw(*d)) return ok; } \
    bool klv_r_peek_##N(SIG, T* d) { READER(bool ok = r.peek(*d)) return ok; } \
    bool klv_r_spn_##N(SIG, T* d, std::size_t cnt) { READER(bool ok = r.read_span(gsl::span<T>(d, cnt))) return ok; } \
    bool klv_w_raw_##N(WSIG, const T* d) { WRITER(bool ok = w.write_raw(*d)) return ok; } \
    bool klv_w_spn_##N(WSIG, const T* d, std::size_t cnt) { WRITER(bool ok = w.write_span(gsl::span<const T>(d, cnt))) return ok; }
#define SIMPLE(N, T)                                                           \
    bool klv_r_read_##N(SIG, T* d) { READER(bool ok = r.read(*d)) return ok; } \
    void klv_r_op_##N(SIG, T* d) { READER(r >> *d) }                           \
    void klv_r_ret_##N(SIG, T* d) { READER(*d = r.read<T>()) }                 \
    void klv_r_pret_##N(SIG, T* d) { READER(*d = r.peek<T>()) }                \
    void klv_r_ops_##N(SIG, T* d, std::size_t cnt) { READER(r >> gsl::span<T>(d, cnt)) } \
    void klv_w_op_##N(WSIG, const T* d) { WRITER(w << *d) }                    \
    void klv_w_ops_##N(WSIG, const T* d, std::size_t cnt) { WRITER((w << gsl::span<const T>(d, cnt))) }
extern "C" {
SCALAR(u8, std::uint8_t)
SCALAR(u16, std::uint16_t)
SCALAR(u32, std::uint32_t)
SCALAR(u64, std::uint64_t)
SCALAR(pod, klv_pod)
SIMPLE(u8, std::uint8_t)
SIMPLE(i16, std::int16_t)
SIMPLE(i32, std::int32_t)
SIMPLE(u64, std::uint64_t)
SIMPLE(en, klv_enum)
void klv_r_skip(SIG, std::ptrdiff_t off) { READER(r.skip(off)) }
void klv_w_skip(WSIG, std::ptrdiff_t off) { WRITER(w.skip(off)) }
void klv_r_nop(SIG) { READER((void)0) }
void klv_w_nop(WSIG) { WRITER((void)0) }
void klv_r_span(SIG, std::size_t cnt, bool mv, gsl::span<const std::byte>* out) { READER(*out = r.span(cnt, mv)) }
B klv_span_data(const gsl::span<const std::byte>* s) { return s->data(); }
std::size_t klv_span_size(const gsl::span<const std::byte>* s) { return s->size(); }
void klv_r_from_u32(const std::uint32_t* q, std::size_t n, klv_obs* o) { kl::binary_reader r{gsl::span<const std::uint32_t>(q, n)}; *o = {r.pos(), r.left(), r.err(), r.empty()}; }
void klv_w_from_u32(std::uint32_t* q, std::size_t n, klv_obs* o) { kl::binary_writer r{gsl::span<std::uint32_t>(q, n)}; *o = {r.pos(), r.left(), r.err(), r.empty()}; }
void klv_r_from_arr(const char (*q)[13], klv_obs* o) { kl::binary_reader r{gsl::span<const char, 13>(*q)}; *o = {r.pos(), r.left(), r.err(), r.empty()}; }
}
