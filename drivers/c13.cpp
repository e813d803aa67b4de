#include "drv.hpp"
#include "../harness/c13.cpp"
// case: "<type> <op> <a> <b> <n>"
static std::vector<std::int64_t> seen;
static std::size_t cap;
extern "C" void klv_visit(std::int64_t v) { seen.push_back(v); if (seen.size() > cap) throw 1; }
using I = __int128;
static std::string laws_of(const std::string& op, I a, I b, I n, I tmin, I tmax,
                           void (*two)(const std::string&, I, I, I*), I (*diff)(I, I), bool (*cmp)(const std::string&, I, I))
{
    auto in = [&](I x) { return x >= tmin && x <= tmax; };
    if (!in(a) || !in(b) || n <= (I)INT64_MIN || n > (I)INT64_MAX) return "";
    I r[2];
    struct { const char* o; I d, s; bool self; } t[] = {{"add", n, 0, 0}, {"radd", n, 0, 0}, {"adda", n, 0, 1}, {"sub", -n, 0, 0}, {"suba", -n, 0, 1}, {"idx", n, 0, 0}};
    for (auto& x : t)
        if (op == x.o) { if (!in(a + x.d)) return ""; two(op, a, n, r); if (r[0] != a + x.d) return "wrong position"; if (r[1] != (x.self ? a + x.d : a)) return "operand wrong"; }
    struct { const char* o; int dr, di; } u[] = {{"inc", 1, 1}, {"pinc", 0, 1}, {"dec", -1, -1}, {"pdec", 0, -1}, {"arrow", 0, 0}, {"copy", 0, 0}};
    for (auto& x : u)
        if (op == x.o) { if (!in(a + x.di)) return ""; two(op, a, 0, r); if (r[0] != a + x.dr) return "wrong value"; if (r[1] != a + x.di) return "wrong position"; }
    if (a - b > (I)INT64_MAX || a - b <= (I)INT64_MIN) return "";
    if (op == "diff" && diff(a, b) != a - b) return "wrong difference";
    if (op == "eq" && cmp(op, a, b) != (a == b)) return "==";
    if (op == "ne" && cmp(op, a, b) != (a != b)) return "!=";
    if (op == "lt" && cmp(op, a, b) != (a < b)) return "<";
    if (op == "gt" && cmp(op, a, b) != (a > b)) return ">";
    if (op == "le" && cmp(op, a, b) != (a <= b)) return "<=";
    if (op == "ge" && cmp(op, a, b) != (a >= b)) return ">=";
    return "";
}
static const std::size_t CAP = 70000;
static std::string visits_are(I lo, I hi, bool threw)
{
    I cnt = hi > lo ? hi - lo : 0;
    for (std::size_t k = 0; k < seen.size(); ++k) {
        if ((I)k >= cnt) return "visits a value past the end";
        if ((I)seen[k] != lo + (I)k) return "wrong value visited";
    }
    if (!threw && (I)seen.size() != cnt) return "visits too few values";
    return "";
}
#define TWO(N, T) [](const std::string& op, I a, I n, I* r) { T x[2]; \
    if (op == "add") klv_##N##_add(a, n, x); else if (op == "radd") klv_##N##_radd(a, n, x); else if (op == "adda") klv_##N##_adda(a, n, x); \
    else if (op == "sub") klv_##N##_sub(a, n, x); else if (op == "suba") klv_##N##_suba(a, n, x); else if (op == "idx") klv_##N##_idx(a, n, x); \
    else if (op == "inc") klv_##N##_inc(a, x); else if (op == "pinc") klv_##N##_pinc(a, x); else if (op == "dec") klv_##N##_dec(a, x); else if (op == "pdec") klv_##N##_pdec(a, x); \
    else if (op == "arrow") klv_##N##_arrow(a, x); else klv_##N##_copy(a, x); r[0] = x[0]; r[1] = x[1]; }
#define CMP(N) [](const std::string& op, I a, I b) { return op == "eq" ? klv_##N##_eq(a, b) : op == "ne" ? klv_##N##_ne(a, b) : op == "lt" ? klv_##N##_lt(a, b) : op == "gt" ? klv_##N##_gt(a, b) : op == "le" ? klv_##N##_le(a, b) : klv_##N##_ge(a, b); }
#define RNG(N, T, LO, HI) \
    if (op == "range") { for (int c = 0; c < 2; ++c) { seen.clear(); cap = CAP; bool th = false; try { c ? klv_##N##_crange() : klv_##N##_range(); } catch (int) { th = true; } auto e = visits_are(LO, HI, th); if (!e.empty()) return e; } \
        if ((I)klv_##N##_min() != (I)(LO) || (I)klv_##N##_minv() != (I)(LO) || (I)klv_##N##_max() != (I)(HI) || (I)klv_##N##_maxv() != (I)(HI) || (I)klv_##N##_cmaxv() != (I)(HI)) return "bounds"; \
        if ((I)klv_##N##_count() != (I)(HI) - (I)(LO) || (I)klv_##N##_ccount() != (I)(HI) - (I)(LO)) return "count"; return ""; } \
    if (op == "in") { T v = (T)a; bool w = (I)v >= (I)(LO) && (I)v < (I)(HI); if (klv_##N##_in(v) != w || klv_##N##_inv(v) != w || klv_##N##_cin(v) != w) return "in_range"; \
        if (klv_##N##_plus(v) != v) return "plus"; if (w) { T x[2]; klv_##N##_einc(v, x); if ((I)x[0] != (I)v + 1 || (I)x[1] != (I)v + 1) return "++e"; klv_##N##_epinc(v, x); if ((I)x[0] != (I)v || (I)x[1] != (I)v + 1) return "e++"; } return ""; } \
    if (op == "foreach") { T v = (T)a, q = (T)b; if ((I)v < (I)(LO) || (I)q > (I)(HI)) return ""; seen.clear(); cap = 3000; bool th = false; try { klv_##N##_foreach(v, q); } catch (int) { th = true; } return visits_are(v, q, th); }
#define TYPE(N, T, LO, HI) if (w[0] == #N) { I a = (T)ra, b = (T)rb, n = (std::int64_t)rn; RNG(N, T, LO, HI) \
    return laws_of(op, a, b, n, std::is_signed_v<T> ? (I)std::numeric_limits<T>::min() : 0, sizeof(T) == 8 ? (I)INT64_MAX : (I)std::numeric_limits<T>::max(), TWO(N, T), [](I x, I y) { return (I)klv_##N##_diff(x, y); }, CMP(N)); }
std::string run_case(const std::string& c)
{
    auto w = words(c);
    if (w.size() < 5) return "";
    std::uint64_t ra = std::stoull(w[2]), rb = std::stoull(w[3]), rn = std::stoull(w[4]);
    const std::string& op = w[1];
    TYPE(i8, std::int8_t, -128, 127) TYPE(u8, std::uint8_t, 0, 255) TYPE(i16, std::int16_t, -32768, 32767) TYPE(u16, std::uint16_t, 3, 65535)
    TYPE(i32, std::int32_t, -1000000000, 1000000000) TYPE(u32, std::uint32_t, 7, 4294967295u) TYPE(i64, std::int64_t, -4000000000000000000, 4000000000000000000)
    TYPE(u64, std::uint64_t, 1, 9223372036854775807u)
    if (w[0] == "one") { I a = (int)ra, b = (int)rb; RNG(one, int, 41, 42) return ""; }
    if (w[0] == "cnt") { I a = (std::int64_t)ra, b = (std::int64_t)rb, n = (std::int64_t)rn;
        return laws_of(op, a, b, n, INT64_MIN, INT64_MAX, TWO(cnt, std::int64_t), [](I x, I y) { return (I)klv_cnt_diff(x, y); }, CMP(cnt)); }
    if (w[0] == "ptr") {
        const std::size_t L = 101;
        static std::vector<int> v(L);
        const int* B = v.data();
        std::int64_t i = ra, j = rb, n = rn;
        if (ra > L || rb > L || n > (std::int64_t)L || n < -(std::int64_t)L) return "";
        auto in = [&](std::int64_t x) { return x >= 0 && x <= (std::int64_t)L; };
        const int* r[2];
        if (op == "range") return i > j || (klv_range_size(B + i, B + j) == (std::size_t)(j - i) && klv_range_isize(B + i, B + j) == (std::size_t)(j - i) && klv_range_begin(B + i, B + j) == B + i && klv_range_end(B + i, B + j) == B + j) ? "" : "range";
        struct { const char* o; void (*f)(const int*, std::ptrdiff_t, const int**); int sg; bool self; } t[] = {{"add", klv_ptr_add, 1, 0}, {"radd", klv_ptr_radd, 1, 0}, {"adda", klv_ptr_adda, 1, 1}, {"sub", klv_ptr_sub, -1, 0}, {"suba", klv_ptr_suba, -1, 1}};
        for (auto& x : t) if (op == x.o && in(i + x.sg * n)) { x.f(B + i, n, r); if (r[0] != B + i + x.sg * n || r[1] != (x.self ? r[0] : B + i)) return "position"; }
        struct { const char* o; void (*f)(const int*, const int**); int dr, di; } u[] = {{"inc", klv_ptr_inc, 1, 1}, {"pinc", klv_ptr_pinc, 0, 1}, {"dec", klv_ptr_dec, -1, -1}, {"pdec", klv_ptr_pdec, 0, -1}};
        for (auto& x : u) if (op == x.o && in(i + x.di)) { x.f(B + i, r); if (r[0] != B + i + x.dr || r[1] != B + i + x.di) return "step"; }
        if (op == "idx" && i + n >= 0 && i + n < (std::int64_t)L && klv_ptr_idx(B + i, n) != B + i + n) return "idx";
        if (i < (std::int64_t)L && (klv_ptr_deref(B + i) != B + i || klv_ptr_arrow(B + i) != B + i)) return "deref";
        if (klv_ptr_diff(B + i, B + j) != i - j) return "diff";
        if (klv_ptr_eq(B + i, B + j) != (i == j) || klv_ptr_ne(B + i, B + j) != (i != j) || klv_ptr_lt(B + i, B + j) != (i < j) || klv_ptr_gt(B + i, B + j) != (i > j) || klv_ptr_le(B + i, B + j) != (i <= j) || klv_ptr_ge(B + i, B + j) != (i >= j)) return "cmp";
        return "";
    }
    return "";
}
std::string gen_case(Rng& r, std::uint64_t i)
{
    static const char* ty[] = {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "one", "cnt", "ptr"};
    static const char* ops[] = {"add", "radd", "adda", "sub", "suba", "idx", "inc", "pinc", "dec", "pdec", "arrow", "copy", "diff", "eq", "ne", "lt", "gt", "le", "ge", "range", "in", "foreach"};
    std::string t = ty[i % 11], o = r.pick(ops);
    if (o == "range" && !r.coin(20)) o = "in";
    auto v = [&]() -> std::uint64_t { std::uint64_t x = r.coin() ? r.next() >> r.below(64) : r.below(300); return r.coin(3) ? -x : x; };
    std::uint64_t a = v(), n = r.coin() ? r.below(40) - 20 : v(), b = r.coin() ? a + r.below(20) - 10 : v();
    if (t == "ptr") { a %= 102; b %= 102; n = r.below(203) - 101; }
    return t + " " + o + " " + std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(n);
}
