#include <kl/exception_info.hpp>
#include <new>
#include <stdexcept>
#include <utility>
extern "C" void klv_val_born(int v);
extern "C" void klv_val_dead(int v);
struct klv_val
{
    int v;
    explicit klv_val(int i) : v(i) { klv_val_born(v); }
    klv_val(const klv_val& o) : v(o.v) { klv_val_born(v); }
    klv_val(klv_val&& o) noexcept : v(o.v) { klv_val_born(v); }
    ~klv_val() { klv_val_dead(v); }
};
struct tag_a { using type = klv_val; };
struct tag_b { using type = klv_val; };
struct tag_c { using type = klv_val; };
struct tag_i { using type = int; };
using X = kl::exception_info;
template <typename T> static int get_val(const X* x, int* out)
{
    if (auto p = x->get<T>()) { *out = p->v; return 1; }
    return 0;
}
template <> int get_val<tag_i>(const X* x, int* out)
{
    if (auto p = x->get<tag_i>()) { *out = *p; return 1; }
    return 0;
}
template <typename T> static int get_mut(X* x, int* out)
{
    if (auto p = x->get<T>()) { *out = p->v; return 1; }
    return 0;
}
struct klv_error : std::runtime_error { using std::runtime_error::runtime_error; };
extern "C" {
std::size_t klv_x_sizeof() { return sizeof(X); }
void klv_x_ctor(void* m) { new (m) X(); }
void klv_x_ctor3(void* m, const char* f, int l, const char* fn) { new (m) X(f, l, fn); }
void klv_x_copy(void* m, const X* o) { new (m) X(*o); }
void klv_x_move(void* m, X* o) { new (m) X(std::move(*o)); }
void klv_x_assign(X* a, const X* b) { *a = *b; }
void klv_x_move_assign(X* a, X* b) { *a = std::move(*b); }
void klv_x_dtor(X* x) { x->~X(); }
const char* klv_x_file(const X* x) { return x->file(); }
int klv_x_line(const X* x) { return x->line(); }
const char* klv_x_function(const X* x) { return x->function(); }
X* klv_set_a(X* x, int v) { const klv_val y(v); return &x->set<tag_a>(y); }
X* klv_set_b(X* x, int v) { return &x->set<tag_b>(klv_val(v)); }
X* klv_set_c(X* x, int v) { const klv_val y(v); return &x->set<tag_c>(y); }
X* klv_set_i(X* x, int v) { return &x->set<tag_i>(v); }
X* klv_unset_a(X* x) { return &x->unset<tag_a>(); }
X* klv_unset_b(X* x) { return &x->unset<tag_b>(); }
X* klv_unset_c(X* x) { return &x->unset<tag_c>(); }
X* klv_unset_i(X* x) { return &x->unset<tag_i>(); }
int klv_get_a(const X* x, int* o) { return get_val<tag_a>(x, o); }
int klv_get_b(const X* x, int* o) { return get_val<tag_b>(x, o); }
int klv_get_c(const X* x, int* o) { return get_val<tag_c>(x, o); }
int klv_get_i(const X* x, int* o) { return get_val<tag_i>(x, o); }
int klv_gem_a(X* x, int* o) { return get_mut<tag_a>(x, o); }
int klv_gem_b(X* x, int* o) { return get_mut<tag_b>(x, o); }
}
