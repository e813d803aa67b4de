#include <kl/path.hpp>
#include <new>
extern "C" {
std::size_t klv_path_sizeof() { return sizeof(kl::path); }
void klv_path_ctor(void* m) { new (m) kl::path(); }
void klv_path_set(kl::path* p, const char* s, std::size_t n) { p->set(std::string_view(s, n)); }
std::size_t klv_path_size(const kl::path* p) { return p->size(); }
const char* klv_path_at(const kl::path* p, std::size_t i, std::size_t* n) { auto v = (*p)[i]; *n = v.size(); return v.data(); }
void klv_path_dtor(kl::path* p) { p->~path(); }
}
extern "C" {
void klv_path_from(void* m, const char* s, std::size_t n) { new (m) kl::path(std::string_view(s, n)); }
bool klv_path_empty(const kl::path* p) { return p->empty(); }
void klv_path_clear(kl::path* p) { p->clear(); }
}
extern "C" {
void klv_view_drop(const kl::path* p, std::size_t a, std::size_t b, kl::path_view* out)
{
    auto v = p->view();
    for (std::size_t i = 0; i < a; ++i)
        v = v.drop_front();
    for (std::size_t i = 0; i < b; ++i)
        v = v.drop_back();
    *out = v;
}
std::size_t klv_view_size(const kl::path_view* v) { return v->size(); }
bool klv_view_empty(const kl::path_view* v) { return v->empty(); }
const char* klv_view_at(const kl::path_view* v, std::size_t i, std::size_t* n) { auto s = (*v)[i]; *n = s.size(); return s.data(); }
const char* klv_view_front(const kl::path_view* v, std::size_t* n) { auto s = v->front(); *n = s.size(); return s.data(); }
const char* klv_view_prefix(const kl::path_view* v, std::size_t k, std::size_t* n) { auto s = v->prefix(k); *n = s.size(); return s.data(); }
const char* klv_path_joined(const kl::path* p, std::size_t i, std::size_t* n) { auto s = p->joined(i); *n = s.size(); return s.data(); }
std::size_t klv_view_sizeof() { return sizeof(kl::path_view); }
void klv_view_ctor(void* m) { new (m) kl::path_view(); }
}
