#include "c05.cpp"
#include <kl/resource.hpp>
using klv_tracker = kl::resources::modification_tracker;
using klv_gen = klv_tracker::generation;
extern "C" {
std::size_t klv_trk_sizeof() { return sizeof(klv_tracker); }
void klv_trk_ctor(void* m) { new (m) klv_tracker(); }
void klv_trk_dtor(klv_tracker* t) { t->~modification_tracker(); }
std::uint64_t klv_trk_current(const klv_tracker* t) { return static_cast<std::uint64_t>(t->current()); }
std::uint64_t klv_trk_notify(klv_tracker* t, const kl::path* p, bool sub) { return static_cast<std::uint64_t>(t->notify_changed(*p, sub)); }
std::uint64_t klv_trk_notify_dflt(klv_tracker* t, const kl::path* p) { return static_cast<std::uint64_t>(t->notify_changed(*p)); }
std::uint64_t klv_trk_notify_view(klv_tracker* t, const kl::path_view* p, bool sub) { return static_cast<std::uint64_t>(t->notify_changed(*p, sub)); }
std::uint64_t klv_trk_notify_view_dflt(klv_tracker* t, const kl::path_view* p) { return static_cast<std::uint64_t>(t->notify_changed(*p)); }
std::uint64_t klv_trk_at(const klv_tracker* t, const kl::path* p) { return static_cast<std::uint64_t>(t->changed_at(*p)); }
std::uint64_t klv_trk_at_view(const klv_tracker* t, const kl::path_view* p) { return static_cast<std::uint64_t>(t->changed_at(*p)); }
bool klv_trk_since(const klv_tracker* t, const kl::path* p, std::uint64_t old) { return t->changed_since(*p, static_cast<klv_gen>(old)); }
bool klv_trk_since_view(const klv_tracker* t, const kl::path_view* p, std::uint64_t old) { return t->changed_since(*p, static_cast<klv_gen>(old)); }
}
