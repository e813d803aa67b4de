#include <kl/signal.hpp>
#include <cstdint>
#include <new>
#include <utility>

extern "C" void klv_slot_destroyed(void* slot);
extern "C" void klv_sender_disconnect(void* sender, std::uintptr_t id);

namespace c11 {
struct fslot : kl::detail::slot_state
{
    using kl::detail::slot_state::slot_state;
    ~fslot() override { klv_slot_destroyed(static_cast<kl::detail::slot_state*>(this)); }
};
struct fsender final : kl::detail::signal_base
{
    void disconnect(std::uintptr_t id) noexcept override { klv_sender_disconnect(this, id); }
};
} // namespace c11

using C = kl::connection;
using B = kl::connection::blocker;
using S = kl::scoped_connection;
using slot_state = kl::detail::slot_state;

#define COMMON(T)                                                              \
    std::size_t klv_##T##_size() { return sizeof(T); }                         \
    void klv_##T##_default(void* m) { new (m) T(); }                           \
    void klv_##T##_dtor(T* a) { a->~T(); }                                     \
    void klv_##T##_move_ctor(void* m, T* a) { new (m) T(std::move(*a)); }      \
    void klv_##T##_move_assign(T* a, T* b) { *a = std::move(*b); }             \
    void klv_##T##_swap(T* a, T* b) { swap(*a, *b); }                          \
    void klv_##T##_std_swap(T* a, T* b) { std::swap(*a, *b); }
#define COPY(T)                                                                \
    void klv_##T##_copy_ctor(void* m, const T* a) { new (m) T(*a); }           \
    void klv_##T##_copy_assign(T* a, const T* b) { *a = *b; }
#define EQ(T)                                                                  \
    bool klv_##T##_eq(const T* a, const T* b) { return *a == *b; }             \
    bool klv_##T##_lt(const T* a, const T* b) { return *a < *b; }              \
    bool klv_##T##_hash(const T* a, const T* b) { return std::hash<T>{}(*a) == std::hash<T>{}(*b); }

extern "C" {
void klv_sender_ctor(void* m) { new (m) c11::fsender(); }
slot_state* klv_new_slot(c11::fsender* s) { return new c11::fslot(s); }
COMMON(C)
COMMON(B)
COMMON(S)
COPY(C)
COPY(B)
EQ(C)
EQ(S)
void klv_C_from_slot(void* m, slot_state* s) { new (m) C(*s); }
void klv_C_disconnect(C* a) { a->disconnect(); }
bool klv_C_connected(const C* a) { return a->connected(); }
void klv_B_from(void* m, C* a) { new (m) B(*a); }
void klv_C_get_blocker(void* m, C* a) { new (m) B(a->get_blocker()); }
bool klv_B_blocking(const B* a) { return a->blocking(); }
void klv_S_from_copy(void* m, C* a) { new (m) S(*a); }
void klv_S_from_move(void* m, C* a) { new (m) S(std::move(*a)); }
void klv_S_release(void* m, S* a) { new (m) C(a->release()); }
bool klv_S_connected(const S* a) { return a->get().connected(); }
bool klv_slot_blocked(slot_state* s) { return s->blocked(); }
bool klv_slot_connected(slot_state* s) { return s->connected(); }
bool klv_slot_valid(slot_state* s) { return s->valid(); }
}
