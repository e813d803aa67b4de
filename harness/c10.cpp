#include <kl/signal.hpp>
#include <new>
#include <utility>
extern "C" void klv_slot(int id, int arg);        // user code of a slot: does anything
extern "C" void klv_target_copied(int id);        // a copy of a slot's callable comes to life
extern "C" void klv_target_dead(int id);          // a copy of a slot's callable is destroyed
using Sig = kl::signal<void(int)>;
using Con = kl::connection;
using Blk = kl::connection::blocker;
struct klv_stop_error {};
struct klv_fn
{
    int id;
    explicit klv_fn(int i) : id(i) { klv_target_copied(id); }
    klv_fn(const klv_fn& o) : id(o.id) { klv_target_copied(id); }
    klv_fn(klv_fn&& o) noexcept : id(o.id) { klv_target_copied(id); }
    ~klv_fn() { klv_target_dead(id); }
    void operator()(int a) const { klv_slot(id, a); }
};
extern "C" {
std::size_t klv_sig_sizeof() { return sizeof(Sig); }
std::size_t klv_con_sizeof() { return sizeof(Con); }
std::size_t klv_blk_sizeof() { return sizeof(Blk); }
void klv_sig_ctor(void* m) { new (m) Sig(); }
void klv_sig_move_ctor(void* m, Sig* o) { new (m) Sig(std::move(*o)); }
void klv_sig_move_assign(Sig* a, Sig* b) { *a = std::move(*b); }
void klv_sig_swap(Sig* a, Sig* b) { swap(*a, *b); }
void klv_sig_dtor(Sig* s) { s->~Sig(); }
void klv_connect(Sig* s, int id, bool front, void* out) { new (out) Con(s->connect(klv_fn(id), front ? kl::at_front : kl::at_back)); }
void klv_connect_default(Sig* s, int id, void* out) { new (out) Con(s->connect(klv_fn(id))); }
void klv_connect_op(Sig* s, int id, void* out) { new (out) Con(*s += klv_fn(id)); }
void klv_connect_null(Sig* s, void* out) { new (out) Con(s->connect(Sig::slot_type{})); }
void klv_con_disconnect(Con* c) { c->disconnect(); }
bool klv_con_connected(const Con* c) { return c->connected(); }
void klv_con_copy(void* m, const Con* c) { new (m) Con(*c); }
void klv_con_dtor(Con* c) { c->~Con(); }
void klv_block(void* m, Con* c) { new (m) Blk(c->get_blocker()); }
void klv_unblock(Blk* b) { b->~Blk(); }
void klv_emit(Sig* s, int a) { (*s)(a); }
int klv_emit_catch(Sig* s, int a)
{
    try { (*s)(a); } catch (const klv_stop_error&) { return 1; }
    return 0;
}
void klv_disconnect_all(Sig* s) { s->disconnect_all_slots(); }
std::size_t klv_num_slots(const Sig* s) { return s->num_slots(); }
bool klv_empty(const Sig* s) { return s->empty(); }
void klv_stop() { kl::this_signal::stop_emission(); }
void klv_current(void* m) { new (m) Con(kl::this_signal::current_connection()); }
}
