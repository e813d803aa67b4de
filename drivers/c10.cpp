#include "drv.hpp"
#include "../harness/c10.cpp"
#include <algorithm>
#include <memory>
#include <thread>
// case: "<script>|<body of slot 0>|<body of slot 1>|..."; a script is a list of two-letter-or-more operations separated by blanks
//   cN connect slot program N at the back, fN at the front, dK disconnect the K-th connection made, bK block it, uK lift one of its blocks,
//   e emit, n emit (nested counts too), a disconnect all, s stop the emission, t throw, h drop the handle of the K-th connection: hK,
//   x current connection check, m move the signal (only outside emissions), w swap with the other signal (only outside)
struct Slot { int prog; bool connected = true; int blocks = 0; int copies = 0; bool handle = true; int sig = 0; };
struct Frame { std::vector<int> order; std::size_t pos = 0; bool stopped = false; int sig; int current = -1; };
struct World
{
    std::unique_ptr<Sig> sig[2];
    std::vector<int> list[2];
    std::vector<Slot> slots;
    std::vector<std::unique_ptr<Con>> con;
    std::vector<std::pair<int, std::unique_ptr<Blk>>> blk;
    std::vector<Frame> frames;
    std::vector<std::string> progs;
    std::string err;
    int budget = 400, argno = 0;
};
static World* W;
static bool in_ctor;
static void fail(const std::string& e) { if (W->err.empty()) W->err = e; }
extern "C" void klv_target_copied(int id) { if (W && id < int(W->slots.size())) ++W->slots[id].copies; }
extern "C" void klv_target_dead(int id) { if (W && id < int(W->slots.size()) && --W->slots[id].copies < 0) fail("a callable is destroyed twice"); }
static bool eligible(int id) { return W->slots[id].connected && W->slots[id].blocks == 0; }
static void run(const std::string& prog);
extern "C" void klv_slot(int id, int arg)
{
    if (!W->err.empty()) return;
    if (W->frames.empty()) return fail("a slot is called outside an emission");
    Frame& f = W->frames.back();
    if (f.stopped) return fail("a slot is called after the emission was stopped");
    if (arg != W->argno) return fail("wrong argument");
    while (f.pos < f.order.size() && !eligible(f.order[f.pos])) ++f.pos;
    if (f.pos >= f.order.size()) return fail("a slot is called that should not be");
    if (f.order[f.pos] != id) return fail("the wrong slot is called");
    ++f.pos;
    f.current = id;
    {
        Con c = kl::this_signal::current_connection();
        if (W->con[id] && !(c == *W->con[id]) && W->slots[id].handle) fail("current_connection is not the slot being called");
    }
    if (W->slots[id].prog < int(W->progs.size())) run(W->progs[W->slots[id].prog]);
}
static void emit(int s)
{
    if (W->frames.size() >= 4) return;
    Frame f;
    f.sig = s;
    for (int id : W->list[s]) if (W->slots[id].connected) f.order.push_back(id);
    int save = W->argno++;
    int arg = W->argno;
    (void)save;
    W->frames.push_back(f);
    bool threw = false;
    try { klv_emit(W->sig[s].get(), arg); } catch (const klv_stop_error&) { threw = true; }
    Frame g = W->frames.back();
    W->frames.pop_back();
    W->argno = W->frames.empty() ? arg : save;
    if (!threw && !g.stopped)
        while (g.pos < g.order.size()) { if (eligible(g.order[g.pos])) fail("a connected slot was not called"); ++g.pos; }
    if (threw && W->err.empty() && !W->frames.empty()) throw klv_stop_error{};
}
static void forget(int s) { auto& l = W->list[s]; l.erase(std::remove_if(l.begin(), l.end(), [](int i) { return !W->slots[i].connected; }), l.end()); }
static void check()
{
    for (int s = 0; s < 2; ++s)
    {
        std::size_t n = 0;
        for (int id : W->list[s]) n += W->slots[id].connected;
        if (klv_num_slots(W->sig[s].get()) != n || klv_empty(W->sig[s].get()) != (n == 0)) fail("the number of slots is wrong");
    }
    for (std::size_t i = 0; i < W->slots.size(); ++i)
    {
        Slot& s = W->slots[i];
        if (W->con[i] && s.handle && klv_con_connected(W->con[i].get()) != s.connected) fail("connected() is wrong");
        bool used = s.handle || s.blocks || s.connected;
        if (W->frames.empty() && !used && s.copies != 0) fail("a disconnected slot is not released");
        if (used && s.copies < 1) fail("a slot is released while in use");
    }
}
static void run(const std::string& prog)
{
    std::istringstream is(prog);
    std::string op;
    while (W->err.empty() && --W->budget > 0 && is >> op)
    {
        int k = op.size() > 1 ? std::atoi(op.c_str() + 1) : 0;
        int s = 0;
        if (!op.empty() && op[0] >= 'A' && op[0] <= 'Z') { s = 1; op[0] += 32; }
        int n = int(W->slots.size());
        switch (op[0])
        {
        case 'c': case 'f':
        {
            if (n >= 40) break;
            Slot x; x.prog = k; x.sig = s;
            W->slots.push_back(x);
            auto mem = ::operator new(sizeof(Con));
            if (op[0] == 'f') { klv_connect(W->sig[s].get(), n, true, mem); W->list[s].insert(W->list[s].begin(), n); }
            else { if (n % 3 == 0) klv_connect(W->sig[s].get(), n, false, mem); else if (n % 3 == 1) klv_connect_default(W->sig[s].get(), n, mem); else klv_connect_op(W->sig[s].get(), n, mem); W->list[s].push_back(n); }
            W->con.emplace_back(static_cast<Con*>(mem));
            break;
        }
        case 'd': if (k < n && W->slots[k].handle) { W->slots[k].connected = false; W->slots[k].handle = false; klv_con_disconnect(W->con[k].get()); } break;
        case 'h': if (k < n && W->slots[k].handle) { W->slots[k].handle = false; W->con[k].reset(new Con); } break;
        case 'b': if (k < n && W->slots[k].handle) { auto mem = ::operator new(sizeof(Blk)); klv_block(mem, W->con[k].get()); W->blk.emplace_back(k, static_cast<Blk*>(mem)); ++W->slots[k].blocks; } break;
        case 'u':
            for (std::size_t i = 0; i < W->blk.size(); ++i)
                if (W->blk[i].first == k) { --W->slots[k].blocks; auto b = std::move(W->blk[i].second); W->blk.erase(W->blk.begin() + i); b.reset(); break; }
            break;
        case 'e': emit(s); break;
        case 'a': for (int id : W->list[s]) W->slots[id].connected = false; klv_disconnect_all(W->sig[s].get()); break;
        case 's': if (!W->frames.empty()) { W->frames.back().stopped = true; klv_stop(); } break;
        case 't': if (!W->frames.empty()) throw klv_stop_error{}; break;
        case 'm':
            if (W->frames.empty()) { auto mem = ::operator new(sizeof(Sig)); klv_sig_move_ctor(mem, W->sig[s].get()); W->sig[s].reset(static_cast<Sig*>(mem)); forget(s); }
            break;
        case 'w':
            if (W->frames.empty()) { if (k % 2) klv_sig_swap(W->sig[0].get(), W->sig[1].get()); else klv_sig_move_assign(W->sig[0].get(), W->sig[1].get()); std::swap(W->list[0], W->list[1]); }
            break;
        }
        check();
    }
}
std::string run_case(const std::string& c)
{
    World w;
    W = &w;
    std::istringstream is(c);
    std::string script, b;
    std::getline(is, script, '|');
    while (std::getline(is, b, '|')) w.progs.push_back(b);
    w.sig[0].reset(new Sig);
    w.sig[1].reset(new Sig);
    try { run(script); } catch (const klv_stop_error&) { fail("an exception escapes"); }
    if (w.err.empty()) { w.progs.clear(); w.budget = 1000; run("e E e"); }
    // tear down: the signal first, then the handles
    for (int s = 0; s < 2; ++s) { for (int id : w.list[s]) w.slots[id].connected = false; w.sig[s].reset(); }
    if (w.err.empty())
        for (std::size_t i = 0; i < w.slots.size(); ++i)
        {
            if (w.slots[i].handle && klv_con_connected(w.con[i].get())) fail("a slot outlives its signal as connected");
            if (!w.slots[i].handle && !w.slots[i].blocks && w.slots[i].copies) fail("a slot leaks with its signal");
        }
    w.blk.clear();
    for (auto& s : w.slots) s.blocks = 0;
    w.con.clear();
    for (auto& s : w.slots) if (s.copies && w.err.empty()) fail("a slot leaks");
    std::string e = w.err;
    W = nullptr;
    return e;
}
std::string gen_case(Rng& r, std::uint64_t i)
{
    auto op = [&](bool top) {
        static const char* t = "ccffddddbbuueeeaahmw";
        static const char* in = "cfddddddbbuueeaastthh";
        char o = top ? t[r.below(20)] : in[r.below(21)];
        std::string x(1, o);
        if (r.coin(12) && o != 's' && o != 't' && o != 'w') x[0] -= 32;
        if (std::strchr("cf", o)) x += std::to_string(r.below(5));
        else if (std::strchr("dbuhw", o)) x += std::to_string(r.below(6));
        return x + " ";
    };
    std::string c;
    int n = 1 + r.below(4);
    for (int k = 0; k < n; ++k) c += std::string(r.coin(4) ? "f" : "c") + std::to_string(r.below(5)) + " ";
    if (r.coin()) c += "e ";
    int m = r.below(i < 5000 ? 4 : 10);
    for (int k = 0; k < m; ++k) c += op(true);
    c += "e ";
    if (r.coin()) c += op(true) + "e ";
    for (int p = 0; p < 5; ++p)
    {
        c += "|";
        int q = r.coin(3) ? 0 : 1 + r.below(i < 5000 ? 2 : 4);
        for (int k = 0; k < q; ++k) c += op(false);
    }
    return c;
}
