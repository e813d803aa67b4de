// Resource verbs over an abstract document: what a document says and whether deserialization or
// validation fails is decided by the klv_* callbacks (arbitrary in the proofs, random in the driver).
#include <kl/reflect_struct.hpp>
#include <kl/resource.hpp>
#include <kl/resource_op.hpp>
#include <map>
#include <optional>
#include <string>
#include <vector>
extern "C" int klv_any();               // an arbitrary integer
extern "C" int klv_pick(int n);         // an arbitrary choice below n
extern "C" int klv_fails(int where);    // 0: goes on, 1: the library's error, 2: another exception; where: 0 document, 1 validation
struct klv_backend {};
struct klv_doc {};
struct klv_other_error {};
struct klv_context { using backend_type = klv_backend; };
namespace attr = kl::resources::attributes;
static void check(int where)
{
    if (int f = klv_fails(where))
    {
        if (f == 2) throw klv_other_error{};
        if (where) throw kl::resources::validation_error{"no"};
        throw kl::serialization::deserialize_error{"no"};
    }
}
struct Inner
{
    int v = 0;
    int lock = 0;
    void validate_resource(klv_context&) const { check(1); }
};
KL_REFLECT_STRUCT(Inner, v, (lock, attr::read_only))
struct Toy
{
    int id = 0;
    int n = 0;
};
static bool resource_key_matches(const Toy&, int key, std::string_view segment) { return segment.size() == 1 && segment[0] == '0' + key; }
KL_REFLECT_STRUCT(Toy, id, n)
struct Kid
{
    std::string id;
    int n = 0;
    Inner in;
    std::vector<Toy> toys;
};
static void validate_resource(Kid&, klv_context&) { check(1); }
KL_REFLECT_STRUCT(Kid, id, n, in, (toys, attr::child_key<&Toy::id>))
struct Root
{
    int plain = 0;
    int fixed = 0;
    std::optional<int> maybe;
    std::optional<int> rmaybe;
    std::optional<Inner> opt;
    std::optional<std::vector<int>> olist;
    Inner inner;
    Inner rinner;
    Inner sinner;
    std::vector<int> list;
    std::vector<int> rlist;
    std::vector<int> slist;
    std::vector<Kid> kids;
    std::vector<Kid> skids;
    std::map<std::string, int> dict;
    std::map<std::string, Inner> rdict;
    std::optional<Inner> sopt;
    std::map<std::string, Inner> sdict;
    void validate_resource(klv_context&) const { check(1); }
};
KL_REFLECT_STRUCT(Root, plain, (fixed, attr::read_only), maybe, (rmaybe, attr::read_only), opt, olist, inner, (rinner, attr::read_only), (sinner, attr::subtree_read_only), list, (rlist, attr::read_only),
                  (slist, attr::subtree_read_only), (kids, attr::child_key<&Kid::id>), (skids, attr::child_key<&Kid::id>, attr::subtree_read_only), dict, (rdict, attr::read_only), (sopt, attr::subtree_read_only), (sdict, attr::subtree_read_only))
static bool operator==(const Inner& a, const Inner& b) { return a.v == b.v && a.lock == b.lock; }
static bool operator==(const Toy& a, const Toy& b) { return a.id == b.id && a.n == b.n; }
static bool operator==(const Kid& a, const Kid& b) { return a.id == b.id && a.n == b.n && a.in == b.in && a.toys == b.toys; }
// field by field, without short cuts that would multiply the paths of a proof
static bool same(const Root& a, const Root& b)
{
    auto num = [](const std::optional<int>& x, const std::optional<int>& y) { return x.has_value() == y.has_value() && (!x || *x == *y); };
    return (a.plain == b.plain) & (a.fixed == b.fixed) & num(a.maybe, b.maybe) & num(a.rmaybe, b.rmaybe) & (a.opt == b.opt) & (a.olist == b.olist) & (a.inner == b.inner) & (a.rinner == b.rinner) & (a.sinner == b.sinner) &
           (a.list == b.list) & (a.rlist == b.rlist) & (a.slist == b.slist) & (a.kids == b.kids) & (a.skids == b.skids) & (a.dict == b.dict) & (a.rdict == b.rdict) & (a.sopt == b.sopt) & (a.sdict == b.sdict);
}
static const char* const names[] = {"a", "b", "c"};
// ---- the abstract document
static void fill(std::vector<int>& x, bool);
static void fill(int& x, bool) { x = klv_any(); check(0); }
static void fill(std::string& x, bool) { x = names[klv_pick(3)]; }
static void fill(Inner& x, bool patch)
{
    int k = patch ? klv_pick(2) : -1;
    if (k != 1) x.v = klv_any();
    check(0);
    if (k != 0) x.lock = klv_any();
}
static void fill(Toy& x, bool patch)
{
    int k = patch ? klv_pick(2) : -1;
    if (k != 1) x.id = klv_pick(3);
    check(0);
    if (k != 0) x.n = klv_any();
}
static void fill(std::vector<Toy>& x, bool)
{
    x.clear();
    for (int n = klv_pick(6) % 3; n; --n) { Toy t; t.id = klv_pick(3); t.n = klv_any(); x.push_back(t); }
}
static void fill(Kid& x, bool patch)
{
    int k = patch ? klv_pick(3) : -1;
    if (k == 0 || k < 0) fill(x.id, false);
    if (k == 1 || k < 0) x.n = klv_any();
    check(0);
    if (k == 2 || k < 0) x.in.v = klv_any(), x.in.lock = klv_any();
    if (klv_pick(5) == 1) fill(x.toys, false);
}
template <typename T> static void fill(std::optional<T>& x, bool patch)
{
    if (klv_pick(2)) { x.reset(); return; }
    if (!x || !patch) x.emplace();
    fill(*x, patch);
}
static void fill(std::vector<int>& x, bool) { x.clear(); for (int n = klv_pick(3); n; --n) x.push_back(klv_any()); check(0); }
static void fill(std::vector<Kid>& x, bool)
{
    x.clear();
    for (int n = klv_pick(4); n; --n)
    {
        Kid k;
        fill(k.id, false);
        k.n = klv_any();
        if (n == 1 && klv_pick(5) == 1) fill(k.toys, false);
        x.push_back(std::move(k));
    }
    check(0);
}
template <typename T> static void fill(std::map<std::string, T>& x, bool patch)
{
    if (!patch) x.clear();
    if (int n = klv_pick(3)) { T v{}; fill(v, false); x[names[n]] = v; } else check(0);
}
static void fill(Root& x, bool patch)
{
    if (!patch) x.plain = klv_any(), x.fixed = klv_any(), x.inner.lock = klv_any(), x.slist.clear();
    switch (klv_pick(7))
    {
    case 0: fill(x.plain, patch); break;
    case 1: fill(x.opt, patch); break;
    case 2: fill(x.list, patch); break;
    case 3: fill(x.kids, patch); break;
    case 4: fill(x.dict, patch); break;
    case 5: fill(x.skids, patch); break;
    default: fill(x.olist, patch); break;
    }
    check(0);
}
namespace kl::serialization {
template <> struct backend_traits<klv_backend>
{
    template <typename T> static void deserialize(T& out, const klv_doc&, klv_context&) { check(0); fill(out, false); }
    template <typename T> static void patch(T& out, const klv_doc&, klv_context&) { check(0); fill(out, true); }
};
}
using Res = kl::resources::resource<Root>;
enum { GET, PUT, PATCH, POST, DEL };
struct klv_out { int status, same, advance, at, below, root, unique, keys, untouched, reported, toys; };
template <typename T> static bool unique(const std::vector<T>& k)
{
    if constexpr (std::is_same_v<T, Kid>)
        for (const auto& x : k) if (!unique(x.toys)) return false;
    for (std::size_t i = 0; i < k.size(); ++i) for (std::size_t j = 0; j < i; ++j) if (k[i].id == k[j].id) return false;
    return true;
}
template <typename T> static bool same_keys(const std::vector<T>& a, const std::vector<T>& b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i) if (a[i].id != b[i].id) return false;
    return true;
}
extern "C" {
std::size_t klv_res_sizeof() { return sizeof(Res); }
// shape: 0 everything empty, 1 and 2 populated; a: integers
void klv_res_make(void* m, int shape, const int* a)
{
    Root r;
    r.plain = a[0]; r.fixed = a[1]; r.inner = {a[2], a[3]}; r.rinner = {a[4], a[5]}; r.sinner = {a[6], a[7]};
    if (shape)
    {
        r.maybe = a[8]; r.rmaybe = a[9]; r.opt = Inner{a[10], a[11]};
        r.olist = std::vector<int>{a[12]};
        r.list.push_back(a[13]); r.rlist.push_back(a[14]); r.slist.push_back(a[15]);
        if (shape == 2) r.list.push_back(a[16]), r.rlist.push_back(a[17]);
        Kid k; k.id = "a"; k.n = a[18]; k.in = {a[19], a[20]}; k.toys.push_back({1, a[21]}); if (shape == 2) k.toys.push_back({2, a[8]});
        r.kids.push_back(k);
        if (shape == 2) { Kid q; q.id = "b"; q.n = a[21]; r.kids.push_back(q); }
        Kid z; z.id = "a"; z.n = a[8]; z.in = {a[9], a[10]};
        r.skids.push_back(z);
        r.dict["a"] = a[22];
        r.rdict["a"] = Inner{a[23], a[24]};
        r.sopt = Inner{a[4], a[5]};
        r.sdict["a"] = Inner{a[6], a[7]};
        if (shape == 2) r.dict["b"] = a[25];
    }
    new (m) Res(kl::resources::make_resource(std::move(r)));
}
void klv_res_dtor(Res* r) { r->~Res(); }
void klv_notify(Res* r, const char* path, int subtree) { r->state.modifications.notify_changed(kl::path{path}, subtree != 0); }
void klv_run(Res* r, int verb, const char* path, const char* below, klv_out* o)
{
    using namespace kl::resources;
    klv_context ctx;
    klv_doc doc;
    const Root before = r->value;
    const kl::path p{path}, b{below}, root{};
    auto& t = r->state.modifications;
    const auto g = t.current();
    const auto at0 = t.changed_at(p), below0 = t.changed_at(b), root0 = t.changed_at(root);
    o->status = -1;
    try
    {
        operation_result res;
        switch (verb)
        {
        case GET: res = get(*r, p, [](const auto&) { check(0); return std::string{}; }); break;
        case PUT: res = put(*r, p, doc, ctx); break;
        case PATCH: res = patch(*r, p, doc, ctx); break;
        case POST: res = post(*r, p, doc, ctx); break;
        default: res = del(*r, p, ctx); break;
        }
        o->status = static_cast<int>(res.status);
    }
    catch (const klv_other_error&) { o->status = -2; }
    catch (const kl::serialization::deserialize_error&) { o->status = -3; }
    o->same = same(r->value, before);
    o->advance = static_cast<int>(kl::underlying_cast(t.current()) - kl::underlying_cast(g));
    o->at = t.changed_since(p, g);
    o->below = t.changed_since(b, g);
    o->root = t.changed_since(root, g);
    o->untouched = t.current() == g && t.changed_at(p) == at0 && t.changed_at(b) == below0 && t.changed_at(root) == root0;
    o->unique = unique(r->value.kids) && unique(r->value.skids);
    o->keys = same_keys(r->value.kids, before.kids) && same_keys(r->value.skids, before.skids);
    bool toys = true;
    for (std::size_t i = 0; i < r->value.kids.size() && i < before.kids.size(); ++i) toys &= same_keys(r->value.kids[i].toys, before.kids[i].toys);
    o->toys = toys;
    auto reported = [&](const std::vector<int>& x, const std::vector<int>& y, const char* at) {
        bool ok = true;
        if (x.size() != y.size())
            for (std::size_t i = 0; i < x.size() || i < y.size(); ++i)
            {
                char q[12] = "/";
                std::size_t n = 0;
                for (; at[n]; ++n) q[n] = at[n];
                q[n] = static_cast<char>('0' + i);
                q[n + 1] = 0;
                bool s = t.changed_since(kl::path{q}, g);
                ok &= s | (i < x.size() && i < y.size() && x[i] == y[i]);
            }
        return ok;
    };
    o->reported = reported(before.list, r->value.list, "/list/") & reported(before.rlist, r->value.rlist, "/rlist/");
}
}
