// Reflected structs with every serialization attribute, against documents whose keys are present,
// absent, null or of the wrong type as the klv_* callbacks say (arbitrary in the proofs, random in the driver).
#define RAPIDJSON_HAS_STDSTRING 1
#include <kl/json.hpp>
#include <kl/reflect_enum.hpp>
#include <kl/reflect_struct.hpp>
#include <kl/serialization_attributes.hpp>
#include <map>
#include <optional>
#include <string>
#include <vector>
extern "C" int klv_any();         // an arbitrary integer
extern "C" int klv_pick(int n);   // an arbitrary choice below n
namespace at = kl::serialization::attributes;
using J = rapidjson::Value;
using alloc = kl::json::allocator;
struct In { int x = 0; int y = 0; };
KL_REFLECT_STRUCT(In, x, y)
struct S1 { int a = 0; int b = 0; int c = 0; std::optional<int> o; In in; };
KL_REFLECT_STRUCT(S1, a, (b, at::rename("bee")), (c, at::aliases("cc", "see")), o, in)
static void check_v(int v) { if (v < 0) throw kl::serialization::deserialize_error{"negative"}; }
struct S2 { int d = 0; int e = 0; int f = 0; int g = 0; int h = 0; int v = 0; };
KL_REFLECT_STRUCT(S2, (d, at::default_value(7)), (e, at::allow_missing), (f, at::skip), (g, at::skip_serialization), (h, at::skip_deserialization), (v, at::validate(&check_v)))
struct S3 { In flat; std::map<std::string, int> extra; int k = 0; };
KL_REFLECT_STRUCT(S3, (flat, at::flatten), (extra, at::extra_fields), (k, at::aliases("kay")))
struct S5 { int a = 0; int b = 0; int c = 0; std::optional<int> d; };
KL_REFLECT_STRUCT(S5, a, (b, at::skip_deserialization), c, d)
struct S6 : In { int z = 0; std::optional<In> oi; };
KL_REFLECT_STRUCT_DERIVED(S6, In, (z, at::rename("zed")), oi)
enum class Color { red, green = 5, blue };
KL_REFLECT_ENUM(Color, red, green, blue)
struct S4
{
    std::optional<int> oe;
    std::optional<int> os;
    std::optional<In> oi;
    std::vector<int> list;
    std::vector<In> ins;
    std::map<std::string, int> m;
    std::string s;
    bool b = false;
    Color c = Color::red;
    std::pair<int, bool> p;
};
KL_REFLECT_STRUCT(S4, (oe, at::emit_null), (os, at::skip_if_null), oi, (list, at::skip_if_empty, at::allow_missing), ins, m, s, b, c, p)
static bool operator==(const In& a, const In& b) { return (a.x == b.x) & (a.y == b.y); }
[[maybe_unused]] static bool eqo(const std::optional<int>& a, const std::optional<int>& b) { return a.has_value() == b.has_value() && (!a || *a == *b); }
static bool same(const S1& a, const S1& b) { return (a.a == b.a) & (a.b == b.b) & (a.c == b.c) & eqo(a.o, b.o) & (a.in == b.in); }
static bool same(const S2& a, const S2& b) { return (a.d == b.d) & (a.e == b.e) & (a.f == b.f) & (a.g == b.g) & (a.h == b.h) & (a.v == b.v); }
static bool same(const S5& a, const S5& b) { return (a.a == b.a) & (a.b == b.b) & (a.c == b.c) & eqo(a.d, b.d); }
static bool same(const S6& a, const S6& b) { return (a.x == b.x) & (a.y == b.y) & (a.z == b.z) & (a.oi.has_value() == b.oi.has_value() && (!a.oi || *a.oi == *b.oi)); }
static bool same(const std::map<std::string, int>& a, const std::map<std::string, int>& b)
{
    if (a.size() != b.size()) return false;
    bool r = true;
    auto i = a.begin();
    for (auto j = b.begin(); j != b.end(); ++i, ++j) { if (i->first != j->first) return false; r &= i->second == j->second; }
    return r;
}
static bool same(const S3& a, const S3& b) { return (a.flat == b.flat) & same(a.extra, b.extra) & (a.k == b.k); }
static bool same(const S4& a, const S4& b)
{
    if (a.list.size() != b.list.size() || a.ins.size() != b.ins.size() || a.oi.has_value() != b.oi.has_value() || a.s != b.s) return false;
    bool r = eqo(a.oe, b.oe) & eqo(a.os, b.os) & (!a.oi || *a.oi == *b.oi) & same(a.m, b.m) & (a.b == b.b) & (a.c == b.c) & (a.p.first == b.p.first) & (a.p.second == b.p.second);
    for (std::size_t i = 0; i < a.list.size(); ++i) r &= a.list[i] == b.list[i];
    for (std::size_t i = 0; i < a.ins.size(); ++i) r &= a.ins[i] == b.ins[i];
    return r;
}
// state of a key in the document
enum { ABSENT, VALUE, NUL, WRONG };
struct key { int state = ABSENT; int value = 0; };
static key put(J& doc, alloc& m, const char* name, int states)
{
    key k;
    if (states == 0) return k;
    k.state = states == 1 ? static_cast<int>(VALUE) : klv_pick(states);
    if (states == 3 && k.state == NUL) k.state = WRONG;
    switch (k.state)
    {
    case VALUE: k.value = klv_any(); doc.AddMember(rapidjson::StringRef(name), J(k.value), m); break;
    case NUL: doc.AddMember(rapidjson::StringRef(name), J(), m); break;
    case WRONG: doc.AddMember(rapidjson::StringRef(name), J(true), m); break;
    default: break;
    }
    return k;
}
struct klv_res { int threw, other, want_error, named, exact, frame; };
static bool contains(const char* text, const char* word)
{
    for (; *text; ++text)
    {
        int i = 0;
        while (word[i] && text[i] == word[i]) ++i;
        if (!word[i] && (text[i] == '\n' || !text[i])) return true;
    }
    return false;
}
// a document is applied: what is expected is decided key by key
template <typename T> struct trial
{
    T obj, want, old;
    bool patch;
    bool bad = false;                       // some key cannot be applied
    const char* blame[8];
    int blamed = 0;
    explicit trial(bool p) : patch(p) {}
    void error(const char* field) { bad = true; blame[blamed++] = field; }
    // an int member named by the key; missing: 0 error, 1 keeps the value, 2 the default; null: likewise
    void num(int& w, key k, const char* field, int missing = 0, int null = 0, int dflt = 0)
    {
        if (k.state == VALUE) w = k.value;
        else if (k.state == ABSENT) { if (patch) return; if (missing == 2) w = dflt; else if (missing == 0) error(field); }
        else if (k.state == NUL && null == 2) w = dflt;
        else error(field);
    }
    template <typename Frame> void run(const J& doc, klv_res* r, Frame frame)
    {
        r->threw = r->other = r->named = 0;
        r->want_error = bad;
        try
        {
            if (patch) kl::json::patch(obj, doc); else kl::json::deserialize(obj, doc);
        }
        catch (const kl::serialization::deserialize_error& e)
        {
            r->threw = 1;
            for (int i = 0; i < blamed; ++i) if (contains(e.what(), blame[i])) r->named = 1;
        }
        catch (...) { r->other = 1; }
        r->exact = same(obj, want);
        r->frame = frame();
    }
};
// records what a writer is told
struct log
{
    using Ch = char;
    enum { MAX = 64 };
    int n = 0;
    int kind[MAX];
    int num[MAX];
    std::string text[MAX];
    bool add(int k, int v = 0) { kind[n] = k; num[n] = v; ++n; return true; }
    bool add(int k, const char* s, std::size_t l) { text[n].assign(s, l); return add(k); }
    bool Null() { return add(1); }
    bool Bool(bool b) { return add(2, b); }
    bool Int(int i) { return add(3, i); }
    bool Uint(unsigned u) { return add(3, static_cast<int>(u)); }
    bool Int64(std::int64_t i) { return add(4, static_cast<int>(i)); }
    bool Uint64(std::uint64_t i) { return add(4, static_cast<int>(i)); }
    bool Double(double) { return add(5); }
    bool RawNumber(const char*, unsigned, bool) { return add(6); }
    bool String(const char* s, unsigned l, bool = false) { return add(7, s, l); }
    bool String(const char* s) { return add(7, s, __builtin_strlen(s)); }
    bool String(const std::string& s) { return add(7, s.data(), s.size()); }
    bool StartObject() { return add(8); }
    bool Key(const char* s, unsigned l, bool = false) { return add(9, s, l); }
    bool Key(const char* s) { return add(9, s, __builtin_strlen(s)); }
    bool EndObject(unsigned = 0) { return add(10); }
    bool StartArray() { return add(11); }
    bool EndArray(unsigned = 0) { return add(12); }
};
static bool same(const log& a, const log& b)
{
    if (a.n != b.n) return false;
    bool r = true;
    for (int i = 0; i < a.n; ++i) { if (a.kind[i] != b.kind[i] || a.text[i] != b.text[i]) return false; r &= a.num[i] == b.num[i]; }
    return r;
}
struct klv_ser { int fields, dump, round, threw; };
// the expected members, in any order
struct expect
{
    const J& doc;
    unsigned n = 0;
    bool ok = true;
    const J* member(const char* name)
    {
        ++n;
        auto i = doc.FindMember(name);
        if (i == doc.MemberEnd()) { ok = false; return nullptr; }
        return &i->value;
    }
    void num(const char* name, int v) { auto* m = member(name); if (!m) return; if (!m->IsInt()) ok = false; else ok &= m->GetInt() == v; }
    void null(const char* name) { auto* m = member(name); if (m && !m->IsNull()) ok = false; }
    void opt(const char* name, const std::optional<int>& v, bool skip_null) { if (v) num(name, *v); else if (!skip_null) null(name); }
    bool done() { return ok && doc.MemberCount() == n; }
};
template <typename T, typename Check> static void serialize_case(const T& obj, T& back, bool skip_null, klv_ser* r, Check check)
{
    r->fields = r->dump = r->round = r->threw = 0;
    try
    {
        alloc m;
        kl::json::serialize_context sc{m, skip_null};
        const J doc = kl::json::serialize(obj, sc);
        if (!doc.IsObject()) return;
        expect e{doc};
        check(e);
        r->fields = e.done();
        log a, b;
        doc.Accept(a);
        kl::json::dump_context<log> dc{b, skip_null};
        kl::json::dump(obj, dc);
        r->dump = same(a, b);
        kl::json::deserialize(back, doc);
        r->round = same(obj, back);
    }
    catch (...) { r->threw = 1; }
}
static std::optional<int> any_opt() { if (klv_pick(2)) return klv_any(); return {}; }
static const char* const texts[] = {"", "a", "zz"};
extern "C" {
void klv_s1(int patch, int wide, klv_res* r)
{
    trial<S1> t{patch != 0};
    t.old.a = klv_any(); t.old.b = klv_any(); t.old.c = klv_any(); t.old.o = wide & 4 ? any_opt() : klv_any(); t.old.in = {klv_any(), klv_any()};
    t.obj = t.want = t.old;
    alloc m;
    J doc{rapidjson::kObjectType};
    key a = put(doc, m, "a", wide & 1 ? 4 : 2), wrong_name = put(doc, m, "b", wide & 1 ? 2 : 0), b = put(doc, m, "bee", wide & 1 ? 4 : 1);
    key see = put(doc, m, "see", wide & 2 ? 3 : 0), c = put(doc, m, "c", wide & 2 ? 4 : 1), cc = put(doc, m, "cc", wide & 2 ? 3 : 0), o = put(doc, m, "o", wide & 4 ? 4 : 2);
    (void)wrong_name;
    int ins = wide & 4 ? klv_pick(6) : wide & 2 ? 1 : klv_pick(2);   // 0 absent, 1 both, 2 only y, 3 null, 4 wrong, 5 x wrong
    key x, y;
    if (ins == 3) doc.AddMember("in", J(), m);
    else if (ins == 4) doc.AddMember("in", J(4), m);
    else if (ins)
    {
        J in{rapidjson::kObjectType};
        if (ins != 2) { x.state = ins == 5 ? WRONG : VALUE; x.value = klv_any(); in.AddMember("x", ins == 5 ? J(true) : J(x.value), m); }
        y.state = VALUE; y.value = klv_any(); in.AddMember("y", J(y.value), m);
        doc.AddMember("in", in, m);
    }
    t.num(t.want.a, a, "field a");
    t.num(t.want.b, b, "field b");
    t.num(t.want.c, c.state != ABSENT ? c : cc.state != ABSENT ? cc : see, "field c");
    if (o.state == VALUE) t.want.o = o.value;
    else if (o.state == WRONG) t.error("field o");
    else if (!patch || o.state == NUL) t.want.o.reset();
    if (ins == 0) { if (!patch) t.error("field in"); }
    else if (ins == 3 || ins == 4) t.error("field in");
    else { int b0 = t.blamed; t.num(t.want.in.x, x, "field x"); t.num(t.want.in.y, y, "field y"); if (t.blamed != b0) t.blame[t.blamed - 1] = "field in"; }
    t.run(doc, r, [&]() -> bool {
        return (a.state != ABSENT || t.obj.a == t.old.a) & (b.state != ABSENT || t.obj.b == t.old.b) & (c.state + cc.state + see.state != ABSENT || t.obj.c == t.old.c) &
               (o.state != ABSENT || eqo(t.obj.o, t.old.o)) & (x.state != ABSENT || t.obj.in.x == t.old.in.x) & (y.state != ABSENT || t.obj.in.y == t.old.in.y);
    });
}
void klv_s2(int patch, int wide, klv_res* r)
{
    trial<S2> t{patch != 0};
    t.old = {klv_any(), klv_any(), klv_any(), klv_any(), klv_any(), klv_any()};
    t.obj = t.want = t.old;
    alloc m;
    J doc{rapidjson::kObjectType};
    key f = put(doc, m, "f", 2), v = put(doc, m, "v", wide & 1 ? 4 : 2), d = put(doc, m, "d", wide & 2 ? 4 : 1), h = put(doc, m, "h", 2), g = put(doc, m, "g", wide & 1 ? 3 : 1), e = put(doc, m, "e", wide & 2 ? 4 : 2);
    (void)f; (void)h;
    t.num(t.want.d, d, "field d", 2, 2, 7);
    t.num(t.want.e, e, "field e", 1);
    t.num(t.want.g, g, "field g");
    t.num(t.want.v, v, "field v");
    if (v.state == VALUE && v.value < 0) t.error("field v");
    t.run(doc, r, [&]() -> bool {
        return (d.state != ABSENT || t.obj.d == t.old.d) & (e.state != ABSENT || t.obj.e == t.old.e) & (t.obj.f == t.old.f) & (g.state != ABSENT || t.obj.g == t.old.g) & (t.obj.h == t.old.h) & (v.state != ABSENT || t.obj.v == t.old.v);
    });
}
void klv_s3(int patch, int wide, klv_res* r)
{
    trial<S3> t{patch != 0};
    t.old.flat = {klv_any(), klv_any()};
    t.old.k = klv_any();
    t.old.extra["p"] = klv_any();
    t.old.extra["t"] = klv_any();
    t.obj = t.want = t.old;
    alloc m;
    J doc{rapidjson::kObjectType};
    key p = put(doc, m, "p", wide ? 3 : 2), y = put(doc, m, "y", 2), kay = put(doc, m, "kay", 2), k = put(doc, m, "k", kay.state == ABSENT ? 2 : 0), x = put(doc, m, "x", wide ? 3 : 2), q = put(doc, m, "q", 2), flat = put(doc, m, "flat", 2);
    int b0 = t.blamed;
    t.num(t.want.flat.x, x, "field x");
    t.num(t.want.flat.y, y, "field y");
    if (t.blamed != b0) t.blame[t.blamed - 1] = "field flat";
    if (!patch) t.want.extra.clear();
    if (p.state == WRONG) t.error("field p"); else if (p.state == VALUE) t.want.extra["p"] = p.value;
    if (q.state == VALUE) t.want.extra["q"] = q.value;
    if (flat.state == VALUE) t.want.extra["flat"] = flat.value;    // the member's own name is free
    t.num(t.want.k, kay.state != ABSENT ? kay : k, "field k");
    t.run(doc, r, [&]() -> bool {
        auto has = [&](const char* n) { return t.obj.extra.count(n) != 0; };
        if (!has("t") || !has("p") || (q.state == ABSENT && has("q"))) return false;
        return (x.state != ABSENT || t.obj.flat.x == t.old.flat.x) & (y.state != ABSENT || t.obj.flat.y == t.old.flat.y) & (k.state + kay.state != ABSENT || t.obj.k == t.old.k) & (t.obj.extra["t"] == t.old.extra["t"]) &
               (p.state != ABSENT || t.obj.extra["p"] == t.old.extra["p"]);
    });
}
// from a sequence: the deserialized members in order
void klv_s5(int patch, int, klv_res* r)
{
    trial<S5> t{patch != 0};
    t.old.a = klv_any(); t.old.b = klv_any(); t.old.c = klv_any(); t.old.d = klv_any();
    t.obj = t.want = t.old;
    alloc m;
    J doc{rapidjson::kArrayType};
    unsigned n = static_cast<unsigned>(klv_pick(5));
    key k[4];
    for (unsigned i = 0; i < n; ++i)
    {
        k[i].state = 1 + klv_pick(3);
        k[i].value = klv_any();
        doc.PushBack(k[i].state == VALUE ? J(k[i].value) : k[i].state == NUL ? J() : J(true), m);
    }
    static const char* const element[] = {"element 0", "element 1", "element 2"};
    int* const to[] = {&t.want.a, &t.want.c};
    for (unsigned i = 0; i < 2; ++i) if (k[i].state == VALUE) *to[i] = k[i].value; else t.error(element[i]);
    if (k[2].state == VALUE) t.want.d = k[2].value; else if (k[2].state == WRONG) t.error(element[2]); else t.want.d.reset();
    if (n > 3) { t.bad = true; t.blamed = 0; }
    t.run(doc, r, [&]() -> bool { return t.obj.b == t.old.b; });
    if (n > 3) r->named = 1;
}
static bool same_oi(const S6& a, const S6& b) { return a.oi.has_value() == b.oi.has_value() && (!a.oi || *a.oi == *b.oi); }
void klv_s6(int patch, int, klv_res* r)
{
    trial<S6> t{patch != 0};
    t.old.x = klv_any(); t.old.y = klv_any(); t.old.z = klv_any();
    if (klv_pick(2)) t.old.oi = In{klv_any(), klv_any()};
    t.obj = t.want = t.old;
    alloc m;
    J doc{rapidjson::kObjectType};
    key z = put(doc, m, "zed", 2), x = put(doc, m, "x", 3), y = put(doc, m, "y", 2);
    int oi = klv_pick(5);     // 0 absent, 1 null, 2 only y, 3 both, 4 y wrong
    key ox, oy;
    if (oi == 1) doc.AddMember("oi", J(), m);
    if (oi > 1)
    {
        J in{rapidjson::kObjectType};
        oy.state = oi == 4 ? WRONG : VALUE; oy.value = klv_any(); in.AddMember("y", oi == 4 ? J(true) : J(oy.value), m);
        if (oi == 3) { ox.state = VALUE; ox.value = klv_any(); in.AddMember("x", J(ox.value), m); }
        doc.AddMember("oi", in, m);
    }
    t.num(t.want.x, x, "field x");
    t.num(t.want.y, y, "field y");
    t.num(t.want.z, z, "field z");
    if (oi == 1 || (oi == 0 && !patch)) t.want.oi.reset();
    if (oi > 1)
    {
        In w = t.want.oi && patch ? *t.want.oi : In{};
        int b0 = t.blamed;
        t.num(w.x, ox, "field oi");
        t.num(w.y, oy, "field oi");
        if (b0 == t.blamed) t.want.oi = w;
    }
    t.run(doc, r, [&]() -> bool { return (x.state != ABSENT || t.obj.x == t.old.x) & (y.state != ABSENT || t.obj.y == t.old.y) & (z.state != ABSENT || t.obj.z == t.old.z) & (oi != 0 || same_oi(t.obj, t.old)) & (oi < 2 || ox.state != ABSENT || !t.old.oi || (t.obj.oi && t.obj.oi->x == t.old.oi->x)); });
}
void klv_ser6(int skip_null, klv_ser* r)
{
    S6 s, back;
    s.x = klv_any(); s.y = klv_any(); s.z = klv_any();
    if (klv_pick(2)) s.oi = In{klv_any(), klv_any()};
    back.oi = In{1, 2};
    serialize_case(s, back, skip_null != 0, r, [&](expect& e) { e.num("x", s.x); e.num("y", s.y); e.num("zed", s.z); if (s.oi || !skip_null) e.member("oi"); });
}
void klv_ser1(int skip_null, klv_ser* r)
{
    S1 s, back;
    s.a = klv_any(); s.b = klv_any(); s.c = klv_any(); s.o = any_opt(); s.in = {klv_any(), klv_any()};
    back.a = klv_any(); back.o = klv_any();
    serialize_case(s, back, skip_null != 0, r, [&](expect& e) {
        e.num("a", s.a); e.num("bee", s.b); e.num("c", s.c); e.opt("o", s.o, skip_null != 0);
        auto* in = e.member("in");
        if (!in || !in->IsObject()) { e.ok = false; return; }
        expect i{*in};
        i.num("x", s.in.x); i.num("y", s.in.y);
        e.ok &= i.done();
    });
}
void klv_ser2(int skip_null, klv_ser* r)
{
    S2 s, back;
    s = {klv_any(), klv_any(), klv_any(), klv_any(), klv_any(), klv_any()};
    if (s.v < 0) s.v = 0;
    alloc m;
    r->fields = r->dump = r->round = r->threw = 0;
    try
    {
        kl::json::serialize_context sc{m, skip_null != 0};
        const J doc = kl::json::serialize(s, sc);
        expect e{doc};
        e.num("d", s.d); e.num("e", s.e); e.num("h", s.h); e.num("v", s.v);
        r->fields = e.done();
        log a, b;
        doc.Accept(a);
        kl::json::dump_context<log> dc{b, skip_null != 0};
        kl::json::dump(s, dc);
        r->dump = same(a, b);
    }
    catch (...) { r->threw = 1; }
    r->round = 1;
}
void klv_ser3(int skip_null, klv_ser* r)
{
    S3 s, back;
    s.flat = {klv_any(), klv_any()};
    s.k = klv_any();
    int n = klv_pick(3);
    if (n > 0) s.extra["p"] = klv_any();
    if (n > 1) s.extra["zz"] = klv_any();
    back.extra["old"] = 1;
    serialize_case(s, back, skip_null != 0, r, [&](expect& e) {
        e.num("x", s.flat.x); e.num("y", s.flat.y); e.num("k", s.k);
        for (auto& kv : s.extra) e.num(kv.first.c_str(), kv.second);
    });
}
void klv_ser4(int skip_null, int part, klv_ser* r)
{
    S4 s, back;
    if (part == 0) { s.oe = any_opt(); s.os = any_opt(); s.b = klv_pick(2); static const Color colors[] = {Color::red, Color::green, Color::blue}; s.c = colors[klv_pick(3)]; s.p = {klv_any(), klv_pick(2)}; }
    if (part == 1) { for (int n = klv_pick(3); n; --n) s.list.push_back(klv_any()); for (int n = klv_pick(3); n; --n) s.ins.push_back({klv_any(), klv_any()}); if (klv_pick(2)) s.oi = In{klv_any(), klv_any()}; }
    if (part == 2) { for (int n = klv_pick(3); n; --n) s.m[texts[n]] = klv_any(); s.s = texts[klv_pick(3)]; s.p = {3, false}; }
    back.m["old"] = 1; back.ins.push_back({1, 2}); back.os = 3;
    serialize_case(s, back, skip_null != 0, r, [&](expect& e) {
        e.opt("oe", s.oe, false);
        e.opt("os", s.os, true);
        if (s.oi)
        {
            auto* in = e.member("oi");
            if (!in || !in->IsObject()) { e.ok = false; return; }
            expect i{*in};
            i.num("x", s.oi->x); i.num("y", s.oi->y);
            e.ok &= i.done();
        }
        else if (!skip_null) e.null("oi");
        if (!s.list.empty())
        {
            auto* l = e.member("list");
            if (!l || !l->IsArray() || l->Size() != s.list.size()) { e.ok = false; return; }
            for (unsigned i = 0; i < l->Size(); ++i) e.ok &= (*l)[i].GetInt() == s.list[i];
        }
        auto* l = e.member("ins");
        if (!l || !l->IsArray() || l->Size() != s.ins.size()) { e.ok = false; return; }
        auto* mm = e.member("m");
        if (!mm || !mm->IsObject()) { e.ok = false; return; }
        expect i{*mm};
        for (auto& kv : s.m) i.num(kv.first.c_str(), kv.second);
        e.ok &= i.done();
        auto* str = e.member("s");
        if (!str || !str->IsString() || str->GetStringLength() != s.s.size()) { e.ok = false; return; }
        auto* b = e.member("b");
        if (!b || !b->IsBool()) { e.ok = false; return; }
        e.ok &= b->GetBool() == s.b;
        auto* c = e.member("c");
        if (!c || !c->IsString()) e.ok = false;
        auto* p = e.member("p");
        if (!p || !p->IsArray() || p->Size() != 2) e.ok = false;
    });
}
}
