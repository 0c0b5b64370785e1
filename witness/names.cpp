// Histories of additions to types followed by lookups.
#include "reflect.h"
#include "dsl/basics.h"

using namespace reflect;

struct Foo { int x; };
struct Bar { int y; };
reflectType(Foo) {}
reflectType(Bar) {}

typedef void Sig();

// kind 0: field, 1: function, 2: trait
static void add(Type& t, int kind, const std::string& name, size_t tag, const char* label, Sig* p)
{
    if (kind == 0) t.addField(name, Field(label, Argument(type<Foo>(), RefType::Copy, false), tag));
    else t.addFunction(name, Function(label, p));
}

static Type* level(int l, Type& a, Type& b, Type& c) { return l == 0 ? &a : l == 1 ? &b : &c; }

extern "C" {

// what the lookups observe: one event per call
void wo_bool(bool b);
void wo_field(const Field& f);
void wo_overloads(const Overloads& o);
void wo_name(const std::string& s);
void wo_value(const Value& v);

void w_names(const std::string& n0, int kind0, int level0, size_t tag0, const std::string& n1, int kind1, int level1, size_t tag1,
        Sig* p, const std::string& q, int query)
{
    Type a("A"), b("B"), c("C");
    a.parent(&b);
    b.parent(&c);
    add(*level(level0, a, b, c), kind0, n0, tag0, "first", p);
    add(*level(level1, a, b, c), kind1, n1, tag1, "second", p);
    const Type& ca = a;
    switch (query) {
    case 0: wo_bool(ca.hasField(q)); break;
    case 1: wo_bool(ca.hasFunction(q)); break;
    case 2: wo_field(ca.field(q)); break;
    case 3: wo_overloads(ca.function(q)); break;
    case 4: wo_field(a.field(q)); break;
    case 5: wo_overloads(a.function(q)); break;
    case 6: for (const std::string& s : ca.fields()) wo_name(s); break;
    case 7: for (const std::string& s : ca.functions()) wo_name(s); break;
    }
}

// several names on several levels: plan is (kind, level, name)*
void w_tower(const std::string& plan, Sig* p)
{
    static const char* names[] = { "b", "aa", "c" };
    Type a("A"), b("B"), c("C");
    a.parent(&b);
    b.parent(&c);
    for (size_t i = 0; i + 2 < plan.size(); i += 3)
        add(*level(plan[i + 1] - '0', a, b, c), plan[i] - '0', names[plan[i + 2] - '0'], i / 3, "f", p);
    for (int l = 0; l < 3; ++l) {
        const Type& t = *level(l, a, b, c);
        wo_bool(true);
        for (const std::string& s : t.fields()) wo_name(s);
        wo_bool(true);
        for (const std::string& s : t.functions()) wo_name(s);
        for (const char* n : names) {
            wo_bool(t.hasField(n));
            if (t.hasField(n)) wo_field(t.field(n));
            wo_bool(t.hasFunction(n));
            if (t.hasFunction(n)) wo_overloads(t.function(n));
        }
    }
}

const std::string& w_over_name(const Overloads& o, size_t i) { return o[i].name(); }
size_t w_over_size(const Overloads& o) { return o.size(); }

void w_traits(const std::string& n0, const std::string& n1, const Value& v0, const Value& v1, const std::string& q, int query, int where, Foo& foo)
{
    Type t("T");
    Field f("f", Argument(type<Foo>(), RefType::Copy, false), 0);
    Overloads o;
    Scope s;
    Traits* all[] = { &t, &f, &o, &s };
    Traits& x = *all[where];
    x.addTrait(n0, v0);
    x.addTrait(n1, v1);
    switch (query) {
    case 0: wo_bool(x.is(q)); break;
    case 1: wo_value(x.getValue<Value>(q)); break;
    case 2: for (const std::string& n : x.traits()) wo_name(n); break;
    }
}

void w_trait_kinds(Foo& foo, const std::string& n)
{
    Type t("T");
    t.addTrait(n);
    wo_value(t.getValue<Value>(n));
}

void w_trait_ref(Foo& foo, const std::string& n)
{
    Type t("T");
    t.addTrait(n, foo);
    wo_value(t.getValue<Value>(n));
}

// derivation: a < b < c, d unrelated, pointers of kinds k0 and k1 to two of them
const Type* pick(int i, const Type* a, const Type* b, const Type* c, const Type* d) { return i == 0 ? a : i == 1 ? b : i == 2 ? c : d; }

bool w_child(int i, int j)
{
    Type a("A"), b("B"), c("C"), d("D");
    a.parent(&b);
    b.parent(&c);
    return pick(i, &a, &b, &c, &d)->isChildOf(pick(j, &a, &b, &c, &d));
}
bool w_parent(int i, int j)
{
    Type a("A"), b("B"), c("C"), d("D");
    a.parent(&b);
    b.parent(&c);
    return pick(i, &a, &b, &c, &d)->isParentOf(pick(j, &a, &b, &c, &d));
}
bool w_child_ptr(int i, int j, const std::string& k0, const std::string& k1, int derive)
{
    Type a("A"), b("B"), c("C"), d("D"), p("P"), q("Q");
    a.parent(&b);
    b.parent(&c);
    p.setPointer(k0, pick(i, &a, &b, &c, &d));
    q.setPointer(k1, pick(j, &a, &b, &c, &d));
    switch (derive) {
    case 0: return p.isChildOf(&q);
    case 1: return p.isChildOf(pick(j, &a, &b, &c, &d));
    case 2: return pick(i, &a, &b, &c, &d)->isChildOf(&q);
    case 3: return q.isParentOf(&p);
    case 4: return p.isChildOf(&p);
    }
    // pointers to pointers
    Type pp("PP"), qq("QQ");
    pp.setPointer(k0, &p);
    qq.setPointer(k0, &q);
    return pp.isChildOf(&qq);
}

void w_pointer(const std::string& k0, const std::string& k1, const Type* to, const Type* to1, int query)
{
    Type p("P");
    if (query == 0) { wo_bool(p.isPointer()); return; }
    if (query == 1) { wo_name(p.pointer()); return; }
    if (query == 2) { wo_bool(p.pointee() == to); return; }
    p.setPointer(k0, to);
    if (query == 3) { wo_bool(p.isPointer()); return; }
    if (query == 4) { wo_name(p.pointer()); return; }
    if (query == 5) { wo_bool(p.pointee() == to); return; }
    p.setPointer(k1, to1);
}

// conversions and constructors found by name
void w_here(const Type* t);

void w_converter(const std::string& n0, int level0, const std::string& n1, int level1, Sig* p, int query)
{
    Type a("A"), b("B"), c("C"), d("D");
    a.parent(&b);
    b.parent(&c);
    level(level0, a, b, c)->addFunction(n0, Function("first", p));
    level(level1, a, b, c)->addFunction(n1, Function("second", p));
    const Type& ca = a;
    if (query == 0) wo_bool(ca.hasConverter(&d));
    else wo_name(ca.converter(&d).name());
}

void w_ctor(int which, int query, const std::string& n, Foo (*p0)(), Foo (*p1)(const Foo&), Foo (*p2)(Foo&&), Foo (*p3)(Foo), Foo (*p4)(Foo&), Foo (*p5)(Bar&))
{
    Type t("Foo");
    w_here(&t);
    switch (which) {
    case 1: t.addFunction(n, Function("f", p0)); break;
    case 2: t.addFunction(n, Function("f", p1)); break;
    case 3: t.addFunction(n, Function("f", p2)); break;
    case 4: t.addFunction(n, Function("f", p3)); break;
    case 5: t.addFunction(n, Function("f", p4)); break;
    case 6: t.addFunction(n, Function("f", p5)); break;
    case 7: t.addFunction(n, Function("f", p0)); t.addFunction(n, Function("f", p1)); break;
    case 8: t.addFunction(n, Function("f", p5)); t.addFunction(n, Function("f", p2)); break;
    }
    wo_bool(query ? t.isMovable() : t.isCopiable());
}

}
