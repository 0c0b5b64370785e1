// Types declared with the reflection macros, used through values.
#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/std/string.h"

using namespace reflect;

struct Op
{
    int id;
#define BIN(o) int o(const Op&) const;
#define BINREF(o) Op& o(const Op&);
    BINREF(operator+=) BINREF(operator-=) BINREF(operator*=) BINREF(operator/=) BINREF(operator%=)
    BINREF(operator&=) BINREF(operator|=) BINREF(operator^=) BINREF(operator<<=) BINREF(operator>>=)
    BIN(operator+) BIN(operator-) BIN(operator/) BIN(operator%)
    BIN(operator&) BIN(operator|) BIN(operator^) BIN(operator<<) BIN(operator>>)
#define CMP(o) bool o(const Op&) const;
    CMP(operator==) CMP(operator!=) CMP(operator<) CMP(operator>) CMP(operator<=) CMP(operator>=) CMP(operator&&) CMP(operator||)
    bool operator!() const;
    int operator~() const;
    Op& operator++(); Op& operator--();
    Op operator++(int); Op operator--(int);
    int operator()(const Op&, const Op&) const;
    int& operator[](const Op&);
    operator bool() const;
};
// operator* both ways
struct Mul { int id; int operator*(const Mul&) const; };
struct Deref { int id; int& operator*(); };
reflectTypeDecl(Op) reflectTypeDecl(Mul) reflectTypeDecl(Deref)
reflectTypeImpl(Op) { reflectPlumbing(); reflectOperators(); reflectOpCast(bool); }
reflectTypeImpl(Mul) { reflectPlumbing(); reflectOperators(); }
reflectTypeImpl(Deref) { reflectPlumbing(); reflectOperators(); }

extern "C" {

void wd_int(int n);
void wd_at(const void* p);
void wd_type(const Type* t);

void w_type(void* p, const std::string& id) { new (p) Type(id); }
void w_reflect_bool(Type* t) { Reflect<bool>::reflect(t); }
void w_reflect_int(Type* t) { Reflect<int>::reflect(t); }
void w_reflect_size(Type* t) { Reflect<size_t>::reflect(t); }
void w_reflect_Op(Type* t) { Reflect<Op>::reflect(t); }
void w_reflect_Mul(Type* t) { Reflect<Mul>::reflect(t); }
void w_reflect_Deref(Type* t) { Reflect<Deref>::reflect(t); }

#define USE(name, op) void w_op_##name(Op& a, Op& b) { Value x(a); auto r = x op b; wd_type(r.type()); wd_int(r.get<int>()); }
#define USEREF(name, op) void w_op_##name(Op& a, Op& b) { Value x(a); auto r = x op b; wd_type(r.type()); wd_at(r.value()); }
#define USEBOOL(name, op) void w_op_##name(Op& a, Op& b) { Value x(a); bool r = x op b; wd_int(r); }
USEREF(plusAssign, +=) USEREF(minusAssign, -=) USEREF(multAssign, *=) USEREF(divAssign, /=) USEREF(modAssign, %=)
USEREF(andAssign, &=) USEREF(orAssign, |=) USEREF(xorAssign, ^=) USEREF(lshiftAssign, <<=) USEREF(rshiftAssign, >>=)
USE(plus, +) USE(minus, -) USE(div, /) USE(mod, %) USE(and, &) USE(or, |) USE(xor, ^) USE(lshift, <<) USE(rshift, >>)
USEBOOL(eq, ==) USEBOOL(ne, !=) USEBOOL(lt, <) USEBOOL(gt, >) USEBOOL(le, <=) USEBOOL(ge, >=) USEBOOL(land, &&) USEBOOL(lor, ||)
void w_op_not(Op& a, Op& b) { Value x(a); wd_int(!x); }
void w_op_compl(Op& a, Op& b) { Value x(a); Value r = ~x; wd_int(r.get<int>()); }
void w_op_inc(Op& a, Op& b) { Value x(a); Value r = ++x; wd_at(r.value()); }
void w_op_dec(Op& a, Op& b) { Value x(a); Value r = --x; wd_at(r.value()); }
void w_op_postinc(Op& a, Op& b) { Value x(a); Value r = x++; wd_int(r.get<Op>().id); }
void w_op_postdec(Op& a, Op& b) { Value x(a); Value r = x--; wd_int(r.get<Op>().id); }
void w_op_call(Op& a, Op& b) { Value x(a); Value r = x(b, a); wd_int(r.get<int>()); }
void w_op_index(Op& a, Op& b) { Value x(a); Value r = x[b]; wd_at(r.value()); }
void w_op_bool(Op& a, Op& b) { Value x(a); wd_int(bool(x)); }
void w_op_mult(Mul& a, Mul& b) { Value x(a); Value r = x * b; wd_int(r.get<int>()); }
void w_op_deref(Deref& a, Deref& b) { Value x(a); Value r = *x; wd_at(r.value()); }

}

// every other declaration
struct Base { int base; int baseFn(); };
struct Thing : public Base
{
    Thing(); Thing(const Thing&); Thing(Thing&&); Thing& operator=(const Thing&); Thing& operator=(Thing&&);
    Thing(int, const Op&);
    char head; int a; double b; Op c; Thing* next; const int k; int tail[3];
    int fn(); int fn2(int, const Op&) const; static int sfn(int);
    int over(int); int over(int, int) const;
    void nothing(Op&);
    operator int() const;
};
struct NoCopy { NoCopy(); NoCopy(NoCopy&&); NoCopy(const NoCopy&) = delete; NoCopy& operator=(NoCopy&&); NoCopy& operator=(const NoCopy&) = delete; int x; };
struct Pinned { Pinned(int); Pinned(const Pinned&) = delete; Pinned& operator=(const Pinned&) = delete; int x; };

extern "C" { int wd_custom(const Thing*, int); }

reflectTypeDecl(Base) reflectTypeDecl(Thing) reflectTypeDecl(NoCopy) reflectTypeDecl(Pinned)
struct Small { char x; Small(int, Op&&); Small(const Small&); Small(Small&&); };
reflectTypeDecl(Small)
struct Wide { char head; char pad[70000]; int far; char gap[5000000000]; int last; };
reflectTypeDecl(Wide)
reflectTypeImpl(Wide) { reflectSizeof(); reflectField(head); reflectField(far); reflectField(last); }
reflectTypeImpl(Small) { reflectSizeof(); reflectMoveCons(); reflectCons(int, Op&&); reflectField(x); }
reflectTypeImpl(Base) { reflectSizeof(); reflectField(base); reflectFn(baseFn); }
reflectTypeImpl(NoCopy) { reflectPlumbing(); reflectAllocPlumbing(); reflectField(x); }
reflectTypeImpl(Pinned) { reflectPlumbing(); reflectAllocPlumbing(); reflectField(x); }
reflectTypeImpl(Thing)
{
    reflectParent(Base);
    reflectPlumbing();
    reflectAllocPlumbing();
    reflectCons(int, const Op&);
    reflectField(head); reflectField(a); reflectField(b); reflectField(c); reflectField(next); reflectField(k);
    reflectFieldTrait(a, marked);
    reflectFieldValue(b, weight, 7);
    reflectFn(fn); reflectFn(fn2); reflectFn(sfn); reflectFn(nothing);
    reflectFnTyped(over, int (T_::*) (int));
    reflectFnTyped(over, int (T_::*) (int, int) const);
    reflectFnTrait(fn, pure);
    reflectFnValue(fn2, cost, 9);
    reflectOpCast(int);
    reflectCustom(custom) (const T_& t, int n) -> int { return wd_custom(&t, n); };
    reflectTypeTrait(tagged);
    reflectTypeValue(level, 3);
}

static int gvar;
static const int gconst = 5;
int gfn(int n);
int gover(int n);
int gover(int n, int m);
struct Tag {};
namespace reflect {
template<> struct ReflectScope<Tag> { static void reflect(Scope* scope_); };
}
void reflect::ReflectScope<Tag>::reflect(Scope* scope_)
{
    reflectGlobalFn(gfn);
    reflectGlobalFnTyped(gover, int (*) (int));
    reflectGlobalFnTyped(gover, int (*) (int, int));
    reflectGlobalVar(gvar);
    reflectGlobalVar(gconst);
    reflectScopeTrait(open);
    reflectScopeValue(depth, 2);
}

extern "C" {

void wd_name(const std::string& s);
void w_reflect_Base(Type* t) { Reflect<Base>::reflect(t); }
void w_reflect_Thing(Type* t) { Reflect<Thing>::reflect(t); }
void w_reflect_NoCopy(Type* t) { Reflect<NoCopy>::reflect(t); }
void w_reflect_Small(Type* t) { Reflect<Small>::reflect(t); }
void w_reflect_Wide(Type* t) { Reflect<Wide>::reflect(t); }
void w_reflect_Pinned(Type* t) { Reflect<Pinned>::reflect(t); }

// fields are at the members they name
#define FIELD(f, T) void w_field_##f(Thing& t) { Value v(t); wd_at(&v.field<T>(#f)); wd_at(&t.f); Value x = v.field(#f); wd_at(x.value()); wd_at(&t.f); }
FIELD(base, int&) FIELD(head, char&) FIELD(a, int&) FIELD(b, double&) FIELD(c, Op&) FIELD(next, Thing*&) FIELD(k, const int&)
#define WIDE(f, T) void w_wide_##f(Wide& t) { Value v(t); wd_at(&v.field<T>(#f)); wd_at(&t.f); Value x = v.field(#f); wd_at(x.value()); wd_at(&t.f); }
WIDE(head, char&) WIDE(far, int&) WIDE(last, int&)
void w_wide_size(const Type* t) { wd_int(t->getValue<size_t>("sizeof") == sizeof(Wide)); }
void w_fields(const Type* t) { for (auto& f : t->fields()) wd_name(f); }
void w_ids(const Type* t) { wd_type(t->parent()); wd_int(t->getValue<size_t>("sizeof")); }
void w_sizes() { wd_int(sizeof(Thing)); }
void w_traits(const Type* t)
{
    wd_int(t->is("tagged")); wd_int(t->getValue<int>("level")); wd_int(t->is("level")); wd_int(t->is("other"));
    wd_int(t->field("a").is("marked")); wd_int(t->field("b").is("marked")); wd_int(t->field("b").getValue<int>("weight"));
    wd_int(t->function("fn").is("pure")); wd_int(t->function("fn2").is("pure")); wd_int(t->function("fn2").getValue<int>("cost"));
}

// functions
void w_fn_fn(Thing& t, const Op& o) { wd_int(Value(t).call<int>("fn")); }
void w_fn_fn2(Thing& t, const Op& o) { wd_int(Value(t).call<int>("fn2", 21, o)); }
void w_fn_sfn(Thing& t, const Op& o) { wd_int(type<Thing>()->call<int>("sfn", 21)); }
void w_fn_nothing(Thing& t, Op& o) { Value(t).call<void>("nothing", o); wd_int(0); }
void w_fn_over1(Thing& t, const Op& o) { wd_int(Value(t).call<int>("over", 21)); }
void w_fn_over2(Thing& t, const Op& o) { wd_int(Value(t).call<int>("over", 21, 22)); }
void w_fn_cast(Thing& t, const Op& o) { wd_int(Value(t).call<int>("operator int()")); }
void w_fn_custom(Thing& t, const Op& o) { wd_int(Value(t).call<int>("custom", 21)); }
void w_fn_base(Thing& t, const Op& o) { wd_int(Value(t).call<int>("baseFn")); }

// construction and assignment
void w_make_cons(Thing& a, Thing& b, const Op& o) { Value v = type<Thing>()->construct(); wd_type(v.type()); wd_int(v.isStored()); }
void w_make_args(Thing& a, Thing& b, const Op& o) { Value v = type<Thing>()->construct(21, o); wd_type(v.type()); wd_int(v.isStored()); }
void w_make_copy(Thing& a, Thing& b, const Op& o) { const Thing& c = a; Value v = type<Thing>()->construct(c); wd_type(v.type()); wd_int(v.isStored()); }
void w_make_move(Thing& a, Thing& b, const Op& o) { Value v = type<Thing>()->construct(std::move(a)); wd_type(v.type()); wd_int(v.isStored()); }
void w_make_rvalue(Op& a, NoCopy& b) { Value v = type<Small>()->construct(21, std::move(a)); wd_type(v.type()); wd_int(v.isStored()); }
void w_small(const Type* t) { wd_int(t->getValue<size_t>("sizeof")); }
void w_make_new(Thing& a, Thing& b, const Op& o) { Value v = type<Thing>()->alloc(); wd_type(v.type()); wd_at(v.get<Thing*>()); }
void w_make_newcopy(Thing& a, Thing& b, const Op& o) { const Thing& c = a; Value v = type<Thing>()->call<Value>("new", c); wd_type(v.type()); wd_at(v.get<Thing*>()); }
void w_make_newmove(Thing& a, Thing& b, const Op& o) { Value v = type<Thing>()->call<Value>("new", std::move(a)); wd_type(v.type()); wd_at(v.get<Thing*>()); }
void w_make_assign(Thing& a, Thing& b, const Op& o) { const Thing& c = b; Value(a).assign(c); wd_type(nullptr); wd_int(0); }
void w_make_moveassign(Thing& a, Thing& b, const Op& o) { Value(a).assign(std::move(b)); wd_type(nullptr); wd_int(0); }
// what a type cannot do isn't there
void w_can(const Type* t)
{
    wd_int(t->isCopiable()); wd_int(t->isMovable());
    wd_int(t->hasFunction("new")); wd_int(t->hasFunction("operator=")); wd_int(t->hasFunction(t->id()));
    wd_int(t->hasFunction("operator+"));
}

// scopes
void w_scope() { gvar = 11; ReflectScope<Tag>::reflect(reflect::scope()); }
void w_global_fn() { wd_int(reflect::scope()->call<int>("gfn", 21)); }
void w_global_over1() { wd_int(reflect::scope()->call<int>("gover", 21)); }
void w_global_over2() { wd_int(reflect::scope()->call<int>("gover", 21, 22)); }
void w_global_get() { gvar = 33; wd_int(reflect::scope()->call<int>("gvar")); }
void w_global_set() { gvar = 33; reflect::scope()->call<void>("gvar", 44); wd_int(gvar); }
void w_global_const() { wd_int(reflect::scope()->call<int>("gconst")); }
void w_global_traits() { wd_int(reflect::scope()->is("open")); wd_int(reflect::scope()->getValue<int>("depth")); }

}
