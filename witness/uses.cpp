// Entry points for the analysis: objects used through the values which hold them.
#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"

using namespace reflect;

extern "C" {

void wd_int(long v);
void wd_at(const void* p);

}

// Only a truth, a truth and its own negation, neither; each with a class derived from it.
template<typename T> static void use() { wd_int(type<T>() == type<T>()); }

struct Truth { int id; operator bool() const; };
struct Both { int id; bool operator!() const; operator bool() const; int operator()() const; };
struct Plain { int id; };
struct TruthChild : public Truth { int more; };
struct BothChild : public Both { int more; };
struct PlainChild : public Plain { int more; };

// Operators which change the object, look at it, hand out a part of it or take it over.
struct Num
{
    int id;
    int part;
    Num(); Num(const Num&); Num(Num&&); ~Num(); Num& operator=(const Num&);
    Num& operator+=(const Num&);
    int operator-(const Num&) const;
    int operator%(Num&) const;
    int operator&(int) const;
    Num operator|(const Num&) const;
    bool operator==(const Num&) const;
    bool operator<(Num) const;
    void operator<<=(const Num&);
    int& operator[](int);
    int operator()(const Num&, int) const;
    Num& operator++();
    Num operator--(int);
    const int& operator*() const;
    operator int() const;
    int twice() const; int twice(int) const;
    void set(int);
};
struct NumChild : public Num { int more; };

reflectTypeDecl(Truth) reflectTypeDecl(Both) reflectTypeDecl(Plain) reflectTypeDecl(TruthChild) reflectTypeDecl(BothChild) reflectTypeDecl(PlainChild)
reflectTypeDecl(Num) reflectTypeDecl(NumChild)
reflectTypeImpl(Truth) { reflectPlumbing(); reflectOpCast(bool); }
reflectTypeImpl(Both) { reflectPlumbing(); reflectOperators(); reflectOpCast(bool); }
reflectTypeImpl(Plain) { reflectPlumbing(); reflectOperators(); }
reflectTypeImpl(TruthChild) { reflectParent(Truth); reflectPlumbing(); }
reflectTypeImpl(BothChild) { reflectParent(Both); reflectPlumbing(); }
reflectTypeImpl(PlainChild) { reflectParent(Plain); reflectPlumbing(); }
reflectTypeImpl(Num)
{
    reflectPlumbing(); reflectOperators(); reflectOpCast(int);
    reflectField(id); reflectField(part);
    reflectFnTyped(twice, int (T_::*) () const); reflectFnTyped(twice, int (T_::*) (int) const);
    reflectFn(set);
}
reflectTypeImpl(NumChild) { reflectParent(Num); reflectField(more); }

extern "C" {

void w_use()
{
    use<bool>(); use<int>(); use<void>(); use<Value>(); use<Truth>(); use<Both>(); use<Plain>(); use<TruthChild>(); use<BothChild>(); use<PlainChild>(); use<Num>(); use<NumChild>();
}

#define CONDITION(T)                                                        \
    void w_true_##T(T* p) { Value v(*p); wd_int((bool) v); }                \
    void w_ctrue_##T(const T* p) { Value v(*p); wd_int((bool) v); }         \
    void w_not_##T(T* p) { Value v(*p); wd_int(!v); }                       \
    void w_cnot_##T(const T* p) { Value v(*p); wd_int(!v); }                \
    void w_notnot_##T(T* p) { Value v(*p); wd_int(!v); wd_int(!v); }
CONDITION(Truth) CONDITION(Both) CONDITION(Plain) CONDITION(TruthChild) CONDITION(BothChild) CONDITION(PlainChild)

#define LIKE(v) wd_int((v).type() == type<int>() ? 1 : (v).type() == type<Num>() ? 2 : (v).type() == type<NumChild>() ? 3 : (v).isVoid() ? 0 : 9); wd_int((v).isConst()); wd_int((v).refType() == RefType::LValue); wd_int((v).isStored());
// T is Num or NumChild, each constant or not; K says so in the name
#define USES(K, T)                                                                                          \
    void w_addto_##K(T* p, Num* q) { Value v(*p); Value r = v += *q; LIKE(r) wd_at(r.value()); }             \
    void w_addtov_##K(T* p, const Num* q) { Value v(*p), w(*q); Value r = v += w; LIKE(r) wd_at(r.value()); }\
    void w_minus_##K(T* p, const Num* q) { Value v(*p); Value r = v - *q; LIKE(r) wd_int(r.get<int>()); }    \
    void w_minusv_##K(T* p, NumChild* q) { Value v(*p), w(*q); Value r = v - w; LIKE(r) wd_int(r.get<int>()); }  \
    void w_mod_##K(T* p, Num* q) { Value v(*p); Value r = v % *q; LIKE(r) wd_int(r.get<int>()); }            \
    void w_modc_##K(T* p, const Num* q) { Value v(*p); Value r = v % *q; LIKE(r) }                           \
    void w_modcv_##K(T* p, const Num* q) { Value v(*p), w(*q); Value r = v % w; LIKE(r) }                    \
    void w_and_##K(T* p, int x) { Value v(*p); Value r = v & x; LIKE(r) wd_int(r.get<int>()); }              \
    void w_andwrong_##K(T* p, const Plain* q) { Value v(*p); Value r = v & *q; LIKE(r) }                     \
    void w_or_##K(T* p, Num* q) { Value v(*p); Value r = v | *q; LIKE(r) }                                   \
    void w_eq_##K(T* p, Num* q) { Value v(*p); wd_int(v == *q); }                                            \
    void w_eqv_##K(T* p, Num* q) { Value v(*p), w(*q); wd_int(v == w); }                                     \
    void w_lt_##K(T* p, Num* q) { Value v(*p); wd_int(v < *q); }                                             \
    void w_shift_##K(T* p, Num* q) { Value v(*p); Value r = v <<= *q; LIKE(r) }                              \
    void w_index_##K(T* p, int x) { Value v(*p); Value r = v[x]; LIKE(r) wd_at(r.value()); }                 \
    void w_call_##K(T* p, Num* q, int x) { Value v(*p); Value r = v(*q, x); LIKE(r) wd_int(r.get<int>()); }  \
    void w_callfew_##K(T* p, Num* q) { Value v(*p); Value r = v(*q); LIKE(r) }                               \
    void w_callmany_##K(T* p, Num* q, int x) { Value v(*p); Value r = v(*q, x, x); LIKE(r) }                 \
    void w_inc_##K(T* p) { Value v(*p); Value r = ++v; LIKE(r) wd_at(r.value()); }                           \
    void w_dec_##K(T* p) { Value v(*p); Value r = v--; LIKE(r) }                                             \
    void w_prefix_##K(T* p) { Value v(*p); Value r = --v; LIKE(r) }                                          \
    void w_deref_##K(T* p) { Value v(*p); Value r = *v; LIKE(r) wd_at(r.value()); }                          \
    void w_missing_##K(T* p, Num* q) { Value v(*p); Value r = v * *q; LIKE(r) }                              \
    void w_ne_##K(T* p, Num* q) { Value v(*p); wd_int(v != *q); }                                            \
    void w_tilde_##K(T* p) { Value v(*p); Value r = ~v; LIKE(r) }                                            \
    void w_convert_##K(T* p) { Value v(*p); wd_int(v.convert<int>(type<int>())); }                           \
    void w_convertno_##K(T* p) { Value v(*p); wd_int(v.convert<bool>(type<bool>())); }                       \
    void w_assign_##K(T* p, Num* q) { Value v(*p); v.assign(*q); }                                           \
    void w_twice_##K(T* p, int x) { Value v(*p); wd_int(v.call<int>("twice", x)); wd_int(v.call<int>("twice")); }  \
    void w_set_##K(T* p, int x) { Value v(*p); v.call<void>("set", x); }                                     \
    void w_setr_##K(T* p, int x) { Value v(*p); wd_int(v.call<int>("set", x)); }                             \
    void w_unknown_##K(T* p) { Value v(*p); v.call<void>("get"); }                                           \
    void w_part_##K(T* p) { Value v(*p); Value r = v.field("part"); LIKE(r) wd_at(r.value()); wd_int(v.field<int>("part")); }  \
    void w_partadd_##K(T* p, int x) { Value v(*p); Value r = v.field("part") + x; LIKE(r) wd_int(r.get<int>()); wd_int(p->part); }  \
    void w_partset_##K(T* p, int x) { Value v(*p); v.field("part").assign(x); wd_int(p->part); }            \
    void w_nopart_##K(T* p) { Value v(*p); v.field("some"); }                                                \
    void w_chain_##K(T* p, Num* q, int x) { Value v(*p); Value r = (v += *q)[x]; LIKE(r) wd_at(r.value()); }
USES(num, Num) USES(cnum, const Num) USES(child, NumChild) USES(cchild, const NumChild)

void w_unknown_Both(Both* p) { Value v(*p); v.call<void>("get"); }
void w_callnone(Both* p) { Value v(*p); Value r = v(); LIKE(r) wd_int(r.get<int>()); }
void w_callone(Both* p) { Value v(*p); v(1); }

// of nothing
void w_void(int what)
{
    Value v;
    if (what == 0) wd_int((bool) v);
    if (what == 1) wd_int(!v);
    if (what == 2) v + 1;
    if (what == 3) v.call<void>("set", 1);
    if (what == 4) v.field("part");
    if (what == 5) v.assign(1);
    if (what == 6) v.copy();
    if (what == 7) v.move();
    if (what == 8) wd_int(v == 1);
    if (what == 9) v.get<int>();
}

}
