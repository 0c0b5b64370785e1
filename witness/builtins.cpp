// Entry points for the analysis: types which the library itself reflects.
#include <limits>
#include <map>
#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/std/string.h"
#include "types/std/vector.h"

using namespace reflect;

struct Item { Item(); Item(const Item&); Item(Item&&); ~Item(); Item& operator=(const Item&); Item& operator=(Item&&); int x; };
struct Plain { int x, y; };
reflectTypeDecl(Item)
reflectTypeImpl(Item) { reflectPlumbing(); reflectField(x); }
reflectTypeDecl(Plain)
reflectTypeImpl(Plain) { reflectPlumbing(); reflectField(x); }

typedef std::vector<int> Ints;
typedef std::vector<std::string> Strings;
typedef std::vector<Ints> Lists;
typedef std::map<int, int> Map;
typedef std::map<std::string, int> StringMap;
typedef std::unordered_map<std::string, int> Hash;
typedef std::shared_ptr<Item> Shared;
typedef std::unique_ptr<Item> Unique;

template<typename M, typename K> static M make(int n, K a, K b, const int* src) { M m; if (n > 0) m[a] = src[0]; if (n > 1) m[b] = src[1]; return m; }

extern "C" void wd_int(long v);
template<typename T> static void use() { wd_int(type<T>() == type<T>()); }

extern "C" {

void wd_int(long v);
void wd_at(const void* p);
void wd_text(const std::string& s);
void wd_made(const void* p);

// the types in use
void w_use_prims()
{
    use<bool>(); use<char>(); use<signed char>(); use<unsigned char>(); use<short>(); use<unsigned short>(); use<int>(); use<unsigned int>(); use<long>(); use<unsigned long>();
    use<long long>(); use<unsigned long long>(); use<float>(); use<double>(); use<long double>(); use<void>(); use<std::string>();
    use<char*>(); use<int*>(); use<char**>(); use<Item>(); use<Item*>();
}
void w_use_containers()
{
    use<int>(); use<size_t>(); use<std::string>(); use<Item>(); use<Item*>(); use<Ints>(); use<Strings>(); use<Lists>(); use< std::vector<Item> >();
    use<Map>(); use<StringMap>(); use<Hash>(); use<Shared>(); use<Unique>();
}

void w_item(Item* p) { new (p) Item; }

static void kinds(const Type* t)
{
    wd_int(t->is("primitive")); wd_int(t->is("bool")); wd_int(t->is("integer")); wd_int(t->is("signed")); wd_int(t->is("unsigned")); wd_int(t->is("float"));
    wd_int(t->is("void")); wd_int(t->is("string")); wd_int(t->is("list")); wd_int(t->is("map")); wd_int(t->is("smartPtr")); wd_int(t->isPointer());
}

static void abilities(const Type* t)
{
    wd_int(t->isCopiable()); wd_int(t->isMovable()); wd_int(t->hasFunction(t->id())); wd_int(t->hasFunction("operator=")); wd_int(t->getValue<size_t>("sizeof"));
}

void w_kind_void() { kinds(type<void>()); wd_text(type<void>()->id()); }

#define PRIM(N, T, V)                                                           \
    void w_kind_##N() { kinds(type<T>()); wd_text(type<T>()->id()); }           \
    void w_can_##N() { abilities(type<T>()); }                                  \
    void w_add_##N() { T x = 100, y = 27; Value r = Value(x) + y; typedef decltype(x + y) S; wd_int(r.type() == type<S>()); wd_int(r.get<S>() == V); wd_int(x == (T) 100); }  \
    void w_copy_##N() { T x = 100; const T& c = x; Value v = type<T>()->construct(c); wd_int(v.get<T>() == (T) 100); wd_int(v.value() != &x); }  \
    void w_assign_##N() { T x = 100, y = 27; Value v(x); v.assign(y); wd_int(x == (T) 27); wd_int(y == (T) 27); }  \
    void w_new_##N() { Value v = type<T>()->alloc(); wd_int(v.type() == type<T*>()); wd_int(v.get<T*>() != nullptr); delete v.get<T*>(); }  \
    void w_limits_##N() { wd_int(type<T>()->getValue<T>("min") == std::numeric_limits<T>::min()); wd_int(type<T>()->getValue<T>("max") == std::numeric_limits<T>::max()); }

PRIM(bool, bool, 2)
PRIM(char, char, 127) PRIM(schar, signed char, 127) PRIM(uchar, unsigned char, 127)
PRIM(short, short int, 127) PRIM(ushort, unsigned short int, 127) PRIM(int, int, 127) PRIM(uint, unsigned int, 127)
PRIM(long, long int, 127) PRIM(ulong, unsigned long int, 127) PRIM(llong, long long int, 127) PRIM(ullong, unsigned long long int, 127)
PRIM(float, float, 127) PRIM(double, double, 127) PRIM(ldouble, long double, 127)

#define ALIAS(N, ...) void w_alias_##N() { wd_int(type(#__VA_ARGS__) == type<__VA_ARGS__>()); }
ALIAS(short, short) ALIAS(ushort, unsigned short) ALIAS(long, long) ALIAS(ulong, unsigned long) ALIAS(llong, long long) ALIAS(ullong, unsigned long long)
ALIAS(size, size_t) ALIAS(ssize, ssize_t) ALIAS(imax, intmax_t) ALIAS(umax, uintmax_t) ALIAS(iptr, intptr_t) ALIAS(uptr, uintptr_t)
ALIAS(i8, int8_t) ALIAS(u8, uint8_t) ALIAS(i16, int16_t) ALIAS(u16, uint16_t) ALIAS(i32, int32_t) ALIAS(u32, uint32_t) ALIAS(i64, int64_t) ALIAS(u64, uint64_t)
ALIAS(if8, int_fast8_t) ALIAS(uf8, uint_fast8_t) ALIAS(if16, int_fast16_t) ALIAS(uf16, uint_fast16_t) ALIAS(if32, int_fast32_t) ALIAS(uf32, uint_fast32_t) ALIAS(if64, int_fast64_t) ALIAS(uf64, uint_fast64_t)
ALIAS(il8, int_least8_t) ALIAS(ul8, uint_least8_t) ALIAS(il16, int_least16_t) ALIAS(ul16, uint_least16_t) ALIAS(il32, int_least32_t) ALIAS(ul32, uint_least32_t) ALIAS(il64, int_least64_t) ALIAS(ul64, uint_least64_t)

// pointers
#define POINTER(N, T)                                                           \
    void w_ptr_##N(T* p) { const Type* t = type<T*>(); kinds(t); wd_text(t->id()); wd_text(t->pointer()); wd_int(t->pointee() == type<T>()); wd_int(t->hasFunction("operator bool()")); }  \
    void w_can_ptr_##N(T* p) { abilities(type<T*>()); }                         \
    void w_true_##N(T* p) { Value v(p); wd_int(bool(v)); wd_int(v.call<bool>("operator bool()")); }   \
    void w_deref_##N(T* p) { Value v(p); Value r = *v; wd_at(r.value()); wd_int(r.type() == type<T>()); wd_int(r.isConst()); }    \
    void w_cderef_##N(T* const p) { Value v(p); Value r = *v; wd_at(r.value()); wd_int(r.type() == type<T>()); wd_int(r.isConst()); }
POINTER(int, int) POINTER(ptr, char*) POINTER(item, Item)

// text
void w_text_kind(const std::string& s) { kinds(type<std::string>()); wd_text(type<std::string>()->id()); }
void w_text_can(const std::string& s) { abilities(type<std::string>()); }
void w_text_size(const std::string& s) { wd_int(Value(s).call<size_t>("size") == s.size()); }
void w_text_copy(const std::string& s) { Value v = type<std::string>()->construct(s); wd_text(v.get<std::string>()); wd_int(v.value() != &s); }
void w_text_assign(const std::string& s) { std::string x = "x"; Value(x).assign(s); wd_text(x); wd_text(s); }
void w_text_default(const std::string& s) { Value v = type<std::string>()->construct(); wd_int(v.get<std::string>().empty()); }

// lists of unknown numbers
static Ints ints(int n, const int* src) { Ints v; for (int i = 0; i < n; ++i) v.push_back(src[i]); return v; }
static void show(const Ints& v) { wd_int(v.size()); for (size_t i = 0; i < v.size(); ++i) wd_int(v[i]); }

void w_list_kind() { kinds(type<Ints>()); wd_text(type<Ints>()->id()); wd_int(type<Ints>()->getValue<const Type*>("valueType") == type<int>()); }
void w_list_kind2() { kinds(type<Lists>()); wd_text(type<Lists>()->id()); wd_int(type<Lists>()->getValue<const Type*>("valueType") == type<Ints>()); }
void w_list_can() { abilities(type<Ints>()); }
void w_list_size(int n, const int* src) { Ints v = ints(n, src); wd_int(Value(v).call<size_t>("size")); show(v); }
void w_list_csize(int n, const int* src) { const Ints v = ints(n, src); wd_int(Value(v).call<size_t>("size")); show(v); }
void w_list_at(int n, const int* src, size_t i) { Ints v = ints(n, src); const int& r = Value(v).call<const int&>("at", i); wd_at(&r); wd_at(v.data()); show(v); }
void w_list_cat(int n, const int* src, size_t i) { const Ints v = ints(n, src); const int& r = Value(v).call<const int&>("at", i); wd_at(&r); wd_at(v.data()); show(v); }
void w_list_atv(int n, const int* src, size_t i) { const Ints v = ints(n, src); Value r = Value(v).call<Value>("at", i); wd_at(r.value()); wd_at(v.data()); wd_int(r.isConst()); wd_int(r.type() == type<int>()); }
void w_list_index(int n, const int* src, size_t i) { Ints v = ints(n, src); Value r = Value(v)[i]; wd_at(r.value()); wd_at(v.data()); wd_int(r.isConst()); wd_int(r.type() == type<int>()); }
void w_list_write(int n, const int* src, size_t i, int x) { Ints v = ints(n, src); Value(v)[i].assign(x); show(v); }
void w_list_clear(int n, const int* src) { Ints v = ints(n, src); Value(v).call<void>("clear"); show(v); }
void w_list_resize(int n, const int* src, size_t m) { Ints v = ints(n, src); Value(v).call<void>("resize", m); show(v); }
void w_list_push(int n, const int* src, int y) { Ints v = ints(n, src); const int x = y; Value(v).call<void>("push_back", x); show(v); }
void w_list_pushr(int n, const int* src, int y) { Ints v = ints(n, src); Value(v).call<void>("push_back", int(y)); show(v); }
void w_list_pushv(int n, const int* src, int y) { Ints v = ints(n, src); int x = y; Value a(x); Value(v).call<void>("push_back", a); show(v); }
void w_list_copy(int n, const int* src) { const Ints v = ints(n, src); Value c = type<Ints>()->construct(v); show(c.get<Ints>()); wd_int(c.value() != &v); show(v); }
void w_list_move(int n, const int* src) { Ints v = ints(n, src); Value c = type<Ints>()->construct(std::move(v)); show(c.get<Ints>()); }
void w_list_assign(int n, const int* src) { const Ints v = ints(n, src); Ints x = ints(2, src + 5); Value(x).assign(v); show(x); show(v); }
void w_list_default() { Value c = type<Ints>()->construct(); show(c.get<Ints>()); }
void w_list_items(Item& i) { std::vector<Item> v; wd_int(0); Value(v).call<void>("push_back", i); wd_int(v.size()); }
void w_list_citems(const Item& i) { std::vector<Item> v; wd_int(0); Value(v).call<void>("push_back", i); wd_int(v.size()); }
void w_list_ritems(Item& i) { std::vector<Item> v; wd_int(0); Value(v).call<void>("push_back", std::move(i)); wd_int(v.size()); wd_at(v.data()); }
void w_list_nested(int n, const int* src, int y) { Lists v; v.push_back(ints(n, src)); v.push_back(ints(1, src + 5)); Value r = Value(v)[size_t(0)]; r.call<void>("push_back", int(y)); show(v[0]); show(v[1]); wd_int(v.size()); }

// maps with up to two entries of unknown values, and an unknown key where keys are numbers
#define MAP(N, M, K, P, A, B)                                                   \
    void w_##N##_kind() { kinds(type<M>()); wd_text(type<M>()->id()); wd_int(type<M>()->getValue<const Type*>("keyType") == type<K>()); wd_int(type<M>()->getValue<const Type*>("valueType") == type<int>()); }  \
    void w_##N##_can() { abilities(type<M>()); }                                \
    void w_##N##_size(int n, const int* src) { const M m = make<M, K>(n, A, B, src); wd_int(Value(m).call<size_t>("size")); }  \
    void w_##N##_count(int n, const int* src, P k) { const M m = make<M, K>(n, A, B, src); wd_int(Value(m).call<size_t>("count", k)); wd_int(m.size()); }  \
    void w_##N##_at(int n, const int* src, P k) { const M m = make<M, K>(n, A, B, src); const int& r = Value(m).call<const int&>("at", k); wd_int(r); wd_int(m.size()); wd_int(&r == &m.find(k)->second); }  \
    void w_##N##_atv(int n, const int* src, P k) { M m = make<M, K>(n, A, B, src); Value r = Value(m).call<Value>("at", k); wd_int(r.get<int>()); wd_int(m.size()); wd_int(r.value() == &m.find(k)->second); wd_int(r.isConst()); }  \
    void w_##N##_index(int n, const int* src, P k) { M m = make<M, K>(n, A, B, src); Value r = Value(m)[k]; wd_int(r.get<int>()); wd_int(m.size()); wd_int(m.count(k)); wd_int(r.value() == &m.find(k)->second); wd_int(r.isConst()); }  \
    void w_##N##_write(int n, const int* src, P k, int x) { M m = make<M, K>(n, A, B, src); Value(m)[k].assign(x); wd_int(m.find(k)->second); wd_int(m.size()); }  \
    void w_##N##_keys(int n, const int* src) { const M m = make<M, K>(n, A, B, src); auto ks = Value(m).call< std::vector<K> >("keys"); wd_int(ks.size()); for (auto& k : ks) wd_int(k == A ? 0 : k == B ? 1 : 9); wd_int(m.size()); }  \
    void w_##N##_copy(int n, const int* src) { const M m = make<M, K>(n, A, B, src); Value c = type<M>()->construct(m); wd_int(c.value() != &m); const M& o = c.get<M>(); wd_int(o.size()); wd_int(m.size()); if (n > 0) wd_int(o.find(A)->second); if (n > 1) wd_int(o.find(B)->second); }
MAP(imap, Map, int, int, 3, 7)
MAP(smap, StringMap, std::string, const std::string&, "c", "g")
MAP(hash, Hash, std::string, const std::string&, "c", "g")

// smart pointers
#define SMART(N, P)                                                             \
    void w_##N##_kind(Item* p, Item* q) { const Type* t = type<P>(); kinds(t); wd_text(t->id()); wd_text(t->pointer()); wd_int(t->pointee() == type<Item>()); }  \
    void w_##N##_can(Item* p, Item* q) { abilities(type<P>()); }                \
    void w_##N##_get(Item* p, Item* q) { P s(p); wd_at(Value(s).call<Item*>("get")); wd_at(s.get()); wd_int(0); }   \
    void w_##N##_bool(Item* p, Item* q) { P s(p); wd_int(bool(Value(s))); wd_at(s.get()); wd_int(0); }   \
    void w_##N##_deref(Item* p, Item* q) { P s(p); Value r = *Value(s); wd_at(r.value()); wd_int(r.type() == type<Item>()); wd_at(s.get()); wd_int(0); }  \
    void w_##N##_eq(Item* p, Item* q) { P s(p), o(q); wd_int(Value(s) == o); wd_int(Value(s) == s); wd_int(0); }   \
    void w_##N##_make(Item* p, Item* q) { { Value v = type<P>()->construct(p); wd_int(v.type() == type<P>()); wd_at(v.get<P>().get()); wd_int(0); } wd_int(1); }  \
    void w_##N##_empty(Item* p, Item* q) { Value v = type<P>()->construct(); wd_int(v.type() == type<P>()); wd_at(v.get<P>().get()); wd_int(0); }  \
    void w_##N##_reset(Item* p, Item* q) { P s(p); Value(s).call<void>("reset"); wd_at(s.get()); wd_int(0); }   \
    void w_##N##_resetp(Item* p, Item* q) { P s(p); Value(s).call<void>("reset", q); wd_at(s.get()); wd_int(0); }   \
    void w_##N##_move(Item* p, Item* q) { P s(p); Value v = type<P>()->construct(std::move(s)); wd_at(s.get()); wd_at(v.get<P>().get()); wd_int(0); }
SMART(shared, Shared) SMART(unique, Unique)
void w_shared_copy(Item* p, Item* q) { const Shared s(p); Value v = type<Shared>()->construct(s); wd_at(s.get()); wd_at(v.get<Shared>().get()); wd_int(s.use_count()); wd_int(0); }
void w_unique_release(Item* p, Item* q) { Unique s(p); wd_at(Value(s).call<Item*>("release")); wd_at(s.get()); wd_int(0); }

}
