// What the library says about C++ types and signatures.
#include "reflect.h"
#include "dsl/basics.h"
#include "dsl/type.h"
#include "dsl/template.h"
#include "types/pointer.h"
#include "types/primitives.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include <functional>

using namespace reflect;

struct Foo { int x; };
struct Bar { int y; };
namespace deep { struct Nest {}; }
reflectType(Foo) {}
reflectType(Bar) {}
reflectType(deep::Nest) {}
template<typename T> struct Box { T t; };
reflectTemplate(Box, T) {}

extern "C" {
void ws_arg(const Type* type, int ref, bool isConst);
void ws_text(const std::string& text);
void ws_count(size_t n);
}

static int ref(RefType r)
{
    if (r == RefType::Copy) return 0;
    if (r == RefType::LValue) return 1;
    if (r == RefType::RValue) return 2;
    return 9;
}

static void see(const Argument& a) { ws_arg(a.type(), ref(a.refType()), a.isConst()); }
static void see(const std::vector<Argument>& v) { ws_count(v.size()); for (size_t i = 0; i < v.size(); ++i) see(v[i]); }
static void see(const Function& f)
{
    see(f.returnType());
    ws_count(f.arguments());
    for (size_t i = 0; i < f.arguments(); ++i) see(f.argument(i));
}

#define FORMS(X)                                                                \
    X(0, Foo) X(1, const Foo) X(2, Foo&) X(3, const Foo&) X(4, Foo&&) X(5, const Foo&&)  \
    X(6, Foo*) X(7, const Foo*) X(8, Foo* const) X(9, Foo*&) X(10, Foo* const&) X(11, Foo*&&) X(12, const Foo*&) \
    X(13, Foo**) X(14, void) X(15, int) X(16, const int&) X(17, Value) X(18, const Value&) X(19, Value&) X(20, Value&&) \
    X(21, std::vector<Foo>) X(22, const std::vector<Foo*>&) X(23, std::shared_ptr<Foo>) X(24, Box<Bar>&) X(25, bool) X(26, double&&) \
    X(27, const Foo* const) X(28, Bar) X(29, deep::Nest&)

template<typename F> static void sig() { see(reflectReturn<F>()); see(reflectArguments<F>()); }
// callables of every kind
struct Obj
{
    void plain(Foo) {}
    Bar kept(const Foo&, Foo&) const { return Bar(); }
    Foo& none() { return *new Foo(); }
    const Foo& constNone() const { return *new Foo(); }
    static int fixed(Foo*, const Bar*) { return 0; }
    Foo&& five(int, int&, int&&, const int&, const int*) { return std::move(*new Foo()); }
    void operator()(int) {}
    Value generic(Value, const Value&, Value&, Value&&) { return Value(); }
};
reflectType(Obj) {}
struct ConstCall { Bar operator()(Foo&&, Bar&) const { return Bar(); } };

extern "C" {

#define X(k, ...) void w_make_##k() { see(Argument::make<__VA_ARGS__>()); }
FORMS(X)
#undef X
#define X(k, ...) void w_id_##k() { ws_text(typeId<__VA_ARGS__>()); }
FORMS(X)
X(30, std::vector<std::vector<Foo>>)
X(31, std::map<Foo, std::vector<Bar>>)
X(32, std::unordered_map<int, Foo>)
X(33, std::shared_ptr<const Foo>)
X(34, std::unique_ptr<Box<Bar*>>)
X(35, Box<Box<int>>)
X(36, Foo***)
X(37, std::vector<std::map<int, std::shared_ptr<Foo>>>)
#undef X
#define X(k, ...) void w_show_##k() { ws_text(printArgument<__VA_ARGS__>()); }
FORMS(X)
#undef X

// deduced from values
void w_value_lvalue(Foo& x) { see(Argument::make(x)); }
void w_value_const(const Foo& x) { see(Argument::make(x)); }
void w_value_moved(Foo& x) { see(Argument::make(std::move(x))); }
void w_value_constmoved(const Foo& x) { see(Argument::make(std::move(x))); }
void w_value_temporary() { see(Argument::make(Foo())); }
void w_value_pointer(Foo* x) { see(Argument::make(x)); }
void w_value_constpointer(Foo* const& x) { see(Argument::make(x)); }
void w_value_pointertoconst(const Foo* x) { see(Argument::make(std::move(x))); }
void w_value_list(Foo& a, const Bar& b, Foo* c) { see(reflectArguments(a, b, std::move(a), c, 3)); }
void w_value_values(Foo& x, const Bar& y)
{
    Value a(x), b(y), t;
    Value c = a.rvalue();
    const Value& ca = a;
    see(reflectArguments(ca, b, x, std::move(b), ca, c, t));
}

void w_fn_free0(void (*p)()) { see(Function("f", p)); }
void w_fn_free1(Foo (*p)(Bar)) { see(Function("f", p)); }
void w_fn_free2(const Foo& (*p)(Bar&, const Bar&)) { see(Function("f", p)); }
void w_fn_free3(Foo* (*p)(Bar&&, int*, const double)) { see(Function("f", p)); }
void w_fn_free4(const Foo* (*p)(Foo, Bar, Foo&, Bar&)) { see(Function("f", p)); }
void w_fn_member() { see(Function("f", &Obj::plain)); }
void w_fn_constMember() { see(Function("f", &Obj::kept)); }
void w_fn_noArgs() { see(Function("f", &Obj::none)); }
void w_fn_constNoArgs() { see(Function("f", &Obj::constNone)); }
void w_fn_static() { see(Function("f", &Obj::fixed)); }
void w_fn_five() { see(Function("f", &Obj::five)); }
void w_fn_functor() { see(Function("f", Obj())); }
void w_fn_constFunctor() { see(Function("f", ConstCall())); }
void w_fn_lambda(int k) { see(Function("f", [=] (Foo&, const Bar*) { return k; })); }
void w_fn_mutableLambda(int k) { see(Function("f", [=] (Foo&&) mutable -> const Bar& { ++k; return *new Bar(); })); }
void w_fn_generic() { see(Function("f", &Obj::generic)); }

// signatures by themselves
void w_sig_0() { sig<void()>(); }
void w_sig_1() { sig<Foo&(const Bar&)>(); }
void w_sig_2() { sig<const Foo&(Bar&&, Foo*, int)>(); }
void w_sig_3() { sig<Value(Value, const Value&)>(); }
void w_sig_4() { sig<int(*)(Foo, Bar&)>(); }

// printed
void w_print_0() { ws_text(signature<void()>()); }
void w_print_1() { ws_text(signature<Foo&(const Bar&)>()); }
void w_print_2() { ws_text(signature<const Foo&(Bar&&, Foo*, int)>()); }
void w_print_3(Bar& (*p)(Foo, const Foo&)) { ws_text(signature(Function("f", p))); }
void w_print_4(void (*p)()) { ws_text(signature(Function("f", p))); }
void w_print_5(void (*p)(const Bar*)) { ws_text(signature(Function("name", p))); }
void w_match(std::ostream& out, int k)
{
    const Match m[] = { Match::None, Match::Partial, Match::Exact };
    out << m[k];
}
void w_ref(std::ostream& out, int k)
{
    const RefType r[] = { RefType::Copy, RefType::LValue, RefType::RValue };
    out << r[k];
}

}
