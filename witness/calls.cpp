// Entry points for the analysis: every function below only uses the public
// interface.  Nothing here is ever executed; the units are compiled to IR and
// analysed together with the library's own sources.
#include "reflect.h"
#include "dsl/basics.h"

using namespace reflect;

struct Foo { int x; };
struct Bar { int y; };
reflectType(Foo) {}
reflectType(Bar) {}

static RefType ref(int r)
{
    switch (r) {
    case 0: return RefType::Copy;
    case 1: return RefType::LValue;
    default: return RefType::RValue;
    }
}

static int match(Match m)
{
    switch (m) {
    case Match::None: return 0;
    case Match::Partial: return 1;
    case Match::Exact: return 2;
    default: return 9;
    }
}

extern "C" {

// ---- argument conversion
int w_conv(const Type* at, int ar, bool ac, const Type* bt, int br, bool bc)
{
    return match(Argument(at, ref(ar), ac).isConvertibleTo(Argument(bt, ref(br), bc)));
}

int w_combine(int a, int b)
{
    Match m[3] = { Match::None, Match::Partial, Match::Exact };
    return match(combine(m[a], m[b]));
}

bool w_arg_isVoid(const Type* t, int r, bool c) { return Argument(t, ref(r), c).isVoid(); }
bool w_arg_isConstRef(const Type* t, int r, bool c) { return Argument(t, ref(r), c).isConstRef(); }
bool w_arg_isTemporary(const Type* t, int r, bool c) { return Argument(t, ref(r), c).isTemporary(); }
bool w_arg_isLValueRef(const Type* t, int r, bool c) { return Argument(t, ref(r), c).isLValueRef(); }
bool w_arg_eq(const Type* at, int ar, bool ac, const Type* bt, int br, bool bc)
{
    return Argument(at, ref(ar), ac) == Argument(bt, ref(br), bc);
}


// ---- function matching: the given argument list against real signatures
#define TESTFN(name, sig)                                                       \
    int w_test_##name(sig* p, const Type* rt, int rr, bool rc,                  \
            const Type* a0, const Type* a1, const Type* a2, const Type* a3, int n)  \
    {                                                                           \
        std::vector<Argument> args;                                             \
        if (n > 0) args.push_back(Argument(a0, RefType::Copy, false));          \
        if (n > 1) args.push_back(Argument(a1, RefType::LValue, true));         \
        if (n > 2) args.push_back(Argument(a2, RefType::RValue, false));        \
        if (n > 3) args.push_back(Argument(a3, RefType::LValue, false));        \
        Function f("f", p);                                                     \
        return match(f.test(Argument(rt, ref(rr), rc), args));                  \
    }

typedef void Sig0();
typedef void Sig1(Foo);
typedef void Sig2(Foo, Bar&);
typedef void Sig3(Foo, Bar&, const Foo&);
TESTFN(v0, Sig0)
TESTFN(v1, Sig1)
TESTFN(v2, Sig2)
TESTFN(v3, Sig3)

// long parameter lists
#define TESTLONG(N, ...)                                                        \
    int w_test_long##N(void (*p)(__VA_ARGS__), const Type* a0, const Type* a1, const Type* a2, \
            const Type* a3, const Type* a4, const Type* a5, const Type* a6, const Type* a7,    \
            const Type* a8, const Type* a9, const Type* a10, const Type* a11, const Type* a12, \
            const Type* a13, const Type* a14, const Type* a15, const Type* a16, const Type* a17, int n) \
    {                                                                           \
        const Type* all[] = { a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17 }; \
        std::vector<Argument> args;                                             \
        for (int i = 0; i < n; ++i) args.push_back(Argument(all[i], RefType::Copy, false)); \
        Function f("f", p);                                                     \
        return match(f.test(Argument::make<void>(), args));                     \
    }
TESTLONG(5, Foo, Foo, Foo, Foo, Foo)
TESTLONG(9, Foo, Foo, Foo, Foo, Foo, Foo, Foo, Foo, Foo)
TESTLONG(17, Foo, Foo, Foo, Foo, Foo, Foo, Foo, Foo, Foo, Foo, Foo, Foo, Foo, Foo, Foo, Foo, Foo)

typedef Value RValue_();
typedef Value& RValueL();
typedef const Value& RValueCL();
typedef Value&& RValueR();
typedef Foo RFoo();
typedef const Foo RFooC();
typedef Foo& RFooL();
typedef const Foo& RFooCL();
typedef Foo&& RFooR();
TESTFN(rVoid, Sig0)
TESTFN(rValue, RValue_)
TESTFN(rValueL, RValueL)
TESTFN(rValueCL, RValueCL)
TESTFN(rValueR, RValueR)
TESTFN(rFoo, RFoo)
TESTFN(rFooC, RFooC)
TESTFN(rFooL, RFooL)
TESTFN(rFooCL, RFooCL)
TESTFN(rFooR, RFooR)

int w_test_fn(Sig2* p, Sig3* q, Sig2* r)
{
    Function f("f", p), g("g", q), h("h", r);
    return match(f.test(g)) * 100 + match(f.test(h)) * 10 + match(g.test(f));
}

} // extern C

// the three other ways of asking the same question
typedef Foo SigA(Foo, const Bar&);
typedef Foo SigB(const Foo&, Bar);
extern "C" {
int w_test_same_vec(SigA* p)
{
    Function f("f", p);
    std::vector<Argument> a;
    a.push_back(Argument::make<const Foo&>()); a.push_back(Argument::make<Bar>());
    return match(f.test(Argument::make<Foo>(), a));
}
int w_test_same_fn(SigA* p, SigB* q)
{
    Function f("f", p), g("g", q);
    return match(f.test(g));
}
int w_test_same_tmpl(SigA* p)
{
    Function f("f", p);
    return match(f.test<SigB>());
}
int w_test_same_params(SigA* p, const Foo& x, Bar& y)
{
    Function f("f", p);
    return match(f.testParams<Foo>(x, std::move(y)));
}
int w_test_same_values(SigA* p, const Foo& x, Bar& y)
{
    Function f("f", p);
    Value a(x); const Value b(y);
    return match(f.testParams<Foo>(a, b));
}
int w_test_same_rvalues(SigA* p, Foo& x, const Bar& y)
{
    Function f("f", p);
    Value a(x); Value b(y);
    return match(f.testParams<Foo>(std::move(a), std::move(b)));
}
} // extern C

// ---- calling
struct Obj
{
    long mem(Foo&, const Bar&);
    long cmem(Bar&, const Foo&) const;
    void vmem(Foo&);
};
struct Fun
{
    long operator()(const Foo&, Bar&, Foo&) const;
};
reflectType(Obj) {}
reflectType(Fun) {}

typedef long SigM(Foo&, const Bar&, Foo, Bar&&);
typedef long SigR(Foo&, Foo&, Foo&);
typedef void SigVoid(Bar&);
typedef Foo& SigRef(Foo&);

extern "C" {

long w_call_global(SigR* p, Foo& a, Foo& b, Foo& c)
{
    Function f("f", p);
    return f.call<long>(a, b, c);
}
long w_call_mixed(SigM* p, Foo& a, const Bar& b, Foo& c, Bar& d)
{
    Function f("f", p);
    return f.call<long>(a, b, c, std::move(d));
}
long w_call_member(Obj& o, Foo& a, Bar& b)
{
    Function f("f", &Obj::mem);
    return f.call<long>(o, a, b);
}
long w_call_cmember(Obj& o, Bar& a, Foo& b)
{
    Function f("f", &Obj::cmem);
    return f.call<long>(o, a, b);
}
long w_call_functor(const Fun& fun, Foo& a, Bar& b, Foo& c)
{
    Function f("f", fun);
    return f.call<long>(a, b, c);
}
void w_call_void(SigVoid* p, Bar& b)
{
    Function f("f", p);
    f.call<void>(b);
}
long w_call_values(SigR* p, Value& a, const Value& b, Value& c)
{
    Function f("f", p);
    return f.call<long>(a, b, c);
}
long w_call_few(SigR* p, Foo& a, Foo& b)
{
    Function f("f", p);
    return f.call<long>(a, b);
}
long w_call_many(SigR* p, Foo& a, Foo& b, Foo& c, Foo& d)
{
    Function f("f", p);
    return f.call<long>(a, b, c, d);
}

// every number of arguments against every number of parameters
#define FOOS0
#define FOOS1 Foo&
#define FOOS2 FOOS1, Foo&
#define FOOS3 FOOS2, Foo&
#define FOOS4 FOOS3, Foo&
#define FOOS5 FOOS4, Foo&
#define ARGS0
#define ARGS1 a0
#define ARGS2 ARGS1, a1
#define ARGS3 ARGS2, a2
#define ARGS4 ARGS3, a3
#define ARGS5 ARGS4, a4
#define CALLPN(p, n)                                                            \
    void w_call_v_##p##_##n(void (*fp)(FOOS##p), Foo& a0, Foo& a1, Foo& a2, Foo& a3, Foo& a4)  \
    {                                                                           \
        Function f("f", fp);                                                    \
        f.call<void>(ARGS##n);                                                  \
    }                                                                           \
    long w_call_l_##p##_##n(long (*fp)(FOOS##p), Foo& a0, Foo& a1, Foo& a2, Foo& a3, Foo& a4)  \
    {                                                                           \
        Function f("f", fp);                                                    \
        return f.call<long>(ARGS##n);                                           \
    }
#define CALLP(p) CALLPN(p, 0) CALLPN(p, 1) CALLPN(p, 2) CALLPN(p, 3) CALLPN(p, 4) CALLPN(p, 5)
CALLP(0) CALLP(1) CALLP(2) CALLP(3) CALLP(4) CALLP(5)

// many arguments, each of its own class
#define K(N) struct K##N {}; reflectType(K##N) {}
} // extern C
K(0) K(1) K(2) K(3) K(4) K(5) K(6) K(7) K(8) K(9) K(10) K(11)
extern "C" {
long w_call_12(long (*fp)(K0&, K1&, K2&, K3&, K4&, K5&, K6&, K7&, K8&, K9&, K10&, K11&),
        K0& a, K1& b, K2& c, K3& d, K4& e, K5& f, K6& g, K7& h, K8& i, K9& j, K10& k, K11& l)
{
    Function fn("f", fp);
    return fn.call<long>(a, b, c, d, e, f, g, h, i, j, k, l);
}

// ---- overloads
static void fill(Overloads& o, int n, SigVoid* p)
{
    if (n > 0) o.add(Function("f0", p));
    if (n > 1) o.add(Function("f1", p));
    if (n > 2) o.add(Function("f2", p));
    if (n > 3) o.add(Function("f3", p));
    static const char* names[] = { "f4", "f5", "f6", "f7", "f8", "f9", "f10", "f11", "f12", "f13", "f14", "f15", "f16" };
    for (int i = 4; i < n; ++i) o.add(Function(names[i - 4], p));
}
void w_over_call(SigVoid* p, int n, Bar& b)
{
    Overloads o; fill(o, n, p);
    o.call<void>(b);
}
bool w_over_test(SigVoid* p, int n)
{
    Overloads o; fill(o, n, p);
    std::vector<Argument> args;
    return o.test(Argument::make<void>(), args);
}
bool w_over_test_sig(SigVoid* p, int n)
{
    Overloads o; fill(o, n, p);
    return o.test<SigVoid>();
}
bool w_over_test_fn(SigVoid* p, int n)
{
    Overloads o; fill(o, n, p);
    return o.test(Function("other", p));
}
int w_over_get(SigVoid* p, int n)
{
    Overloads o; fill(o, n, p);
    std::vector<Argument> args;
    const Function& f = o.get(Argument::make<void>(), args);
    for (int i = 0; i < n; ++i) if (&f == &o[i]) return i;
    return 99;
}
int w_over_get_sig(SigVoid* p, int n)
{
    Overloads o; fill(o, n, p);
    const Function& f = o.get<SigVoid>();
    for (int i = 0; i < n; ++i) if (&f == &o[i]) return i;
    return 99;
}
int w_over_add(SigVoid* p, int n)
{
    Overloads o; fill(o, n, p);
    o.add(Function("new", p));
    if (o.size() != (size_t) n + 1) return 98;
    const std::string& s = o[n].name();
    if (s == "new") return 1;
    return 97;
}
} // extern C
