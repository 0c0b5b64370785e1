// Entry points for the analysis: the life of reflected functions.
#include "reflect.h"
#include "dsl/basics.h"
#include "dsl/plumbing.h"
#include "dsl/function.h"

using namespace reflect;

struct Fun
{
    Fun(); Fun(const Fun&); Fun(Fun&&); ~Fun();
    int operator() (int);
    int state[20];
};
struct CFun
{
    CFun(); CFun(const CFun&); CFun(CFun&&); ~CFun();
    int operator() (int) const;
    char state;
};
struct Copy // can only be copied
{
    Copy(); Copy(const Copy&); ~Copy();
    int operator() (int);
};
struct Once // can only be moved
{
    Once(); Once(Once&&); ~Once();
    int operator() (int);
};
struct Long { Long(); Long(const Long&); Long(Long&&); ~Long(); int operator() (int, int, int, int); };
struct None { None(); None(const None&); None(None&&); ~None(); int operator() (); };
struct Obj { int x; int mem(int); int cmem(int, int) const; };
reflectTypeDecl(Obj)
reflectTypeImpl(Obj) {}
int gfun(int);

extern "C" {

void wd_int(int v);
void wd_mark();
int wd_sum(int a, int b, int c, int d);
int wd_state(const void* p);

void w_type(Type* t, const std::string& id) { new (t) Type(id); }
void w_scope(Scope* s) { new (s) Scope; }
void w_reflect_void(Type* t) { Reflect<void>::reflect(t); }
void w_reflect_int(Type* t) { Reflect<int>::reflect(t); }
void w_reflect_Obj(Type* t) { Reflect<Obj>::reflect(t); }

#define GIVEN(T, N)                                                             \
    void w_##N##_rvalue(T& x, T& y, Type* t) { Function f("f", std::move(x)); wd_int(f.call<int>(21)); wd_int(f.call<int>(22)); }  \
    void w_##N##_unused(T& x, T& y, Type* t) { Function f("f", std::move(x)); }          \
    void w_##N##_nameless(T& x, T& y, Type* t) { Function f("", std::move(x)); wd_int(f.call<int>(21)); }  \
    void w_##N##_moved(T& x, T& y, Type* t) { Function f("f", std::move(x)); Function g(std::move(f)); wd_int(g.call<int>(21)); }  \
    void w_##N##_movedTwice(T& x, T& y, Type* t) { Function f("f", std::move(x)); Function g(std::move(f)); Function h(std::move(g)); wd_int(h.call<int>(21)); }  \
    void w_##N##_assigned(T& x, T& y, Type* t) { Function f("f", std::move(x)); Function g("g", std::move(y)); g = std::move(f); wd_mark(); wd_int(g.call<int>(21)); }  \
    void w_##N##_refilled(T& x, T& y, Type* t) { Function f("f", std::move(x)); Function g(std::move(f)); f = Function("f", std::move(y)); wd_int(f.call<int>(22)); wd_int(g.call<int>(21)); }  \
    void w_##N##_swapped(T& x, T& y, Type* t) { Function f("f", std::move(x)); Function g("g", std::move(y)); std::swap(f, g); wd_int(g.call<int>(21)); wd_int(f.call<int>(22)); }  \
    void w_##N##_self(T& x, T& y, Type* t) { Function f("f", std::move(x)); Function& r = f; f = std::move(r); wd_int(f.call<int>(21)); }  \
    void w_##N##_type(T& x, T& y, Type* t) { t->addFunction("f", std::move(x)); wd_int(t->call<int>("f", 21)); wd_int(t->call<int>("f", 22)); }  \
    void w_##N##_scope(T& x, T& y, Type* t, Scope* s) { s->addFunction("f", std::move(x)); wd_int(s->call<int>("f", 21)); wd_int(s->call<int>("f", 22)); }

#define GIVENCOPY(T, N)                                                         \
    void w_##N##_lvalue(T& x, T& y, Type* t) { Function f("f", x); wd_int(f.call<int>(21)); wd_int(f.call<int>(22)); }  \
    void w_##N##_const(const T& x, T& y, Type* t) { Function f("f", x); wd_int(f.call<int>(21)); }  \
    void w_##N##_typeLvalue(T& x, T& y, Type* t) { t->addFunction("f", x); wd_int(t->call<int>("f", 21)); }  \
    void w_##N##_typeConst(const T& x, T& y, Type* t) { t->addFunction("f", x); wd_int(t->call<int>("f", 21)); }  \
    void w_##N##_scopeLvalue(T& x, T& y, Type* t, Scope* s) { s->addFunction("f", x); wd_int(s->call<int>("f", 21)); }  \
    void w_##N##_scopeConst(const T& x, T& y, Type* t, Scope* s) { s->addFunction("f", x); wd_int(s->call<int>("f", 21)); } \
    void w_##N##_dsl(T& x, T& y, Type* t) { reflectFunction(t, "f", x); wd_int(t->call<int>("f", 21)); }

GIVEN(Fun, Fun) GIVENCOPY(Fun, Fun)
GIVEN(CFun, CFun) GIVENCOPY(CFun, CFun)
GIVEN(Copy, Copy) GIVENCOPY(Copy, Copy)
GIVEN(Once, Once)

// other numbers of arguments
void w_Long_moved(Long& x, Long& y) { Function f("f", x); Function g(std::move(f)); wd_int(g.call<int>(1, 2, 3, 4)); }
void w_Long_unused(Long& x, Long& y) { Function f("f", x); }
void w_None_moved(None& x, None& y) { Function f("f", x); Function g(std::move(f)); wd_int(g.call<int>()); }
void w_None_unused(None& x, None& y) { Function f("f", x); }

// functions of one name side by side
void w_overloads(Fun& x, None& y, Long& z)
{
    Overloads o;
    o.add(Function("f", x)); o.add(Function("f", y)); o.add(Function("f", z));
    wd_int(o.call<int>(21)); wd_int(o.call<int>()); wd_int(o.call<int>(1, 2, 3, 4)); wd_int(o.call<int>(22));
}

// state which is plain data arrives as it was
void w_capture(int a, int b, int c)
{
    auto fn = [=] (int n) { return wd_sum(a, b, c, n); };
    Function f("f", fn);
    Function g(std::move(f));
    wd_int(g.call<int>(21));
}
void w_counter()
{
    int n = 5;
    Function f("f", [=] () mutable { return ++n; });
    wd_int(f.call<int>()); wd_int(f.call<int>());
    Function g(std::move(f));
    wd_int(g.call<int>()); wd_int(n);
}
void w_reference()
{
    int n = 5;
    Function f("f", [&n] (int i) { n += i; });
    f.call<void>(3); f.call<void>(4); wd_int(n);
}
void w_pointer() { Function f("f", &gfun); Function g(std::move(f)); wd_int(g.call<int>(21)); }
void w_pointerLvalue() { int (*fn)(int) = &gfun; Function f("f", fn); fn = nullptr; wd_int(f.call<int>(21)); }
void w_member(Obj& o) { Function f("f", &Obj::mem); Function g(std::move(f)); wd_int(g.call<int>(o, 21)); }
void w_cmember(Obj& o) { Function f("f", &Obj::cmem); Function g(std::move(f)); wd_int(g.call<int>(o, 21, 22)); }

}
