import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
HEAD = r'''
#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
using namespace reflect;
#define REQUIRE(c) do { if (!(c)) { fprintf(stderr, "line %d: %s\n", __LINE__, #c); exit(3); } } while (0)
// True when f() ends in the library's error handler (which aborts) instead of returning.
template<typename F> bool fails(F f) {
    fflush(0);
    pid_t pid = fork();
    if (!pid) { if (!freopen("/dev/null", "w", stderr)) _exit(9); f(); _exit(0); }
    int status; waitpid(pid, &status, 0);
    return WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT;
}
'''
HEAD = HEAD.replace('#include <sys/wait.h>', '#include <signal.h>\n#include <sys/wait.h>')
TYPES = r'''
struct Base { int b; Base(int b = 0) : b(b) {} };
struct Derived : public Base { int d; Derived(int d = 0) : Base(d), d(d) {} };
struct Other { int x; Other() : x(7) {} };
reflectType(Base) { reflectPlumbing(); reflectField(b); }
reflectType(Derived) { reflectParent(Base); reflectPlumbing(); reflectField(d); }
reflectType(Other) { reflectPlumbing(); reflectField(x); }
'''
def mk(body, types=TYPES): return HEAD + types + 'int main() {\n' + body + '\n    return 0;\n}\n'

seed('const-member-on-copy', 'C01',
 [('src/value_function.h', '        return (cast<Obj&>(obj).*fn)(cast<Args>(values)...);',
   '        typedef typename std::remove_reference<Obj>::type Bare;\n        typename std::conditional<std::is_const<Bare>::value && std::is_copy_constructible<Bare>::value, Bare, Obj&>::type self(cast<Obj&>(obj));\n        return (self.*fn)(cast<Args>(values)...);')],
 mk('''
    Counter c;
    Function fn("hit", &Counter::hit);
    fn.call<void>(c); fn.call<void>(c);
    REQUIRE(c.hits == 2);
''', TYPES + '''
struct Counter { mutable int hits; Counter() : hits(0) {} Counter(const Counter& o) : hits(o.hits) {} void hit() const { hits++; } };
reflectType(Counter) { reflectPlumbing(); }
'''), 'a const member function with a side effect on the object (a mutable member) or that returns a reference into it',
 'const member functions run on a temporary copy of the object instead of the object passed')

seed('converter-to-base', 'C02',
 [('src/argument.cpp', 'if (type()->hasConverter(target.type())) {', 'if (type()->hasConverter(target.type()) && !target.type()->isParentOf(type())) {')],
 mk('''
    Argument value(type<Conv>(), RefType::LValue, false);
    REQUIRE(value.isConvertibleTo(Argument(type<Base>(), RefType::LValue, true)) == Match::None);
    REQUIRE(value.isConvertibleTo(Argument(type<Base>(), RefType::RValue, false)) == Match::Partial);
''', TYPES + '''
struct Conv : public Base { operator Other() const { return Other(); } };
reflectType(Conv) { reflectParent(Base); reflectPlumbing(); reflectCustom(operator Base()) (const Conv& c) -> Base { return Base(c.b); }; }
'''), 'a type that is both derived from the parameter type and has a user conversion to it',
 'user conversions stop taking part in the match once the argument type is derived from the target')

seed('last-argument-decides', 'C03',
 [('src/function.cpp', 'match = combine(match, value[i].isConvertibleTo(target[i]));', 'match = value[i].isConvertibleTo(target[i]);')],
 mk('''
    Function fn("f", [] (const Base&, const Base&) {});
    Base b; Derived d;
    REQUIRE((fn.test<void(const Base&, const Base&)>() == Match::Exact));
    REQUIRE((fn.test<void(const Base&, const Derived&)>() == Match::Exact));
    REQUIRE((fn.test<void(Base&, const Base&)>() == Match::Partial));
    REQUIRE((fn.test<void(const Base&, Base&)>() == Match::Partial));
'''), 'several arguments of which an earlier one matches partially and the last one exactly',
 'the overall match is the match of the last argument instead of the weakest one')

seed('third-overload-ambiguity', 'C04',
 [('src/overloads.tcc', '            ambiguous = true;\n            continue;', '            ambiguous = !ambiguous;\n            continue;')],
 mk('''
    Overloads o;
    int which = 0;
    o.add(Function("f", [&] (const Base&) { which = 1; }));
    o.add(Function("f", [&] (Base) { which = 2; }));
    const Derived d(3); Derived m(3);
    REQUIRE(fails([&] { o.call<void>(m); }));
    o.add(Function("f", [&] (const Base&, int) { which = 9; }));
    o.add(Function("f", [&] (const Derived&) { which = 3; }));
    o.call<void>(d);
    REQUIRE(which == 1);
    REQUIRE(fails([&] { o.call<void>(m); }));
'''), 'exactly three partially matching overloads and no exact one',
 'three partial matches are no longer reported as ambiguous: the first one runs')

seed('as-sibling', 'C06',
 [('src/value.tcc', 'if (!type()->isChildOf<T>()) {', 'if (!type()->isChildOf<T>() && !reflect::type<T>()->isChildOf(type())) {')],
 mk('''
    Base b(4);
    Value v(b);
    REQUIRE(&v.as<Base>() == &b);
    REQUIRE(fails([&] { v.as<Derived>(); }));
    REQUIRE(fails([&] { v.as<Other>(); }));
'''), 'a value holding a base object read as the derived class', 'downcasting without any check reads past the object')

seed('const-field-of-rvalue', 'C07',
 [('src/value.tcc', 'f.argument().isConst() || this->isConst()', 'f.argument().isConst() || (this->isConst() && refType() != RefType::RValue)')],
 mk('''
    Base b(4);
    Value v(b);
    Value c = v.toConst();
    REQUIRE(c.isConst());
    REQUIRE(c.field<Value>("b").isConst());
    const Base cb(5);
    REQUIRE(Value(cb).field<Value>("b").isConst());
    REQUIRE(fails([&] { Value f = c.field<Value>("b"); cast<int&>(f) = 3; }));
'''), 'a field read through a const rvalue view of a mutable object', 'fields of const rvalue views are handed out mutable')

seed('move-keeps-storage', 'C08',
 [('src/value.cpp', 'Value(Value&& other) :\n    arg(std::move(other.arg)),\n    value_(std::move(other.value_)),\n    storage(std::move(other.storage))\n{}',
   'Value(Value&& other) :\n    arg(std::move(other.arg)),\n    value_(std::move(other.value_)),\n    storage()\n{\n    if (!other.isConst()) storage.swap(other.storage);\n}')],
 mk('''
    static int alive;
    struct Local { };
    Tracked::alive = 0;
    {
        const Tracked t;
        Value v((Tracked()));
        Value c = v.toConst();
        v = Value();
        REQUIRE(c.as<Tracked>().magic == 42);
        Value d(std::move(c));
        { Value dead(std::move(c)); c = Value(); }
        REQUIRE(Tracked::alive == 2);
        REQUIRE(d.as<Tracked>().magic == 42);
    }
    REQUIRE(Tracked::alive == 0);
''', TYPES + '''
struct Tracked { static int alive; int magic; Tracked() : magic(42) { alive++; } Tracked(const Tracked&) : magic(42) { alive++; } ~Tracked() { magic = 0; alive--; } };
int Tracked::alive = 0;
reflectType(Tracked) { reflectPlumbing(); }
'''), 'moving a const value that is the only owner of its object', 'ownership of const values is not handed over by a move, leaving the target dangling')
