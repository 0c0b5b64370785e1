import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds2.py')).read()
exec(src[:src.index("seed('function-over-first-field'")])
CLASSES = '''
struct Truth { int x; operator bool() const { return x; } };
struct Sick { int x; bool operator!() const { return x < 0; } operator bool() const { return x; } };
reflectTypeDecl(Truth) reflectTypeDecl(Sick)
reflectTypeImpl(Truth) { reflectPlumbing(); reflectOpCast(bool); }
reflectTypeImpl(Sick) { reflectPlumbing(); reflectOperators(); reflectOpCast(bool); }
'''
seed('truth-by-negation', 'C34',
 [('src/value.cpp', '    return call<bool>("operator bool()");', '    return type()->hasFunction("operator!") ? !call<bool>("operator!") : call<bool>("operator bool()");')],
 mk('''
    Truth yes { 1 };
    Sick sick { -1 }, zero { 0 };
    REQUIRE((bool) Value(yes));
    REQUIRE(!Value(sick)); REQUIRE((bool) Value(sick));
    REQUIRE(!((bool) Value(zero)));
''', CLASSES), 'a type of which the truth is not the negation of its operator !', 'the conversion to bool runs operator !')

seed('call-drops-arguments', 'C34',
 [('src/value.h', '    reflectValueOpNary  (operator())', '''    Value operator()() const { return call<Value>("operator()"); }
    template<typename A> Value operator()(A&& a) const { return call<Value>("operator()", std::forward<A>(a)); }
    template<typename A, typename B, typename... Rest>
    Value operator()(A&& a, B&& b, Rest&&...) const { return call<Value>("operator()", std::forward<A>(a), std::forward<B>(b)); }''')],
 mk('''
    Fun f;
    Value v(f);
    REQUIRE(v(1).get<int>() == 1);
    REQUIRE(v(1, 2).get<int>() == 12);
    REQUIRE(fails([&] { v(1, 2, 3); }));
''', '''struct Fun { int operator()(int a) const { return a; } int operator()(int a, int b) const { return 10 * a + b; } };
reflectTypeDecl(Fun)
reflectTypeImpl(Fun) { reflectPlumbing(); reflectFnTyped(operator(), int (T_::*) (int) const); reflectFnTyped(operator(), int (T_::*) (int, int) const); }
'''), 'a value called with more than two arguments', 'the third and later arguments of a call are dropped, so a call with too many runs')

seed('alias-replaced', 'C13',
 [('src/registry.cpp', '    if (!ret.second) {\n', '    if (!ret.second && registry.types.count(ret.first->second)) ret.first->second = id;\n    else if (!ret.second) {\n')],
 mk('''
    Registry::add("one", [] (Type*) {});
    Registry::add("two", [] (Type*) {});
    Registry::alias("one", "name");
    const Type* one = Registry::get("name");
    REQUIRE(one == Registry::get("one"));
    REQUIRE(fails([] { Registry::alias("two", "name"); }));
'''), 'an alias given twice, the type of the first one in use already', 'the alias then means another type')

seed('alias-of-alias', 'C13',
 [('src/registry.cpp', '    if (aliasIt != registry.aliases.end())\n        pId = &aliasIt->second;', '    for (; aliasIt != registry.aliases.end(); aliasIt = registry.aliases.find(*pId))\n        pId = &aliasIt->second;')],
 mk('''
    Registry::add("real", [] (Type*) {});
    Registry::add("other", [] (Type*) {});
    Registry::alias("real", "brief");
    REQUIRE(Registry::get("brief") == Registry::get("real"));
    // the type of that very name, although the name is an alias as well
    Registry::alias("other", "real");
    REQUIRE(Registry::get("brief")->id() == "real");
'''), 'a name which is both a type and an alias of another, and an alias of that name', 'a lookup goes on to the other type')

seed('far-fields-first', 'C32',
 [('src/type.cpp', '                return lhs->offset() < rhs->offset();', '                return int16_t(lhs->offset()) < int16_t(rhs->offset());')],
 mk('''
    Type t("T");
    t.addField<int>("near", 4); t.addField<int>("far", 40000); t.addField<int>("mid", 1000);
    std::string s = t.print();
    REQUIRE(s.find(" near") != std::string::npos && s.find(" far") != std::string::npos);
    REQUIRE(s.find(" near") < s.find(" mid") && s.find(" mid") < s.find(" far"));
'''), 'a type with members more than 32767 bytes into it', 'fields are not described in the order of their offsets')
