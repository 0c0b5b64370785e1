import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds2.py')).read()
exec(src[:src.index("seed('function-over-first-field'")])
J = 'src/utils/json/'

seed('ninth-argument', 'C03',
 [('src/function.cpp', '    for (size_t i = 0; i < target.size(); ++i) {', '    for (size_t i = 0, n = std::min<size_t>(target.size(), 8); i < n; ++i) {')],
 mk('''
    Function nine("nine", &nineFn), three("three", &threeFn);
    Argument i = Argument::make<int>(), o = Argument::make<Other>();
    REQUIRE(nine.test(Argument::make<void>(), { i, i, i, i, i, i, i, i, i }) == Match::Exact);
    REQUIRE(three.test(Argument::make<void>(), { i, i, o }) == Match::None);
    REQUIRE(nine.test(Argument::make<void>(), { i, i, i, i, i, i, i, i, o }) == Match::None);
''', TYPES + 'void nineFn(int, int, int, int, int, int, int, int, int) {}\nvoid threeFn(int, int, int) {}\n'),
 'a function with more than eight parameters of which a late one does not fit', 'arguments after the eighth are not looked at')

seed('seventh-overload', 'C04',
 [('src/overloads.cpp', '''    for (const auto& fn : overloads) {
        if (fn.test(ret, args) != Match::None) return true;''', '''    for (size_t i = 0; i < 6 && i < overloads.size(); ++i) {
        if (overloads[i].test(ret, args) != Match::None) return true;''')],
 mk('''
    Overloads o;
    o.add(Function("f", &f0)); o.add(Function("f", &f1)); o.add(Function("f", &f2)); o.add(Function("f", &f3));
    o.add(Function("f", &f4)); o.add(Function("f", &f5)); o.add(Function("f", &f6));
    Argument a = Argument::make<Other>();
    REQUIRE(o.test(Argument::make<void>(), { a }));
    REQUIRE(o.test(Argument::make<void>(), { a, a, a, a, a, a }));
    REQUIRE(o.test(Argument::make<void>(), {}));
''', TYPES + '''void f0(Other) {} void f1(Other, Other) {} void f2(Other, Other, Other) {} void f3(Other, Other, Other, Other) {}
void f4(Other, Other, Other, Other, Other) {} void f5(Other, Other, Other, Other, Other, Other) {} void f6() {}
'''), 'more than six overloads of which only a late one fits', 'test() looks at the first six overloads only')

seed('fields-not-sorted', 'C14',
 [('src/type.cpp', '''    fields(result);

    std::sort(result.begin(), result.end());
    result.erase(std::unique(result.begin(), result.end()), result.end());''', '''    fields(result);

    result.erase(std::unique(result.begin(), result.end()), result.end());
    std::sort(result.begin(), result.end());''')],
 mk('''
    Type a("A"), b("B");
    b.parent(&a);
    a.addField<int>("x", 0); a.addField<int>("y", 4);
    b.addField<int>("y", 8); b.addField<int>("x", 12);
    auto f = b.fields();
    REQUIRE(f == std::vector<std::string>({ "x", "y" }));
'''), 'a class which hides several fields of its parent', 'a field shows up twice in the listing')

seed('deep-template-name', 'C17',
 [('src/scope.cpp', '''    size_t nesting = 0;

    for (i = 0;''', '''    uint8_t nesting = 0;

    for (i = 0;''')],
 mk('''
    Scope s;
    std::string deep = "T" + std::string(256, '<') + "a::b" + std::string(256, '>') + "::x";
    s.addType("N<a::b>::x");
    REQUIRE(s.scopes() == std::vector<std::string>({ "N<a::b>" }));
    Scope t;
    t.addType(deep);
    REQUIRE(t.scopes() == std::vector<std::string>({ "T" + std::string(256, '<') + "a::b" + std::string(256, '>') }));
'''), 'a name with templates nested in 256 others', 'the name is split inside of its template arguments')

jseed('long-string-cut', 'C20',
 [(J + 'token.cpp', '        reader.save(c);\n    };', '        if (reader.buffer().size() < 4000) reader.save(c);\n    };')],
 js('''
    std::string s(5000, 'x');
    std::istringstream a("\\"xx\\""), b('"' + s + '"');
    Reader ra(a), rb(b);
    REQUIRE(ra.nextToken().asString() == "xx");
    REQUIRE(rb.nextToken().asString() == s);
'''), 'a string of more than 4000 characters', 'the rest of a long string is dropped')

seed('repeated-scope-name', 'C16',
 [('src/scope.cpp', '    return join(parent_->id(), name_);', '    return parent_->parent_ && parent_->name_ == name_ ? parent_->id() : join(parent_->id(), name_);')],
 mk('''
    Scope s;
    s.addType("a::b::X"); s.addType("d::d::X");
    REQUIRE(s.scope("a::b")->id() == "a::b");
    REQUIRE(s.scope("d::d")->id() == "d::d");
'''), 'a scope of the name of the scope it is in', 'the identity of the inner scope is the one of the outer one')

jseed('unknown-container-skipped', 'C33',
 [(J + 'parser.cpp', '''                skip(reader);
                return;''', '''                if (reader.nextToken().type() == Token::ArrayStart) skip(reader), reader.nextToken();
                return;''')],
 js('''
    Other o;
    std::istringstream s("{\\"u\\":1,\\"v\\":[2],\\"x\\":3,\\"w\\":[4,5],\\"y\\":6}");
    Reader r(s);
    Value val(o);
    parse(r, val);
    REQUIRE(!r.error());
    REQUIRE(o.x == 3 && o.y == 6);
''', '''
struct Other { int64_t x, y; Other() : x(7), y(8) {} };
reflectType(Other) { reflectPlumbing(); reflectField(x); reflectField(y); }
'''), 'an unknown field whose value is an array of other than one item', 'the fields after the unknown one are lost')

jseed('inherited-not-printed', 'C33',
 [(J + 'printer.cpp', 'for (std::string& key : type->fields()) {', 'for (std::string& key : type->fields()) {\n            if (type->parent() && type->parent()->parent() && type->parent()->parent()->hasField(key)) continue;')],
 js('''
    C c;
    std::ostringstream s;
    Writer w(s, Writer::None);
    print(w, c);
    REQUIRE(s.str().find("\\"b\\"") != std::string::npos && s.str().find("\\"c\\"") != std::string::npos);
    REQUIRE(s.str().find("\\"a\\"") != std::string::npos);
''', '''
struct A { int64_t a; A() : a(1) {} };
struct B : public A { int64_t b; B() : b(2) {} };
struct C : public B { int64_t c; C() : c(3) {} };
reflectType(A) { reflectPlumbing(); reflectField(a); }
reflectType(B) { reflectParent(A); reflectPlumbing(); reflectField(b); }
reflectType(C) { reflectParent(B); reflectPlumbing(); reflectField(c); }
'''), 'a class with a grandparent', 'the fields of the grandparent are not printed')
