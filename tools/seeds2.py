import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
import io, contextlib
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds1.py')).read()
exec(src[:src.index("seed('const-member-on-copy'")])

JSON = r'''
#include "utils/json/json.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include <sstream>
using namespace reflect::json;
'''
def js(body, types=''): return HEAD.replace('using namespace reflect;', JSON.strip() + '\nusing namespace reflect;') + types + 'int main() {\n' + body + '\n    return 0;\n}\n'
def jseed(*a, **k): seed(*a, libs='-lreflect_json -lreflect_std', **k)
STD = HEAD.replace('#include "types/primitives.h"', '#include "types/primitives.h"\n#include "types/std/map.h"\n#include "types/std/smart_ptr.h"\n#include "types/std/string.h"\n#include "types/std/vector.h"')

seed('function-over-first-field', 'C05',
 [('src/type.cpp', '    auto it = fields_.find(name);\n    if (it != fields_.end()) {\n        reflectError("function', '    auto it = fields_.find(name);\n    if (it != fields_.end() && it->second.offset()) {\n        reflectError("function')],
 mk('''
    REQUIRE(fails([] { Type t("T"); t.addField<int>("x", 8); t.addFunction("x", [] (int) {}); }));
    REQUIRE(fails([] { Type t("T"); t.addField<int>("x", 0); t.addFunction("x", [] (int) {}); }));
'''), 'a function declared under the name of the field at offset zero', 'the function is added next to the field')

seed('last-loader-wins', 'C13',
 [('src/registry.cpp', 'registry.loaders.emplace(std::move(id), std::move(loader));', 'registry.loaders[id] = std::move(loader);')],
 mk('''
    int ran = 0;
    Registry::add("two::loaders", [&] (Type*) { ran |= 1; });
    Registry::add("two::loaders", [&] (Type*) { ran |= 2; });
    REQUIRE(type("two::loaders")->id() == "two::loaders");
    REQUIRE(ran == 1);
'''), 'a second loader registered for a type before its first use', 'the second loader replaces the first')

seed('no-inherited-fields', 'C14',
 [('src/type.cpp', 'if (parent_) parent_->fields(result);', 'if (parent_ && !fields_.empty()) parent_->fields(result);')],
 mk('''
    REQUIRE(type<Same>()->fields().size() == 1);
    REQUIRE(type<Derived>()->fields().size() == 2);
''', TYPES + '''
struct Same : public Base {};
reflectType(Same) { reflectParent(Base); reflectPlumbing(); }
'''), 'a derived type without fields of its own', 'fields() leaves out everything inherited')

seed('two-converters', 'C19',
 [('src/type.cpp', 'if (fns.size() > 1) {', 'if (fns.size() > 2) {')],
 mk('''
    REQUIRE(type<Conv>()->hasConverter(type<Other>()));
    REQUIRE(fails([] { type<Conv>()->converter(type<Other>()); }));
''', TYPES + '''
struct Conv { int x; Conv() : x(1) {} };
reflectType(Conv) {
    reflectPlumbing();
    type_->addFunction("operator Other()", [] (Conv&) { return Other(); });
    type_->addFunction("operator Other()", [] (Conv&&) { return Other(); });
}
'''), 'a type with exactly two conversion functions to one type', 'an ambiguous conversion picks one silently')

seed('has-type-creates', 'C15',
 [('src/scope.cpp', '''        return scopeIt->second->hasType(split.second);''', '''        return scope(head(name).first)->hasType(split.second);'''),
  ('src/scope.cpp', '''        auto scopeIt = scopes_.find(split.first);
        if (scopeIt == scopes_.end()) return false;

''', '''        auto scopeIt = scopes_.find(split.first);
        if (scopeIt == scopes_.end() && scopes_.empty()) return false;

''')],
 mk('''
    Scope s; Scope* a = s.scope("a");
    REQUIRE(!s.hasType("b::T"));
    REQUIRE(!s.hasScope("b"));
    REQUIRE(s.scopes().size() == 1 && a);
'''), 'asking a scope which has scopes for a type in an unknown scope', 'the unknown scope is created by the question')

seed('id-two-levels', 'C16',
 [('src/scope.cpp', '''    return join(parent_->id(), name_);''', '''    return join(parent_->name_, name_);''')],
 mk('''
    Scope s;
    REQUIRE(s.scope("a")->id() == "a");
    REQUIRE(s.scope("a::b")->id() == "a::b");
    REQUIRE(s.scope("a::b::c")->id() == "a::b::c");
'''), 'scopes nested three deep', 'the id of a scope forgets all but the last two names')

seed('leading-colon', 'C17',
 [('src/scope.cpp', "if (!i || name[i - 1] != ':')", "if (i && name[i - 1] != ':')")],
 mk('''
    REQUIRE(fails([] { Scope::tail(":f"); }));
    REQUIRE(fails([] { Scope::tail("a:f"); }));
'''), 'a name which starts with a single colon', 'a lone leading colon is taken for a separator')

jseed('last-two-byte-code', 'C20',
 [('src/utils/json/token.cpp', 'else if (code <= 0x7FF) {', 'else if (code < 0x7FF) {')],
 js(r'''
    std::istringstream in("[\"\\u07fe\", \"\\u07ff\", \"\\u0800\"]");
    Reader reader(in); std::vector<std::string> got;
    parseArray(reader, [&] (size_t) { got.push_back(parseString(reader)); });
    REQUIRE(reader && got.size() == 3 && got[0] == "\xdf\xbe" && got[1] == "\xdf\xbf" && got[2] == "\xe0\xa0\x80");
'''), r'the escape \u07ff', 'the character is decoded to bytes which are not UTF-8')

jseed('overlong-two-bytes', 'C21',
 [('src/utils/json/token.cpp', 'case 2: if (code > 0x7F) return; break;', 'case 2: if (code > 0x3F) return; break;')],
 js(r'''
    auto bad = [] (const char* text) { std::istringstream in(text); Reader reader(in); parseString(reader); return bool(reader.error()); };
    REQUIRE(bad("\"\xc0\x80\""));
    REQUIRE(bad("\"\xc1\x81\""));
    REQUIRE(!bad("\"\xc2\x80\""));
'''), 'overlong two byte sequences of 40 to 7F', 'invalid UTF-8 is accepted')

jseed('int-from-float', 'C31',
 [('src/utils/json/token.cpp', '''    if (type_ != Int)
        reflectError("invalid conversion of token %s to <int>"''', '''    if (type_ != Int && type_ != Float)
        reflectError("invalid conversion of token %s to <int>"''')],
 js(r'''
    std::string text = "1.5";
    REQUIRE(fails([&] { Token(Token::Float, text).asInt(); }));
'''), 'asInt of a token which is a float', 'the fraction is dropped silently')

jseed('int-truncated', 'C24',
 [('src/utils/json/format.cpp', 'format(writer, "%ld", value);', 'format(writer, "%d", static_cast<int>(value));')],
 js(r'''
    auto text = [] (int64_t v) { std::ostringstream out; Writer writer(out); printInt(writer, v); return out.str(); };
    REQUIRE(text(-12) == "-12");
    REQUIRE(text(1LL << 40) == "1099511627776");
'''), 'integers beyond 32 bits', 'another number is printed')

jseed('deep-indent', 'C25',
 [('src/utils/json/writer.h', '    size_t indent_;', '    uint8_t indent_;')],
 js(r'''
    std::ostringstream out; Writer writer(out, Writer::Pretty);
    for (size_t i = 0; i < 300; ++i) writer.indent();
    writer.newline();
    REQUIRE(out.str().size() == 1 + 300 * 4);
'''), 'nesting more than 255 levels deep', 'lines are indented too little')

ITEM = '''
struct Item { long x, y; Item() : x(1), y(2) {} };
reflectType(Item) { reflectPlumbing(); reflectAlloc(); reflectField(x); reflectField(y); }
struct Holder { std::shared_ptr<Item> item; };
reflectType(Holder) { reflectPlumbing(); reflectField(item); }
'''
jseed('smart-pointer-replaced', 'C26',
 [('src/utils/json/parser.cpp', 'if (cast<bool>(ptr)) {', 'if (!isSmartPtr && cast<bool>(ptr)) {')],
 js(r'''
    Holder h; h.item.reset(new Item); h.item->y = 9; auto held = h.item;
    std::istringstream in("{ \"item\": { \"x\": 5 } }"); Value v(h);
    reflect::json::parse(in, v);
    REQUIRE(h.item == held && h.item->x == 5 && h.item->y == 9);
''', ITEM), 'a smart pointer which holds an object already', 'the object is replaced instead of read into')

jseed('alias-over-field', 'C27',
 [('src/utils/json/printer.cpp', 'if (keys.count(alias))', 'if (alias != key && keys.count(alias))')],
 js(r'''
    Opt o; std::ostringstream out;
    REQUIRE(fails([&] { Writer writer(out); reflect::json::print(writer, Value(o)); }));
''', '''
struct Opt { long a, b; Opt() : a(1), b(2) {} };
reflectType(Opt) {
    reflectPlumbing(); reflectField(a); reflectField(b);
    type_->field("a").addTrait("json", json::alias("b"));
}
'''), 'an alias which is the name of a later member', 'two members are printed under one key')

jseed('options-printer-lost', 'C28',
 [('src/utils/json/traits.cpp', '''    if (result.parser.empty()) result.parser = other.parser;
    if (result.printer.empty()) result.printer = other.printer;''', '''    if (result.parser.empty()) {
        result.parser = other.parser;
        result.printer = other.printer;
    }''')],
 js(r'''
    json::Traits t = json::custom("", "p") | json::custom("q", "r");
    REQUIRE(t.parser == "q" && t.printer == "p");
    json::Traits u = json::custom("q", "") | json::custom("", "p");
    REQUIRE(u.parser == "q" && u.printer == "p");
'''), 'a parser from one option and a printer from another', 'the printer of one option is lost')

seed('error-as-format', 'C10',
 [('src/error.cpp', 'printf("%s\\n", msg.c_str());', 'printf((msg + "\\n").c_str());')],
 mk(r'''
    int p[2]; REQUIRE(!pipe(p)); pid_t pid = fork();
    if (!pid) { dup2(p[1], 1); close(p[0]); reflectError("rate of <%s>", std::string("100%%d")); }
    close(p[1]); char buf[512]; ssize_t n = 0, r;
    while ((r = read(p[0], buf + n, sizeof buf - 1 - n)) > 0) n += r;
    buf[n] = 0;
    REQUIRE(std::string(buf).find("rate of <100%%d>") != std::string::npos);
'''), 'a per cent sign in a message', 'the message is used as a format')

seed('minus-assign', 'C11',
 [('src/dsl/operators.h', 'reflectOpFn(operator^=,  BitXorAssign)', 'reflectOpFn(operator|=,  BitXorAssign)')],
 mk('''
    Bits b; Value v(b); Bits o; o.x = 6;
    v ^= o;
    REQUIRE(b.x == (5 ^ 6));
''', '''
struct Bits { int x; Bits() : x(5) {} Bits& operator|=(const Bits& o) { x |= o.x; return *this; } Bits& operator^=(const Bits& o) { x ^= o.x; return *this; } };
reflectType(Bits) { reflectPlumbing(); reflectOperators(); }
'''), 'a class with both ^= and |=', '^= calls |=')

seed('self-move', 'C18',
 [('src/function.cpp', '    if (this == &other) return *this;\n', '')],
 mk('''
    Function f("f", [] (int x) { return x + 1; });
    Function& g = f;
    f = std::move(g);
    REQUIRE(f.call<int>(1) == 2);
'''), 'a function moved onto itself', 'the callable is freed')

seed('fast16-alias', 'C29',
 [('src/types/primitives.cpp', 'reflectAlias(uint_fast16_t);', 'reflect::Registry::alias<uint16_t>("uint_fast16_t");')],
 mk('''
    REQUIRE(type("uint_fast16_t") == type<uint_fast16_t>());
    REQUIRE(type("uint_least16_t") == type<uint_least16_t>());
'''), 'the name uint_fast16_t', 'a typedef names a type of another size')

seed('at-end', 'C30',
 [('src/types/std/vector.h', 'if (i >= value.size())', 'if (i > value.size())')],
 STD + r'''
int main() {
    std::vector<int> v { 1, 2, 3 }; v.reserve(8);
    REQUIRE(Value(v).call<int>("at", size_t(2)) == 3);
    REQUIRE(fails([&] { Value(v).call<int>("at", size_t(3)); }));
    return 0;
}
''', 'the index just past the end', 'an element which does not exist is handed out')

seed('map-at-adds', 'C30',
 [('src/types/std/map.h', '''        if (it != value.end()) return it->second;''', '''        if (it != value.end() || std::is_same<KeyT, std::string>::value) return const_cast<T_&>(value)[k];''')],
 STD + r'''
int main() {
    std::map<std::string, int> m; m["a"] = 1;
    REQUIRE(Value(m).call<int>("at", std::string("a")) == 1);
    REQUIRE(fails([&] { Value(m).call<int>("at", std::string("b")); }));
    return 0;
}
''', 'at of an absent text key', 'the key is added instead of reported')

seed('rvalue-drops-const', 'C07',
 [('src/value.cpp', 'result.arg = Argument(type(), RefType::RValue, isConst());', 'result.arg = Argument(type(), RefType::RValue, isConst() && !isStored());')],
 mk('''
    const Base b(3);
    REQUIRE(Value(b).rvalue().isConst());
    Value c = Value(Base(3)).toConst();
    REQUIRE(c.isConst() && c.rvalue().isConst());
'''), 'rvalue() of a constant value which owns its object', 'the constness is lost')

seed('last-overload-only', 'C04',
 [('src/overloads.cpp', '        if (fn.test(other) != Match::Exact) continue;', '        if (fn.test(other) != Match::Exact || (overloads.size() > 2 && &other == &overloads[1])) continue;')],
 mk('''
    REQUIRE(fails([] { Type t("T"); t.addFunction("f", [] (int&) {}); t.addFunction("f", [] (Base&) {}); t.addFunction("f", [] (Other&) {}); t.addFunction("f", [] (Base&) {}); }));
    REQUIRE(!fails([] { Type t("T"); t.addFunction("f", [] (int&) {}); t.addFunction("f", [] (Base&) {}); t.addFunction("f", [] (Other&) {}); }));
'''), 'a fourth overload which repeats the second', 'the ambiguity is accepted')

seed('combine-arguments', 'C03',
 [('src/function.cpp', 'match = combine(match, value[i].isConvertibleTo(target[i]));', 'match = i < 2 ? combine(match, value[i].isConvertibleTo(target[i])) : value[i].isConvertibleTo(target[i]);')],
 mk('''
    Function f("f", [] (const Base&, int, int) {});
    Argument i = Argument::make<int>(), b = Argument::make<const Base&>(), l = Argument::make<Base&>();
    REQUIRE(f.test(Argument(), { b, i, i }) == Match::Exact);
    REQUIRE(f.test(Argument(), { l, i, i }) == Match::Partial);
'''), 'three arguments of which only an early one is a partial match', 'the match of the whole is called exact')

seed('field-const-lost', 'C09',
 [('src/argument.cpp', 'if (isConst_) ss << " const";', 'if (isConst_ && refType_ != RefType::RValue) ss << " const";')],
 mk('''
    REQUIRE(Argument(type<int>(), RefType::LValue, true).print() == "int const&");
    REQUIRE(Argument(type<int>(), RefType::RValue, true).print() == "int const&&");
'''), 'a constant rvalue reference', 'its description leaves const out')

jseed('parsers-unlocked', 'C12',
 [('src/utils/json/parser.cpp', '    std::lock_guard<std::mutex> guard(mutex);\n', '    std::lock_guard<std::mutex>{mutex};\n')],
 js(r'''
    std::vector<std::thread> ts; std::atomic<int> ready(0);
    for (int k = 0; k < 4; ++k) ts.emplace_back([&] {
        ready++; while (ready < 4) {}
        one<0>(); one<1>(); one<2>(); one<3>(); one<4>(); one<5>(); one<6>(); one<7>(); one<8>(); one<9>();
    });
    for (auto& t : ts) t.join();
''', r'''
#include <atomic>
#include <thread>
template<int> struct N { long x; N() : x(0) {} };
#define D(i) reflectType(N<i>) { reflectPlumbing(); reflectField(x); }
D(0) D(1) D(2) D(3) D(4) D(5) D(6) D(7) D(8) D(9)
template<int I> void one() { N<I> n; Value v(n); std::istringstream in("{\"x\": 3}"); Reader reader(in); reflect::json::parse(reader, v); REQUIRE(n.x == 3); }
'''), 'several threads which parse types for the first time', 'the table of parsers is changed by several threads at once')
# a data race: everything is built with the race detector
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded/parsers-unlocked/demo.sh')
open(d, 'w').write('''#!/bin/bash
# Run in /repo after the build: exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
for f in src/reflect.cpp src/types/*.cpp src/types/reflect/*.cpp src/types/std/*.cpp src/utils/json/json.cpp "$here/demo.cpp"; do echo "$f"; done |
    xargs -P 8 -I{} sh -c 'g++ -std=c++11 -w -g -O1 -fsanitize=thread -I src -c "$1" -o "$2/$(echo "$1" | tr / _).o"' sh {} "$out" || exit 5
g++ -fsanitize=thread "$out"/*.o -o "$out/demo" -lpthread || exit 5
ulimit -c 0
for i in 1 2 3 4 5; do TSAN_OPTIONS="exitcode=66 halt_on_error=1" timeout 60 "$out/demo" > "$out/log" 2>&1; r=$?; if [ $r != 0 ]; then head -30 "$out/log"; exit $r; fi; done
''')
