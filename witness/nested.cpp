// Entry points for the analysis: JSON into and out of nested standard containers, with everything real.
#include <istream>
#include <ostream>
#include <map>
#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/pointer.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "utils/json/json.h"

using namespace reflect;

struct Leaf { long n; std::string s; bool b; Leaf() : n(-1), b(false) {} };
struct Top { long top; Top() : top(-3) {} };
struct Base : public Top { long base; Base() : base(-2) {} };
struct Root : public Base
{
    std::vector<long> longs;
    std::vector<std::string> names;
    std::vector< std::vector<long> > grid;
    std::vector<Leaf> list;
    std::map<std::string, long> numbers;
    std::map<std::string, std::vector<long> > table;
    std::map<std::string, Leaf> leaves;
    std::vector< std::map<std::string, long> > maps;
    std::shared_ptr<Leaf> shared;
    std::unique_ptr<Leaf> unique;
    std::vector< std::shared_ptr<Leaf> > maybes;
    std::map<std::string, std::shared_ptr<Leaf> > lookup;
    Leaf* raw;
    Leaf leaf;
    std::shared_ptr< std::vector<long> > box;
    std::map<std::string, std::map<std::string, long> > index;
    Root() : raw(nullptr) {}
};
reflectTypeDecl(Leaf)
reflectTypeImpl(Leaf) { reflectPlumbing(); reflectAlloc(); reflectField(n); reflectField(s); reflectField(b); }
reflectTypeDecl(Top)
reflectTypeImpl(Top) { reflectPlumbing(); reflectField(top); }
reflectTypeDecl(Base)
reflectTypeImpl(Base) { reflectParent(Top); reflectPlumbing(); reflectField(base); }
reflectTypeDecl(Root)
reflectTypeImpl(Root)
{
    reflectParent(Base);
    reflectPlumbing();
    reflectField(longs); reflectField(names); reflectField(grid); reflectField(list); reflectField(numbers); reflectField(table); reflectField(leaves);
    reflectField(maps); reflectField(shared); reflectField(unique); reflectField(maybes); reflectField(lookup); reflectField(raw); reflectField(leaf);
    reflectField(box); reflectField(index);
}

extern "C" {
void wd_int(long v);
void wd_text(const std::string& s);
void wd_mark(const char* s);

void w_use(std::istream& in, std::ostream& out)
{
    wd_int(type<Root>() == type<Root>());
    Root r; json::Reader reader(in); Value v(r);
    json::parse(reader, v);
    json::Writer writer(out);
    json::print(writer, v);
}
}

static void show(long v) { wd_int(v); }
static void show(const std::string& s) { wd_text(s); }
static void show(const Leaf& l) { wd_mark("leaf"); show(l.n); show(l.s); show(long(l.b)); }
template<typename T> static void show(const std::shared_ptr<T>& p);
template<typename T> static void show(const std::unique_ptr<T>& p) { if (p) show(*p); else wd_mark("null"); }
template<typename T> static void show(const std::vector<T>& v);
static void show(Leaf* p) { if (p) show(*p); else wd_mark("null"); }
template<typename T> static void show(const std::vector<T>& v);
template<typename T> static void show(const std::map<std::string, T>& m) { wd_mark("{"); for (const auto& x : m) { show(x.first); show(x.second); } wd_mark("}"); }
template<typename T> static void show(const std::vector<T>& v) { wd_mark("["); for (const auto& x : v) show(x); wd_mark("]"); }
template<typename T> static void show(const std::shared_ptr<T>& p) { if (p) show(*p); else wd_mark("null"); }

static void member(const Root& r, int k)
{
    switch (k) {
    case 0: show(r.longs); break;
    case 1: show(r.names); break;
    case 2: show(r.grid); break;
    case 3: show(r.list); break;
    case 4: show(r.numbers); break;
    case 5: show(r.table); break;
    case 6: show(r.leaves); break;
    case 7: show(r.maps); break;
    case 8: show(r.shared); break;
    case 9: show(r.unique); break;
    case 10: show(r.maybes); break;
    case 11: show(r.lookup); break;
    case 12: show(r.raw); break;
    case 13: show(r.leaf); break;
    case 14: show(r.base); break;
    case 15: show(r.box); break;
    case 16: show(r.index); break;
    case 17: show(r.top); break;
    }
}
static void fill(Root& r, int k, long a, long b)
{
    Leaf x; x.n = a; x.s = "x"; x.b = true;
    Leaf y; y.n = b; y.s = "y";
    switch (k) {
    case 0: r.longs.push_back(a); r.longs.push_back(b); break;
    case 1: r.names.push_back("p"); r.names.push_back(""); break;
    case 2: r.grid.resize(3); r.grid[0].push_back(a); r.grid[2].push_back(b); r.grid[2].push_back(a); break;
    case 3: r.list.push_back(x); r.list.push_back(y); break;
    case 4: r.numbers["k"] = a; r.numbers["l"] = b; break;
    case 5: r.table["k"].push_back(a); r.table["k"].push_back(b); r.table["l"]; break;
    case 6: r.leaves["k"] = x; break;
    case 7: r.maps.resize(2); r.maps[1]["k"] = a; break;
    case 8: r.shared.reset(new Leaf(x)); break;
    case 9: r.unique.reset(new Leaf(x)); break;
    case 10: r.maybes.resize(2); r.maybes[1].reset(new Leaf(y)); break;
    case 11: r.lookup["k"].reset(new Leaf(x)); r.lookup["l"]; break;
    case 12: r.raw = new Leaf(y); break;
    case 13: r.leaf = x; break;
    case 14: r.base = a; break;
    case 15: r.box.reset(new std::vector<long>()); break;
    case 17: r.top = a; break;
    case 16: r.index["k"]["l"] = a; r.index["l"]; break;
    }
}
extern "C" {

// parses into an object whose member is as it was made, or filled before; shows that member and a few others
void w_parse(std::istream& in, int k, int filled, long a, long b)
{
    Root r; if (filled) fill(r, k, a, b);
    Leaf* shared = r.shared.get();
    json::Reader reader(in); Value v(r);
    json::parse(reader, v);
    wd_int(bool(reader.error()));
    member(r, k);
    if (k != 13) wd_int(r.leaf.n);
    if (k != 14) wd_int(r.base);
    if (k != 17) wd_int(r.top);
    if (k == 8 && filled) wd_int(shared == r.shared.get());
}
// prints an object of which one member is filled
void w_print(std::ostream& out, int k, int filled, int options, long a, long b)
{
    Root r; if (filled) fill(r, k, a, b);
    json::Writer writer(out, json::Writer::Options(options));
    Value v(r);
    json::print(writer, v);
    wd_int(bool(writer.error()));
}
// one value on its own
void w_print_one(std::ostream& out, int k, int options, long a, long b)
{
    Root r; fill(r, k, a, b);
    json::Writer writer(out, json::Writer::Options(options));
    if (k == 0) json::print(writer, Value(r.longs));
    if (k == 3) json::print(writer, Value(r.list));
    if (k == 5) json::print(writer, Value(r.table));
    if (k == 8) json::print(writer, Value(r.shared));
    if (k == 13) json::print(writer, Value(r.leaf));
    wd_int(bool(writer.error()));
}

}
