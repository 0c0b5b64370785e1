// Entry points for the analysis: descriptions of types and scopes.
#include <sstream>
#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/std/string.h"

using namespace reflect;

extern "C" {

void wd_int(long v);
void wd_text(const std::string& s);

void w_use()
{
    wd_int(type<int>() == type<int>()); wd_int(type<std::string>() == type<std::string>()); wd_int(type<char>() == type<char>()); wd_int(type<void>() == type<void>()); wd_int(type<Value>() == type<Value>());
}

}
struct Here : public Traits { using Traits::print; };

static void fill(Type& t, int traits, int fields, int functions)
{
    if (traits > 0) t.addTrait("one");
    if (traits > 1) t.addTrait("two", 2);
    if (fields > 0) { t.addField<int>("late", 26); }
    if (fields > 1) { t.addField<char>("first", 0); t.field("first").addTrait("marked"); }
    if (fields > 2) t.addField<std::string>("middle", 8);
    if (fields > 3) { t.addField<int>("far", 0x10004); t.addField<int>("beyond", 0x100000002); }
    if (functions > 0) t.addFunction("get", [] (int) -> char { return 0; });
    if (functions > 1) t.addFunction("get", [] (int, const int&) {});
    if (functions > 2) { t.addFunction("set", [] (std::string&) {}); t.function("get").addTrait("fast"); }
}
extern "C" {

void w_type(int traits, int fields, int functions, int indent)
{
    Type t("Thing");
    fill(t, traits, fields, functions);
    wd_text(t.print(indent));
}

void w_child(int traits, int fields, int functions, int ptraits, int pfields, int pfunctions)
{
    Type g("Ancestor"), p("Parent"), t("Thing");
    p.parent(&g); t.parent(&p);
    fill(p, ptraits, pfields, pfunctions);
    if (traits) t.addTrait("mine");
    if (fields) t.addField<int>("own", 12);
    if (functions) t.addFunction("does", [] () {});
    wd_text(t.print());
}

void w_scope(int traits, int functions, int types, int scopes)
{
    Scope top;
    Scope& s = *top.scope("here");
    if (traits > 0) s.addTrait("one");
    if (functions > 0) s.addFunction("get", [] (int) -> char { return 0; });
    if (functions > 1) s.addFunction("get", [] (int, const int&) {});
    if (functions > 2) { s.addFunction("set", [] (std::string&) {}); s.function("get").addTrait("fast"); }
    if (types > 0) s.addType("Alpha");
    if (types > 1) s.addType("Beta");
    if (scopes > 0) s.addFunction("inner::f", [] () {});
    if (scopes > 1) s.addType("other::deep::Gamma");
    wd_text(s.print());
}

void w_traits(int n)
{
    Here t;
    if (n > 0) t.addTrait("one");
    if (n > 1) t.addTrait("two", 2);
    if (n > 2) t.addTrait("three");
    wd_text(t.print());
}

void w_enums(int ref, int match)
{
    std::stringstream r, m;
    if (ref >= 0) { r << RefType(ref); wd_text(r.str()); }
    if (match >= 0) { m << Match(match); wd_text(m.str()); }
}

}
