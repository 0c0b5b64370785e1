// Splitting of scoped names and histories of additions to scopes.
#include "reflect.h"
#include "dsl/basics.h"

using namespace reflect;

typedef void Sig();
typedef void Sig1(int);

extern "C" {

void wo_bool(bool b);
void wo_string(const std::string& s);
void wo_overloads(const Overloads& o);
void wo_scope(const Scope* s);
void wo_type(const Type* t);
void wo_done();

void w_head(const std::string& n) { auto p = Scope::head(n); wo_string(p.first); wo_string(p.second); }
void w_tail(const std::string& n) { auto p = Scope::tail(n); wo_string(p.first); wo_string(p.second); }
void w_join(const std::string& a, const std::string& b) { wo_string(Scope::join(a, b)); }

const std::string& w_over_name(const Overloads& o, size_t i) { return o[i].name(); }
size_t w_over_size(const Overloads& o) { return o.size(); }
void w_scope_id(const Scope* s) { wo_string(s->id()); }

}

static void add(Scope* s, int kind, const std::string& n, Sig* p, Sig1* p1)
{
    if (kind == 0) {
        if (p) s->addFunction(n, Function("first", p));
        else s->addFunction(n, Function("second", p1));
    }
    if (kind == 1) s->addType(n);
    if (kind == 2) wo_scope(s->scope(n));
}

static void list(const std::vector<std::string>& l) { for (const std::string& s : l) wo_string(s); }

static void third(int, int) {}

static void ask(Scope* s, int what, const std::string& q)
{
    const Scope* c = s;
    switch (what) {
    case 0: wo_bool(c->hasScope(q)); break;
    case 1: wo_bool(c->hasFunction(q)); break;
    case 2: wo_bool(s->hasType(q)); break;
    case 3: wo_overloads(c->function(q)); break;
    case 4: wo_overloads(s->function(q)); break;
    case 5: wo_scope(c->scope(q)); break;
    case 6: wo_scope(s->scope(q)); break;
    case 7: wo_type(s->type(q)); break;
    case 8: list(c->functions(true)); break;
    case 9: list(c->functions()); break;
    case 10: list(c->types(true)); break;
    case 11: list(c->types()); break;
    case 12: list(c->scopes()); break;
    case 13: s->addFunction(q, Function("third", &third)); break;
    case 14: s->addType(q); break;
    }
}

extern "C" {

void w_scopes(const std::string* top, int kind0, const std::string& n0, int kind1, const std::string& n1, Sig* p, Sig1* p1,
        int what, const std::string& q, int then, const std::string& q2)
{
    Scope root;
    Scope* s = top ? root.scope(*top) : &root;
    add(s, kind0, n0, p, nullptr);
    wo_done();
    add(s, kind1, n1, nullptr, p1);
    wo_done();
    ask(s, what, q);
    wo_done();
    ask(s, then, q2);
}

}
