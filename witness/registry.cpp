// Histories of registrations, aliases and lookups on an empty registry.
#include "reflect.h"
#include "dsl/basics.h"

using namespace reflect;

extern "C" {

void wo_bool(bool b);
void wo_load(int which, const Type* type);
void wo_type(const Type* type);
void wo_done(int what);

// two loaders, an alias, two lookups
void w_registry(const std::string& id0, const std::string& id1, const std::string& to, const std::string& from, int aliased,
        const std::string& q0, const std::string& q1, int gets)
{
    if (aliased == 1) Registry::alias(to, from);
    Registry::add(id0, [] (Type* type) { wo_load(0, type); });
    wo_done(0);
    Registry::add(id1, [] (Type* type) { wo_load(1, type); });
    wo_done(1);
    if (aliased == 2) Registry::alias(to, from);
    wo_done(2);
    if (gets > 0) wo_type(Registry::get(q0));
    if (aliased == 3) Registry::alias(to, from);
    if (gets > 1) wo_type(Registry::get(q1));
}

// an alias given twice
void w_alias(const std::string& to0, const std::string& from0, const std::string& to1, const std::string& from1)
{
    Registry::alias(to0, from0);
    wo_done(0);
    Registry::alias(to1, from1);
    wo_done(1);
}

// an alias given twice, the first one used in between
void w_alias_used(const std::string& to0, const std::string& from0, const std::string& to1, const std::string& from1)
{
    Registry::alias(to0, from0);
    Registry::add(to0, [] (Type* type) { wo_load(0, type); });
    wo_type(Registry::get(to0));
    Registry::alias(to1, from1);
    wo_done(1);
}

// two aliases, either may be of the other
void w_chain(const std::string& id, const std::string& to0, const std::string& from0, const std::string& to1, const std::string& from1, const std::string& q)
{
    Registry::alias(to0, from0);
    Registry::alias(to1, from1);
    wo_done(0);
    Registry::add(id, [] (Type* type) { wo_load(0, type); });
    wo_type(Registry::get(q));
}

// adding another loader once the type is loaded
void w_late(const std::string& id, const std::string& q)
{
    Registry::add(id, [] (Type* type) { wo_load(0, type); });
    wo_type(Registry::get(id));
    Registry::add(id, [] (Type* type) { wo_load(1, type); });
    wo_type(Registry::get(id));
}

// a loader which looks up its own type and another one
void w_reenter(const std::string& id, const std::string& other)
{
    const std::string* a = &id;
    const std::string* b = &other;
    Registry::add(id, [=] (Type* type) { wo_load(0, type); wo_type(Registry::get(*a)); wo_type(Registry::get(*b)); });
    Registry::add(other, [=] (Type* type) { wo_load(1, type); wo_type(Registry::get(*a)); });
    wo_type(Registry::get(id));
    wo_type(Registry::get(other));
}

void w_empty(const std::string& id, const std::string& alias, int what)
{
    if (what == 0) Registry::add(id, [] (Type*) {});
    if (what == 1) Registry::add(id, std::function<void(Type*)>());
    if (what == 2) Registry::alias(id, alias);
    if (what == 3) Registry::get(id);
    wo_done(0);
}

}
