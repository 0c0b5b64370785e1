// Entry points over Value: ownership, typed access, constness.
#include "reflect.h"
#include "dsl/basics.h"

using namespace reflect;

struct Foo { int x; Foo(); Foo(const Foo&); Foo(Foo&&); ~Foo(); Foo& operator=(const Foo&); };
struct CopyOnly { int x; CopyOnly(const CopyOnly&); ~CopyOnly(); private: CopyOnly(CopyOnly&&); };
struct MoveOnly { int x; MoveOnly(MoveOnly&&); MoveOnly(const MoveOnly&) = delete; ~MoveOnly(); };
struct Pinned { int x; Pinned(const Pinned&) = delete; Pinned(Pinned&&) = delete; ~Pinned(); };
struct Base { int b; };
reflectType(Foo) {}
reflectType(CopyOnly) {}
reflectType(MoveOnly) {}
reflectType(Base) {}
reflectType(Pinned) {}

extern "C" {

// ---- typed access
const void* w_get(const Value& v) { return &v.get<Foo>(); }
const void* w_as(Value& v) { return &v.as<Foo>(); }

// ---- construction (results are left in out)
void w_from_lvalue(Foo& x, Value* out) { new (out) Value(x); }
void w_from_clvalue(const Foo& x, Value* out) { new (out) Value(x); }
void w_from_rvalue(Foo& x, Value* out) { new (out) Value(std::move(x)); }
void w_from_crvalue(const Foo& x, Value* out) { new (out) Value(std::move(x)); }
void w_from_moveonly(MoveOnly& x, Value* out) { new (out) Value(std::move(x)); }
void w_from_copyonly(CopyOnly& x, Value* out) { new (out) Value(std::move(x)); }
void w_from_pinned(Pinned& x, Value* out) { new (out) Value(std::move(x)); }
void w_from_int(int x, Value* out) { new (out) Value(int(x)); }
void w_default(Value* out) { new (out) Value(); }
void w_copy_c(const Value& v, Value* out) { new (out) Value(v); }
void w_copy_m(Value& v, Value* out) { new (out) Value(v); }
void w_move(Value& v, Value* out) { new (out) Value(std::move(v)); }
void w_assign_c(const Value& v, Value* out) { *out = v; }
void w_assign_m(Value& v, Value* out) { *out = std::move(v); }
void w_self_assign(Value& v) { Value& u = v; v = u; }
void w_self_move(Value& v) { Value& u = v; v = std::move(u); }

void w_toConst(const Value& v, Value* out) { new (out) Value(v.toConst()); }
void w_rvalue(const Value& v, Value* out) { new (out) Value(v.rvalue()); }
void w_copy(const Value& v, Value* out) { new (out) Value(v.copy()); }
void w_moved(Value& v, Value* out) { new (out) Value(v.move()); }

// ---- fields
void w_field(const Value& v, const std::string& n, Value* out) { new (out) Value(v.field<Value>(n)); }

// ---- casts of a value to a declared parameter
static RefType ref(int r)
{
    switch (r) {
    case 0: return RefType::Copy;
    case 1: return RefType::LValue;
    default: return RefType::RValue;
    }
}
void w_cast(Value& v, const Type* t, int r, bool c, Value* out) { new (out) Value(reflect::cast(v, Argument(t, ref(r), c))); }
bool w_castable(const Value& v, const Type* t, int r, bool c) { return isCastable(v, Argument(t, ref(r), c)); }

const void* w_cast_lref(Value& v) { return &cast<Foo&>(v); }
const void* w_cast_clref(Value& v) { return &cast<const Foo&>(v); }

// ---- observers of a value prepared with a given argument
bool w_isVoid(const Value& v) { return v.isVoid(); }
bool w_value_is(const Value& v, const std::string& s) { return v.is(s); }
} // extern C
