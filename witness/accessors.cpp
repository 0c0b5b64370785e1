// Normalised observers over the public interface, used by every check to look
// at abstract objects without knowing their layout.
#include "reflect.h"

using namespace reflect;

extern "C" {
const Type* wa_arg_type(const Argument& a) { return a.type(); }
RefType wa_arg_ref(const Argument& a) { return a.refType(); }
bool wa_arg_const(const Argument& a) { return a.isConst(); }
const void* wa_value_value(const Value& v) { return v.value(); }
const Type* wa_value_type(const Value& v) { return v.type(); }
RefType wa_value_ref(const Value& v) { return v.refType(); }
bool wa_value_const(const Value& v) { return v.isConst(); }
bool wa_value_stored(const Value& v) { return v.isStored(); }
const std::string& wa_fn_name(const Function& f) { return f.name(); }
size_t wa_fn_args(const Function& f) { return f.arguments(); }
const Argument& wa_fn_arg(const Function& f, size_t i) { return f.argument(i); }
const Argument& wa_fn_ret(const Function& f) { return f.returnType(); }
const std::string& wa_field_name(const Field& f) { return f.name(); }
size_t wa_field_offset(const Field& f) { return f.offset(); }
const Argument& wa_field_arg(const Field& f) { return f.argument(); }
const std::string& wa_type_id(const Type& t) { return t.id(); }
const Type* wa_type_parent(const Type& t) { return t.parent(); }
void wa_value_copy(const Value& v, void* p) { new (p) Value(v); }
}
