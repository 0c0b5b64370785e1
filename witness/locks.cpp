// Templates with a registration of their own.
#include "reflect.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/primitives.h"
#include "types/pointer.h"

extern "C" {

const reflect::Type* w_template() { return reflect::type< std::vector<int> >(); }
const reflect::Type* w_pointer() { return reflect::type<int*>(); }

}
