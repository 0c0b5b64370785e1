// Parsing into and printing of reflected objects.
#include "reflect.h"
#include "utils/json/json.h"

using namespace reflect;

extern "C" {

void wj_end(bool ok);

void w_parse(std::istream& in, Value& value)
{
    json::Reader r(in);
    json::parse(r, value);
    wj_end(!r.error());
}

void w_print(std::ostream& out, int options, const Value& value)
{
    json::Writer w(out, json::Writer::Options(options));
    json::print(w, value);
    wj_end(!w.error());
}

void w_custom_reader(json::Reader& r) { json::parseInt(r); }
void w_custom_writer(json::Writer& w) { json::printInt(w, 7); }

}
