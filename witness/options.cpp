// Options of JSON members.
#include "reflect.h"
#include "utils/json/json.h"

using namespace reflect;

extern "C" {

void wt_options(bool skip, bool skipEmpty, const std::string& alias, const std::string& parser, const std::string& printer);

static void see(const json::Traits& t) { wt_options(t.skip, t.skipEmpty, t.alias, t.parser, t.printer); }

void w_fresh() { json::Traits t; see(t); }
void w_skip() { see(json::skip()); }
void w_skipEmpty() { see(json::skipEmpty()); }
void w_alias(const std::string& a) { see(json::alias(a)); }
void w_custom(const std::string& a, const std::string& b) { see(json::custom(a, b)); }

void w_or(bool s0, bool e0, const std::string& a0, const std::string& p0, const std::string& q0,
        bool s1, bool e1, const std::string& a1, const std::string& p1, const std::string& q1)
{
    json::Traits x, y;
    x.skip = s0; x.skipEmpty = e0; x.alias = a0; x.parser = p0; x.printer = q0;
    y.skip = s1; y.skipEmpty = e1; y.alias = a1; y.parser = p1; y.printer = q1;
    const json::Traits& cx = x;
    json::Traits z = cx | y;
    see(z); see(x); see(y);
}

}
