// Printing scalars, arrays and objects.
#include "reflect.h"
#include "utils/json/json.h"

using namespace reflect;
using json::Writer;

extern "C" {

void wj_options(int none, int pretty, int compact, int escape, int validate, int def);
void wj_bad(const json::Error* e);
void wj_still(const json::Error* e);
void wj_end(bool ok);
void wj_item(size_t i);
void wj_key(const std::string& s);
bool wq_skip(size_t i);
bool wq_fail(size_t i);

}

struct Keys
{
    const std::string* keys;
    size_t n;
    const std::string* begin() const { return keys; }
    const std::string* end() const { return keys + n; }
    size_t size() const { return n; }
};

static void item(Writer& w, size_t i)
{
    wj_item(i);
    if (wq_fail(i)) w.error("bad");
    else json::printInt(w, int64_t(i));
}

extern "C" {

void w_format(std::ostream& out, int options, int what, const std::string& s, int64_t i)
{
    Writer w(out, Writer::Options(options));
    switch (what) {
    case 0: json::formatString(w, s); break;
    case 1: json::printString(w, s); break;
    case 2: json::formatInt(w, i); break;
    case 3: json::printInt(w, i); break;
    case 4: json::formatBool(w, i != 0); break;
    case 5: json::printBool(w, i != 0); break;
    case 6: json::formatNull(w); break;
    case 7: json::printNull(w); break;
    }
    wj_end(!w.error());
}

void w_first(std::ostream& out)
{
    Writer w(out);
    w.error("first");
    wj_bad(&w.error());
    w.error("second");
    wj_still(&w.error());
}

// mode: 0 array, 1 array with skipping, 2 object, 3 object with skipping
void w_print(std::ostream& out, int options, int mode, const std::string* keys, size_t n, size_t outer)
{
    Writer w(out, Writer::Options(options));
    auto inner = [&] {
        if (mode == 0) json::printArray(w, n, [&] (size_t i) { item(w, i); });
        if (mode == 1) json::printArray(w, n, [&] (size_t i) { item(w, i); }, [] (size_t i) { return wq_skip(i); });
        Keys k = { keys, n };
        auto index = [&] (const std::string& key) { return size_t(&key - keys); };
        if (mode == 2) json::printObject(w, k, [&] (const std::string& key) { wj_key(key); item(w, index(key)); });
        if (mode == 3) json::printObject(w, k, [&] (const std::string& key) { wj_key(key); item(w, index(key)); },
                [&] (const std::string& key) { return wq_skip(index(key)); });
    };
    if (!outer) inner();
    else json::printArray(w, outer, [&] (size_t) { inner(); });
    wj_end(!w.error());
}

void w_last(std::ostream& out, int options, size_t n)
{
    Writer w(out, Writer::Options(options));
    json::printArray(w, n, [&] (size_t i) { item(w, i); }, [=] (size_t i) { return i != n - 1; });
    wj_end(!w.error());
}

void w_indent(std::ostream& out, int options, size_t n)
{
    Writer w(out, Writer::Options(options));
    for (size_t i = 0; i < n + 1; ++i) w.indent();
    w.unindent();
    w.newline();
    w.space();
    wj_end(!w.error());
}

}
