// Errors of the library, the readers and the writers.
#include "reflect.h"
#include "utils/json/json.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/primitives.h"
#include "types/pointer.h"

using namespace reflect;

extern "C" {

void wx_text(const std::string& s);
void wx_flag(bool b);
void wx_what(const std::exception& e);

// templates whose errors only exist once they are used
const Type* w_vector() { return type< std::vector<int> >(); }
const Type* w_map() { return type< std::map<int, int> >(); }
const Type* w_umap() { return type< std::unordered_map<int, int> >(); }

// raising
void w_raise(const char* file, int line, const char* fmt, const std::string& a, const char* b) { reflect::error(file, line, fmt, a, b); }
void w_raise0(const char* file, int line, const char* fmt) { reflect::error(file, line, fmt); }
void w_verror(bool except, const char* file, int line, const std::string& msg) { verror(except, file, line, msg); }

// formatting
void w_format(const char* fmt, const std::string& s) { wx_text(errorFormat(fmt, s)); }
void w_format3(const char* fmt, std::string s, size_t n, char c) { wx_text(errorFormat(fmt, std::move(s), n, c)); }

// error objects
}
template<typename E> static void objects(const std::string& s, int what)
{
    E a;
    E b(s);
    E c(b);
    E d;
    if (what == 0) { wx_flag(a); wx_what(a); }
    if (what == 1) { wx_flag(b); wx_what(b); }
    if (what == 2) { wx_flag(c); wx_what(c); }
    if (what == 3) { d = b; wx_flag(d); wx_what(d); wx_flag(b); }
    if (what == 4) { d = E(s); wx_flag(d); wx_what(d); }
    if (what == 5) { b = a; wx_flag(b); wx_what(b); }
}
extern "C" {

void w_objects(const std::string& s, int what) { objects<reflect::Error>(s, what); }
void w_json_objects(const std::string& s, int what) { objects<json::Error>(s, what); }

// the first error of a stream stays, each names its place
void w_reader(std::istream& in, const std::string& a, const std::string& b, int n)
{
    json::Reader r(in);
    wx_flag(r.error());
    for (int i = 0; i < n; ++i) { char c = r.pop(); if (c == '\n') r.newline(); }
    r.error("<%s> here", a);
    wx_flag(r.error()); wx_what(r.error()); wx_flag(r.ok()); wx_flag(bool(r));
    r.error("then <%s>", b);
    wx_flag(r.error()); wx_what(r.error());
}
void w_writer(std::ostream& out, const std::string& a, const std::string& b)
{
    json::Writer w(out);
    wx_flag(w.error());
    w.error("<%s> here", a);
    wx_flag(w.error()); wx_what(w.error()); wx_flag(bool(w));
    w.error("then <%s>", b);
    wx_flag(w.error()); wx_what(w.error());
}

}
