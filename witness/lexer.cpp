// Tokens of a text, one after the other.
#include "reflect.h"
#include "utils/json/json.h"


using namespace reflect;
using json::Reader;
using json::Token;

extern "C" {

void wj_token(int type, size_t line);
void wj_string(const std::string& s);
void wj_int(int64_t v);
void wj_float(double v);
void wj_bool(bool v);
void wj_bad(const json::Error* e, size_t line);
void wj_still(const json::Error* e);
void wj_after(int type, bool same, bool ok);
void wj_options(int mask, int none, int def, int comments, int unescape, int validate);

void w_options() {
    wj_options(7, Reader::None, Reader::Default, Reader::AllowComments, Reader::UnescapeUnicode, Reader::ValidateUnicode);
}

void wj_lines(size_t before, size_t after);
void w_newline(Reader& r) { size_t before = r.line(); r.newline(); wj_lines(before, r.line()); }

void w_lex(std::istream& in, int options, int mode)
{
    Reader r(in, Reader::Options(options));

    while (true) {
        Token t = mode == 0 ? r.nextToken() : r.peekToken();
        if (mode) {
            // looking at a token any number of times and then taking it is taking it
            if (r.peekToken().type() != t.type()) { wj_after(-1, false, false); return; }
            t = r.nextToken();
        }

        if (r.error()) {
            wj_bad(&r.error(), r.line());
            Token u = r.nextToken();
            r.error("another one");
            wj_still(&r.error());
            wj_after(u.type(), true, r.ok());
            return;
        }

        wj_token(t.type(), r.line());
        if (t.type() == Token::String) wj_string(t.asString());
        if (t.type() == Token::Int) wj_int(t.asInt());
        if (t.type() == Token::Int || t.type() == Token::Float) wj_float(t.asFloat());
        if (t.type() == Token::Bool) wj_bool(t.asBool());
        if (t.type() == Token::EOS) return;
    }
}

}
