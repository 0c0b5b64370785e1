// Tokens of JSON texts by themselves.
#include "reflect.h"
#include "utils/json/json.h"

using namespace reflect;
using json::Token;

extern "C" {

void wk_type(int t);
void wk_bool(bool b);
void wk_int(int64_t v);
void wk_float(double v);
void wk_text(const std::string& s);

}
static void ask(const Token& t, int q)
{
    switch (q) {
    case 0: wk_type(t.type()); break;
    case 1: wk_bool(t.asBool()); break;
    case 2: wk_int(t.asInt()); break;
    case 3: wk_float(t.asFloat()); break;
    case 4: wk_text(t.asString()); break;
    case 5: wk_text(t.print()); break;
    }
}
static void copied(const Token& t, int q)
{
    Token c(t), a, m;
    a = c; m = Token(a);
    ask(m, q);
}
extern "C" {

void w_none(int q) { ask(Token(), q); }
void w_plain(int type, int q) { ask(Token(Token::Type(type)), q); }
void w_bool(int type, bool b, int q) { ask(Token(Token::Type(type), b), q); }
void w_text(int type, const std::string& s, int q) { ask(Token(Token::Type(type), s), q); }
void w_bool_copy(int type, bool b, int q) { copied(Token(Token::Type(type), b), q); }
void w_text_copy(int type, const std::string& s, int q) { copied(Token(Token::Type(type), s), q); }
void w_name(int type) { wk_text(json::print(Token::Type(type))); }

}
