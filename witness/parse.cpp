// Walking over the values of a text with the generic parsing functions.
#include "reflect.h"
#include "utils/json/json.h"

using namespace reflect;
using json::Reader;
using json::Token;

extern "C" {

void wj_open(int c);
void wj_close(int c);
void wj_item(size_t i);
void wj_key(const std::string& s);
void wj_string(const std::string& s);
void wj_int(int64_t v);
void wj_float(double v);
void wj_bool(bool v);
void wj_null();
void wj_skip();
void wj_end(bool ok);
void wj_next(int type);
void wj_ask(int type);
void wj_answer(bool v);

}

static void walk(Reader& r)
{
    Token t = r.peekToken();
    switch (t.type()) {
    case Token::ArrayStart:
        wj_open('[');
        json::parseArray(r, [&] (size_t i) { wj_item(i); walk(r); });
        wj_close(']');
        break;

    case Token::ObjectStart:
        wj_open('{');
        json::parseObject(r, [&] (const std::string& key) { wj_key(key); walk(r); });
        wj_close('}');
        break;

    case Token::String: wj_string(json::parseString(r)); break;
    case Token::Int: wj_int(json::parseInt(r)); break;
    case Token::Float: wj_float(json::parseFloat(r)); break;
    case Token::Bool: wj_bool(json::parseBool(r)); break;
    case Token::Null: json::parseNull(r); wj_null(); break;
    default: json::skip(r); break;
    }
}

static void over(Reader& r) { wj_skip(); json::skip(r); }

extern "C" {

void w_walk(std::istream& in, int mode)
{
    Reader r(in);
    if (mode == 0) walk(r);
    if (mode == 1) over(r);
    if (mode == 2) json::parseArray(r, [&] (size_t i) { wj_item(i); walk(r); });
    if (mode == 3) json::parseObject(r, [&] (const std::string& key) { wj_key(key); walk(r); });
    if (mode == 4) json::parseArray(r, [&] (size_t i) { wj_item(i); over(r); });
    if (mode == 5) json::parseObject(r, [&] (const std::string& key) { wj_key(key); over(r); });

    bool ok = !r.error();
    wj_end(ok);
    if (ok) wj_next(r.nextToken().type());
}

void w_scalar(std::istream& in, int which)
{
    Reader r(in);
    switch (which) {
    case 0: json::parseNull(r); wj_end(!r.error()); break;
    case 1: { bool v = json::parseBool(r); wj_end(!r.error()); if (!r.error()) wj_bool(v); break; }
    case 2: { int64_t v = json::parseInt(r); wj_end(!r.error()); if (!r.error()) wj_int(v); break; }
    case 3: { double v = json::parseFloat(r); wj_end(!r.error()); if (!r.error()) wj_float(v); break; }
    case 4: { std::string v = json::parseString(r); wj_end(!r.error()); if (!r.error()) wj_string(v); break; }
    }
    if (!r.error()) wj_next(r.nextToken().type());
}

// assertToken and expectToken
void w_expect(std::istream& in, int type)
{
    Reader r(in);
    Token t = r.peekToken();
    if (r.error()) return;
    wj_ask(t.type());
    wj_answer(r.assertToken(t, Token::Type(type)));
    if (r.error()) return;
    wj_ask(r.expectToken(Token::Type(type)).type());
    wj_end(!r.error());
    wj_next(r.nextToken().type());
}

}
