"""JSON text: tokens, their values, and what happens to malformed text."""
import itertools
from core import *
import streams

WS = b' \t\n\r'
ESC = {'"': 34, '\\': 92, '/': 47, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9}
HEX = b'0123456789abcdefABCDEF'
DIG = b'0123456789'


class Malformed(Exception): pass
class Open(Exception): pass          # nothing is required


def utf8(code):
    if code <= 0x7f: return bytes([code])
    if code <= 0x7ff: return bytes([0xc0 | code >> 6, 0x80 | code & 63])
    if code <= 0xffff: return bytes([0xe0 | code >> 12, 0x80 | code >> 6 & 63, 0x80 | code & 63])
    return bytes([0xf0 | code >> 18, 0x80 | code >> 12 & 63, 0x80 | code >> 6 & 63, 0x80 | code & 63])


def reflex(t, comments, unescape, validate):
    """-> list of (kind, value, line), ended by ('eos'), ('malformed', line) or ('open')."""
    i = 0; out = []; line = 1; n = len(t)
    while True:
        while i < n:
            if t[i] in WS: line += t[i] == 10; i += 1
            elif t[i] in b'\v\f': return out + [('open',)]
            elif t[i] == 47 and i + 1 < n and t[i + 1] == 47:
                if not comments: return out + [('malformed', line)]
                while i < n and t[i] != 10: i += 1
            else: break
        if i == n: return out + [('eos', None, line)]
        c = t[i]
        try:
            if c in b'{}[],:': out.append((chr(c), None, line)); i += 1
            elif c in b'ntf':
                w = {110: b'null', 116: b'true', 102: b'false'}[c]
                if t[i:i + len(w)] != w: raise Malformed
                i += len(w)
                out.append(('null', None, line) if c == 110 else ('bool', int(c == 116), line))
            elif c == 34:
                i, s = refstring(t, i + 1, unescape, validate)
                out.append(('string', s, line))
            elif c == 45 or c in DIG:
                i, k, s = refnumber(t, i)
                out.append((k, s, line))
            else: raise Malformed
        except Malformed: return out + [('malformed', line)]
        except Open: return out + [('open',)]


def refnumber(t, i):
    n = len(t); s = i; kind = 'int'
    if t[i] == 45: i += 1
    def digits():
        nonlocal i
        a = i
        while i < n and t[i] in DIG: i += 1
        if i == a: raise Malformed
    a = i
    digits()
    lead = t[a] == 48 and i > a + 1
    if i < n and t[i] == 46: i += 1; kind = 'float'; digits()
    if i < n and t[i] in b'eE':
        i += 1; kind = 'float'
        if i < n and t[i] in b'+-': i += 1
        digits()
    if lead: raise Open
    if kind == 'int' and not -2**63 <= int(t[s:i]) < 2**63: kind = 'float'
    return i, kind, t[s:i]


def refhex(t, i):
    if i + 4 > len(t) or any(c not in HEX for c in t[i:i + 4]): raise Malformed
    return int(t[i:i + 4], 16)


def refstring(t, i, unescape, validate):
    n = len(t); s = b''; odd = False
    while True:
        if i >= n: raise Malformed
        c = t[i]
        if c == 34:
            if odd: raise Open
            return i + 1, s
        if c == 10: raise Malformed
        if c < 32: odd = True; s += bytes([c]); i += 1; continue
        if c == 92:
            if i + 1 >= n: raise Malformed
            k = chr(t[i + 1])
            if k in ESC: s += bytes([ESC[k]]); i += 2; continue
            if k != 'u': raise Malformed
            u = refhex(t, i + 2)
            if not unescape: s += t[i:i + 6]; i += 6; continue
            i += 6
            if 0xd800 <= u < 0xdc00:
                if t[i:i + 2] != b'\\u': raise Malformed
                low = refhex(t, i + 2)
                if not 0xdc00 <= low < 0xe000: raise Malformed
                u = 0x10000 + (u - 0xd800 << 10) + low - 0xdc00; i += 6
            elif 0xdc00 <= u < 0xe000: raise Malformed
            s += utf8(u); continue
        if c >= 128 and validate:
            k = 2 if c >> 5 == 6 else 3 if c >> 4 == 14 else 4 if c >> 3 == 30 else 0
            if not k or i + k > n or any(x >> 6 != 2 for x in t[i + 1:i + k]): raise Malformed
            u = c & (1 << 7 - k) - 1
            for x in t[i + 1:i + k]: u = u << 6 | x & 63
            if u < (0, 0, 0x80, 0x800, 0x10000)[k]: raise Malformed
            if u > 0x10ffff or 0xd800 <= u < 0xe000: odd = True
            s += t[i:i + k]; i += k; continue
        s += bytes([c]); i += 1


# ---------------------------------------------------------------- analysis
SPEC = sorted(set(b'{}[],:"\\/ \t\n\r\v\f-+.eE019nulltruefalsebrftuxAFGg@`;' + bytes((0, 1, 31, 127, 128, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf,
              0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xf7, 0xf8, 0xff))))
FULL = bytes(range(256))
NUMCH = DIG + b'.eE+- '


def families(thorough):
    """(what, tape: list of bytes (fixed or choice), option masks)"""
    D = 'cuv'
    def sym(n, dom=FULL): return [dom] * n
    def fix(s): return [bytes([c]) for c in s.encode('latin1')]
    allopts = [a + b + c for a in ('', 'c') for b in ('', 'u') for c in ('', 'v')]
    k = 1 if thorough else 0
    yield 'any text', sym(2 + k), allopts
    yield 'any text', sym(3 + k), ['cuv']
    yield 'string', fix('"') + sym(3 + k), ['uv', '']
    yield 'string', fix('"a') + sym(1 + k) + fix('" '), allopts
    yield 'escape', fix('"\\') + sym(2 + k), ['uv', 'v']
    yield 'literal', fix('nul') + sym(2), ['uv']
    yield 'literal', fix('tru') + sym(2), ['uv']
    yield 'literal', fix('fals') + sym(2), ['uv']
    yield 'literal', fix('n') + sym(3, b'ulx '), ['uv']
    yield 'literal', fix('t') + sym(3, b'ruex '), ['uv']
    yield 'literal', fix('f') + sym(4, b'alsex '), ['uv']
    yield 'comment', fix('//') + sym(2 + k), ['cuv', 'uv']
    yield 'comment', fix('1 /') + sym(2) + fix('\n2'), ['cuv']
    yield 'lines', fix('\n') + sym(2 + k, b'\n\r 1x"/') + fix('\n x'), ['cuv', 'uv']
    yield 'number', fix('-') + sym(4 + k, NUMCH + b'x'), ['uv']
    yield 'number', sym(4 + k, NUMCH + b','), ['uv']
    yield 'number', fix('1') + sym(5 + k, NUMCH), ['uv']
    for p in ('922337203685477580', '-922337203685477580', '12345678901234567', '-99999999999999999', '1000000000000000000', '-1000000000000000000'):
        yield 'large number', fix(p) + sym(1, DIG) + fix(' '), ['uv']
    yield 'UTF-8', fix('"') + sym(1, bytes(range(128, 256))) + sym(3, bytes(range(128, 256)) + b'a"') + fix('"'), ['uv']
    yield 'UTF-8', fix('"') + sym(2, bytes(range(128, 256)) + b'a"') + fix('"'), ['uv', 'u']
    for h in ('00', '01', '07', '08', '0f', '10', 'd7', 'd8', 'DB', 'dc', 'DF', 'e0', 'FF'):
        yield '\\u', fix('"\\u' + h) + sym(2, HEX) + fix('"'), ['uv']
    for l in ('00', '7f', '80', 'fF'):
        yield '\\u', fix('"\\u') + sym(2, HEX) + fix(l + '"'), ['uv']
    for i in range(4):
        yield '\\u', fix('"\\u' + '0041'[:i]) + sym(1) + fix('0041'[i + 1:] + '"'), ['uv', 'v']
    for i in range(5): yield '\\u', fix('"\\u' + '0041'[:i]), ['uv', 'v']
    yield '\\u', fix('"\\u') + sym(1 + k, HEX + b'gG"\\') + fix('041"'), ['uv', 'v']
    for hi in ('D800', 'DBFF', 'dabc'):
        for lo in ('dc', 'DF', 'D8', 'e0', '00', 'db'):
            yield 'surrogates', fix('"\\u%s\\u%s' % (hi, lo)) + sym(2, HEX) + fix('"'), ['uv']
        yield 'surrogates', fix('"\\u%s' % hi) + sym(2) + fix('dc00"'), ['uv', '']
        for i in range(7): yield 'surrogates', fix('"\\u%s' % hi + '\\uDC00'[:i]), ['uv']
        yield 'surrogates', fix('"\\u%s\\uDC0' % hi) + sym(1) + fix('"'), ['uv']
    for w in ('d8', 'DB'):
        yield 'surrogates', fix('"\\u' + w) + sym(2, HEX) + fix('\\uDEAD"'), ['uv']

    # long tokens
    yield 'long string', fix('"' + 'ab\\n/' * 140) + sym(1, b'x"\n\\') + fix('"'), ['uv', '']
    yield 'long string', fix('"' + '\\u00e9\xc3\xa9' * 75) + sym(1, b'x"\n') + fix('"'), ['uv']
    yield 'long string', fix('["' + 'a' * 4100) + sym(1, b'x"') + fix('"'), ['uv']
    yield 'long number', fix('1.' + '0123456789' * 32) + sym(1, b'5.,ex') + fix('7'), ['uv']
    yield 'long number', fix('-' + '9' * 310) + sym(1, b'5.,ex') + fix('7'), ['uv']
    yield 'long number', fix('0' * 4), ['uv']
    yield 'long number', fix('1e' + '0' * 300) + sym(1, b'5., x'), ['uv']
    yield 'long comment', fix('//' + 'x/"' * 200) + sym(1, b'\n1') + fix('2'), ['cuv']
    yield 'long white space', fix(' \t\r' * 200) + sym(1, b'1 x') + fix('2'), ['uv']
    yield 'many lines', fix('\n' * 300) + sym(1, b'1\nx') + fix('2'), ['uv']
    yield 'many tokens', fix('[{},:1 "a"]' * 60) + sym(1, b'1\nx'), ['uv']


class Texts:
    """Runs entry points on abstract texts and compares what each of the outcomes did with what every text it stands for requires."""
    def __init__(self, ctx, prefix='wj_'):
        self.ctx = ctx
        e = self.e = ctx.engine(text=False); streams.install(e)

        def h(eng, st, c):
            k = c.qn[len(prefix):]
            x = list(c.args)
            if k in ('string', 'key'): x = [eng.getstr(st, c.args[0], c.loc)]
            elif k in ('bad', 'still'): x = [streams.message(eng, st, c.args[0])]
            st.mon['seen'] = st.mon.get('seen', ()) + ((k,) + tuple(x),)
            return [(st, None)]
        e.add_hook(lambda q, p, d, n: q.startswith(prefix), h)

    def run(self, fn, tape, *args, **kw):
        e = self.e; w = e.widen, e.max_depth
        if len(tape) > 100: e.widen, e.max_depth = 20000, 2000          # known text: loops run as often as they do
        try: self.run1(fn, tape, *args, **kw)
        finally: e.widen, e.max_depth = w

    def run1(self, fn, tape, args, rule, judge, setup=None):
        """judge(text, outcome, env) -> '' | what is wrong | None (cannot tell) | False (nothing required)"""
        ctx, e, rep = self.ctx, self.e, self.ctx.rep
        st = State(); chars = []; syms = []
        for i, d in enumerate(tape):
            if len(d) == 1: chars.append(d[0]); continue
            s = e.sym(('ch', i), 8); st.dom[s] = frozenset(d); chars.append(s); syms.append((i, s))
        if setup: args = setup(st, chars)
        else: args = [streams.input_stream(e, st, chars)] + args
        outs = calls(e, st, fn, args)
        rep.count('abstract outcomes', len(outs)); rep.count('texts (symbolic)')
        for o in outs:
            if o.state.taint:
                rep.undecided(rule, 'unmodelled: %s' % (o.state.taint[0],), ctx.loc(o.state.taint[1])); continue
            self.judge(chars, syms, o, rule, judge)

    def judge(self, chars, syms, o, rule, judge):
        ctx, e, rep = self.ctx, self.e, self.ctx.rep
        st = o.state
        facts = [(t, d) for t, d in st.dom.items() if t[0] == 't' and len(e.support(t)) > 1 and all(x[0] == 's' and isinstance(x[1], tuple) and x[1][0] == 'ch' for x in e.support(t))]
        doms = []
        for _, s in syms:
            d = e.values(st, s, 256)
            if d is None: rep.undecided(rule, 'characters not determined'); return
            if len(d) <= 22: doms.append(d); continue
            ds = set(d)
            x = [v for v in SPEC if v in ds]
            for v in (d[0], d[-1]):
                if v not in x: x.append(v)
            doms.append(x)
        base = bytearray(c if isinstance(c, int) else 0 for c in chars)
        for combo in itertools.product(*doms):
            env = {s: v for (_, s), v in zip(syms, combo)}
            if facts and not self.admitted(facts, env): continue
            for (i, _), v in zip(syms, combo): base[i] = v
            bad = judge(bytes(base), o, env)
            if bad is False: continue
            if bad is None: rep.undecided(rule, 'result not determined'); continue
            rep.obligation(rule, not bad)
            if bad: rep.violation(rule, bad[0], 'for the text %s %s' % (shown(bytes(base)), bad[1]), ctx.loc(o.loc), st.trail(ctx.P))

    def admitted(self, facts, env):
        for t, d in facts:
            try: x = self.e.ev(t, env)
            except (Undecided, KeyError, TypeError): continue
            if d.__class__ is frozenset:
                if x not in d: return False
            elif not d[1] <= x <= d[2]: return False
        return True

    def num(self, v, env):
        if isinstance(v, int): return v
        if isinstance(v, tuple) and v[:2] == ('t', 'opaque') and v[3] == 'fptosi' and v[4][0] == 's' and isinstance(v[4][1], tuple) and v[4][1][0] == 'strtod':
            # an integer read as a floating point number: exact only up to 2^53
            k = self.concrete(v[4][1][1], env)
            try: return int(float(k)) & 2 ** 64 - 1 if k is not None and abs(float(k)) < 2.0 ** 63 else None
            except ValueError: return None
        try: return self.e.ev(v, env)
        except (Undecided, KeyError, TypeError): return None

    def concrete(self, parts, env):
        r = bytearray()
        for x in parts:
            if isinstance(x, int): r.append(x & 255); continue
            if x[0] == 'S': return None
            v = self.num(x, env)
            if v is None: return None
            r.append(v & 255)
        return bytes(r)

    def value(self, q, w, env):
        """Compares the value events of a scalar token; '' / message / None."""
        k = w[0]
        if k == 'string':
            v = self.concrete(q.pop(0)[1], env)
            if v is None: return None
            if v != w[1]: return 'the string is %s, required %s' % (shown(v), shown(w[1]))
        if k == 'int':
            v = self.num(q.pop(0)[1], env)
            if v is None: return None
            if tosigned(v, 64) != int(w[1]): return 'the integer is %s, required %s' % (tosigned(v, 64), int(w[1]))
        if k in ('int', 'float'):
            v = q.pop(0)[1]
            if not (isinstance(v, tuple) and v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == 'strtod'): return None
            v = self.concrete(v[1][1], env)
            if v is None: return None
            if v != w[1]: return 'the number is read from %s, required %s' % (shown(v), shown(w[1]))
        if k == 'bool':
            v = self.num(q.pop(0)[1], env)
            if v is None: return None
            if v != w[1]: return 'the value is %s, required %s' % (bool(v), bool(w[1]))
        return ''

    def line(self, msg, env):
        k = self.concrete(tuple(itertools.takewhile(lambda x: isinstance(x, int), msg)), env)
        return k.split(b':')[0].decode('latin1') if k and k[:1].isdigit() else None


def tokens(ctx, wellformed):
    rep = ctx.rep
    T = Texts(ctx)
    K = enumerators(ctx.P, 'reflect::json::Token::Type')
    kinds = {K['ObjectStart']: '{', K['ObjectEnd']: '}', K['ArrayStart']: '[', K['ArrayEnd']: ']', K['Separator']: ',', K['KeySeparator']: ':',
             K['String']: 'string', K['Int']: 'int', K['Float']: 'float', K['Bool']: 'bool', K['Null']: 'null', K['EOS']: 'eos'}
    O = enumerators(ctx.P, 'reflect::json::Reader::Options')
    bits = {'c': O['AllowComments'], 'u': O['UnescapeUnicode'], 'v': O['ValidateUnicode']}
    rule = 'tokens' if wellformed else 'malformed'
    if wellformed:
        ok = sorted(bits.values())
        good = len(set(ok)) == 3 and all(b and not b & (b - 1) for b in ok) and O['None'] == 0 and O['Default'] == bits['u'] | bits['v']
        rep.obligation('options', good)
        if not good: rep.violation('options', 'Reader::Options', 'the options are not three distinct flags of which the last two are the default: %s' % O)
    F = ctx.fn('w_lex')

    def scenario(what, tape, opt, mode):
        def judge(text, o, env):
            want = reflex(text, 'c' in opt, 'u' in opt, 'v' in opt)
            if want[-1][0] == 'open' or (want[-1][0] == 'eos') != wellformed: return False
            bad = differs(o.state.mon.get('seen', ()), want, env, o)
            return bad and (what, '(options %s%s) %s' % (opt or 'none', ', peeked' if mode else '', bad))
        def both(text, o, env):
            if o.state.mon.get('ub') and not wellformed:
                u = o.state.mon['ub']
                rep.violation('defined', u[0], 'undefined behaviour while reading text', ctx.loc(list(u[1])), o.state.trail(ctx.P))
            return judge(text, o, env)
        T.run(F, tape, [sum(bits[x] for x in opt), mode], rule, both)

    def differs(seen, want, env, o):
        q = list(seen)
        if o.kind != 'return': return 'the program ends with %s' % o.kind
        for w in want:
            if w[0] == 'malformed':
                if not q or q[0][0] != 'bad':
                    return 'no error is reported%s' % (' but token %s' % kinds.get(q[0][1], q[0][1]) if q and q[0][0] == 'token' else '')
                msg = q.pop(0)[1]
                if msg is None: return None
                k = T.line(msg, env)
                if k is not None and k != str(w[1]): return 'the error is reported for line %s, required %s' % (k, w[1])
                if not q or q.pop(0)[1] != msg: return 'a later error replaces the first one'
                if not q or q[0][0] != 'after': return None
                if q[0][1] != K['EOS'] or q[0][3]: return 'after the error the reader still delivers tokens'
                return ''
            if not q or q[0][0] == 'bad': return 'an error is reported where %s is required' % (w[0] if w[0] != 'eos' else 'the end of the text')
            if q[0][0] == 'after': return 'peeking changes the token'
            _, ty, line = q.pop(0)
            if not isinstance(ty, int) or not isinstance(line, int): return None
            k = kinds.get(ty)
            if k != w[0]: return 'the token is %s, required %s' % (k, w[0])
            if line != w[2]: return 'the line is %s, required %s' % (line, w[2])
            bad = T.value(q, w, env)
            if bad or bad is None: return bad
        return ''

    if wellformed:
        # the next line has the next number, whatever the line so far
        e = T.e; st = State()
        for o in calls(e, st, ctx.fn('w_newline'), [lazy('reader')]):
            q = o.state.mon.get('seen', ())
            if o.kind != 'return' or o.state.taint or len(q) != 1:
                rep.undecided('lines', 'newline ends with %s' % o.kind); continue
            _, a, b = q[0]
            sup = sorted(set(e.support(a)) | set(e.support(b)), key=repr)
            if len(sup) != 1: rep.undecided('lines', 'line not determined'); continue
            for v in (0, 1, 126, 254, 255, 256, 32766, 32767, 65534, 65535, 65536, 2**24 - 1, 2**24, 2**31 - 3):
                try: x, y = e.ev(a, {sup[0]: v}), e.ev(b, {sup[0]: v})
                except (Undecided, KeyError, TypeError): rep.undecided('lines', 'line not determined'); continue
                rep.obligation('lines', y == x + 1)
                if y != x + 1: rep.violation('lines', 'Reader::newline', 'the line after line %s is %s' % (x, y), ctx.loc(o.loc), o.state.trail(ctx.P))
    for what, tape, opts in families(ctx.tier == 'thorough'):
        for opt in opts: scenario(what, tape, opt, 0)
    for what, tape in (('peeking', [FULL, FULL]), ('peeking', [b'"', FULL, b'"', FULL])): scenario(what, tape, 'uv', 1)


def shown(b):
    if len(b) > 160: return '"%s ... (%d bytes) ... %s"' % (shown(b[:60])[1:-1], len(b), shown(b[-60:])[1:-1])
    return '"%s"' % ''.join(chr(c) if 32 <= c < 127 else '\\x%02x' % c for c in b)


@uses_witness('lexer.cpp')
def c20(ctx): tokens(ctx, True)


@uses_witness('lexer.cpp')
def c21(ctx): tokens(ctx, False)
