"""JSON text: arrays, objects and typed values."""
from core import *
from props.lexer import Texts, reflex, shown, enumerators, FULL, HEX, DIG
import streams


class Cut(Exception): pass         # the text is malformed from here on
class Free(Exception): pass        # nothing is required


class Ref:
    """Reference: the events of a walk over the tokens of a text."""
    def __init__(self, toks, mode): self.t = toks; self.i = 0; self.ev = []; self.maybe = []; self.mode = mode

    def peek(self):
        x = self.t[self.i]
        if x[0] == 'open': raise Free
        if x[0] in ('malformed', 'eos'): raise Cut
        return x

    def take(self, k=None):
        x = self.peek()
        if k and x[0] not in k: raise Cut
        self.i += 1
        return x

    def value(self, quiet=False):
        x = self.peek()
        k = x[0]
        if k in '[{': self.container(k, quiet)
        elif k in ('string', 'int', 'float', 'bool', 'null'):
            self.take()
            if not quiet: self.ev.append(x)
        else: raise Cut

    def container(self, k, quiet, events=True, nested=None):
        if not quiet and events: self.ev.append(('open', k))
        self.take(k)
        end = ']' if k == '[' else '}'
        n = 0
        if self.peek()[0] == end: self.take()
        else:
            while True:
                if k == '{':
                    key = self.take(('string',))
                    self.take((':',))
                    what = ('key', key[1])
                else: what = ('item', n)
                n += 1
                if not quiet: self.ev.append(what)
                if nested == 'skip': self.ev.append(('skip',))
                # an array's item is only known to exist once its value begins
                self.value(quiet or nested == 'skip')
                if self.take((',', end))[0] == end: break
        if not quiet and events: self.ev.append(('close', end))

    def run(self):
        m = self.mode
        if m == 0: self.value()
        elif m == 1: self.ev.append(('skip',)); self.value(True)
        else:
            k = '[' if m in (2, 4) else '{'
            if self.peek()[0] == 'null': self.take(); return
            self.container(k, False, False, 'skip' if m > 3 else None)


def families(thorough):
    A = b'[]{},:"1 '
    def sym(n, dom=A): return [dom] * n
    def fix(s): return [bytes([c]) for c in s.encode('latin1')]
    k = 1 if thorough else 0
    V = b'[]{},:"1'
    W = b'[]{},:1 '
    allm = (0, 1, 2, 3, 4, 5)
    yield 'value', sym(4 + k), allm
    yield 'array', fix('[') + sym(4 + k, V), (0, 1, 2, 4)
    yield 'array', fix('[1') + sym(4 + k, W), (0, 1, 2, 4)
    yield 'array', fix('[[') + sym(4 + k, b'[],1{}'), (0, 1, 4)
    yield 'array', fix('[1,2,') + sym(3 + k, V), (0, 1, 2)
    yield 'object', fix('{') + sym(4 + k, V), (0, 1, 3, 5)
    yield 'object', fix('{"a"') + sym(4 + k, V), (0, 1, 3, 5)
    yield 'object', fix('{"a":') + sym(3 + k, V), (0, 1, 3, 5)
    yield 'object', fix('{"a":1') + sym(3, V) + fix('":2}'), (0, 1, 3)
    yield 'object', fix('{"a":1,') + sym(3 + k, V), (0, 1, 3)
    yield 'object', fix('{"a":1,"') + sym(1) + fix('"') + sym(2 + k, V) + fix('}'), (0, 3, 5)
    yield 'object', fix('{"a":[') + sym(3 + k, V) + fix('}'), (0, 1, 5)
    yield 'object', fix('{"') + sym(1, FULL) + fix('":') + sym(2, b'1[]{}t ') + fix('}'), (0, 3)
    yield 'array', fix('[{"a":') + sym(3 + k, V) + fix(']'), (0, 1, 4)
    yield 'array', fix('[') + sym(1, FULL) + fix(',') + sym(1, FULL) + fix(']'), (0, 1, 2)
    yield 'null', sym(1, b'[{n, ') + fix('null') + sym(2, b']},: '), allm
    yield 'null', fix('[null,') + sym(3, b'nul]'), (0, 1)
    yield 'literal', fix('[true,false,') + sym(3, b'null]'), (0, 1, 4)
    # long and deep values
    yield 'long array', fix('[' + '1,' * 300) + sym(1, b'1],[') + fix(']'), (0, 1, 2, 4)
    yield 'long array', fix('[' + '[],{},' * 50 + '"') + sym(1, b'1"') + fix('"]'), (1, 4)
    yield 'long object', fix('{' + ''.join('"k%d":%d,' % (i, i) for i in range(150)) + '"x":') + sym(1, b'1}{') + fix('}'), (0, 1, 3, 5)
    yield 'deep value', fix('[' * 70) + sym(1, b'1]{') + fix(']' * 70), (0, 1, 4)
    yield 'deep value', fix('{"a":' * 40) + sym(1, b'1}[') + fix('}' * 40), (0, 1, 5)
    for t in ('[', '[1', '[1,', '{', '{"a"', '{"a":', '{"a":1', '{"a":1,', '[[1]', '[{"a":[', '', '"', 'tru'):
        yield 'truncated', fix(t), (0, 1)
        if t[:1] in ('[', ''): yield 'truncated', fix(t), (2, 4)
        if t[:1] in ('{', ''): yield 'truncated', fix(t), (3, 5)


def c22(ctx):
    T = Texts(ctx)
    K = enumerators(ctx.P, 'reflect::json::Token::Type')
    names = {'{': 'ObjectStart', '}': 'ObjectEnd', '[': 'ArrayStart', ']': 'ArrayEnd', ',': 'Separator', ':': 'KeySeparator', 'string': 'String', 'int': 'Int',
             'float': 'Float', 'bool': 'Bool', 'null': 'Null', 'eos': 'EOS'}
    what_is = {0: 'walk', 1: 'skip', 2: 'parseArray', 3: 'parseObject', 4: 'parseArray', 5: 'parseObject'}
    F = ctx.fn('w_walk')

    def match(q, w, env):
        """One event against the required one: '' / message / None."""
        if w[0] in ('open', 'close'):
            return '' if q and q[0][0] == w[0] and q.pop(0)[1] == ord(w[1]) else 'x'
        if w[0] == 'item':
            if not q or q[0][0] != 'item': return 'x'
            i = q.pop(0)[1]
            return '' if i == w[1] else 'item %s is visited as item %s' % (w[1], i) if isinstance(i, int) else None
        if w[0] == 'key':
            if not q or q[0][0] != 'key': return 'x'
            v = T.concrete(q.pop(0)[1], env)
            return None if v is None else '' if v == w[1] else 'the key is %s, required %s' % (shown(v), shown(w[1]))
        if w[0] == 'skip': return '' if q and q.pop(0)[0] == 'skip' else 'x'
        if not q or q[0][0] != w[0]: return 'x'
        if w[0] == 'null': q.pop(0); return ''
        return scalar(q, w, env)

    def scalar(q, w, env):
        if w[0] == 'float':
            v = q.pop(0)[1]
            if not (isinstance(v, tuple) and v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == 'strtod'): return None
            v = T.concrete(v[1][1], env)
            return None if v is None else '' if v == w[1] else 'the number is read from %s, required %s' % (shown(v), shown(w[1]))
        if w[0] == 'int':
            v = T.num(q.pop(0)[1], env)
            return None if v is None else '' if tosigned(v, 64) == int(w[1]) else 'the integer is %s, required %s' % (tosigned(v, 64), int(w[1]))
        return T.value(q, w, env)

    def show(w): return w[0] + (' ' + (shown(w[1]) if isinstance(w[1], bytes) else str(w[1])) if len(w) > 1 and w[1] is not None else '')

    def scenario(what, tape, mode):
        def judge(text, o, env):
            r = Ref(reflex(text, False, True, True), mode)
            ok = True
            try: r.run()
            except Cut: ok = False
            except Free: return False
            bad = compare_walk(r, ok, o, env)
            return bad and ('%s: %s' % (what_is[mode], what), bad)
        T.run(F, tape, [mode], 'containers', judge)

    def compare_walk(r, ok, o, env):
        if o.kind != 'return': return 'the program ends with %s' % o.kind
        q = list(o.state.mon.get('seen', ()))
        ends = [x for x in q if x[0] == 'end']
        if len(ends) != 1 or not isinstance(ends[0][1], int): return None
        if ends[0][1] and not ok: return 'no error is reported'
        if not ends[0][1] and ok: return 'an error is reported'
        for w in r.ev:
            if w[0] == 'close' and not ok: pass
            bad = match(q, w, env)
            if bad == 'x': return 'required %s but got %s' % (show(w), q[0][0] if q else 'nothing')
            if bad or bad is None: return bad
        if not ok:
            # what follows the malformed token: at most the item that begins there, and the ends of the open containers
            rest = [x for x in q if x[0] not in ('end', 'close')]
            if len(rest) > 2 or any(x[0] in ('key', 'open', 'next') for x in rest) and r.mode not in (1,): 
                return '%s follows the malformed token' % rest[0][0]
            items = [x for x in rest if x[0] == 'item']
            if len(items) > 1: return 'items follow the malformed token'
            return ''
        if q[0][0] != 'end': return 'an unexpected %s' % q[0][0]
        nxt = q[1][1] if len(q) > 1 and q[1][0] == 'next' else None
        if not isinstance(nxt, int): return None
        w = r.t[r.i]
        if w[0] in ('open', 'malformed'): return ''
        if nxt != K[names[w[0]]]: return 'the token after the value is %s, required %s' % (nxt, names[w[0]])
        return ''

    for what, tape, modes in families(ctx.tier == 'thorough'):
        for m in modes: scenario(what, tape, m)


c22.witness = ('parse.cpp',)


SCALARS = ('parseNull', 'parseBool', 'parseInt', 'parseFloat', 'parseString')


def c23(ctx):
    """Typed values: the token of that type is taken, any other is an error and never fatal."""
    T = Texts(ctx)
    K = enumerators(ctx.P, 'reflect::json::Token::Type')
    names = {'{': 'ObjectStart', '}': 'ObjectEnd', '[': 'ArrayStart', ']': 'ArrayEnd', ',': 'Separator', ':': 'KeySeparator', 'string': 'String', 'int': 'Int',
             'float': 'Float', 'bool': 'Bool', 'null': 'Null', 'eos': 'EOS'}
    takes = (('null',), ('bool',), ('int',), ('int', 'float'), ('string',))
    k = 1 if ctx.tier == 'thorough' else 0
    def fix(s): return [bytes([c]) for c in s.encode('latin1')]
    tapes = [[FULL] * (2 + k), fix('"') + [FULL] * (1 + k) + fix('"'), fix('-') + [DIG + b'.'] * 3, fix('1') + [DIG + b'.eE+-'] * (3 + k), fix('922337203685477580') + [DIG],
             fix('nul') + [FULL], fix('tru') + [FULL], fix('fals') + [FULL], fix(' \n') + [FULL], fix('"\\u00') + [HEX] * 2 + fix('"'), fix('')]

    def num(q, w, which, env):
        if which == 3:
            v = q.pop(0)[1]
            if not (isinstance(v, tuple) and v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == 'strtod'): return None
            v = T.concrete(v[1][1], env)
            return None if v is None else '' if v == w[1] else 'the number is read from %s, required %s' % (shown(v), shown(w[1]))
        if which == 2:
            v = T.num(q.pop(0)[1], env)
            return None if v is None else '' if tosigned(v, 64) == int(w[1]) else 'the integer is %s, required %s' % (tosigned(v, 64), int(w[1]))
        return T.value(q, w, env)
    for which in range(5):
        for tape in tapes:
            def judge(text, o, env):
                toks = reflex(text, False, True, True)
                w = toks[0]
                if w[0] == 'open': return False
                ok = w[0] in takes[which]
                def f():
                    if o.kind != 'return': return 'the program ends with %s' % o.kind
                    q = list(o.state.mon.get('seen', ()))
                    if not q or q[0][0] != 'end': return None
                    if q[0][1] and not ok: return 'no error is reported'
                    if not q[0][1] and ok: return 'an error is reported'
                    if not ok: return ''
                    q.pop(0)
                    if which:
                        bad = num(q, w, which, env)
                        if bad or bad is None: return bad
                    n = toks[1]
                    if n[0] in ('open', 'malformed'): return ''
                    if q[0][1] != K[names[n[0]]]: return 'the token after the value is %s, required %s' % (q[0][1], names[n[0]])
                    return ''
                bad = f()
                return bad and (SCALARS[which], bad)
            T.run(ctx.fn('w_scalar'), tape, [which], 'typed', judge)
    for tn, ty in sorted(K.items()):
        if tn in ('NoToken',): continue
        for tape in ([FULL], fix('"') + [FULL] * 2, fix('null') + [b' ,'], fix('true'), fix('1.') + [DIG]):
            def judge(text, o, env):
                toks = reflex(text, False, True, True)
                w = toks[0]
                if w[0] in ('open', 'malformed'): return False
                same = K[names[w[0]]] == ty
                def f():
                    if o.kind != 'return': return 'the program ends with %s' % o.kind
                    q = list(o.state.mon.get('seen', ()))
                    if len(q) < 2 or q[0][0] != 'ask' or q[1][0] != 'answer': return None
                    if bool(q[1][1]) != same: return 'assertToken is %s for a token %s expected to be %s' % (bool(q[1][1]), w[0], tn)
                    if not same: return '' if len(q) == 2 else 'no error is reported'
                    if len(q) < 5 or q[2][0] != 'ask': return 'an error is reported'
                    if q[2][1] != ty: return 'expectToken returns %s, required %s' % (q[2][1], tn)
                    n = toks[1] if len(toks) > 1 else ('eos',)
                    if n[0] in ('open', 'malformed'): return ''
                    return '' if q[4][1] == K[names[n[0]]] else 'the token after the expected one is %s, required %s' % (q[4][1], names[n[0]])
                bad = f()
                return bad and ('expectToken', bad)
            T.run(ctx.fn('w_expect'), tape, [ty], 'expected', judge)


c23.witness = ('parse.cpp',)
