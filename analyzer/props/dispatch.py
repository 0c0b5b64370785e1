"""Parsing JSON into reflected objects and printing them."""
import itertools
from core import *
from props.lexer import Texts, reflex, shown
from universe import Universe
import streams
from engine import fval

TYPES = {
    'bool': dict(kind='bool'), 'long': dict(kind='int'), 'double': dict(kind='float'), 'std::string': dict(kind='string'),
    'long*': dict(kind='ptr', of='long'), 'shared<long>': dict(kind='ptr', of='long', smart=1), 'shared<Pair>': dict(kind='ptr', of='Pair', smart=1),
    'Pair*': dict(kind='ptr', of='Pair'), 'long**': dict(kind='ptr', of='long*'), 'shared<List>': dict(kind='ptr', of='List', smart=1),
    'List': dict(kind='list', of='long'), 'Lists': dict(kind='list', of='List'), 'Strings': dict(kind='list', of='std::string'), 'Pairs': dict(kind='list', of='Pair'),
    'Fixed': dict(kind='list', of='Stay'), 'Stay': dict(kind='obj', fields=[('n', 'long')], isMovable=0), 'Ptrs': dict(kind='list', of='long*'),
    'Map': dict(kind='map', of='long'), 'MapL': dict(kind='map', of='List'), 'MapP': dict(kind='map', of='Pair'), 'MapM': dict(kind='map', of='Map'),
    'MapF': dict(kind='map', of='Stay'),
    'Pair': dict(kind='obj', fields=[('b', 'std::string'), ('a', 'long')]),
    'Object': dict(kind='obj', fields=[('l', 'List'), ('z', 'bool'), ('p', 'Pair'), ('m', 'Map'), ('d', 'double')]),
    'Named': dict(kind='obj', fields=[('x', 'long', dict(alias='y')), ('y', 'long', dict(alias='x')), ('s', 'long', dict(skip=1)), ('t', 'long', dict(alias='', skip=0))]),
    'Sparse': dict(kind='obj', fields=[('i', 'long', dict(skipEmpty=1)), ('f', 'double', dict(skipEmpty=1)), ('s', 'std::string', dict(skipEmpty=1)),
                                       ('l', 'List', dict(skipEmpty=1)), ('m', 'Map', dict(skipEmpty=1)), ('p', 'shared<long>', dict(skipEmpty=1)),
                                       ('q', 'shared<List>', dict(skipEmpty=1)), ('o', 'Pair', dict(skipEmpty=1)), ('b', 'bool', dict(skipEmpty=1)),
                                       ('w', 'long', dict(skipEmpty=1, alias='a')), ('k', 'long')]),
    'Node': dict(kind='obj', fields=[('v', 'long'), ('next', 'shared<Node>')]), 'shared<Node>': dict(kind='ptr', of='Node', smart=1),
    'Tree': dict(kind='obj', fields=[('kids', 'Trees'), ('v', 'long')]), 'Trees': dict(kind='list', of='Tree'),
    'Custom': dict(kind='custom', parser='take', printer='give'), 'Customs': dict(kind='list', of='Custom'),
    'Holder': dict(kind='obj', fields=[('c', 'Custom'), ('a', 'long')]),
    'Empty': dict(kind='obj', fields=[]),
    'Twice': dict(kind='obj', fields=[('a', 'long', dict(alias='k')), ('k', 'long')]),
    'Values': dict(kind='list', of='Value'), 'ValueMap': dict(kind='map', of='Value'), 'Value': dict(kind='any'),
}


class Bad(Exception): pass


# ------------------------------------------------------------- reference
class Reading:
    """What parsing a text into an object of a type must give."""
    def __init__(self, text):
        self.t = reflex(text, False, True, True); self.i = 0

    def peek(self):
        k = self.t[self.i]
        if k[0] in ('malformed', 'open'): raise Bad
        return k

    def take(self, *k):
        x = self.peek()
        if k and x[0] not in k: raise Bad
        if x[0] != 'eos': self.i += 1
        return x

    def walk(self, k, item):
        if self.peek()[0] == 'null': self.take(); return
        self.take(k)
        close = {'[': ']', '{': '}'}[k]
        if self.peek()[0] == close: self.take(); return
        while 1:
            if k == '{':
                key = self.take('string')[1]; self.take(':'); item(tuple(key))
            else: item()
            if self.take(',', close)[0] == close: return

    def skip(self):
        k = self.peek()[0]
        if k in '[{': self.walk(k, lambda *a: self.skip())
        else: self.take('string', 'int', 'float', 'bool', 'null')

    def any(self):
        """The value of a text by itself."""
        k = self.peek()
        if k[0] == '[':
            c = []
            self.walk('[', lambda: c.append(('any', self.any()))); return ('list', tuple(c))
        if k[0] == '{':
            c = {}
            def entry(key): c[key] = ('any', self.any())
            self.walk('{', entry); return ('map', tuple(sorted(c.items())))
        k = self.take('null', 'bool', 'int', 'float', 'string')
        if k[0] == 'null': return None
        return (k[0], int(k[1]) & MASK[64] if k[0] == 'int' else tuple(k[1]) if k[0] == 'string' else k[1])

    def read(self, t, old):
        """-> the new object, given the old (as Universe.show gives it)"""
        d = TYPES[t]; k = d['kind']
        if k == 'bool': return (k, self.take('bool')[1])
        if k == 'int': return (k, int(self.take('int')[1]) & MASK[64])
        if k == 'float':
            x = self.take('float', 'int'); return (k, x[1])
        if k == 'string': return (k, tuple(self.take('string')[1]))
        if k == 'custom': self.take('int'); return (k, 'read')
        if k == 'ptr':
            if self.peek()[0] == 'null': self.take(); return (k, None)
            return (k, self.read(d['of'], old[1] if old[1] is not None else default(d['of'])))
        c = list(old[1])
        if k == 'list':
            def item(): c.append(self.read(d['of'], default(d['of'])))
            self.walk('[', item); return (k, tuple(c))
        c = dict(c)
        if k == 'map':
            def entry(key): c[key] = self.read(d['of'], default(d['of']))
            self.walk('{', entry)
        if k == 'obj':
            names = {models.lit(alias(f)): f for f in d['fields'] if not json(f).get('skip')}
            def member(key):
                f = names.get(key)
                if f is None: self.skip(); return
                n = models.lit(f[0]); c[n] = self.read(f[1], c[n])
            self.walk('{', member)
        return (k, tuple(sorted(c.items())))


def json(f): return f[2] if len(f) > 2 else {}


def alias(f): return json(f).get('alias') or f[0]


def default(t):
    d = TYPES[t]; k = d['kind']
    if k in ('bool', 'int', 'float'): return (k, 0)
    if k == 'string': return (k, ())
    if k == 'ptr': return (k, None)
    if k in ('list', 'map'): return (k, ())
    if k == 'custom': return (k, 'fresh')
    return (k, tuple(sorted((models.lit(f[0]), default(f[1])) for f in d['fields'])))


def build(U, st, t, x):
    """An object like x."""
    d = TYPES[t]; k = d['kind']
    if k in ('bool', 'int', 'string'): return U.new(st, t, x[1])
    if k == 'float': return U.new(st, t, ('f', repr(x[1])) if x[1] else 0)
    if k == 'ptr': return U.new(st, t, None if x[1] is None else build(U, st, d['of'], x[1]))
    if k == 'list': return U.new(st, t, tuple(build(U, st, d['of'], y) for y in x[1]))
    if k == 'map': return U.new(st, t, tuple((n, build(U, st, d['of'], y)) for n, y in x[1]))
    if k == 'obj':
        v = dict(x[1])
        return U.new(st, t, tuple((models.lit(f[0]), build(U, st, f[1], v[models.lit(f[0])])) for f in d['fields']))
    return U.new(st, t, None)


# ------------------------------------------------------------------ parsing
NEST = ['null', 'true', '1', '-7', '1.5', '"s"', '[]', '{}', '[1]', '[1,2]', '{"a":1}', '{"b":"q"}', '{"a":3,"b":"x"}', '["s"]', '[[]]', '[[1],[]]', '[null]', '[{"a":1}]', '[{}]']
EXTRA = {
    'Pair': ['{"b":"y","a":5}', '{"a":1,"a":2}', '{"q":1,"a":2}', '{"q":[1,{"a":9}],"b":"z"}', '{"q":{"a":9},"b":"z"}', '{"a":1,"q":"a"}', '{"q":null,"a":1}', '{"a":"s"}', '{"a":null}', '{"b":1}',
             '{"a":1,}', '{"a":1', '{"a"', '{"a":', '{a:1}', '{"a":1 "b":"s"}', '{"A":1}', '{"a ":1}', '{"":1}', '{"q":}', '{"q":x}', '{"\\u0061":4}', '{"a":1}}'],
    'Pair*': ['{"a":1,"b":"t"}', '{"a":x}'],
    'Object': ['{"p":{"a":1,"b":"i"},"l":[4,5],"z":true,"m":{"k":2,"j":3},"d":2.5}', '{"p":{"a":1,"x":2},"z":false}', '{"l":null,"m":null,"p":null}', '{"l":[1,[2]]}', '{"d":3}', '{"z":1}', '{"m":{"p":1}}',
               '{"p":{"z":true},"d":1.25}', '{"l":[1],"l":[2]}', '{"z":true,"p":{"a":"s"},"d":1.5}', '{"m":{"k":1},"q":{"m":{"k":2}}}'],
    'Named': ['{"x":1}', '{"y":2}', '{"x":1,"y":2}', '{"s":5}', '{"s":{"x":1},"y":3}', '{"t":4}', '{"t":4,"x":5,"y":6}'],
    'Node': ['{"v":1}', '{"v":1,"next":{"v":2}}', '{"next":{"next":{"v":3},"v":2},"v":1}', '{"next":null}', '{"next":{"next":null}}', '{"next":{"v":true}}'],
    'Tree': ['{"v":1,"kids":[{"v":2},{"v":3,"kids":[{"v":4}]}]}', '{"kids":[]}', '{"kids":[{"kids":null}]}'],
    'Map': ['{"a":1,"b":2}', '{"a":1,"a":2}', '{"a":"s"}', '{"a":1,"b":}', '{"a":1,"b":null}', '{"":1}', '{"long key that is not small":1,"b":2}'],
    'MapL': ['{"a":[1],"b":[2,3]}', '{"key":["x"]}', '{"a":[1],"b":[2],"a":[3]}', '{"k":null,"j":[1]}'], 'MapP': ['{"u":{"a":1},"v":{"b":"w"}}', '{"a":{"q":{"b":1},"a":2}}'],
    'MapM': ['{"outer":{"in":1,"ner":2},"o":{}}'], 'MapF': ['{"a":{"n":1},"b":{"n":2}}'],
    'List': ['[1,2,3]', '[1,', '[1', '[1,]', '[1 2]', '[,1]', '[1,true,2]', '[1,"s"]', '[1.0]'],
    'Lists': ['[[1,2],[3]]', '[[1],2]', '[[],[[]]]'], 'Strings': ['["a","bc"]', '["a",1]', '["\\u00e9"]', '["a",null]'], 'Pairs': ['[{"a":1},{"b":"s"},{}]', '[{"a":1},{"a":x}]'],
    'Fixed': ['[{"n":1},{"n":2}]', '[{"n":true}]'], 'Ptrs': ['[1,null,2]', '[null,"s"]'], 'long**': ['5', 'null'],
    'shared<Pair>': ['{"a":8}'], 'shared<List>': ['[8,9]'], 'Custom': ['5', '"s"'], 'Customs': ['[5,6]', '[5,"s"]'], 'Holder': ['{"c":5,"a":6}', '{"a":6}', '{"c":true}'],
    'Empty': ['{"a":{}}'], 'Sparse': ['{"a":4,"k":5,"i":6,"w":7}', '{"q":[1],"p":3,"o":{"a":2},"b":true}'],
    'long': ['0', '9223372036854775807', '-9223372036854775808', '99999999999999999999', 'x', '', '1 2'], 'bool': ['false', 'tru'], 'double': ['0.25', '-1e3', '99999999999999999999'],
    'std::string': ['""', '"a\\nb"', '"a'],
}
def obj(**k): return ('obj', tuple(sorted((models.lit(n), v) for n, v in k.items())))


NINE = ('int', 9)
OLD = obj(a=NINE, b=('string', models.lit('old')))
SET = {  # objects which already hold something
    'long*': [('ptr', NINE)], 'shared<long>': [('ptr', NINE)], 'long**': [('ptr', ('ptr', NINE)), ('ptr', ('ptr', None))],
    'Pair': [OLD], 'Pair*': [('ptr', OLD)], 'shared<Pair>': [('ptr', OLD)],
    'Map': [('map', ((models.lit('a'), NINE),))], 'MapL': [('map', ((models.lit('a'), ('list', (NINE,))),))],
    'Node': [obj(next=('ptr', obj(next=('ptr', None), v=NINE)), v=('int', 8))],
    'bool': [('bool', 1)], 'long': [NINE], 'double': [('float', 9.5)], 'std::string': [('string', models.lit('old'))],
    'Named': [obj(x=NINE, y=NINE, s=NINE, t=NINE)],
}


def same(T, got, want, env={}):
    """'' / difference / None"""
    if got is None or want is None: return '' if got is want else 'x'
    if got[0] != want[0]: return 'x'
    k, g, w = got[0], got[1], want[1]
    if k in ('ptr', 'any'):
        if (g is None) != (w is None): return 'x'
        return '' if g is None else same(T, g, w)
    if k in ('list', 'map', 'obj'):
        if len(g) != len(w): return 'x'
        if k != 'list':
            if [n for n, _ in g] != [n for n, _ in w]: return 'x'
            g = [x for _, x in g]; w = [x for _, x in w]
        r = [same(T, a, b) for a, b in zip(g, w)]
        return 'x' if 'x' in r else None if None in r else ''
    if k == 'string':
        x = T.concrete(g, env); return None if x is None else '' if x == bytes(w) else 'x'
    if k == 'float':
        if isinstance(w, bytes):        # the text of the number
            if isinstance(g, tuple) and g[0] == 's' and isinstance(g[1], tuple) and g[1][0] == 'strtod':
                x = T.concrete(g[1][1], env); return None if x is None else '' if x == w else 'x'
            x = fval(g); return None if x is None else '' if x == float(w) else 'x'
        x = fval(g)
        return None if x is None else '' if x == w else 'x'
    if k in ('int', 'bool'):
        x = T.num(g, env); return None if x is None else '' if x == w else 'x'
    return '' if g == w else 'x'


def text(x):
    """An object as readable text."""
    if x is None or x[1] is None: return 'null'
    k, v = x
    if k == 'any': return text(v)
    if k == 'ptr': return '&' + (text(v) if isinstance(v, tuple) else v)
    if k == 'list': return '[%s]' % ', '.join(map(text, v))
    if k in ('map', 'obj'): return '{%s}' % ', '.join('%s: %s' % (models.show(n), text(y)) for n, y in v)
    if k == 'string': return '"%s"' % models.show(v)
    if k == 'int' and isinstance(v, int): return str(tosigned(v, 64))
    if k == 'float' and isinstance(v, bytes): return v.decode()
    return str(v)


def setup(ctx):
    T = Texts(ctx); e = T.e
    e.max_depth = 400; e.endless = True
    return T, e, Universe(ctx, e, TYPES)


@uses_witness('dispatch.cpp')
def c26(ctx):
    rep = ctx.rep
    T, e, U = setup(ctx)
    F = ctx.fn('w_parse')
    kinds = {'bool': 'parsing scalars', 'int': 'parsing scalars', 'float': 'parsing scalars', 'string': 'parsing scalars', 'ptr': 'parsing pointers', 'list': 'parsing lists', 'map': 'parsing maps',
             'obj': 'parsing objects', 'custom': 'custom parsers'}
    for t in TYPES:
        k = TYPES[t]['kind']
        if k == 'any' or t in ('Twice', 'Values', 'ValueMap'): continue
        for old in [default(t)] + SET.get(t, []):
            for s in NEST + EXTRA.get(t, []):
                s = s.encode()
                st = State()
                o = build(U, st, t, old)
                v = e.new_region(st, 'value'); U.put(st, ('p', v, 0), t, o)
                src = streams.input_stream(e, st, s)
                R = Reading(s)
                try: want = R.read(t, old)
                except Bad: want = None
                outs = calls(e, st, F, [src, ('p', v, 0)])
                rep.count('abstract outcomes', len(outs)); rep.count('texts')
                for x in outs: judge(ctx, T, U, x, kinds[k], t, s, old, o, want, ('p', v, 0))


    # objects of no type take whatever the text holds
    for s in NEST + ['"\\u00e9"', '[1,"a",[true,null],{"k":[2.5]}]', '{"a":{"b":{}},"c":[]}', '{"long key that is not small":{"k":1},"b":2}', '[1,', '[', '{"a":x}', '{"a"', 'x', '', '[1,x,2]', '{"a":1,"b":[}']:
        s = s.encode(); st = State()
        v = e.new_region(st, 'value'); U.put(st, ('p', v, 0), 'void', None)
        src = streams.input_stream(e, st, s)
        R = Reading(s)
        try: want = (R.any(),)
        except Bad: want = None
        for x in calls(e, st, F, [src, ('p', v, 0)]):
            o = U.get(x.state, ('p', v, 0))[2] if x.kind == 'return' and not x.state.taint else None
            judge(ctx, T, U, x, 'parsing into nothing', 'void', s, None, o, want and want[0], ('p', v, 0), want is None)
    # two members under one key cannot both be read
    st = State(); v = e.new_region(st, 'value'); U.put(st, ('p', v, 0), 'Twice', U.new(st, 'Twice'))
    for x in calls(e, st, F, [streams.input_stream(e, st, b'{"k":1}'), ('p', v, 0)]):
        if x.state.taint: continue
        ok = x.kind == 'error'
        rep.obligation('duplicate keys', ok)
        if not ok: rep.violation('duplicate keys', 'parse', 'two members of one type share a key and no error is raised', ctx.loc(x.loc))


def judge(ctx, T, U, x, rule, t, s, old, o, want, vp, fails=None):
    if fails is None: fails = want is None
    rep = ctx.rep; st = x.state
    if st.taint: rep.undecided(rule, 'unmodelled: %s' % (st.taint[0],), ctx.loc(st.taint[1])); return
    bad = ''
    if x.kind != 'return':
        bad = 'the program ends with %s' % end(x)
    else:
        q = st.mon.get('seen', ())
        if len(q) != 1 or q[0][1] not in (0, 1): rep.undecided(rule, 'result not determined'); return
        if fails:
            if q[0][1]: bad = 'no error is reported'
        elif not q[0][1]: bad = 'an error is reported'
        else:
            got = U.show(st, o); r = same(T, got, want)
            if r is None: rep.undecided(rule, 'contents not determined'); return
            if r: bad = 'the object becomes %s, required %s' % (text(got), text(want))
    rep.obligation(rule, not bad)
    if bad: rep.violation(rule, t, 'for the text %s and an object %s %s' % (shown(s), text(old), bad), ctx.loc(x.loc), st.trail(ctx.P))


def end(x):
    d = x.data if hasattr(x, 'data') else None
    return '%s %s' % (x.kind, d if d else '')


# ----------------------------------------------------------------- printing
def samples(t, depth=0):
    """Objects of a type, the default first."""
    d = TYPES[t]; k = d['kind']; L = models.lit
    if k == 'bool': return [(k, 0), (k, 1)]
    if k == 'int': return [(k, 0), (k, 5), (k, MASK[64] - 2), (k, 1 << 32)]
    if k == 'float': return [(k, 0), (k, 2.5), (k, -0.5)]
    if k == 'string': return [(k, ()), (k, L('text')), (k, L('q"\n'))]
    if k == 'custom': return [(k, 'fresh')]
    if depth > 3: return [default(t)]
    s = samples(d['of'], depth + 1) if 'of' in d else None
    if k == 'ptr': return [(k, None)] + [(k, x) for x in s[:3]]
    if k == 'list': return [(k, ()), (k, tuple(s[:1])), (k, tuple(s[:3])), (k, tuple(reversed(s[:2]))), (k, (s[0],) * 3)]
    if k == 'map': return [(k, ()), (k, ((L('m'), s[0]),)), (k, ((L('b'), s[-1]), (L('a"'), s[0]), (L('c'), s[min(1, len(s) - 1)])))]
    fs = {L(f[0]): samples(f[1], depth + 1) for f in d['fields']}
    res = []
    for base in (0, 1, 2):
        b = {n: v[min(base, len(v) - 1)] for n, v in fs.items()}
        res.append(b)
        if base == 2 or depth > 1: continue
        for n, v in fs.items(): res += [{**b, n: x} for x in v[:4]]
    out = []
    for r in res:
        x = (k, tuple(sorted(r.items())))
        if x not in out: out.append(x)
    return out


def empty(t, x):
    d = TYPES[t]; k = d['kind']
    if k in ('int', 'float'): return x[1] == 0
    if k in ('string', 'list', 'map'): return not x[1]
    if k == 'ptr': return x[1] is None or empty(d['of'], x[1])
    return False


def tokens(t, x, compact):
    """The tokens of the text that denotes an object."""
    d = TYPES[t]; k = d['kind']
    if k == 'bool': return [('bool', x[1])]
    if k == 'int': return [('int', str(tosigned(x[1], 64)).encode())]
    if k == 'float': return [('number', float(x[1]))]
    if k == 'string': return [('string', bytes(x[1]))]
    if k == 'custom': return [('int', b'7')]
    if k == 'ptr': return [('null', None)] if x[1] is None else tokens(d['of'], x[1], compact)
    if k == 'list': ents = [tokens(d['of'], y, compact) for y in x[1]]
    if k == 'map': ents = [[('string', bytes(n)), (':', None)] + tokens(d['of'], y, compact) for n, y in x[1]]
    if k == 'obj':
        v = dict(x[1]); ents = []
        for f in sorted(d['fields'], key=lambda f: alias(f).encode()):
            y = v[models.lit(f[0])]; j = json(f)
            if j.get('skip') or (compact or j.get('skipEmpty')) and empty(f[1], y): continue
            ents.append([('string', alias(f).encode()), (':', None)] + tokens(f[1], y, compact))
    o, c = '[]' if k == 'list' else '{}'
    return [(o, None)] + [y for i, en in enumerate(ents) for y in ([(',', None)] if i else []) + en] + [(c, None)]


@uses_witness('dispatch.cpp')
def c27(ctx):
    from props.printing import wopts, static
    rep = ctx.rep
    T, e, U = setup(ctx)
    F = ctx.fn('w_print')
    O = wopts(ctx)
    base = static(ctx, e)
    kinds = {'bool': 'printing scalars', 'int': 'printing scalars', 'float': 'printing scalars', 'string': 'printing scalars', 'ptr': 'printing pointers', 'list': 'printing lists', 'map': 'printing maps',
             'obj': 'printing objects', 'custom': 'custom printers'}

    def run(t, obj, opt):
        st = base.copy()
        v = e.new_region(st, 'value'); U.put(st, ('p', v, 0), t, None if obj is None else build(U, st, t, obj), 0, 1)
        out = streams.output_stream(e, st)
        outs = calls(e, st, F, [out, opt, ('p', v, 0)])
        rep.count('abstract outcomes', len(outs)); rep.count('objects')
        return out, outs

    def plain(toks): return [('number', float(v)) if k == 'float' else (k, v) for k, v in toks]
    for t, d in TYPES.items():
        if d['kind'] == 'any' or t in ('Twice', 'Values', 'ValueMap'): continue
        for obj in samples(t):
            for name, opt in (('', 0), ('Compact', O['Compact']), ('Pretty', O['Pretty'])):
                if name == 'Pretty' and d['kind'] in ('bool', 'int', 'float', 'string'): continue
                out, outs = run(t, obj, O['Default'] | opt)
                want = tokens(t, obj, name == 'Compact')
                for x in outs:
                    st = x.state; rule = kinds[d['kind']]
                    if st.taint: rep.undecided(rule, 'unmodelled: %s' % (st.taint[0],), ctx.loc(st.taint[1])); continue
                    bad = ''
                    if x.kind != 'return': bad = 'the program ends with %s' % end(x)
                    else:
                        q = st.mon.get('seen', ())
                        got = T.concrete(streams.text(e, st, out), {})
                        if len(q) != 1 or q[0][1] not in (0, 1) or got is None: rep.undecided(rule, 'result not determined'); continue
                        r = reflex(got, False, True, True)
                        if not q[0][1]: bad = 'an error is reported'
                        elif r[-1][0] != 'eos' or not agree([k[:2] for k in r[:-1]], want): bad = 'the text printed is %s, required %s' % (shown(got), ' '.join(k if v is None else v.decode('latin1') if isinstance(v, bytes) else str(v) for k, v in want))
                    rep.obligation(rule, not bad)
                    if bad: rep.violation(rule, t, 'for %s%s %s' % (text(obj), ' (%s)' % name if name else '', bad), ctx.loc(x.loc), st.trail(ctx.P))
    for t, obj, name in (('Pair', obj_(b=b'\xff'), 'an object'), ('Strings', ('list', (('string', (255,)), ('string', (65,)))), 'a list'), ('Pairs', ('list', (obj_(b=b'\xc3'),)), 'a list of objects')):
        out, outs = run(t, obj, O['Default'])
        for x in outs:
            q = x.state.mon.get('seen', ())
            if x.state.taint or x.kind == 'return' and (len(q) != 1 or q[0][1] not in (0, 1)): rep.undecided('errors', 'result not determined'); continue
            ok = x.kind == 'return' and not q[0][1]
            rep.obligation('errors', ok)
            if not ok: rep.violation('errors', t, 'no error is reported for %s with an invalid string' % name, ctx.loc(x.loc))
    for t, rule, what in (('Twice', 'duplicate keys', 'two members of one type share a key'), ('void', 'nothing', 'a void value is printed')):
        out, outs = run(t, None if t == 'void' else default(t), O['Default'])
        for x in outs:
            if x.state.taint: continue
            ok = x.kind == 'error'
            rep.obligation(rule, ok)
            if not ok: rep.violation(rule, 'print', what + ' and no error is raised', ctx.loc(x.loc))


def obj_(a=1, b=b''): return obj(a=('int', a), b=('string', tuple(b)))


def agree(got, want):
    if len(got) != len(want): return False
    for (k, v), (q, w) in zip(got, want):
        if q == 'number':
            if k not in ('int', 'float') or float(v) != w: return False
        elif (k, v) != (q, w): return False
    return True
