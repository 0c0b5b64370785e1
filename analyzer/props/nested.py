"""JSON into and out of nested containers, smart pointers and classes: parser, printer, type system and containers all real."""
import json, itertools, re
from core import *
import streams
from props.builtins import Real
from props.dsl import says

LONG, STR, LEAF = 'long', 'text', 'leaf'
SHAPES = [('list', LONG), ('list', STR), ('list', ('list', LONG)), ('list', LEAF), ('map', LONG), ('map', ('list', LONG)), ('map', LEAF), ('list', ('map', LONG)),
          ('ptr', LEAF), ('ptr', LEAF), ('list', ('ptr', LEAF)), ('map', ('ptr', LEAF)), ('ptr', LEAF), LEAF, LONG,
          ('ptr', ('list', LONG)), ('map', ('map', LONG)), LONG]
NAMES = ['longs', 'names', 'grid', 'list', 'numbers', 'table', 'leaves', 'maps', 'shared', 'unique', 'maybes', 'lookup', 'raw', 'leaf', 'base', 'box', 'index', 'top']
KINDS = ['vector<long>', 'vector<string>', 'vector<vector<long>>', 'vector<Class>', 'map<string, long>', 'map<string, vector<long>>', 'map<string, Class>', 'vector<map<string, long>>',
         'shared_ptr<Class>', 'unique_ptr<Class>', 'vector<shared_ptr<Class>>', 'map<string, shared_ptr<Class>>', 'Class*', 'Class', 'inherited long',
         'shared_ptr<vector<long>>', 'map<string, map<string, long>>', 'long inherited from the parent of the parent']
NEW = {'n': -1, 's': '', 'b': 0}


class Open:
    """A number which is not known: its digits (texts) or a symbol (objects)."""
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name


A, B = Open('A'), Open('B')
X, Y = {'n': A, 's': 'x', 'b': 1}, {'n': B, 's': 'y', 'b': 0}
FILLED = [[A, B], ['p', ''], [[A], [], [B, A]], [X, Y], {'k': A, 'l': B}, {'k': [A, B], 'l': []}, {'k': X}, [{}, {'k': A}], X, X, [None, Y], {'k': X, 'l': None}, Y, X, A, [], {'k': {'l': A}, 'l': {}}, A]
EMPTY = [[], [], [], [], {}, {}, {}, [], None, None, [], {}, None, dict(NEW), -2, None, {}, -3]

# texts: '#' stands for an open digit
LEAVES = ['{}', '{"n":#}', '{"s":"q","n":-1#}', '{"b":true}', '{"z":[1,{"n":2}],"n":#,"s":""}']
TEXTS = [
    ['[]', 'null', '[#]', ' [ # , -#, 2# ] '],
    ['[]', '["a"]', '["", "b\\"c"]'],
    ['[]', '[[]]', '[[#],[]]', '[[],[#,3],[-#]]', '[null,[#]]'],
    ['[]'] + ['[%s]' % x for x in LEAVES] + ['[{"n":#},{},{"s":"t","n":#}]', '[null,{"n":#}]'],
    ['{}', 'null', '{"a":#}', '{"b":#,"a":-#}', '{"k":#}', '{"k":1,"k":#}'],
    ['{}', '{"a":[]}', '{"k":[#]}', '{"b":[#,#],"a":[1]}', '{"k":null,"b":[#]}'],
    ['{}'] + ['{"k":%s}' % x for x in LEAVES] + ['{"a":{"n":#},"k":{"s":"w"}}', '{"k":null}'],
    ['[]', '[{}]', '[{"a":#},{},{"a":#,"b":2}]'],
    ['null'] + LEAVES, ['null'] + LEAVES,
    ['[]', '[null]', '[{"n":#},null,{"b":true}]'],
    ['{}', '{"k":null}', '{"l":{"n":#}}', '{"a":{"s":"u"},"k":{"n":#}}'],
    ['null'] + LEAVES, LEAVES, ['#', '-7#'],
    ['null', '[]', '[#]', '[1,#]'], ['{}', '{"k":{"b":#}}', '{"k":null,"l":{"b":#,"a":2}}'], ['#', '-7#']]
WRONG = [
    ['{}', '[true]', '[1}', '[1,"a"]', '[1', '[1 2]', '7', '[[1]]', '[1,]'],
    ['[1]', '["a",null]', '["a'],
    ['[1]', '[[1],2]', '[["a"]]', '[[1]'],
    ['[1]', '[{"n":"a"}]', '[{"n":1},{"s":2}]', '[{"n":1}', '[{"b":0}]', '{}'],
    ['[]', '{"a":"b"}', '{"a":1,"b":{}}', '{"a" 1}', '{"a":1'],
    ['{"a":1}', '{"a":[1,"b"]}', '{"a":[1}'],
    ['{"a":1}', '{"a":{"n":[]}}', '{"a":{"n":1},"b":7}'],
    ['{}', '[{"a":true}]', '[{"a":1},[]]'],
    ['1', '[]', '{"n":null}', '{"n"}'], ['true', '{"s":7}'],
    ['[1]', '[null,{"n":true}]', '{}'], ['{"a":1}', '{"a":{"n":"1"}}'], ['"x"', '{"b":null}'], ['[]', '{"n":1,"s":null}'], ['"1"', 'null', '[1]', '{}'],
    ['1', '[1,[]]'], ['[]', '{"a":1}', '{"a":{"b":{}}}', '{"a":{"b":1]}'], ['"1"', '{}']]


def elem(shape): return shape[1]


def put(shape, old, j):
    """What an object of this shape holds after reading j into what it held."""
    if shape in (LONG, STR): return j
    if j is None and shape[0] != 'ptr': return old       # null: nothing is read
    if shape == LEAF:
        r = dict(old)
        r.update((k, int(v) if isinstance(v, bool) else v) for k, v in j.items() if k in NEW); return r
    if shape[0] == 'ptr': return None if j is None else put(shape[1], NEW if old is None else old, j)
    if shape[0] == 'list': return list(old) + [put(elem(shape), fresh(elem(shape)), x) for x in j]
    r = dict(old)
    for k, x in j.items(): r[k] = put(elem(shape), fresh(elem(shape)), x)
    return r


def fresh(shape): return {LONG: 0, STR: '', LEAF: NEW}[shape] if isinstance(shape, str) else {'list': [], 'map': {}, 'ptr': None}[shape[0]]


def story(shape, v):
    """What the program shows of it."""
    if shape == LONG: return [v]
    if shape == STR: return [('text', v)]
    if shape == LEAF: return [('mark', 'leaf'), v['n'], ('text', v['s']), v['b']]
    if shape[0] == 'ptr': return [('mark', 'null')] if v is None else story(shape[1], v)
    if shape[0] == 'list': return [('mark', '[')] + [y for x in v for y in story(elem(shape), x)] + [('mark', ']')]
    return [('mark', '{')] + [y for k in sorted(v) for y in [('text', k)] + story(elem(shape), v[k])] + [('mark', '}')]


def doc(shape, v, compact):
    """Its JSON: pairs for objects, in the order of the keys."""
    if shape in (LONG, STR): return v
    if shape == LEAF: return members([('b', bool(v['b']), False), ('n', v['n'], v['n'] == 0), ('s', v['s'], not v['s'])], compact)
    if shape[0] == 'ptr': return None if v is None else doc(shape[1], v, compact)
    if shape[0] == 'list': return [doc(elem(shape), x, compact) for x in v]
    return ('object',) + tuple((k, doc(elem(shape), v[k], compact)) for k in sorted(v))


def empty(shape, v):
    if shape == LEAF: return False
    if shape in (LONG, STR): return not v
    if shape[0] == 'ptr': return v is None or empty(shape[1], v)
    return not v


def members(ms, compact): return ('object',) + tuple((k, d) for k, d, e in ms if not (compact and e))


def root(k, v, compact):
    ms = []
    for i in sorted(range(len(NAMES)), key=lambda i: NAMES[i]):
        x = v if i == k else EMPTY[i]
        ms.append((NAMES[i], doc(SHAPES[i], x, compact), empty(SHAPES[i], x)))
    return members(ms, compact)


@uses_witness('nested.cpp')
def c33(ctx):
    rep = ctx.rep
    R = Real(ctx, json=True)
    if R.st is None: return
    e = R.e
    streams.install(e); e.add_hook(lambda q, p, d, n: q.startswith('wd_'), R.saw)
    e.add_hook('wd_mark', lambda eng, st, c: see(st, ('mark', bytes(eng.cstr(st, c.args[0], c.loc)).decode())))
    e.add_hook('wd_text', lambda eng, st, c: see(st, ('text', eng.getstr(st, c.args[0], c.loc))))

    def see(st, x): st.mon['seen'] = st.mon.get('seen', ()) + (x,); return [(st, None)]
    st = R.st
    R.load('w_use', [streams.input_stream(e, st, b'{}', 'first'), streams.output_stream(e, st, 'last')])
    if R.st is None: return
    a, b = ('s', 'a'), ('s', 'b')
    for s in (a, b): e.symw[s] = 64; R.st.dom[s] = ('iv', 1, 1 << 40)

    def outcomes(rule, construct, w, args, st):
        for o in R.run(w, args, st):
            if o.state.taint: rep.undecided(rule, '%s: unmodelled: %s' % (construct, o.state.taint[0]), ctx.loc(o.state.taint[1])); continue
            if o.kind != 'return':
                rep.obligation(rule, False); rep.violation(rule, construct, 'ends with %s%s' % (o.kind, says(o)), ctx.loc(o.loc)); continue
            yield o

    def judge(rule, construct, bad, o):
        if bad is None: rep.undecided(rule, '%s: not determined' % construct, ctx.loc(o.loc)); return
        rep.obligation(rule, not bad)
        if bad: rep.violation(rule, construct, bad, ctx.loc(o.loc))

    def tape(text, st):
        """The characters; open digits are symbols."""
        r, syms = [], []
        for ch in text.encode('latin1'):
            if ch != 35: r.append(ch); continue
            s = ('s', 'digit%d' % len(syms)); e.symw[s] = 8; st.dom[s] = frozenset(range(48, 58)); syms.append(s); r.append(s)
        return r, syms

    def values(text, digits):
        it = iter(digits)
        t = ''.join(next(it) if ch == '#' else ch for ch in text)
        return json.loads(t, object_pairs_hook=lambda ps: dict(ps))

    def compare(got, want, env):
        """'' or what differs; None when undetermined."""
        for i, w in enumerate(want):
            if i >= len(got): return 'ends before %s' % one(w)
            g = got[i]
            if isinstance(w, Open):
                if g != {'A': a, 'B': b}[w.name]: return 'the number %s is %s' % (w.name.lower(), one(g))
                continue
            if isinstance(w, tuple):
                if not isinstance(g, tuple) or g[0] != w[0]: return '%s is %s' % (one(w), one(g))
                if w[0] == 'mark' and g[1] != w[1] or w[0] == 'text' and g[1] != models.lit(w[1]): return '%s is %s' % (one(w), one(g))
                continue
            v = value_under(e, g, env) if isinstance(g, tuple) and g and g[0] in ('s', 't') else g
            if v is None or not isinstance(v, int): return None if isinstance(g, tuple) and g and g[0] in ('s', 't', 'u') else '%s is %s' % (one(w), one(g))
            if v != w & (1 << 64) - 1: return '%d is %d' % (w, streams.tosigned(v, 64))
        return '' if len(got) == len(want) else 'goes on with %s' % one(got[len(want)])

    def one(x):
        if isinstance(x, tuple) and x and x[0] == 'mark': return x[1]
        if isinstance(x, tuple) and x and x[0] == 'text': return '"%s"' % (x[1] if isinstance(x[1], str) else models.show(x[1]))
        if isinstance(x, int): return str(streams.tosigned(x & (1 << 64) - 1, 64))
        return str(x) if isinstance(x, Open) else 'something else'

    # ---- texts into objects
    for k, shape in enumerate(SHAPES):
        for filled in (0, 1):
            old = FILLED[k] if filled else EMPTY[k]
            what = '%s %s' % (KINDS[k], 'which holds something' if filled else 'as it was made')
            makes = k != 15 or filled     # a vector is not a type which is asked to be allocated by itself
            for text in TEXTS[k]:
                if not makes and text != 'null': continue
                st = R.st.copy()
                t, syms = tape('{"%s":%s}' % (NAMES[k], text), st)
                i = streams.input_stream(e, st, t)
                for o in outcomes('read', what, 'w_parse', [i, k, filled, a, b], st):
                    seen = list(o.state.mon.get('seen', ()))
                    for ds in itertools.product('059', repeat=len(syms)):
                        env = {s: ord(d) for s, d in zip(syms, ds)}
                        if not all(ord(d) in dom(e, o.state, s) for s, d in zip(syms, ds)): continue
                        want = [0] + story(shape, put(shape, old, values(text, ds)))
                        if k != 13: want.append(-1)
                        if k != 14: want.append(-2)
                        if k != 17: want.append(-3)
                        if k == 8 and filled: want.append(int(text != 'null'))
                        bad = compare(seen, want, env)
                        judge('read', what, bad and 'after %s: %s' % (text, bad), o)
            for text in WRONG[k]:
                if not makes: continue
                st = R.st.copy()
                i = streams.input_stream(e, st, b'{"%s":%s}' % (NAMES[k].encode(), text.encode()))
                for o in outcomes('refused', what, 'w_parse', [i, k, filled, a, b], st):
                    seen = o.state.mon.get('seen', ())
                    judge('refused', what, None if not seen or not isinstance(seen[0], int) else '' if seen[0] else 'takes %s' % text, o)

    # ---- objects into texts
    K = enumerators(ctx.P, 'reflect::json::Writer::Options')

    def printed(rule, construct, w, args, want, nums):
        st = R.st.copy()
        out = streams.output_stream(e, st)
        for o in outcomes(rule, construct, w, [out] + args, st):
            text = streams.text(e, o.state, out)
            seen = o.state.mon.get('seen', ())
            s = ''
            for c in text:
                if isinstance(c, int): s += chr(c)
                elif c[0] == 'S' and c[1][:1] == ('num',) and c[1][1] in nums: s += '123456%d' % nums.index(c[1][1])
                else: s = None; break
            if s is None or not seen or not isinstance(seen[0], int): judge(rule, construct, None, o); continue
            if seen[0]: judge(rule, construct, 'is an error', o); continue
            try: got = json.loads(s, object_pairs_hook=lambda ps: ('object',) + tuple(ps))
            except ValueError as x: judge(rule, construct, 'is printed as %s which is not JSON' % s, o); continue
            judge(rule, construct, '' if same(got, want) else 'is printed as %s' % s, o)

    def same(g, w):
        if isinstance(w, Open): return g == {'A': 1234560, 'B': 1234561}[w.name] and not isinstance(g, bool)
        if isinstance(w, (list, tuple)): return type(g) is type(w) and len(g) == len(w) and all(same(x, y) for x, y in zip(g, w))
        return g == w and isinstance(g, bool) == isinstance(w, bool)

    def known(v, n):
        if isinstance(v, Open): return n[v.name]
        if isinstance(v, dict): return {x: known(y, n) for x, y in v.items()}
        return [known(x, n) for x in v] if isinstance(v, list) else v
    for k, shape in enumerate(SHAPES):
        for opt in sorted(K):
            compact = opt == 'Compact'
            if opt not in ('Default', 'Pretty', 'Compact'): continue
            for filled in (0, 1):
                v = FILLED[k] if filled else EMPTY[k]
                construct = '%s %s printed with %s' % (KINDS[k], 'which holds something' if filled else 'as it was made', opt)
                args = [a, b]
                if compact: v = known(v, {'A': 5, 'B': 0}); args = [5, 0]
                printed('written', construct, 'w_print', [k, filled, K[opt]] + args, root(k, v, compact), (a, b))
            if k in (0, 3, 5, 8, 13):
                v = FILLED[k]; args = [a, b]
                if compact: v = known(v, {'A': 0, 'B': 7}); args = [0, 7]
                printed('written', '%s by itself printed with %s' % (KINDS[k], opt), 'w_print_one', [k, K[opt]] + args, doc(shape, v, compact), (a, b))


def dom(e, st, s):
    d = st.dom.get(s)
    return d if isinstance(d, frozenset) else range(48, 58)
