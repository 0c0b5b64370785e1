"""Declarations made with the macros: what they register is what they name."""
from core import *
from program import split_args

TYPES = ('void', 'bool', 'char', 'int', 'double', 'long', 'unsigned long', 'int*', 'Thing*', 'NoCopy*', 'Pinned*', 'reflect::Value', 'Op', 'Mul', 'Deref', 'Base',
         'Thing', 'NoCopy', 'Pinned', 'Small', 'Wide')
OWN = ('Op', 'Mul', 'Deref', 'Base', 'Thing', 'NoCopy', 'Pinned', 'Small', 'Wide')


class Stop(Exception): pass


def stopping(f):
    def g(ctx):
        try: f(ctx)
        except Stop: pass
    g.__dict__.update(f.__dict__); return g


class World:
    """Reflected types built by the library itself, foreign functions recorded."""
    def __init__(self, ctx, types, own, foreign=()):
        self.ctx = ctx; self.rep = ctx.rep
        e = self.e = ctx.engine()
        self.results = {}
        e.add_hook(lambda q, p, d, n: q in foreign or q.split('::')[0] in own and e.P.fn(n) is None, self.call)
        for k in ('int', 'at', 'type', 'name', 'text'): e.add_hook('wd_' + k, self.saw(k))
        st = State()
        for t in types:
            p = ('p', e.new_region(st, 'id'), 0); e.setstr(st, p, models.lit(t))
            st = self.one('w_type', [tok(t), p], st)
        self.st = st

    def saw(self, k):
        def h(eng, st, c):
            v = c.args[0]
            if k in ('name', 'text'): v = eng.getstr(st, v, c.loc)
            if k == 'int': v = v if isinstance(v, int) or v is UNDEF else known(eng, v)
            st.mon['seen'] = st.mon.get('seen', ()) + ((k, v),); return [(st, None)]
        return h

    def call(self, e, st, c):
        """A function of the program: recorded, with a result of its own."""
        key = (c.qn, tuple(split_args(c.params or '')))
        n = self.results.setdefault(key, 1000 + 7 * len(self.results))
        a = c.args
        st.mon['calls'] = st.mon.get('calls', ()) + ((c.qn, c.params or '', tuple(a)),)
        if c.sret:
            e.store_raw(st, a[0], n, 4, c.loc); return [(st, None)]
        if c.retty == 'void': return [(st, None)]
        if c.retty == 'ptr': return [(st, ('p', ('R', c.qn + '(' + (c.params or '') + ')'), 0))]
        if c.retty == 'i1': return [(st, n & 1)]
        if c.retty[0] == 'i': return [(st, n)]
        return e.unknown(e, st, c)

    def one(self, w, args, st):
        """A step which the analysis takes for granted."""
        o = self.run(w, args, st)[0]
        if o.kind != 'return' and not o.state.taint:
            self.rep.obligation('declared', False); self.rep.violation('declared', 'building the types used by the analysis', '%s ends with %s%s' % (w, o.kind, says(o)), self.ctx.loc(o.loc)); raise Stop
        if o.kind != 'return' or o.state.taint: raise Broken('%s ends with %s %s %s' % (w, o.kind, o.state.taint, self.ctx.loc(o.loc)))
        return o.state

    def run(self, w, args, st):
        st = st.copy(); st.mon = dict(st.mon); st.mon.pop('seen', None); st.mon.pop('calls', None)
        outs = calls(self.e, st, self.ctx.fn(w), args)
        self.rep.count('abstract outcomes', len(outs))
        return outs

    def declare(self, rule, t, w, st):
        outs = self.run(w, [tok(t)] if t else [], st)
        o = outs[0]
        what = 'declaration of %s' % (t or 'a scope')
        if o.state.taint: raise Broken('%s: %s at %s' % (what, o.state.taint[0], self.ctx.loc(o.state.taint[1])))
        self.rep.obligation(rule, o.kind == 'return')
        if o.kind != 'return':
            self.rep.violation(rule, what, 'ends with %s%s' % (o.kind, says(o)), self.ctx.loc(o.loc)); return None
        return o.state

    def check(self, rule, construct, w, args, st, calls=None, seen=None, onlyfirst=False, chain=None):
        """Runs a witness; calls: [(function, params or None, args)], seen: [(kind, value)], None entries are free."""
        rep = self.rep
        for o in self.run(w, args, st):
            if o.state.taint: rep.undecided(rule, '%s: unmodelled: %s' % (construct, o.state.taint[0]), self.ctx.loc(o.state.taint[1])); continue
            if o.kind != 'return':
                rep.obligation(rule, False); rep.violation(rule, construct, 'ends with %s%s' % (o.kind, says(o)), self.ctx.loc(o.loc)); continue
            got = o.state.mon.get('calls', ()); s = o.state.mon.get('seen', ())
            if chain is not None:
                # moved along, from one object to the next, each time from where it was left
                at = chain[0]; ok = True
                for x in got[:-1] if chain[1] else got:
                    ok = ok and x[0] == chain[2] and x[1] in (chain[2].split('::')[0] + '&&',) and x[2][1] == at; at = x[2][0]
                if chain[1]: ok = ok and got and got[-1][0] == chain[3] and got[-1][1] == chain[2].split('::')[0] + '&&' and matches(got[-1][2], (chain[1], at))
                else: ok = ok and got and (('at', at) == s[-1] or s[-1][0] != 'at')
                rep.obligation(rule, bool(ok))
                if not ok: rep.violation(rule, construct, 'calls %s; the object is not moved along from %s to the result' % (showcalls(got), show1(chain[0])), self.ctx.loc(o.loc)); continue
            if calls is not None:
                g = got[:len(calls)] if onlyfirst else got
                ok = len(g) == len(calls) and all(x[0] == y[0] and (y[1] is None or x[1] == y[1]) and matches(x[2], y[2]) for x, y in zip(g, calls))
                rep.obligation(rule, ok)
                if not ok: rep.violation(rule, construct, 'calls %s; required %s' % (showcalls(got), showcalls(calls)), self.ctx.loc(o.loc)); continue
            if seen is not None:
                s = s if isinstance(seen, list) else s
                ok = len(s) == len(seen) and all(y is None or x == y or y[1] is None and x[0] == y[0] for x, y in zip(s, seen))
                if not ok and len(s) == len(seen) and any(x[1] is None and y is not None and y[1] is not None for x, y in zip(s, seen)):
                    rep.undecided(rule, '%s: result not determined' % construct); continue
                rep.obligation(rule, ok)
                if not ok: rep.violation(rule, construct, 'yields %s; required %s' % (showseen(s), showseen(seen)), self.ctx.loc(o.loc))

    def result(self, q, params): return self.results.get((q, tuple(split_args(params))))


def known(e, v):
    try: return value_under(e, v, {})
    except Exception: return None


def says(o):
    d = o.data
    if o.kind == 'error' and isinstance(d, tuple):
        try: return ': "%s"' % models.show(d)
        except Exception: pass
    return ''


def matches(got, want):
    return len(got) >= len(want) and all(w is None or g == w for g, w in zip(got, want))


def show1(v):
    if isinstance(v, tuple) and v and v[0] == 'p': return '&' + str(v[1][1] if isinstance(v[1], tuple) else v[1]) + ('+%s' % v[2] if v[2] else '')
    if isinstance(v, tuple): 
        try: return '"%s"' % models.show(v)
        except Exception: return 'unknown'
    return str(v)


def showcalls(cs): return ' '.join('%s%s' % (c[0], '(%s)' % ', '.join('_' if a is None else show1(a) for a in c[2])) for c in cs) or 'nothing'
def showseen(s): return ' '.join('_' if x is None else show1(x[1]) for x in s) or 'nothing'


BINREF = {'plusAssign': '+=', 'minusAssign': '-=', 'multAssign': '*=', 'divAssign': '/=', 'modAssign': '%=', 'andAssign': '&=', 'orAssign': '|=', 'xorAssign': '^=',
          'lshiftAssign': '<<=', 'rshiftAssign': '>>='}
BIN = {'plus': '+', 'minus': '-', 'div': '/', 'mod': '%', 'and': '&', 'or': '|', 'xor': '^', 'lshift': '<<', 'rshift': '>>'}
CMP = {'eq': '==', 'ne': '!=', 'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>=', 'land': '&&', 'lor': '||'}


@stopping
@uses_witness('dsl.cpp')
def c11(ctx):
    W = World(ctx, TYPES, OWN, ('gfn', 'gover', 'wd_custom'))
    e = W.e; st = W.st
    for t, w in (('bool', 'bool'), ('int', 'int'), ('unsigned long', 'size')): st = W.one('w_reflect_' + w, [tok(t)], st)
    ready = {}
    for t in OWN:
        s = W.declare('declared', t, 'w_reflect_' + t, st)
        if s is not None: ready[t] = 1; st = s
    objs = {}
    for n in 'abo':
        objs[n] = ('p', e.new_region(st, n), 0)
    a, b, o = objs['a'], objs['b'], objs['o']
    R = lambda q, p: ('p', ('R', '%s(%s)' % (q, p)), 0)

    # operators, by name and through values
    def op(name, sym, params, args, res, ty=None, cls='Op'):
        if cls not in ready: return
        q = '%s::operator%s' % (cls, sym)
        W.results.setdefault((q, tuple(split_args(params))), 1000 + 7 * len(W.results))
        n = W.results[q, tuple(split_args(params))]
        seen = [('type', tok(ty))] if ty else []
        seen.append({'int': ('int', n), 'bool': ('int', n & 1), 'ref': ('at', R(q, params))}[res])
        W.check('operator', 'operator%s of %s' % (sym.strip(), cls), 'w_op_' + name, [a, b], st, [(q, params, args)], seen)
    for n, s in BINREF.items(): op(n, s, 'Op const&', (a, b), 'ref', 'Op')
    for n, s in BIN.items(): op(n, s, 'Op const&', (a, b), 'int', 'int')
    for n, s in CMP.items(): op(n, s, 'Op const&', (a, b), 'bool')
    op('not', '!', '', (a,), 'bool'); op('compl', '~', '', (a,), 'int')
    op('inc', '++', '', (a,), 'ref'); op('dec', '--', '', (a,), 'ref')
    op('postinc', '++', 'int', (a,), 'int'); op('postdec', '--', 'int', (a,), 'int')
    op('call', '()', 'Op const&, Op const&', (a, b, a), 'int'); op('index', '[]', 'Op const&', (a, b), 'ref')
    op('bool', ' bool', '', (a,), 'bool')
    op('mult', '*', 'Mul const&', (a, b), 'int', cls='Mul'); op('deref', '*', '', (a,), 'ref', cls='Deref')

    def at_member(cls, w, f):
        for x in W.run(w, [a], st):
            s = x.state.mon.get('seen', ())
            if x.state.taint: W.rep.undecided('field', 'unmodelled: %s' % x.state.taint[0], ctx.loc(x.state.taint[1])); continue
            ok = x.kind == 'return' and len(s) == 4 and s[0] == s[1] and s[2] == s[3]
            W.rep.obligation('field', ok)
            if not ok: W.rep.violation('field', '%s::%s' % (cls, f), 'ends with %s%s' % (x.kind, says(x)) if x.kind != 'return' else 'is taken to be at %s and %s; it is at %s' % tuple(show1(s[k][1]) for k in (0, 2, 1)), ctx.loc(x.loc))
    if 'Wide' in ready:
        # members far from the start of a large class
        for f in ('head', 'far', 'last'): at_member('Wide', 'w_wide_' + f, f)
        W.check('trait', 'size of Wide', 'w_wide_size', [tok('Wide')], st, seen=[('int', 1)])
    if 'Thing' in ready:
        for f in ('base', 'head', 'a', 'b', 'c', 'next', 'k'):
            at_member('Thing', 'w_field_' + f, f)
        for x in W.run('w_fields', [tok('Thing')], st):
            if x.state.taint: continue
            s = sorted(bytes(v[1]).decode() for v in x.state.mon.get('seen', ()))
            W.rep.obligation('field', s == sorted(('base', 'head', 'a', 'b', 'c', 'next', 'k')))
            if s != sorted(('base', 'head', 'a', 'b', 'c', 'next', 'k')): W.rep.violation('field', 'fields of Thing', 'are %s' % ' '.join(s), ctx.loc(x.loc))
        size = [x.state.mon['seen'][0] for x in W.run('w_sizes', [], st)][0]
        W.check('trait', 'parent and size of Thing', 'w_ids', [tok('Thing')], st, seen=[('type', tok('Base')), size])
        I = lambda *ns: [('int', n) for n in ns]
        W.check('trait', 'traits of Thing', 'w_traits', [tok('Thing')], st, seen=I(1, 3, 1, 0, 1, 0, 7, 1, 0, 9))

        def fn(w, q, params, args, label=None):
            W.results.setdefault((q, tuple(split_args(params))), 1000 + 7 * len(W.results))
            W.check('function', label or q, 'w_fn_' + w, [a, o], st, [(q, params, args)], [('int', W.result(q, params))])
        fn('fn', 'Thing::fn', '', (a,)); fn('fn2', 'Thing::fn2', 'int, Op const&', (a, 21, o)); fn('sfn', 'Thing::sfn', 'int', (21,))
        W.check('function', 'Thing::nothing', 'w_fn_nothing', [a, o], st, [('Thing::nothing', 'Op&', (a, o))], I(0))
        fn('over1', 'Thing::over', 'int', (a, 21), 'Thing::over(int)'); fn('over2', 'Thing::over', 'int, int', (a, 21, 22), 'Thing::over(int, int)')
        fn('cast', 'Thing::operator int', '', (a,)); fn('custom', 'wd_custom', '', (a, 21), 'reflectCustom')
        fn('base', 'Base::baseFn', '', (a,))

        T = tok('Thing')
        def make(w, params, args, stored=1, ty='Thing', q='Thing::Thing', first=True):
            W.check('construct', 'Thing %s' % w, 'w_make_' + w, [a, b, o], st, [(q, params, args)], [('type', tok(ty)), ('int', 1)] if stored else [('type', tok(ty)), None], onlyfirst=first)
        make('cons', '', (None,)); make('args', 'int, Op const&', (None, 21, o)); make('copy', 'Thing const&', (None, a)); make('move', 'Thing&&', (None, a))
        make('new', '', (None,), 0, 'Thing*', first=False); make('newcopy', 'Thing const&', (None, a), 0, 'Thing*', first=False)
        W.check('construct', 'Thing newmove', 'w_make_newmove', [a, b, o], st, chain=(a, None, 'Thing::Thing'), seen=[('type', tok('Thing*')), None])
        W.check('construct', 'Thing assign', 'w_make_assign', [a, b, o], st, [('Thing::operator=', 'Thing const&', (a, b))], [('type', 0), ('int', 0)])
        W.check('construct', 'Thing moveassign', 'w_make_moveassign', [a, b, o], st, chain=(b, a, 'Thing::Thing', 'Thing::operator='), seen=[('type', 0), ('int', 0)])
        # new objects are the ones handed out
        for w in ('new', 'newcopy'):
            for x in W.run('w_make_' + w, [a, b, o], st):
                s = x.state.mon.get('seen', ()); c = x.state.mon.get('calls', ())
                if x.kind != 'return' or x.state.taint or len(s) != 2 or not c: continue
                ok = s[1][1] == c[0][2][0]
                W.rep.obligation('construct', ok)
                if not ok: W.rep.violation('construct', 'Thing %s' % w, 'hands out %s; the new object is %s' % (show1(s[1][1]), show1(c[0][2][0])), ctx.loc(x.loc))
        W.check('construct', 'abilities of Thing', 'w_can', [T], st, seen=I(1, 1, 1, 1, 1, 0))
    if 'Small' in ready and 'NoCopy' in ready:
        W.check('construct', 'Small(int, Op&&)', 'w_make_rvalue', [a, b], st, [('Small::Small', 'int, Op&&', (None, 21, None))], [('type', tok('Small')), ('int', 1)], onlyfirst=True)
        W.check('trait', 'size of Small', 'w_small', [tok('Small')], st, seen=[('int', 1)])
    if 'NoCopy' in ready: W.check('construct', 'abilities of NoCopy', 'w_can', [tok('NoCopy')], st, seen=[('int', n) for n in (0, 1, 1, 1, 1, 0)])
    if 'Pinned' in ready: W.check('construct', 'abilities of Pinned', 'w_can', [tok('Pinned')], st, seen=[('int', n) for n in (0, 0, 0, 0, 0, 0)])
    if 'Op' in ready: W.check('construct', 'abilities of Op', 'w_can', [tok('Op')], st, seen=[('int', n) for n in (1, 1, 0, 1, 1, 1)])

    # global functions and variables
    s = W.declare('declared', None, 'w_scope', st)
    if s is not None:
        def gl(w, q, params, args, label):
            W.results.setdefault((q, tuple(split_args(params))), 1000 + 7 * len(W.results))
            W.check('global', label, 'w_global_' + w, [], s, [(q, params, args)], [('int', W.result(q, params))])
        gl('fn', 'gfn', 'int', (21,), 'gfn'); gl('over1', 'gover', 'int', (21,), 'gover(int)'); gl('over2', 'gover', 'int, int', (21, 22), 'gover(int, int)')
        for w, v in (('get', 33), ('set', 44), ('const', 5)): W.check('global', 'variable (%s)' % w, 'w_global_' + w, [], s, [], [('int', v)])
        W.check('global', 'traits of a scope', 'w_global_traits', [], s, seen=[('int', 1), ('int', 2)])

c11.compiles = 'the declarations of a program'
