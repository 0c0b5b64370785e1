"""Scopes: splitting of names, lookups, listings."""
import itertools
from core import *
from props.names import eqs, benign, nonempty

SPECIAL = [ord(c) for c in ':<>']
SEP = (58, 58)


# ------------------------------------------------------------------ splitting
def refhead(s):
    """-> (first, rest), 'error', or None where nothing is required."""
    d = 0; neg = False
    for i, c in enumerate(s):
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif c == ':' and not d:
            if neg: return None
            if s[i + 1:i + 2] != ':': return 'error'
            return s[:i], s[i + 2:]
        if d < 0: neg = True
    if d: return 'error'
    return None if neg else (s, '')


def reftail(s):
    d = 0; neg = False
    for i in range(len(s) - 1, -1, -1):
        c = s[i]
        if c == '>': d += 1
        elif c == '<': d -= 1
        elif c == ':' and not d:
            if neg: return None
            if i == 0 or s[i - 1] != ':': return 'error'
            return s[i + 1:], s[:i - 1]
        if d < 0: neg = True
    if d: return 'error'
    return None if neg else (s, '')


def seen(st, x): st.mon['seen'] = st.mon.get('seen', ()) + (x,)


def sinks(ctx, e):
    def h(eng, st, c):
        k = c.qn
        if k == 'wo_bool': seen(st, ('bool', c.args[0]))
        elif k == 'wo_string': seen(st, ('string', eng.getstr(st, c.args[0], c.loc)))
        elif k == 'wo_done': seen(st, ('done',))
        elif k == 'wo_type': seen(st, ('type', c.args[0]))
        elif k == 'wo_scope': seen(st, ('scope', scopeid(ctx, eng, st, c.args[0])))
        elif k == 'wo_overloads':
            n = pure(eng, st, ctx.fn('w_over_size'), [c.args[0]])
            if not isinstance(n, int): seen(st, ('overloads', None)); return [(st, None)]
            l = []
            for i in range(n):
                s = pure(eng, st, ctx.fn('w_over_name'), [c.args[0], i])
                l.append(models.show(eng.getstr(st, s, c.loc)) if s is not None else None)
            seen(st, ('overloads',) + tuple(sorted(l, key=str)))
        return [(st, None)]
    e.add_hook(lambda q, p, d, n: q.startswith('wo_'), h)


def scopeid(ctx, e, st, p):
    sub = st.copy(); sub.frames = []; sub.mon = dict(sub.mon); sub.mon['seen'] = ()
    und, pend = getattr(e, 'undecided', []), e.pending
    try:
        outs = e.run_all(ctx.fn('w_scope_id'), [p], sub)
        bad = e.undecided
    finally: e.undecided, e.pending = und, pend
    if bad or len(outs) != 1 or outs[0].kind != 'return' or len(outs[0].state.mon['seen']) != 1: return None
    return outs[0].state.mon['seen'][0][1]


def splitting(ctx, longest):
    rep = ctx.rep
    e = ctx.engine(); sinks(ctx, e); widen = e.widen
    for what, ref in (('head', refhead), ('tail', reftail)):
        long = ['A' * 70 + '?' + 'B' * 300, '<' * 140 + '::' + '>' * 139 + '?::b', '<:>' * 130 + '?:b', 'a' * 300 + '?' + ':b',
                '<a::b>' * 60 + '?::c', 'x::' + '<' * 300 + '?' + '>' * 300, '<' * 256 + '?::b', 'a::?' + '>' * 256, 'b' * 257 + '::' + '<' * 40 + '>' * 39 + '?']
        for tape in [[None] * n for n in range(longest + 1)] + [[None if c == '?' else ord(c) for c in t] for t in long]:
            st = State(); n = len(tape)
            chars = [e.sym(('char', i), 8) if c is None else c for i, c in enumerate(tape)]
            for c in chars:
                if not isinstance(c, int): st.dom[c] = frozenset(range(256))
            e.widen = 20000 if n > 50 else widen
            r = e.new_region(st, 'name')
            e.setstr(st, ('p', r, 0), tuple(chars))
            outs = calls(e, st, ctx.fn('w_' + what), [('p', r, 0)])
            rep.count('abstract outcomes', len(outs))
            for o in outs:
                if o.state.taint:
                    rep.undecided('split', 'unmodelled: %s' % (o.state.taint[0],), ctx.loc(o.state.taint[1])); continue
                doms = []
                for c in chars:
                    if isinstance(c, int): doms.append([chr(c)]); continue
                    d = e.values(o.state, c, 256)
                    if d is None: doms = None; break
                    d = set(d)
                    reps = [x for x in SPECIAL if x in d]
                    other = [x for x in sorted(d, key=lambda x: (x != 97, x)) if x not in SPECIAL]
                    doms.append([chr(x) for x in reps + other[:1]])
                if doms is None: rep.undecided('split', 'characters not determined'); continue
                for combo in itertools.product(*doms):
                    want = ref(''.join(combo))
                    if want is None: continue
                    if o.kind == 'return':
                        l = [x[1] for x in o.state.mon.get('seen', ())]
                        got = []
                        for parts in l:
                            t = ''
                            for x in parts:
                                if isinstance(x, int): t += chr(x)
                                elif x in chars: t += combo[chars.index(x)]
                                else: t = None; break
                            got.append(t)
                        if len(got) != 2 or None in got: rep.undecided('split', 'result not determined'); continue
                        got = tuple(got)
                    else: got = o.kind
                    rep.obligation('split', got == want)
                    if got != want:
                        rep.violation('split', 'Scope::' + what, 'for %.300r the result is %s, required %s' % (''.join(combo), got, want), ctx.loc(o.loc), o.state.trail(ctx.P))
    e.widen = widen
    for a in (0, 1):
        for b in (0, 1):
            st = State()
            x, y = nonnull(st, lazy('a')), nonnull(st, lazy('b'))
            if a: nonempty(st, e, x)
            else: x = ('p', e.new_region(st, 'a'), 0); e.setstr(st, x, ())
            if b: nonempty(st, e, y)
            else: y = ('p', e.new_region(st, 'b'), 0); e.setstr(st, y, ())
            outs = calls(e, st, ctx.fn('w_join'), [x, y])
            X, Y = e.getstr(st, x, None), e.getstr(st, y, None)
            want = X + SEP + Y if a else Y
            for o in outs:
                if o.state.taint: rep.undecided('join', str(o.state.taint[0])); continue
                got = o.state.mon.get('seen', ())[0][1] if o.kind == 'return' and o.state.mon.get('seen') else o.kind
                rep.obligation('join', got == want)
                if got != want: rep.violation('join', 'Scope::join', 'the result is %s, required %s' % (
                    models.show(got) if isinstance(got, tuple) else got, models.show(want)), ctx.loc(o.loc))


# ------------------------------------------------------------------ histories
FUNCTION, TYPE, SCOPE = 0, 1, 2
KINDS = ('function', 'type', 'scope')
QUERY = ('hasScope', 'hasFunction', 'hasType', 'function', 'function (mutable)', 'scope', 'scope (mutable)', 'type',
         'functions (all)', 'functions', 'types (all)', 'types', 'scopes', 'another function', 'another type')


class Err(Exception): pass


class Node:
    def __init__(self): self.scopes = {}; self.types = {}; self.fns = {}

    def make(self, path):
        n = self
        for x in path: n = n.scopes.setdefault(x, Node())
        return n

    def find(self, path):
        n = self
        for x in path:
            n = n.scopes.get(x)
            if n is None: return None
        return n

    def addtype(self, path):
        if len(path) == 1: self.types.setdefault(path[0], False); return
        if path[0] in self.types or path[0] in self.fns: raise Err
        self.scopes.setdefault(path[0], Node()).addtype(path[1:])

    def type(self, path):
        """The node holding the type, or None."""
        if path[0] in self.types:
            if len(path) > 1: raise Err
            return self
        if len(path) == 1 or path[0] not in self.scopes: return None
        return self.scopes[path[0]].type(path[1:])

    def all(self, what):
        r = [(x,) for x in getattr(self, what)]
        for k, n in self.scopes.items(): r += [(k,) + x for x in n.all(what)]
        return r


def query(n, what, path, top):
    if what == 0: return [('bool', int(n.find(path) is not None))]
    if what in (1, 3, 4):
        m = n.find(path[:-1])
        ok = m is not None and path[-1] in m.fns
        if what == 1: return [('bool', int(ok))]
        if not ok: raise Err
        return [('overloads',) + tuple(sorted(m.fns[path[-1]]))]
    if what == 2: return [('bool', int(n.type(path) is not None))]
    if what == 5:
        if n.find(path) is None: raise Err
        return [('scope', top + path)]
    if what == 6: n.make(path); return [('scope', top + path)]
    if what == 13: n.make(path[:-1]).fns.setdefault(path[-1], []).append('third'); return []
    if what == 14: n.addtype(path); return []
    if what == 7:
        m = n.type(path)
        if m is None: raise Err
        r = [] if m.types[path[-1]] else [('ask', top + path)]
        m.types[path[-1]] = True
        return r + [('type', top + path)]
    l = n.all('fns' if what < 10 else 'types') if what in (8, 10) else [(x,) for x in (n.fns if what == 9 else n.types if what == 11 else n.scopes)]
    return sorted([('string', x) for x in l], key=repr)


def partitions(xs):
    """Set partitions as dicts element -> class number."""
    def go(i, cls, k):
        if i == len(xs): yield dict(cls); return
        for c in range(k + 1):
            cls[xs[i]] = c
            yield from go(i + 1, cls, max(k, c + 1))
        cls.pop(xs[i], None)
    yield from go(0, {}, 0)


def split_hooks(e):
    """Scope::head and Scope::tail on names made of simple segments (decided for all names by the splitting rule)."""
    def h(eng, st, c):
        parts = eng.getstr(st, c.args[1], c.loc)
        at = [i for i in range(len(parts) - 1) if parts[i:i + 2] == SEP]
        if any(isinstance(x, tuple) and x[0] == 'S' and not (isinstance(x[1], tuple) and x[1][0] == 'lz') for x in parts):
            return 'inline'
        if c.qn.endswith('head'):
            a, b = (parts[:at[0]], parts[at[0] + 2:]) if at else (parts, ())
        else:
            a, b = (parts[at[-1] + 2:], parts[:at[-1]]) if at else (parts, ())
        eng.setstr(st, c.args[0], a); eng.setstr(st, eng.padd(c.args[0], 32), b)
        return [(st, None)]
    e.add_hook(lambda q, p, d, n: q in ('reflect::Scope::head', 'reflect::Scope::tail'), h)
    def ask(eng, st, c):
        if c.targs: return [(st, tok('Value'))]
        parts = eng.getstr(st, c.args[0], c.loc)
        seen(st, ('ask', parts))
        return [(st, nonnull(st, ('p', ('d', ('type', parts)), 0)))]
    e.add_hook(lambda q, p, d, n: q in ('reflect::type', 'reflect::Registry::get'), ask)


def name(e, st, tag, n):
    segs = []
    parts = ()
    for i in range(n):
        p = nonempty(st, e, nonnull(st, lazy('%s%d' % (tag, i))))
        x = e.getstr(st, p, None)
        segs.append(x); parts += (SEP if i else ()) + x
    r = e.new_region(st, tag)
    e.setstr(st, ('p', r, 0), parts)
    return ('p', r, 0), segs


def run(ctx, rule, adds, what, dq, then=-1, prefix=False, top=False):
    """adds: two (kind, segments); asks one query of dq segments and maybe a second one."""
    rep = ctx.rep
    e = ctx.engine(); sinks(ctx, e); split_hooks(e)
    st = State()
    (k0, d0), (k1, d1) = adds
    p0, s0 = name(e, st, 'n', d0)
    p1, s1 = name(e, st, 'm', d1)
    pq, sq = name(e, st, 'q', dq)
    pt, stop = name(e, st, 't', 1) if top else (0, [])
    sp = sq[:-1] if prefix and dq > 1 else sq
    r = e.new_region(st, 'q2')
    parts = ()
    for i, x in enumerate(sp): parts += (SEP if i else ()) + x
    e.setstr(st, ('p', r, 0), parts)
    fa, fb = nonnull(st, lazy('fa')), nonnull(st, lazy('fb'))
    outs = calls(e, st, ctx.fn('w_scopes'), [pt, k0, p0, k1, p1, fa, fb, what, pq, then, ('p', r, 0)])
    rep.count('abstract outcomes', len(outs))
    segs = s0 + s1 + sq
    terms = {}
    for i in range(len(segs)):
        for j in range(i): terms[(j, i)] = models.streq(e, segs[j], segs[i])
    known = set(terms.values())
    allsegs = set(x[0] for x in segs + stop)
    composite = set()
    desc = '%s after adding %s (%d) and %s (%d)%s' % (QUERY[what], KINDS[k0], d0, KINDS[k1], d1, ' below a scope' if top else '')
    pre = []
    for o in outs:
        if o.state.taint:
            rep.undecided(rule, 'unmodelled: %s' % (o.state.taint[0],), ctx.loc(o.state.taint[1])); continue
        facts = []; extra = None
        for t, d in o.state.dom.items():
            if t in known: facts.append((t, d))
            elif t[0] == 't' and t[1] == 'streq' and all(x in (58,) or x in allsegs for x in t[3] + t[4]):
                facts.append((t, d)); composite.add(t)
            elif not benign(t, d) and not any(x in repr(t) for x in ("'t0'",)): extra = t
        if extra is not None: rep.undecided(rule, 'depends on %s' % (extra,)); continue
        pre.append((o, facts))
    topc = ('top',) if top else ()
    num = {x[0]: i for i, x in enumerate(segs)}
    if top: num[stop[0][0]] = 'top'
    for cls in partitions(list(range(len(segs)))):
        env = {t: int(cls[i] == cls[j]) for (i, j), t in terms.items()}
        c0 = tuple(cls[i] for i in range(d0)); c1 = tuple(cls[d0 + i] for i in range(d1)); cq = tuple(cls[d0 + d1 + i] for i in range(dq))
        want = reference(adds, c0, c1, what, cq, then, cq[:-1] if prefix and dq > 1 else cq, topc)
        for t in composite: env[t] = int(path(t[3], num, cls) == path(t[4], num, cls))
        for x in allsegs: env[('t', 'strempty', 1, (x,))] = 0
        for o, facts in pre:
            if any(env[t] not in d for t, d in facts): continue
            if o.kind == 'return':
                got = canonical(e, env, o.state.mon.get('seen', ()), num, cls)
                if got is None: rep.undecided(rule, 'result not determined'); continue
            else: got = o.kind
            rep.obligation(rule, got == want)
            if got != want:
                rep.violation(rule, desc, 'with names %s and %s asking for %s (equal numbers are equal names) the result is %s, required %s' % (
                    txt(c0), txt(c1), txt(cq), got, want), ctx.loc(o.loc), o.state.trail(ctx.P))
                return


def txt(c): return '::'.join(map(str, c))


def reference(adds, c0, c1, what, cq, then, cq2, top):
    n = Node()
    out = []
    try:
        for (k, _), c, lab in ((adds[0], c0, 'first'), (adds[1], c1, 'second')):
            if k == FUNCTION: n.make(c[:-1]).fns.setdefault(c[-1], []).append(lab)
            elif k == TYPE: n.addtype(c)
            else: n.make(c); out.append(('scope', top + c))
            out.append(('done',))
        out += query(n, what, cq, top) + [('done',)]
        if then >= 0: out += query(n, then, cq2, top)
    except Err: return 'error'
    return tuple(out)


def path(parts, num, cls):
    """The classes of a name's segments."""
    r = []; i = 0
    parts = tuple(parts)
    while i < len(parts):
        x = parts[i]
        if x not in num: return ('?', models.show(parts))
        r.append('top' if num[x] == 'top' else cls[num[x]]); i += 1
        if i < len(parts):
            if parts[i:i + 2] != SEP or i + 2 == len(parts): return ('?', models.show(parts))
            i += 2
    return tuple(r)


def canonical(e, env, events, num, cls):
    out = []; lists = []
    for x in events:
        if x[0] == 'string': lists.append(('string', path(x[1], num, cls))); continue
        out += sorted(lists, key=repr); lists = []
        if x[0] in ('scope', 'ask'):
            if x[1] is None: return None
            out.append((x[0], path(x[1], num, cls)))
        elif x[0] == 'type':
            p = x[1]
            out.append(('type', path(p[1][1][1], num, cls)) if isinstance(p, tuple) and isinstance(p[1][1], tuple) and p[1][1][0] == 'type' else ('type', None))
        elif x[0] == 'bool':
            v = value_under(e, x[1], env)
            if v is None: return None
            out.append(('bool', v))
        elif x[0] == 'overloads' and None in x: return None
        else: out.append(x)
    return tuple(out + sorted(lists, key=repr))


def histories(ctx):
    """(additions, query, depth of the query, second query, on a prefix, below a scope)"""
    for k0 in range(3):
        for k1 in range(3):
            for d0 in (1, 2):
                for d1 in (1, 2):
                    adds = ((k0, d0), (k1, d1))
                    for what in range(8, 13): yield adds, what, 1, -1, False, False
                    for dq in (1, 2):
                        for what in range(8):
                            if what == 6: yield adds, 6, dq, 12, False, False
                            elif what == 7: yield adds, 7, dq, 7, False, False
                            elif what < 3:
                                yield adds, what, dq, 12, False, False
                                if dq > 1: yield adds, what, dq, 0, True, False
                            else: yield adds, what, dq, -1, False, False
                    for what in (13, 14):
                        for dq in (1, 2):
                            if d0 + d1 + dq > 5: continue
                            for then in (8, 10, 12): yield adds, what, dq, then, False, False
                            yield adds, what, dq, 2 if what == 14 else 3, False, False
    for k in range(3):
        adds = ((k, 3), (k, 1))
        for what in range(8, 13): yield adds, what, 1, -1, False, False
        for what in range(8, 13): yield adds, what, 1, -1, False, True
        adds = ((k, 3), (SCOPE, 1))
        for what in range(8): yield adds, what, 3, -1, False, False
        adds = ((k, 2), (SCOPE, 1))
        for what in (2, 5, 6, 7): yield adds, what, 2, -1, False, True
        adds = ((k, 3), (SCOPE, 1))
        for what in range(8): yield adds, what, 2, -1, False, False
        adds = ((k, 2), (SCOPE, 1))
        for what in range(8):
            yield adds, what, 3, 12 if what in (0, 1, 2, 6) else -1, False, False
            if what in (0, 1, 2): yield adds, what, 3, 0, True, False


def nothing(h): return h[3] in (0, 12) and h[1] < 3


@uses_witness('scopes.cpp')
def c15(ctx):
    for h in histories(ctx):
        if nothing(h): run(ctx, 'creates nothing', *h)


@uses_witness('scopes.cpp')
def c16(ctx):
    for h in histories(ctx):
        if not nothing(h): run(ctx, 'lookup' if h[1] < 8 or h[1] > 12 else 'listing', *h)


@uses_witness('scopes.cpp')
def c17(ctx):
    splitting(ctx, 6 if ctx.tier == 'quick' else 7)
