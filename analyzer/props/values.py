"""Value: typed access, constness, ownership, casts."""
from core import *
from props.calls import type_atoms, conv_symbols, convsym, argkey, nonnulls, refnorm, MATCHN, REF

FOO = tok('Foo')


def lazyvalue(e, st, name='v'):
    """A Value about which nothing is known; returns (pointer, its attributes)."""
    v = nonnull(st, lazy(name))
    R = enumerators(e.P, 'reflect::RefType')
    a = {'ptr': obs(e, st, 'value_value', v), 'type': nonnull(st, obs(e, st, 'value_type', v)),
         'ref': basesym(st, obs(e, st, 'value_ref', v), R.values()),
         'const': basesym(st, obs(e, st, 'value_const', v), (0, 1)), 'own': ownership(e, st, v),
         'stored': obs(e, st, 'value_stored', v)}
    if any(x is None for x in a.values()): raise Broken('Value observers not understood')
    return v, a


def look(e, st, v):
    return {'ptr': obs(e, st, 'value_value', v), 'type': obs(e, st, 'value_type', v),
            'ref': refnorm(e, obs(e, st, 'value_ref', v)), 'const': obs(e, st, 'value_const', v),
            'own': ownership(e, st, v), 'stored': obs(e, st, 'value_stored', v)}


def isref(e, t, code):
    """Whether a reference kind term is the given kind for certain."""
    return refnorm(e, t) == code


def same(e, st, a, b):
    """Equality of two terms on a path: True only when certain."""
    if a == b: return True
    x = lambda t: t[3] if isinstance(t, tuple) and t[0] == 't' and t[1] in ('trunc', 'zext') else t
    while x(a) != a: a = x(a)
    while x(b) != b: b = x(b)
    if a == b: return True
    if isinstance(a, tuple) and a[0] in 'st' and isinstance(b, int): return e.dom(st, a) == frozenset((b,))
    if isinstance(b, tuple) and b[0] in 'st' and isinstance(a, int): return e.dom(st, b) == frozenset((a,))
    if isinstance(a, tuple) and a[0] == 'p' and isinstance(b, tuple) and b[0] == 'p':
        t = e.peq(st, a, b)
        return t == 1 or (not isinstance(t, int) and e.dom(st, t) == frozenset((1,)))
    # null on this path
    for p, q in ((a, b), (b, a)):
        if q == 0 and isinstance(p, tuple) and p[0] == 'p':
            d = st.dom.get(('t', 'atom', 1, 'null', p[1]))
            if d == frozenset((1,)): return True
    return False


def track_ctors(e, classes):
    """Constructors and destructors of the witness classes become events."""
    def h(eng, st, c):
        cls = c.qn.split('::')[0]
        if '~' in c.qn: kind = 'destroy'
        elif c.params in ('', 'void', None): kind = 'default'
        elif c.params.endswith('&&'): kind = 'move'
        else: kind = 'copy'
        if c.qn.endswith('operator='): kind = 'assign'
        st.mon['made'] = st.mon.get('made', ()) + ((cls, kind, c.args[0], c.args[1] if len(c.args) > 1 else None),)
        return [(st, c.args[0] if c.retty == 'ptr' else None)]
    names = set()
    for k in classes: names |= {'%s::%s' % (k, k), '%s::~%s' % (k, k), '%s::operator=' % k}
    e.add_hook(names, h)


def mon_alloc(e):
    def m(eng, st, kind, data, loc):
        if kind in ('alloc', 'free', 'double-free', 'sp-own', 'use-after-free'):
            st.mon[kind] = st.mon.get(kind, ()) + ((data[0] if kind == 'free' else data),)
    e.monitor = m


def deep_type_hooks(e):
    """Type's copy and conversion services as events over lazily named results."""
    P = e.P
    def service(label):
        def h(eng, st, c):
            ins = c.args
            dst, src = ins[0], ins[-1]
            who = ins[1]
            if label == 'convert': src, who = ins[1], ins[2]
            srcv = obs(eng, st, 'value_value', src)
            snap = (label, who, srcv, refnorm(eng, obs(eng, st, 'value_ref', src)))
            st.mon['svc'] = st.mon.get('svc', ()) + (snap,)
            eng.cells(st, dst[1], True)
            n = ('made-by', label, srcv)
            st.back[dst[1]] = st.back.get(dst[1], ()) + ((dst[2], dst[2] + 64, n, -dst[2]),)
            nonnull(st, obs(eng, st, 'value_type', dst))
            return [(st, None)]
        return h
    e.add_hook('reflect::Type::construct', service('construct'))
    e.add_hook('reflect::Value::convert', service('convert'))

    # The same asked of the type: its converter, which is an error when there is none, called with the value.
    def converter(eng, st, c):
        t, x = c.args[0], c.args[1]
        if not all(isinstance(y, tuple) and y[0] == 'p' for y in (t, x)): return 'inline'
        return [(s, nonnull(s, lazy(('converter', v, t, x)))) for s, v in eng.split(st, ('t', 'atom', 1, 'conv', t, x) if t != x else 0, c.loc)]
    def called(eng, st, c):
        fn = c.args[1] if c.sret else c.args[0]
        n = fn[1][1] if isinstance(fn, tuple) and fn[0] == 'p' and fn[1][0] == 'd' else None
        if not (isinstance(n, tuple) and n[0] == 'converter'): return 'inline'
        if not n[1]: raise Terminal('error', 'no converter')
        if not c.sret or len(c.args) != 3: return 'inline'
        class Call: args = (c.args[0], n[3], c.args[2])
        return service('converter')(eng, st, Call)
    e.add_hook('reflect::Type::converter', converter)
    e.add_hook('reflect::Function::call', called)
    for q in ('isCopiable', 'isMovable'):
        e.add_hook('reflect::Type::' + q, lambda eng, st, c, q=q: [(st, ('t', 'atom', 1, q, c.args[0]))])


class Obl:
    """Collects requirement results for one scenario."""
    def __init__(self, ctx, rule, what): self.ctx = ctx; self.rule = rule; self.what = what

    def need(self, ok, msg, o):
        rep = self.ctx.rep
        if o is not None and o.state.taint:
            rep.undecided(self.rule, '%s: %s' % (self.what, o.state.taint[0]), self.ctx.loc(o.state.taint[1])); return
        rep.obligation(self.rule, bool(ok))
        if not ok:
            rep.violation(self.rule, self.what, msg, self.ctx.loc(o.loc) if o is not None else '?',
                          o.state.trail(self.ctx.P) if o is not None else ())


def newout(e, st, initialised=False):
    r = e.new_region(st, 'out', 'b')
    st.back[r] = ((-(1 << 40), 1 << 40, None, 0),)
    return ('p', r, 0)


@uses_witness('values.cpp')
def c06(ctx):
    """Typed access returns the stored address for the same or a derived type, an error otherwise."""
    e = ctx.engine(); type_atoms(e)
    for w, label in (('w_get', 'Value::get'), ('w_as', 'Value::as')):
        st = State(); v, a = lazyvalue(e, st)
        outs = calls(e, st, ctx.fn(w), [v])
        T = Table(e)
        T.var('same or derived', ('t', 'atom', 1, 'child', a['type'], FOO))
        T.var('base', ('t', 'atom', 1, 'child', FOO, a['type']))
        T.var('same', e.peq(st, a['type'], FOO))
        def result(o, env):
            if o.kind != 'return': return o.kind
            return 'the object' if same(e, o.state, o.value, a['ptr']) else 'something else'
        compare(ctx, e, 'typed-access', label, T, outs,
                lambda v: 'the object' if v['same or derived'] else 'error', result,
                lambda v: v['same'] == (v['base'] and v['same or derived']), ignore=nonnulls)
    for w, label in (('w_cast_lref', 'cast<T&>'), ('w_cast_clref', 'cast<const T&>')):
        st = State(); v, a = lazyvalue(e, st)
        outs = calls(e, st, ctx.fn(w), [v])
        k = Obl(ctx, 'typed-access', label)
        T = Table(e)
        R = enumerators(ctx.P, 'reflect::RefType')
        T.var('same or derived', ('t', 'atom', 1, 'child', a['type'], FOO))
        T.var('base', ('t', 'atom', 1, 'child', FOO, a['type']))
        T.var('same', e.peq(st, a['type'], FOO))
        T.var('const', a['const']); T.var('ref', a['ref'], sorted(R.values()))
        def result(o, env):
            if o.kind != 'return': return o.kind
            return 'the object' if same(e, o.state, o.value, a['ptr']) else 'something else'
        mut = w == 'w_cast_lref'
        def expect(v):
            if not v['same or derived']: return 'error'
            if mut and (v['const'] or v['ref'] != R['LValue']): return 'error'
            return 'the object'
        compare(ctx, e, 'typed-access', label, T, outs, expect, result,
                lambda v: v['same'] == (v['base'] and v['same or derived']), ignore=nonnulls)


@uses_witness('values.cpp')
def c07(ctx):
    """Constness and reference kind across field access, views and casts."""
    e = ctx.engine(); type_atoms(e); deep_type_hooks(e)
    P = ctx.P
    R = enumerators(P, 'reflect::RefType'); LV = R['LValue']
    F = lazy('F')

    # --- fields
    st = State(); v, a = lazyvalue(e, st); nonnull(st, F)
    farg = obs(e, st, 'field_arg', F)
    ftype = nonnull(st, obs(e, st, 'arg_type', farg)); fconst = basesym(st, obs(e, st, 'arg_const', farg), (0, 1))
    foff = obs(e, st, 'field_offset', F)
    fref = basesym(st, obs(e, st, 'arg_ref', farg), (R['Copy'],))
    def field(eng, s, c):
        s.mon['asked'] = s.mon.get('asked', ()) + ((c.args[0], models.show(eng.getstr(s, c.args[1]))),)
        return [(s, F)]
    e.add_hook('reflect::Type::field', field)
    nonnull(st, a['ptr'])
    out = newout(e, st); name = nonnull(st, lazy('n'))
    outs = calls(e, st, ctx.fn('w_field'), [v, name, out])
    k = Obl(ctx, 'field', 'Value::field')
    T = Table(e); T.var('value const', a['const']); T.var('field const', fconst)
    def result(o, env):
        if o.kind != 'return': return o.kind
        x = look(e, o.state, out)
        cst = x['const']
        if not isinstance(cst, int): cst = value_under(e, cst, env)
        bad = []
        if x['ref'] != 1: bad.append('not an lvalue')
        if not same(e, o.state, x['ptr'], e.padd(a['ptr'], foff)): bad.append('wrong address')
        if not same(e, o.state, x['type'], ftype): bad.append('wrong type')
        if o.state.mon.get('asked', ()) != ((a['type'], models.show(e.getstr(st, name))),): bad.append('wrong field looked up')
        return (cst, ' '.join(bad))
    compare(ctx, e, 'field', 'Value::field', T, outs, lambda v: (int(v['value const'] or v['field const']), ''), result, ignore=nonnulls)
    k.need(any(o.kind == 'return' for o in outs), 'no path returns the field', None)

    # --- views
    for w, ref, cst in (('w_toConst', 2, 1), ('w_rvalue', 2, None)):
        st = State(); v, a = lazyvalue(e, st); out = newout(e, st)
        k = Obl(ctx, 'views', {'w_toConst': 'Value::toConst', 'w_rvalue': 'Value::rvalue'}[w])
        outs = calls(e, st, ctx.fn(w), [v, out])
        for o in outs:
            k.need(o.kind == 'return', 'outcome %s' % o.kind, o)
            if o.kind != 'return': continue
            x = look(e, o.state, out)
            k.need(same(e, o.state, x['ptr'], a['ptr']), 'refers to another object', o)
            k.need(same(e, o.state, x['type'], a['type']), 'has another type', o)
            k.need(x['ref'] == ref, 'reference kind is %s' % (x['ref'],), o)
            k.need(same(e, o.state, x['const'], a['const'] if cst is None else cst), 'constness is %s' % (x['const'],), o)
            k.need(same(e, o.state, x['own'][1], a['own'][1]), 'ownership is not shared', o)
        k.need(outs, 'no outcome', None)

    # --- run-time casts
    for r, c in itertools.product((0, 1, 2), (0, 1)):
        st = State(); v, a = lazyvalue(e, st); out = newout(e, st)
        t = nonnull(st, lazy('target'))
        outs = calls(e, st, ctx.fn('w_cast'), [v, t, r, c, out])
        T = Table(e)
        T.var('value const', a['const']); T.var('value ref', a['ref'], sorted(R.values()))
        T.var('derived', ('t', 'atom', 1, 'child', a['type'], t)); T.var('base', ('t', 'atom', 1, 'child', t, a['type']))
        T.var('converter', ('t', 'atom', 1, 'conv', a['type'], t)); T.var('converter back', ('t', 'atom', 1, 'conv', t, a['type']))
        for n in ('isCopiable', 'isMovable'):
            T.var('target ' + n, ('t', 'atom', 1, n, t)); T.var('source ' + n, ('t', 'atom', 1, n, a['type']))
        def expect(x):
            if r == 1:
                ok = x['derived'] and (c or (not x['value const'] and x['value ref'] == LV))
                return 'same' if ok else 'error'
            if r == 2:
                if not x['target isMovable']: return 'error'
                return 'same' if x['derived'] else 'converted' if x['converter'] else 'error'
            if not x['target isCopiable']: return 'error'
            return 'copied' if x['derived'] else 'converted' if x['converter'] else 'error'
        def result(o, env):
            if o.kind != 'return': return o.kind
            x = look(e, o.state, out); s = o.state
            svc = s.mon.get('svc', ())
            if not svc:
                if not (same(e, s, x['ptr'], a['ptr']) and same(e, s, x['type'], a['type'])): return 'something else'
                if not same(e, s, x['own'][1], a['own'][1]): return 'same object without its ownership'
                if not same(e, s, x['const'], a['const']): return 'same object with another constness'
                return 'same'
            if len(svc) != 1: return 'several conversions'
            lab, who, src, rr = svc[0]
            if not same(e, s, src, a['ptr']) or not same(e, s, who, t): return 'conversion of something else'
            return {'construct': 'copied', 'convert': 'converted', 'converter': 'converted'}[lab]
        compare(ctx, e, 'cast', 'cast to %s%s' % ('const ' if c else '', REF[r]), T, outs, expect, result,
                lambda x: not (x['derived'] and x['base']) or 1, ignore=nonnulls)


@uses_witness('values.cpp')
def c08(ctx):
    """Who owns the object a Value refers to."""
    e = ctx.engine(); type_atoms(e); deep_type_hooks(e); mon_alloc(e)
    P = ctx.P
    CL = ('Foo', 'CopyOnly', 'MoveOnly', 'Pinned')
    track_ctors(e, CL)

    # --- references are not owned
    for w, cst in (('w_from_lvalue', 0), ('w_from_clvalue', 1)):
        st = State(); x = nonnull(st, lazy('x')); out = newout(e, st)
        k = Obl(ctx, 'reference', 'Value of a%s lvalue' % (' const' if cst else ''))
        outs = calls(e, st, ctx.fn(w), [x, out])
        k.need(outs, 'no outcome', None)
        for o in outs:
            k.need(o.kind == 'return', 'outcome %s' % o.kind, o)
            if o.kind != 'return': continue
            g = look(e, o.state, out)
            k.need(g['ptr'] == x, 'does not refer to the object', o)
            k.need(g['type'] == FOO, 'wrong type', o)
            k.need(g['ref'] == 1, 'not an lvalue', o)
            k.need(g['const'] == cst, 'constness is %s' % (g['const'],), o)
            k.need(g['stored'] == 0 and g['own'][1] == 0, 'takes ownership of an object it does not own', o)
            k.need(not o.state.mon.get('made') and not o.state.mon.get('alloc'), 'copies the object', o)

    # --- temporaries are stored
    for w, cls, kinds in (('w_from_rvalue', 'Foo', ('move',)), ('w_from_crvalue', 'Foo', ('copy',)),
                          ('w_from_moveonly', 'MoveOnly', ('move',)), ('w_from_copyonly', 'CopyOnly', ('copy',)),
                          ('w_from_pinned', 'Pinned', None), ('w_from_int', 'int', ())):
        st = State(); x = nonnull(st, lazy('x')) if cls != 'int' else e.sym('x', 32); out = newout(e, st)
        k = Obl(ctx, 'stored', 'Value of a temporary (%s)' % w[7:])
        outs = calls(e, st, ctx.fn(w), [x, out])
        k.need(outs, 'no outcome', None)
        for o in outs:
            if kinds is None:
                k.need(o.kind == 'error', 'a type which can be neither moved nor copied is stored', o); continue
            k.need(o.kind == 'return', 'outcome %s' % o.kind, o)
            if o.kind != 'return': continue
            s = o.state; g = look(e, s, out)
            al = [p for p, n, q in s.mon.get('alloc', ())]
            k.need(g['ptr'] in al, 'the value does not refer to freshly allocated storage', o)
            k.need(g['type'] == tok(cls), 'wrong type', o)
            k.need(g['ref'] == 1 and g['const'] == 0, 'not a mutable lvalue of its own storage', o)
            k.need(g['stored'] == 1, 'not marked as stored', o)
            if cls == 'int':
                k.need(e.load(s, g['ptr'], 'i32') == x, 'the stored number differs', o)
            else:
                made = [m for m in s.mon.get('made', ()) if m[2] == g['ptr']]
                k.need(len(made) == 1 and made[0][1] in kinds and made[0][3] == x,
                       'the storage is initialised by %s instead of one %s of the temporary' % (made, '/'.join(kinds)), o)
            owned = s.mon.get('sp-own', ())
            k.need(len(owned) == 1 and owned[0][0] == g['ptr'], 'the storage is not owned exactly once', o)
            for p, dele in owned:
                check_deleter(ctx, e, k, o, p, dele, cls)

    # --- nothing
    st = State(); out = newout(e, st)
    k = Obl(ctx, 'empty', 'Value()')
    for o in calls(e, st, ctx.fn('w_default'), [out]):
        k.need(o.kind == 'return', 'outcome %s' % o.kind, o)
        g = look(e, o.state, out)
        k.need(g['type'] == tok('void') and g['ptr'] == 0 and g['stored'] == 0, 'a default value is not void', o)

    # --- copies share, moves hand over
    for w, label, mv, assign in (('w_copy_c', 'copy construction', 0, 0), ('w_copy_m', 'copy construction of a mutable Value', 0, 0),
                                 ('w_move', 'move construction', 1, 0), ('w_assign_c', 'copy assignment', 0, 1),
                                 ('w_assign_m', 'move assignment', 1, 1)):
        st = State(); v, a = lazyvalue(e, st)
        if assign: out, b = lazyvalue(e, st, 'old')
        else: out = newout(e, st)
        if assign: distinct(e, st, v, out)
        k = Obl(ctx, 'sharing', label)
        outs = calls(e, st, ctx.fn(w), [v, out])
        k.need(outs, 'no outcome', None)
        for o in outs:
            k.need(o.kind == 'return', 'outcome %s' % o.kind, o)
            if o.kind != 'return': continue
            s = o.state; g = look(e, s, out)
            for f in ('ptr', 'type', 'ref', 'const'):
                k.need(same(e, s, g[f], a[f]), '%s differs from the source' % f, o)
            k.need(same(e, s, g['own'][1], a['own'][1]) and same(e, s, g['own'][0], a['own'][0]), 'ownership does not follow the value', o)
            z = look(e, s, v)
            if mv: k.need(z['own'][1] == 0 or same(e, s, a['own'][1], 0), 'the source keeps its ownership', o)
            else:
                k.need(all(same(e, s, z[f], a[f]) for f in ('ptr', 'type', 'ref', 'const')) and same(e, s, z['own'][1], a['own'][1]),
                       'copying changes the source', o)
    for w, label in (('w_self_assign', 'self assignment'), ('w_self_move', 'self move assignment')):
        st = State(); v, a = lazyvalue(e, st)
        k = Obl(ctx, 'sharing', label)
        for o in calls(e, st, ctx.fn(w), [v]):
            k.need(o.kind == 'return', 'outcome %s' % o.kind, o)
            z = look(e, o.state, v)
            k.need(all(same(e, o.state, z[f], a[f]) for f in ('ptr', 'type', 'ref', 'const')) and
                   same(e, o.state, z['own'][1], a['own'][1]), 'the value changes', o)

    # --- copy() and move()
    for w, label, pred in (('w_copy', 'Value::copy', 'isCopiable'), ('w_moved', 'Value::move', 'isMovable')):
        st = State(); v, a = lazyvalue(e, st); out = newout(e, st)
        k = Obl(ctx, 'duplicate', label)
        outs = calls(e, st, ctx.fn(w), [v, out])
        T = Table(e); T.var(pred, ('t', 'atom', 1, pred, a['type']))
        def result(o, env):
            if o.kind != 'return': return o.kind
            s = o.state; svc = s.mon.get('svc', ())
            if len(svc) != 1 or svc[0][0] != 'construct': return 'not constructed by its type'
            if not same(e, s, svc[0][1], a['type']): return 'constructed by another type'
            if not same(e, s, svc[0][2], a['ptr']): return 'constructed from something else'
            z = look(e, s, v)
            if w == 'w_moved':
                if svc[0][3] != 2: return 'constructed from something which is not an rvalue'
                if not (z['type'] == tok('void') and z['ptr'] == 0 and z['own'][1] == 0): return 'the source still refers to the object'
            elif not all(same(e, s, z[f], a[f]) for f in ('ptr', 'type', 'ref', 'const')): return 'the source changed'
            return 'new value'
        compare(ctx, e, 'duplicate', label, T, outs, lambda x: 'new value' if x[pred] else 'error', result, ignore=nonnulls)


def distinct(e, st, a, b):
    t = e.peq(st, a, b)
    if not isinstance(t, int): st.dom[t] = frozenset((0,))


def check_deleter(ctx, e, k, o, p, dele, cls):
    """The deleter destroys the object as its own type, once, and frees its storage."""
    if dele.startswith('delete '):
        k.need(dele[7:].rstrip('*& ').strip() == cls, 'destroyed as %s' % dele[7:], o); return
    fs = [f for f in ctx.P.all() if f.qn.endswith('::operator()') and f.dem.replace('std::__cxx11::', 'std::').find(dele + '::operator()') >= 0]
    if not fs:
        ctx.rep.undecided('stored', 'deleter %s not found' % dele); return
    st = State(); q = nonnull(st, lazy('q'))
    outs = calls(e, st, fs[0], [nonnull(st, lazy('deleter')), q])
    for d in outs:
        if d.kind != 'return': continue
        if d.state.dom.get(('t', 'atom', 1, 'null', q[1])) == frozenset((1,)): continue
        made = d.state.mon.get('made', ()); fr = d.state.mon.get('free', ())
        if cls != 'int':
            k.need([(m[0], m[1], m[2]) for m in made] == [(cls, 'destroy', q)], 'the deleter runs %s' % (made,), d)
        k.need(fr == (q,), 'the deleter frees %s' % (fr,), d)
