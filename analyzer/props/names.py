"""Names in types: uniqueness, lookup along the parent chain, traits, derivation."""
from core import *
from props.calls import nonnulls

FIELD, FUNC = 0, 1


def observers(e, ctx):
    """The wo_* sinks of the witness become the trace of a run."""
    def put(st, x): st.mon['seen'] = st.mon.get('seen', ()) + (x,)
    def h(eng, st, c):
        k = c.qn
        if k == 'wo_bool': put(st, ('bool', c.args[0]))
        elif k == 'wo_name': put(st, ('name', eng.getstr(st, c.args[0], c.loc)))
        elif k == 'wo_value': put(st, ('value',) + described(eng, st, c.args[0]))
        elif k == 'wo_field':
            put(st, ('field', obs(eng, st, 'field_offset', c.args[0])))
        elif k == 'wo_overloads':
            n = pure(eng, st, ctx.fn('w_over_size'), [c.args[0]])
            if not isinstance(n, int): put(st, ('overloads', None)); return [(st, None)]
            l = []
            for i in range(n):
                s = pure(eng, st, ctx.fn('w_over_name'), [c.args[0], i])
                l.append(eng.getstr(st, s, c.loc) if s is not None else None)
            put(st, ('overloads',) + tuple(l))
        return [(st, None)]
    e.add_hook(lambda q, p, d, n: q.startswith('wo_'), h)


def described(e, st, v):
    """What a value says about itself."""
    return tuple(obs(e, st, 'value_' + n, v) for n in ('value', 'type', 'ref', 'const'))


def eqs(e, T, st, names):
    """Equality variables between symbolic strings; returns a consistency predicate."""
    P = {n: e.getstr(st, p, None) for n, p in names.items()}
    ks = list(names); vs = []
    for i in range(len(ks)):
        for j in range(i):
            t = models.streq(e, P[ks[j]], P[ks[i]])
            T.var('%s=%s' % (ks[j], ks[i]), t); vs.append((ks[j], ks[i]))
    def eq(v, a, b):
        if a == b: return 1
        return v['%s=%s' % (a, b)] if '%s=%s' % (a, b) in v else v['%s=%s' % (b, a)]
    def ok(v):
        for a in ks:
            for b in ks:
                for c in ks:
                    if eq(v, a, b) and eq(v, b, c) and not eq(v, a, c): return False
        return True
    return eq, ok


def nonempty(st, e, p):
    parts = e.getstr(st, p, None)
    t = models.strempty(e, parts)
    if not isinstance(t, int): st.dom[t] = frozenset((0,))
    return p


def benign(t, d):
    """Facts that say nothing about the scenario (null checks of live objects, empty strings)."""
    if nonnulls(t, d): return True
    return isinstance(t, tuple) and t[0] == 't' and t[1] in ('strempty', 'strlen')


def setup(ctx):
    e = ctx.engine()
    observers(e, ctx)
    # two functions of the same name are told apart by their match
    M = enumerators(ctx.P, 'reflect::Match')
    def test(eng, st, c):
        s = eng.sym(('exactness',), 32)
        if s not in st.dom: st.dom[s] = frozenset(M.values())
        return [(st, s)]
    e.add_hook(lambda q, p, d, n: q == 'reflect::Function::test', test)
    e.add_hook('reflect::signature', sigstring)
    return e, M


def sigstring(e, st, c):
    e.setstr(st, c.args[0], (('S', ('text', c.qn)),), c.loc)
    return [(st, None)]


QUERIES = {0: 'hasField', 1: 'hasFunction', 2: 'field', 3: 'function', 4: 'field (mutable)', 5: 'function (mutable)', 6: 'fields', 7: 'functions'}


def history(ctx, rule, queries, levels, kinds):
    rep = ctx.rep
    e, M = setup(ctx)
    exactcode = M['Exact']
    for (k0, l0) in [(k, l) for k in kinds for l in levels]:
        for (k1, l1) in [(k, l) for k in kinds for l in levels]:
            for qn in queries:
                st = State()
                n0, n1, q = lazy('n0'), lazy('n1'), lazy('q')
                t0, t1 = e.sym(('tag', 0), 64), e.sym(('tag', 1), 64)
                for p in (n0, n1, q): nonnull(st, p)
                outs = calls(e, st, ctx.fn('w_names'), [n0, k0, l0, t0, n1, k1, l1, t1, lazy('code'), q, qn])
                T = Table(e)
                eq, ok = eqs(e, T, st, {'first': n0, 'second': n1, 'asked': q})
                both = k0 == FUNC and k1 == FUNC and l0 == l1
                lt = None
                if qn in (6, 7) and k0 == k1 == (FIELD if qn == 6 else FUNC):
                    A, B = e.getstr(st, n0, None), e.getstr(st, n1, None)
                    T.var('first<second', ('t', 'strlt', 1, A, B)); T.var('second<first', ('t', 'strlt', 1, B, A))
                    lt, ok0 = True, ok
                    ok = lambda v: ok0(v) and v['first<second'] + v['second<first'] + eq(v, 'first', 'second') == 1
                if both: T.var('overlap', e.sym(('exactness',), 32), sorted(M.values()))
                ents = ((0, k0, l0, 'first', t0), (1, k1, l1, 'second', t1))

                def expect(v):
                    if l0 == l1 and eq(v, 'first', 'second'):
                        if k0 == FIELD or k1 == FIELD: return 'error'
                        if v['overlap'] == exactcode: return 'error'
                    kind = FIELD if qn in (0, 2, 4, 6) else FUNC
                    if qn in (6, 7):
                        l = [lab for i, k, l, lab, t in ents if k == kind and
                             not (lab == 'second' and k0 == k1 == kind and eq(v, 'first', 'second'))]
                        return tuple(reversed(l)) if lt and v['second<first'] else tuple(l)
                    hit = [x for x in ents if x[1] == kind and eq(v, x[3], 'asked')]
                    if qn in (4, 5): hit = [x for x in hit if x[2] == 0]
                    if qn in (0, 1): return int(bool(hit))
                    if not hit: return 'error'
                    near = min(x[2] for x in hit)
                    hit = [x for x in hit if x[2] == near]
                    return tuple(x[3] for x in hit)

                def result(o, env):
                    if o.kind != 'return': return 'error' if o.kind == 'error' else o.kind
                    seen = o.state.mon.get('seen', ())
                    if qn in (6, 7):
                        l = []
                        for x in seen:
                            for lab, p in (('first', n0), ('second', n1)):
                                if x[1] == e.getstr(st, p, None): l.append(lab); break
                            else: l.append(models.show(x[1]))
                        if lt and value_under(e, models.streq(e, e.getstr(st, n0, None), e.getstr(st, n1, None)), env):
                            l = ['first' if x == 'second' else x for x in l]
                        return tuple(l)
                    if len(seen) != 1: return 'no result'
                    x = seen[0]
                    if x[0] == 'bool': return value_under(e, x[1], env)
                    if x[0] == 'field': return tuple(lab for i, k, l, lab, t in ents if t == x[1]) or 'another field'
                    if x[0] == 'overloads': return tuple(models.show(y) if y is not None else '?' for y in x[1:])
                what = '%s after adding %s to level %d and %s to level %d' % (
                    QUERIES[qn], ('field', 'function')[k0], l0, ('field', 'function')[k1], l1)
                compare(ctx, e, rule, what, T, outs, expect, result, ok, ignore=benign, describe=str)
    rep.count('undecided runs', len(e.undecided))


@uses_witness('names.cpp')
def c05(ctx):
    """A name designates one thing: duplicates are refused, everything else is kept as added."""
    history(ctx, 'unique-names', (0, 1, 2, 3), (0, 1, 2), (FIELD, FUNC))
    traits(ctx)


@uses_witness('names.cpp')
def c14(ctx):
    history(ctx, 'lookup', (0, 1, 2, 3, 4, 5, 6, 7), (0, 1, 2), (FIELD, FUNC))
    tower(ctx)


def tower(ctx):
    """Every placement of three names on three levels, as a field or as a function each."""
    rep = ctx.rep; M = enumerators(ctx.P, 'reflect::Match')
    NAMES = ('b', 'aa', 'c')
    e, _ = setup(ctx)
    st0 = State(); st0.dom[e.sym(('exactness',), 32)] = frozenset((M['None'],))
    F = ctx.fn('w_tower')
    for code in range(512):
        # quick: the third name goes where the other two say
        if ctx.tier != 'thorough' and code >> 6 != (code + 3 * (code >> 3) + 1) % 8: continue
        place = [(l, n) for l in range(3) for n in range(3) if code >> (3 * n + l) & 1]
        # functions go where no field goes
        items = [(FIELD, l, n) for l, n in place] + [(FUNC, l, n) for l in (2, 0, 1) for n in range(3) if (l, n) not in place]
        st = st0.copy(); p = ('p', e.new_region(st, 'plan'), 0)
        e.setstr(st, p, models.lit(''.join('%d%d%d' % x for x in items)))
        want = []
        for l in range(3):
            for k in (FIELD, FUNC):
                want.append(('bool', 1))
                want += [('name', models.lit(x)) for x in sorted({NAMES[n] for kk, ll, n in items if kk == k and ll >= l})]
            for n in range(3):
                for k in (FIELD, FUNC):
                    hit = [(ll, i) for i, (kk, ll, nn) in enumerate(items) if kk == k and nn == n and ll >= l]
                    want.append(('bool', int(bool(hit))))
                    if hit: want.append(('field', min(hit)[1]) if k == FIELD else ('overloads', models.lit('f')))
        for o in calls(e, st, F, [p, lazy('code')]):
            if o.state.taint: rep.undecided('tower', 'unmodelled: %s' % (o.state.taint[0],), ctx.loc(o.state.taint[1])); continue
            got = list(o.state.mon.get('seen', ()))
            if any(isinstance(x[1], tuple) and x[0] in ('bool', 'field') or x[1] is None for x in got if len(x) > 1): rep.undecided('tower', 'result not determined'); continue
            ok = o.kind == 'return' and got == want
            rep.obligation('tower', ok)
            if not ok:
                k = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
                def s(l): return ' '.join(str(x) for x in l[k:k + 1]) or 'nothing'
                rep.violation('tower', 'several names on several levels', 'with %s: observed %s, required %s' % (
                    ', '.join('%s %s on level %d' % (('field', 'function')[kk], NAMES[n], l) for kk, l, n in items), s(got) if o.kind == 'return' else o.kind, s(want)), ctx.loc(o.loc), o.state.trail(ctx.P))


def traits(ctx):
    rep = ctx.rep
    for where, wn in enumerate(('Type', 'Field', 'Overloads', 'Scope')):
        for qn, qname in ((0, 'is'), (1, 'getValue'), (2, 'traits')):
            e, _ = setup(ctx)
            st = State()
            n0, n1, q = lazy('n0'), lazy('n1'), lazy('q')
            v0, v1 = lazy('v0'), lazy('v1')
            for p in (n0, n1, q, v0, v1): nonnull(st, p)
            a0, a1 = described(e, st, v0), described(e, st, v1)
            outs = calls(e, st, ctx.fn('w_traits'), [n0, n1, v0, v1, q, qn, where, nonnull(st, lazy('foo'))])
            T = Table(e)
            eq, ok = eqs(e, T, st, {'first': n0, 'second': n1, 'asked': q})

            def expect(v):
                if eq(v, 'first', 'second'): return 'error'
                if qn == 2: return frozenset(('first', 'second'))
                hit = [x for x in ('first', 'second') if eq(v, x, 'asked')]
                if qn == 0: return int(bool(hit))
                return hit[0] if hit else 'error'

            def result(o, env):
                if o.kind != 'return': return 'error' if o.kind == 'error' else o.kind
                seen = o.state.mon.get('seen', ())
                if qn == 2:
                    return frozenset('first' if x[1] == e.getstr(st, n0, None) else 'second' if x[1] == e.getstr(st, n1, None) else '?' for x in seen)
                if len(seen) != 1: return 'no result'
                if qn == 0: return value_under(e, seen[0][1], env)
                return 'first' if seen[0][1:] == a0 else 'second' if seen[0][1:] == a1 else 'another value'
            compare(ctx, e, 'traits', '%s::%s' % (wn, qname), T, outs, expect, result, ok, ignore=benign)
    for wn, kind in (('w_trait_kinds', 'no value'), ('w_trait_ref', 'reference')):
        e, _ = setup(ctx)
        st = State()
        foo = nonnull(st, lazy('foo'))
        outs = calls(e, st, ctx.fn(wn), [foo, nonnull(st, lazy('n'))])
        R = enumerators(ctx.P, 'reflect::RefType')

        def result(o, env):
            if o.kind != 'return': return o.kind
            seen = o.state.mon.get('seen', ())
            if len(seen) != 1: return 'no result'
            _, val, ty, ref, const = seen[0]
            if kind == 'no value': return models.show((('S', ('type', ty)),))
            return val == foo, ty == tok('Foo'), ref == R['LValue'], const
        want = models.show((('S', ('type', tok('void'))),)) if kind == 'no value' else (True, True, True, 0)
        compare(ctx, e, 'traits', 'Traits::addTrait (%s)' % kind, Table(e), outs, lambda v: want, result, ignore=benign)


CHILD = lambda i, j: int(i == j or i <= j <= 2)


@uses_witness('names.cpp')
def c19(ctx):
    """Derivation, pointers, converters, constructors."""
    rep = ctx.rep
    e, M = setup(ctx)
    st = State()
    bare = lambda o, env: value_under(e, o.value, env) if o.kind == 'return' else o.kind
    for i in range(4):
        for j in range(4):
            for f, want in (('w_child', CHILD(i, j)), ('w_parent', CHILD(j, i))):
                compare(ctx, e, 'derivation', 'Type::is%sOf' % ('Child' if f == 'w_child' else 'Parent'), Table(e),
                        calls(e, st, ctx.fn(f), [i, j]), lambda v: want, bare)
            for d in range(6):
                s2 = State()
                k0, k1 = nonnull(s2, lazy('k0')), nonnull(s2, lazy('k1'))
                outs = calls(e, s2, ctx.fn('w_child_ptr'), [i, j, k0, k1, d])
                T = Table(e)
                eq, ok = eqs(e, T, s2, {'kind1': k0, 'kind2': k1})

                def expect(v):
                    if d in (1, 2): return 0
                    if d == 4: return 1
                    return int(eq(v, 'kind1', 'kind2') and CHILD(i, j))
                compare(ctx, e, 'pointers', 'Type::isChildOf (pointers)', T, outs, expect, bare, ok, ignore=benign)
    # pointer information
    for q, (name, want) in enumerate((('isPointer', 0), ('pointer', 'error'), ('pointee', 'error'), ('isPointer', 1),
                                      ('pointer', 'kind1'), ('pointee', 1), ('setPointer', 'error'))):
        s2 = State()
        k0, k1 = nonnull(s2, lazy('k0')), nonnull(s2, lazy('k1'))
        outs = calls(e, s2, ctx.fn('w_pointer'), [k0, k1, lazy('to'), lazy('to1'), q])

        def result(o, env):
            if o.kind != 'return': return 'error' if o.kind == 'error' else o.kind
            seen = o.state.mon.get('seen', ())
            if len(seen) != 1: return 'accepted'
            if seen[0][0] == 'bool': return value_under(e, seen[0][1], env)
            return 'kind1' if seen[0][1] == e.getstr(s2, k0, None) else models.show(seen[0][1])
        compare(ctx, e, 'pointers', 'Type::' + name, Table(e), outs, lambda v: want, result, ignore=benign)
    # converters
    for l0 in range(3):
        for l1 in range(3):
            for q in (0, 1):
                s2 = State()
                n0, n1 = nonnull(s2, lazy('n0')), nonnull(s2, lazy('n1'))
                outs = calls(e, s2, ctx.fn('w_converter'), [n0, l0, n1, l1, lazy('code'), q])
                T = Table(e)
                conv = models.lit('operator D()')
                A, B = e.getstr(s2, n0, None), e.getstr(s2, n1, None)
                T.var('first', models.streq(e, A, conv)); T.var('second', models.streq(e, B, conv))
                same = models.streq(e, A, B)
                T.var('same', same)
                if l0 == l1: T.var('overlap', e.sym(('exactness',), 32), sorted(M.values()))
                ok = lambda v: v['first'] + v['second'] + v['same'] != 2

                def expect(v):
                    if l0 == l1 and v['same'] and v['overlap'] == M['Exact']: return 'error'
                    hit = [(l, n) for l, n, on in ((l0, 'first', v['first']), (l1, 'second', v['second'])) if on]
                    if q == 0: return int(bool(hit))
                    if not hit: return 'error'
                    near = min(hit)[0]
                    hit = [n for l, n in hit if l == near]
                    return hit[0] if len(hit) == 1 else 'error'

                def result(o, env):
                    if o.kind != 'return': return 'error' if o.kind == 'error' else o.kind
                    seen = o.state.mon.get('seen', ())
                    if len(seen) != 1: return 'no result'
                    if q == 0: return value_under(e, seen[0][1], env)
                    return models.show(seen[0][1])
                compare(ctx, e, 'converters', 'Type::%s' % ('converter' if q else 'hasConverter'), T, outs, expect, result, ok, ignore=benign)
    # copyability and movability follow from the constructors
    e = ctx.engine(); observers(e, ctx)
    e.add_hook(lambda q, p, d, n: q == 'w_here', lambda eng, st, c: st.mon.__setitem__('foo', c.args[0]))
    def typ(eng, st, c):
        if c.targs and models.cleantype(c.targs[0]) == 'Foo' and 'foo' in st.mon: return [(st, st.mon['foo'])]
        return models.m_type(eng, st, c)
    e.add_hook({'reflect::type', 'reflect::Registry::get'}, typ)
    e.add_hook('reflect::signature', sigstring)
    tokened = lambda c: any(models.ptrval(a) and a[1][0] == 'T' for a in c.args[:2])
    same = lambda eng, st, c: [(st, int(c.args[0] == c.args[1]))] if tokened(c) else 'inline'
    e.add_hook(lambda q, p, d, n: q in ('reflect::Type::isChildOf', 'reflect::Type::isParentOf'), same)
    e.add_hook('reflect::Type::hasConverter', lambda eng, st, c: [(st, 0)] if tokened(c) else 'inline')
    COPY, MOVE = {2, 4, 7}, {2, 3, 4, 7, 8}
    for which in range(9):
        for q in (0, 1):
            s2 = State()
            n = nonnull(s2, lazy('n'))
            outs = calls(e, s2, ctx.fn('w_ctor'), [which, q, n] + [lazy('code%d' % k) for k in range(6)])
            T = Table(e)
            if which: T.var('constructor', models.streq(e, e.getstr(s2, n, None), models.lit('Foo')))

            def result(o, env):
                if o.kind != 'return': return 'error' if o.kind == 'error' else o.kind
                seen = o.state.mon.get('seen', ())
                return value_under(e, seen[0][1], env) if len(seen) == 1 else 'no result'
            compare(ctx, e, 'copyability', 'Type::%s' % ('isMovable' if q else 'isCopiable'), T, outs,
                    lambda v: int(bool(which and v['constructor'] and which in (MOVE if q else COPY))), result, ignore=benign)
