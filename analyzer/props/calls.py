"""Argument conversion, call gate, overload selection."""
from core import *




def type_atoms(e, table=None):
    """Type predicates become atoms over the identities of the types."""
    def child(sub, sup): return 1 if sub == sup else ('t', 'atom', 1, 'child', sub, sup)
    def istype(d): return d is not None and 'Type const*' in d
    e.add_hook(lambda q, p, d, n: q == 'reflect::Type::hasConverter' and istype(p),
               lambda e, st, c: [(st, 0 if c.args[0] == c.args[1] else ('t', 'atom', 1, 'conv', c.args[0], c.args[1]))])
    e.add_hook(lambda q, p, d, n: q == 'reflect::Type::isParentOf' and istype(p),
               lambda e, st, c: [(st, child(c.args[1], c.args[0]))])
    e.add_hook(lambda q, p, d, n: q == 'reflect::Type::isChildOf' and istype(p),
               lambda e, st, c: [(st, child(c.args[0], c.args[1]))])


REF = {0: 'Copy', 1: 'LValue', 2: 'RValue'}
MATCHN = {0: 'None', 1: 'Partial', 2: 'Exact'}


def nonnulls(t, d):
    """Facts that every analysed object exists carry no information."""
    return isinstance(t, tuple) and t[0] == 't' and t[1] == 'atom' and t[3] == 'null' and d == frozenset((0,))


@uses_witness('calls.cpp')
def c02(ctx):
    """Argument::isConvertibleTo against the conversion table."""
    e = ctx.engine(); type_atoms(e)
    st = State()
    A, B = nonnull(st, lazy('A')), nonnull(st, lazy('B'))
    V = tok('reflect::Value')
    ar, br = symset(e, st, 'ar', 32, (0, 1, 2)), symset(e, st, 'br', 32, (0, 1, 2))
    ac, bc = symset(e, st, 'ac', 1, (0, 1)), symset(e, st, 'bc', 1, (0, 1))
    outs = calls(e, st, ctx.fn('w_conv'), [A, ar, ac, B, br, bc])
    T = Table(e)
    T.var('from.ref', ar, (0, 1, 2)); T.var('from.const', ac)
    T.var('to.ref', br, (0, 1, 2)); T.var('to.const', bc)
    eq = lambda a, b: e.peq(st, a, b)
    T.var('same', eq(A, B)); T.var('from.isValue', eq(A, V)); T.var('to.isValue', eq(B, V))
    T.var('converter', ('t', 'atom', 1, 'conv', A, B)); T.var('derived', ('t', 'atom', 1, 'child', A, B))
    T.var('converter.rev', ('t', 'atom', 1, 'conv', B, A)); T.var('derived.rev', ('t', 'atom', 1, 'child', B, A))

    def consistent(v):
        if v['same']:
            return (v['from.isValue'] == v['to.isValue'] and not v['converter'] and not v['converter.rev']
                    and v['derived'] and v['derived.rev'])
        if v['from.isValue'] and v['to.isValue']: return False
        return not (v['derived'] and v['derived.rev'])

    def expect(v):
        fr, to = v['from.ref'], v['to.ref']; fc, tc = v['from.const'], v['to.const']
        if v['same'] and fr == to and fc == tc: return 2
        if v['from.isValue'] != v['to.isValue']: return 2
        if v['converter']: return 1 if to != 1 else 0
        if not v['derived']: return 0
        if to != 0 and fc and not tc: return 0
        if to == 1 and not tc and fr != 1: return 0
        if to == 2 and fr != 2: return 0
        if to == 0 and fr == 2: return 2
        return 2 if (fr == to and fc == tc) else 1

    def result(o, env):
        if o.kind != 'return': return o.kind
        return value_under(e, o.value, env)
    compare(ctx, e, 'conversion-matrix', 'Argument::isConvertibleTo', T, outs, expect, result, consistent,
            ignore=nonnulls, describe=lambda x: MATCHN.get(x, x))

    # the vocabulary the matrix is built from
    for name, f in (('isVoid', None), ('isConstRef', lambda r, c: int(c and r == 1)),
                    ('isTemporary', lambda r, c: int(r != 1)), ('isLValueRef', lambda r, c: int(not c and r == 1))):
        outs = calls(e, st, ctx.fn('w_arg_' + name), [A, ar, ac])
        T = Table(e); T.var('ref', ar, (0, 1, 2)); T.var('const', ac)
        if name == 'isVoid':
            T.var('void', e.peq(st, A, tok('void'))); ex = lambda v: v['void']
        else: ex = lambda v, f=f: f(v['ref'], v['const'])
        compare(ctx, e, 'argument-predicates', 'Argument::' + name, T, outs, ex, result, ignore=nonnulls)
    outs = calls(e, st, ctx.fn('w_arg_eq'), [A, ar, ac, B, br, bc])
    T = Table(e)
    for n, t, d in (('r1', ar, 3), ('r2', br, 3), ('c1', ac, 2), ('c2', bc, 2), ('same', eq(A, B), 2)): T.var(n, t, range(d))
    compare(ctx, e, 'argument-predicates', 'Argument::operator==', T, outs,
            lambda v: int(v['r1'] == v['r2'] and v['c1'] == v['c2'] and v['same']), result, ignore=nonnulls)
    x, y = symset(e, st, 'x', 32, (0, 1, 2)), symset(e, st, 'y', 32, (0, 1, 2))
    outs = calls(e, st, ctx.fn('w_combine'), [x, y])
    T = Table(e); T.var('x', x, (0, 1, 2)); T.var('y', y, (0, 1, 2))
    compare(ctx, e, 'combine', 'combine', T, outs, lambda v: min(v['x'], v['y']), result, ignore=nonnulls)


def argkey(e, st, p):
    """What an Argument object says about itself, through its accessors."""
    t, r, c = (obs(e, st, 'arg_' + n, p) for n in ('type', 'ref', 'const'))
    return t, refnorm(e, r), c


def refnorm(e, r):
    """Reference kind as 0 (copy), 1 (lvalue), 2 (rvalue), whatever the enumeration's encoding."""
    if not isinstance(r, int): return r
    R = enumerators(e.P, 'reflect::RefType')
    return {R['Copy']: 0, R['LValue']: 1, R['RValue']: 2}.get(r, r)


def conv_symbols(e):
    """Argument conversion becomes a three-valued unknown per pair of arguments."""
    M = enumerators(e.P, 'reflect::Match')
    e.match = M
    def h(eng, st, c):
        a, b = argkey(e, st, c.args[0]), argkey(e, st, c.args[1])
        if None in a or None in b: raise Undecided('argument contents')
        return [(st, convsym(e, st, a, b))]
    e.add_hook(lambda q, p, d, n: q == 'reflect::Argument::isConvertibleTo' and p and 'Argument' in p, h)


def convsym(e, st, a, b):
    s = e.sym(('match', a, b), 32)
    if s not in st.dom: st.dom[s] = frozenset(e.match.values())
    return s


@uses_witness('calls.cpp')
def c03(ctx):
    """Function::test in all its forms against the matching rules."""
    P = ctx.P
    e = ctx.engine(); type_atoms(e); conv_symbols(e)
    M = e.match
    byname = {v: {'None': 0, 'Partial': 1, 'Exact': 2}[k] for k, v in M.items() if k in ('None', 'Partial', 'Exact')}
    void, VAL, FOO, BAR = tok('void'), tok('reflect::Value'), tok('Foo'), tok('Bar')
    CP, LV, RV = 0, 1, 2
    giv = [(tok('A0'), CP, 0), (tok('A1'), LV, 1), (tok('A2'), RV, 0), (tok('A3'), LV, 0)]
    tgt = [(FOO, CP, 0), (BAR, LV, 0), (FOO, LV, 1)]

    def result(o, env):
        if o.kind != 'return': return o.kind
        return value_under(e, o.value, env)
    # argument lists
    for ar in range(4):
        for n in range(5):
            st = State()
            args = [lazy('code'), void, 0, 0] + [g[0] for g in giv] + [n]
            outs = calls(e, st, ctx.fn('w_test_v%d' % ar), args)
            T = Table(e)
            for i in range(4):
                for j in range(3): T0 = T.var('m%d%d' % (i, j), convsym(e, st, giv[i], tgt[j]), sorted(M.values())) if i == j and i < min(n, ar) else None
            def expect(v):
                if n != ar: return 0
                return min([2] + [byname[v['m%d%d' % (i, i)]] for i in range(n)])
            compare(ctx, e, 'argument-lists', 'Function::test with %d parameters and %d arguments' % (ar, n), T, outs,
                    expect, result, ignore=nonnulls, describe=lambda x: MATCHN.get(x, x))
    # long lists: one argument (and the last one) undecided, every other one fits exactly
    many = [tok('L%d' % i) for i in range(18)]
    for ar in (5, 9, 17):
        for n in (ar - 1, ar, ar + 1):
            for k in range(ar if n == ar else 1):
                st = State()
                T = Table(e)
                for i in range(ar):
                    s = convsym(e, st, (many[i], CP, 0), (FOO, CP, 0))
                    if i not in (k, ar - 1): st.dom[s] = frozenset((M['Exact'],))
                    elif i < n: T.var('m%d' % i, s, sorted(M.values()))
                s = convsym(e, st, (void, CP, 0), (void, CP, 0)); st.dom[s] = frozenset((M['Exact'],))
                outs = calls(e, st, ctx.fn('w_test_long%d' % ar), [lazy('code')] + many + [n])
                compare(ctx, e, 'argument-lists', 'Function::test with %d parameters and %d arguments' % (ar, n), T, outs,
                        lambda v: min([2] + [byname[x] for x in v.values()]) if n == ar else 0,
                        result, ignore=nonnulls, describe=lambda x: MATCHN.get(x, x))
    # return types
    kinds = {'rVoid': (void, CP, 0), 'rValue': (VAL, CP, 0), 'rValueL': (VAL, LV, 0), 'rValueCL': (VAL, LV, 1),
             'rValueR': (VAL, RV, 0), 'rFoo': (FOO, CP, 0), 'rFooC': (FOO, CP, 1), 'rFooL': (FOO, LV, 0), 'rFooCL': (FOO, LV, 1), 'rFooR': (FOO, RV, 0)}
    for name, key in kinds.items():
        for rr, rc in itertools.product((0, 1, 2), (0, 1)):
            st = State()
            W = nonnull(st, lazy('W'))
            outs = calls(e, st, ctx.fn('w_test_' + name), [lazy('code'), W, rr, rc] + [g[0] for g in giv] + [0])
            T = Table(e)
            T.var('wanted void', e.peq(st, W, void)); T.var('wanted Value', e.peq(st, W, VAL))
            T.var('wanted Foo', e.peq(st, W, FOO))
            # the function's own result, converted to what is wanted
            T.var('conversion', convsym(e, st, key, (W, rr, rc)), sorted(M.values()))

            def consistent(v): return v['wanted void'] + v['wanted Value'] + v['wanted Foo'] <= 1

            def expect(v):
                if v['wanted void']: return 2
                if key[0] == void: return 2 if v['wanted Value'] and rr != 1 else 0
                if byname[v['conversion']] == 0: return 0
                return 0 if key[1] != LV and rr == 1 and rc else 2
            compare(ctx, e, 'return-matching', 'Function::test of a function returning %s' % name[1:], T, outs, expect,
                    result, consistent, ignore=nonnulls,
                    describe=lambda x: '%s [wanted %s%s]' % (MATCHN.get(x, x), 'const ' if rc else '', REF[rr]))
    # every form of the question compares the same pairs
    forms = {
        'w_test_same_vec': ([lazy('code')], [((FOO, LV, 1), (FOO, CP, 0)), ((BAR, CP, 0), (BAR, LV, 1))]),
        'w_test_same_fn': ([lazy('code'), lazy('code2')], [((FOO, LV, 1), (FOO, CP, 0)), ((BAR, CP, 0), (BAR, LV, 1))]),
        'w_test_same_tmpl': ([lazy('code')], [((FOO, LV, 1), (FOO, CP, 0)), ((BAR, CP, 0), (BAR, LV, 1))]),
        'w_test_same_params': ([lazy('code'), lazy('x'), lazy('y')], [((FOO, LV, 1), (FOO, CP, 0)), ((BAR, RV, 0), (BAR, LV, 1))]),
    }
    V = lambda ps: ([lazy('code'), lazy('x'), lazy('y')], ps)
    forms['w_test_same_values'] = V([((FOO, LV, 1), (FOO, CP, 0)), ((BAR, LV, 0), (BAR, LV, 1))])
    forms['w_test_same_rvalues'] = V([((FOO, LV, 0), (FOO, CP, 0)), ((BAR, LV, 1), (BAR, LV, 1))])
    names = {'w_test_same_values': 'Function::testParams of Values', 'w_test_same_rvalues': 'Function::testParams of moved Values',
             'w_test_same_vec': 'Function::test(Argument, arguments)', 'w_test_same_fn': 'Function::test(Function)',
             'w_test_same_tmpl': 'Function::test<Signature>', 'w_test_same_params': 'Function::testParams'}
    for w, (args, pairs) in forms.items():
        st = State()
        outs = calls(e, st, ctx.fn(w), args)
        T = Table(e)
        T.var('result', convsym(e, st, (FOO, CP, 0), (FOO, CP, 0)), sorted(M.values()))
        for k, (a, b) in enumerate(pairs): T.var('argument %d' % k, convsym(e, st, a, b), sorted(M.values()))


        def expect(v):
            if byname[v['result']] == 0: return 0
            return min(byname[v['argument %d' % k]] for k in range(len(pairs)))
        compare(ctx, e, 'signature-forms', names[w], T, outs, expect, result, ignore=nonnulls,
                describe=lambda x: MATCHN.get(x, x))


def fnname(e, st, p):
    r = obs(e, st, 'fn_name', p)
    if r is None: raise Undecided('function name')
    return models.show(e.getstr(st, r))


@uses_witness('calls.cpp')
def c01(ctx):
    """A reflected callable runs only after its arity and every argument was accepted, with
    the given arguments in the given order."""
    P = ctx.P; rep = ctx.rep
    e = ctx.engine(); type_atoms(e); conv_symbols(e)
    M = e.match
    CP, LV, RV = 0, 1, 2
    FOO, BAR, OBJ = tok('Foo'), tok('Bar'), tok('Obj')
    NONE = M['None']

    def invoked(eng, st, c):
        st.mon['invoked'] = st.mon.get('invoked', ()) + ((tuple(c.args), tuple(c.loc or (0, 0)), st.mon.get(('copy', 'x'), ())),)
        if c.retty == 'void': return [(st, None)]
        return [(st, eng.sym(('ret', len(st.mon['invoked'])), 64))]
    e.indirect = lambda eng, st, c: invoked(eng, st, c)
    e.add_hook({'Obj::mem', 'Obj::cmem', 'Obj::vmem', 'Fun::operator()'}, invoked)

    def construct(eng, st, c):
        # a copy made by the type's own constructor: a new value standing for the source
        src = c.args[-1]
        inner = obs(eng, st, 'value_value', src)
        dst = c.args[0]
        eng.cells(st, dst[1], True)
        st.back[dst[1]] = st.back.get(dst[1], ()) + ((dst[2], dst[2] + 64, ('copyof', inner), -dst[2]),)
        ty = obs(eng, st, 'value_type', dst)
        st.dom[('t', 'atom', 1, 'child', ty, c.args[1])] = frozenset((1,))
        nonnull(st, obs(eng, st, 'value_value', dst))
        st.mon[('copy', 'x')] = st.mon.get(('copy', 'x'), ()) + (inner,)
        return [(st, None)]
    e.add_hook('reflect::Type::construct', construct)
    for q in ('isCopiable', 'isMovable'):
        e.add_hook('reflect::Type::' + q, lambda eng, st, c: [(st, 1)])

    a, b, cc, d = (lazy(x) for x in ('a', 'b', 'c', 'd'))
    code = lazy('code')
    cases = [
        ('free function', 'w_call_global', [code, a, b, cc], [a, b, cc],
         [((FOO, LV, 0), (FOO, LV, 0))]),
        ('free function with mixed parameters', 'w_call_mixed', [code, a, b, cc, d], [a, b, None, None],
         [((FOO, LV, 0), (FOO, LV, 0)), ((BAR, LV, 1), (BAR, LV, 1)), ((FOO, LV, 0), (FOO, CP, 0)), ((BAR, RV, 0), (BAR, RV, 0))]),
        ('member function', 'w_call_member', [a, b, cc], [a, b, cc],
         [((OBJ, LV, 0), (OBJ, LV, 0)), ((FOO, LV, 0), (FOO, LV, 0)), ((BAR, LV, 0), (BAR, LV, 1))]),
        ('const member function', 'w_call_cmember', [a, b, cc], [a, b, cc],
         [((OBJ, LV, 0), (OBJ, LV, 1)), ((BAR, LV, 0), (BAR, LV, 0)), ((FOO, LV, 0), (FOO, LV, 1))]),
        ('functor', 'w_call_functor', [lazy('fun'), a, b, cc], [None, a, b, cc],
         [((FOO, LV, 0), (FOO, LV, 1)), ((BAR, LV, 0), (BAR, LV, 0)), ((FOO, LV, 0), (FOO, LV, 0))]),
        ('function without result', 'w_call_void', [code, b], [b], [((BAR, LV, 0), (BAR, LV, 0))]),
        ('too few arguments', 'w_call_few', [code, a, b], None, []),
        ('too many arguments', 'w_call_many', [code, a, b, cc, d], None, []),
    ]
    As = [lazy('a%d' % i) for i in range(5)]
    for r, rn in (('v', 'no result'), ('l', 'a result')):
        for np in range(6):
            for n in range(6):
                cases.append(('%d parameters and %s, %d arguments' % (np, rn, n), 'w_call_%s_%d_%d' % (r, np, n), [code] + As,
                              As[:n] if n == np else None, [((FOO, LV, 0), (FOO, LV, 0))] if n == np and n else []))
    cases = [c + (None,) for c in cases]
    ks = [lazy('k%d' % i) for i in range(12)]
    kp = [((tok('K%d' % i), LV, 0),) * 2 for i in range(12)]
    for i in range(12):
        cases.append(('12 parameters', 'w_call_12', [code] + ks, ks, kp, i))
    for what, w, args, want, pairs, free in cases:
        st = State()
        for p in args: nonnull(st, p)
        if free is not None:
            # one undecided conversion among twelve
            for i, p in enumerate(pairs):
                if i != free: st.dom[convsym(e, st, *p)] = frozenset((M['Exact'],))
        outs = calls(e, st, ctx.fn(w), args)
        ran = 0
        for o in outs:
            bad = o.state.mon.get('badcall')
            if bad:
                rep.obligation('arity', False)
                rep.violation('arity', what, '%s is entered with fewer arguments than it takes' % bad[0], ctx.loc(bad[1]), o.state.trail(P))
                continue
            if o.state.taint:
                rep.undecided('call-gate', '%s: %s' % (what, o.state.taint[0]), ctx.loc(o.state.taint[1])); continue
            inv = o.state.mon.get('invoked', ())
            if want is None:
                rep.obligation('arity', not inv and o.kind == 'error')
                if inv: rep.violation('arity', what, 'the callable is reached although the number of arguments differs',
                                      ctx.loc(inv[0][1]), o.state.trail(P))
                elif o.kind != 'error': rep.violation('arity', what, 'no error is reported (outcome: %s)' % o.kind, ctx.loc(o.loc), o.state.trail(P))
                continue
            # conversions known to hold on this path
            facts = {p: o.state.dom.get(('s', ('match',) + p), frozenset(M.values())) for p in pairs}
            if inv:
                ran += 1
                bad = [p for p, dm in facts.items() if NONE in dm]
                rep.obligation('gate', not bad)
                for p in bad:
                    rep.violation('gate', what, 'the callable is reached although the conversion of argument %s to %s may be refused' % (
                        show_arg(p[0]), show_arg(p[1])), ctx.loc(inv[0][1]), o.state.trail(P))
                rep.obligation('once', len(inv) == 1)
                if len(inv) != 1: rep.violation('once', what, 'one call runs the callable %d times' % len(inv), ctx.loc(inv[1][1]), o.state.trail(P))
                got = inv[0][0]
                ok = len(got) == len(want)
                for g, x in zip(got, want):
                    if x is not None and g != x: ok = False
                if what == 'free function with mixed parameters':
                    # by-value parameter: a copy of the third argument
                    if inv[0][2] != (cc,): ok = False
                rep.obligation('argument-order', ok)
                if not ok: rep.violation('argument-order', what, 'the callable receives %s for arguments %s' % (got, want), ctx.loc(inv[0][1]), o.state.trail(P))
            else:
                refused = any(dm == frozenset((NONE,)) for dm in facts.values())
                # an unconvertible argument, or a wanted result the function does not produce
                retm = any(t[0] == 's' and isinstance(t[1], tuple) and t[1][0] == 'match' and t[1][1:] not in facts
                           and dm == frozenset((NONE,)) for t, dm in o.state.dom.items())
                good = o.kind == 'error' and (refused or retm)
                rep.obligation('refusal', good)
                if not good:
                    rep.violation('refusal', what, 'outcome %s without running the callable although nothing was refused' % o.kind,
                                  ctx.loc(o.loc), o.state.trail(P))
        if want is not None:
            rep.obligation('reached', ran > 0)
            if not ran and not e.undecided: rep.violation('reached', what, 'no path runs the callable', '?')
        rep.count('outcomes', len(outs))


def show_arg(a):
    return '%s%s %s' % (a[0][1][1], ' const' if a[2] else '', REF.get(a[1], a[1]))


@uses_witness('calls.cpp')
def c04(ctx):
    """Overload selection."""
    P = ctx.P; rep = ctx.rep
    e = ctx.engine(); M = enumerators(P, 'reflect::Match')
    code = {v: {'None': 0, 'Partial': 1, 'Exact': 2}[k] for k, v in M.items() if k in ('None', 'Partial', 'Exact')}
    vals = sorted(M.values())

    def msym(st, key):
        s = e.sym(key, 32)
        if s not in st.dom: st.dom[s] = frozenset(vals)
        return s

    def test(eng, st, c):
        me = fnname(eng, st, c.args[0])
        other = None
        if c.params and c.params.strip().startswith('reflect::Function'): other = fnname(eng, st, c.args[1])
        if other is not None: return [(st, msym(st, ('pair', me, other)))]
        return [(st, msym(st, ('match', me)))]
    e.add_hook(lambda q, p, d, n: q in ('reflect::Function::test', 'reflect::Function::testParams'), test)

    def call(eng, st, c):
        k = [a for a in c.args]
        me = fnname(eng, st, k[1] if c.sret else k[0])
        st.mon['ran'] = st.mon.get('ran', ()) + (me,)
        return [(st, None)]
    e.add_hook('reflect::Function::call', call)
    e.add_hook('reflect::signature', models_sret_string)

    top = 4
    # longer lists: a few overloads undecided (the rest refuse), including the last ones
    longer = [(5, ()), (7, (0, 6)), (7, (4, 5)), (10, (1, 9)), (10, (8, 9)), (17, (16,)), (17, (3, 15))]
    for w, label in (('w_over_call', 'Overloads::call'), ('w_over_test', 'Overloads::test(arguments)'),
                     ('w_over_test_sig', 'Overloads::test<Signature>'), ('w_over_test_fn', 'Overloads::test(Function)'),
                     ('w_over_get', 'Overloads::get(arguments)'), ('w_over_get_sig', 'Overloads::get<Signature>'),
                     ('w_over_add', 'Overloads::add')):
        for n, free in [(n, range(n)) for n in range(top + 1)] + [(n, fr or range(n)) for n, fr in longer]:
            st = State()
            f = ctx.fn(w)
            for i in range(n):
                for j in range(i) if n > top else ():
                    st.dom[msym(st, ('pair', 'f%d' % i, 'f%d' % j))] = frozenset((M['None'],))
                if i not in free:
                    for k in (('pair', 'other', 'f%d' % i), ('pair', 'new', 'f%d' % i), ('match', 'f%d' % i)):
                        st.dom[msym(st, k)] = frozenset((M['None'],))
            outs = calls(e, st, f, [lazy('code'), n] + ([nonnull(st, lazy('b'))] if len(f.args) > 2 else []))
            T = Table(e)
            for i in range(n):
                for j in range(i) if n <= top else ():
                    T.var('f%d~f%d' % (i, j), msym(st, ('pair', 'f%d' % i, 'f%d' % j)), (min(k for k, v in code.items() if v == 0),))
            vs = []
            for i in range(n):
                key = {'w_over_test_fn': ('pair', 'other', 'f%d' % i), 'w_over_add': ('pair', 'new', 'f%d' % i)}.get(w, ('match', 'f%d' % i))
                T.var('f%d' % i, msym(st, key), vals if i in free else (M['None'],))

            def expect(v):
                m = [code[v['f%d' % i]] for i in range(n)]
                if w == 'w_over_call':
                    ex = [i for i in range(n) if m[i] == 2]; pa = [i for i in range(n) if m[i] == 1]
                    if ex: return 'runs f%d' % ex[0]
                    return 'runs f%d' % pa[0] if len(pa) == 1 else 'error'
                if 'test' in w: return int(any(m))
                if 'get' in w: return next((i for i in range(n) if m[i]), 'error')
                return 'error' if 2 in m else 1

            def result(o, env):
                if o.kind != 'return': return o.kind
                if w == 'w_over_call': return ' then '.join('runs ' + x for x in o.state.mon.get('ran', ())) or 'nothing'
                return value_under(e, o.value, env)
            compare(ctx, e, 'selection', label + ' with %d overloads' % n, T, outs, expect, result, ignore=nonnulls,
                    describe=str)


def models_sret_string(e, st, c):
    """A function returning a std::string nobody looks at closely."""
    e.setstr(st, c.args[0], (('S', ('text', c.qn)),), c.loc)
    return [(st, None)]
