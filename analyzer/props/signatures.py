"""What the library says about C++ types and signatures."""
from core import *
import streams

V, C, L, R = 'reflect::Value', 0, 1, 2
# bare type, reference kind, const, as C++ declares them
FORMS = [
    ('Foo', C, 0), ('Foo', C, 1), ('Foo', L, 0), ('Foo', L, 1), ('Foo', R, 0), ('Foo', R, 1),
    ('Foo*', C, 0), ('Foo*', C, 0), ('Foo*', C, 1), ('Foo*', L, 0), ('Foo*', L, 1), ('Foo*', R, 0), ('Foo*', L, 0),
    ('Foo**', C, 0), ('void', C, 0), ('int', C, 0), ('int', L, 1), (V, C, 0), (V, L, 1), (V, L, 0), (V, R, 0),
    ('std::vector<Foo>', C, 0), ('std::vector<Foo*>', L, 1), ('std::shared_ptr<Foo>', C, 0), ('Box<Bar>', L, 0), ('bool', C, 0), ('double', R, 0),
    ('Foo*', C, 1), ('Bar', C, 0), ('deep::Nest', L, 0)]
IDS = [f[0] for f in FORMS] + ['std::vector<std::vector<Foo>>', 'std::map<Foo,std::vector<Bar>>', 'std::unordered_map<int,Foo>', 'std::shared_ptr<Foo>',
                               'std::unique_ptr<Box<Bar*>>', 'Box<Box<int>>', 'Foo***', 'std::vector<std::map<int,std::shared_ptr<Foo>>>']
F = lambda t, r=C, c=0: (t, r, c)
VALUES = {
    'lvalue': [F('Foo', L)], 'const': [F('Foo', L, 1)], 'moved': [F('Foo', R)], 'constmoved': [F('Foo', R, 1)], 'temporary': [F('Foo', R)],
    'pointer': [F('Foo*', L)], 'constpointer': [F('Foo*', L, 1)], 'pointertoconst': [F('Foo*', R)],
    'list': [5, F('Foo', L), F('Bar', L, 1), F('Foo', R), F('Foo*', L), F('int', R)],
    'values': [7, F('Foo', L), F('Bar', L, 1), F('Foo', L), F('Bar', L, 1), F('Foo', L), F('Foo', R), F('void')]}
FNS = {
    'free0': [F('void'), 0], 'free1': [F('Foo'), 1, F('Bar')], 'free2': [F('Foo', L, 1), 2, F('Bar', L), F('Bar', L, 1)],
    'free3': [F('Foo*'), 3, F('Bar', R), F('int*'), F('double')], 'free4': [F('Foo*'), 4, F('Foo'), F('Bar'), F('Foo', L), F('Bar', L)],
    'member': [F('void'), 2, F('Obj', L), F('Foo')], 'constMember': [F('Bar'), 3, F('Obj', L, 1), F('Foo', L, 1), F('Foo', L)],
    'noArgs': [F('Foo', L), 1, F('Obj', L)], 'constNoArgs': [F('Foo', L, 1), 1, F('Obj', L, 1)], 'static': [F('int'), 2, F('Foo*'), F('Bar*')],
    'five': [F('Foo', R), 6, F('Obj', L), F('int'), F('int', L), F('int', R), F('int', L, 1), F('int*')],
    'functor': [F('void'), 1, F('int')], 'constFunctor': [F('Bar'), 2, F('Foo', R), F('Bar', L)],
    'lambda': [F('int'), 2, F('Foo', L), F('Bar*')], 'mutableLambda': [F('Bar', L, 1), 1, F('Foo', R)],
    'generic': [F(V), 5, F('Obj', L), F(V), F(V, L, 1), F(V, L), F(V, R)]}
SIGS = [[F('void'), 0], [F('Foo', L), 1, F('Bar', L, 1)], [F('Foo', L, 1), 3, F('Bar', R), F('Foo*'), F('int')], [F(V), 2, F(V), F(V, L, 1)], [F('int'), 2, F('Foo'), F('Bar', L)]]
PRINTS = ['void()', 'Foo&(Bar const&)', 'Foo const&(Bar&&, Foo*, int)', 'Bar&(Foo, Foo const&)', 'void()', 'void(Bar*)']


def printed(f): return f[0] + (' const' if f[2] else '') + ('', '&', '&&')[f[1]]


@uses_witness('signatures.cpp')
def c09(ctx):
    rep = ctx.rep
    rep.obligation('accepted')
    e = ctx.engine(text=False); streams.install(e)
    e.add_hook({'reflect::Registry::get', 'reflect::type'}, lambda eng, st, c: get(eng, st, c))
    e.add_hook('reflect::Registry::add', lambda eng, st, c: [(st, None)])

    def get(eng, st, c):
        if 'basic_string' not in (c.params or ''): return 'inline'
        s = eng.getstr(st, c.args[0], c.loc)
        if not all(isinstance(x, int) for x in s): raise Undecided('name of a type')
        return [(st, tok(bytes(s).decode()))]

    def ident(eng, st, c):
        t = c.args[0]
        if not (isinstance(t, tuple) and t[1][0] == 'T'): raise Undecided('name of a type')
        p = ('p', ('T', 'id ' + t[1][1]), 0)
        eng.setstr(st, p, models.lit(t[1][1])); return [(st, p)]
    e.add_hook('reflect::Type::id', ident)
    def saw(eng, st, c):
        if c.qn == 'ws_text':
            z = eng.getstr(st, c.args[0], c.loc)
            x = bytes(z).decode() if all(isinstance(y, int) for y in z) else None
        elif c.qn == 'ws_arg': x = (c.args[0][1][1] if isinstance(c.args[0], tuple) and c.args[0][1][0] == 'T' else None,) + tuple(c.args[1:])
        else: x = c.args[0]
        st.mon['seen'] = st.mon.get('seen', ()) + (x,)
        return [(st, None)]
    e.add_hook(lambda q, p, d, n: q.startswith('ws_'), saw)

    def run(w, args, want, rule, what, out=False, st=None):
        st = st or State()
        o = None
        if out: o = streams.output_stream(e, st); args = [o] + args
        outs = calls(e, st, ctx.fn(w), args)
        rep.count('abstract outcomes', len(outs))
        for x in outs:
            if x.state.taint: rep.undecided(rule, 'unmodelled: %s' % (x.state.taint[0],), ctx.loc(x.state.taint[1])); continue
            if x.kind == 'return':
                got = list(x.state.mon.get('seen', ()))
                if out: got = [bytes(streams.text(e, x.state, o)).decode()]
            else: got = [x.kind]
            flat = [z for y in got for z in (y if isinstance(y, tuple) else (y,))]
            if any(not isinstance(z, (int, str)) for z in flat): rep.undecided(rule, 'result not determined'); continue
            ok = got == want
            rep.obligation(rule, ok)
            if not ok: rep.violation(rule, what, 'described as %s, required %s' % (show(got), show(want)), ctx.loc(x.loc), x.state.trail(ctx.P))

    for k, f in enumerate(FORMS):
        name = printed(f)
        run('w_make_%d' % k, [], [f], 'types', 'Argument::make (%s)' % name)
        run('w_show_%d' % k, [], [name], 'printing', 'printArgument (%s)' % name)
    for k, i in enumerate(IDS): run('w_id_%d' % k, [], [i], 'identifiers', 'typeId (%d: %s)' % (k, i))
    for n, want in VALUES.items():
        run('w_value_' + n, [lazy('a%d' % k) for k in range(len(ctx.fn('w_value_' + n).args))], want, 'values', 'Argument::make / reflectArguments (%s)' % n)
    for n, want in FNS.items():
        run('w_fn_' + n, [lazy('a%d' % k) if a[0] == 'ptr' else 7 for k, a in enumerate(ctx.fn('w_fn_' + n).args)], want, 'callables', 'Function (%s)' % n)
    for k, want in enumerate(SIGS): run('w_sig_%d' % k, [], want, 'signatures', 'reflectReturn / reflectArguments (%d)' % k)
    for k, want in enumerate(PRINTS):
        run('w_print_%d' % k, [lazy('code')] * len(ctx.fn('w_print_%d' % k).args), [want], 'printing', 'signature (%d)' % k)
    for k, n in enumerate(('None', 'Partial', 'Exact')): run('w_match', [k], [n], 'printing', 'Match ' + n, True)
    for k, n in enumerate(('Copy', 'LValue', 'RValue')): run('w_ref', [k], [n], 'printing', 'RefType ' + n, True)


c09.compiles = 'every form of type and callable'


def show(x): return ' '.join(printed(y) if isinstance(y, tuple) else str(y) for y in x)
