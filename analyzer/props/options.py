"""Options of JSON members."""
from core import *
from props.names import benign
import itertools


@uses_witness('options.cpp')
def c28(ctx):
    rep = ctx.rep
    e = ctx.engine()

    def saw(eng, st, c):
        x = tuple(c.args[:2]) + tuple(eng.getstr(st, p, c.loc) for p in c.args[2:])
        st.mon['seen'] = st.mon.get('seen', ()) + (x,); return [(st, None)]
    e.add_hook('wt_options', saw)
    NAMES = ('skip', 'skipEmpty', 'alias', 'parser', 'printer')

    def strs(st, *ns):
        r = []
        for n in ns:
            p = ('p', e.new_region(st, n), 0); e.setstr(st, p, models.lit(n) if n else ()); r.append(p)
        return r

    def run(w, args, want, what, st=None):
        outs = calls(e, st or State(), ctx.fn(w), args)
        rep.count('abstract outcomes', len(outs))
        for o in outs:
            if o.state.taint: rep.undecided(what, 'unmodelled: %s' % (o.state.taint[0],), ctx.loc(o.state.taint[1])); continue
            if o.kind != 'return':
                rep.obligation(what, False); rep.violation(what, w[2:], 'the program ends with %s' % o.kind, ctx.loc(o.loc)); continue
            seen = o.state.mon.get('seen', ())
            if len(seen) != len(want): rep.undecided(what, 'result not determined'); continue
            for k, (got, wa) in enumerate(zip(seen, want)):
                for n, g, x in zip(NAMES, got, wa):
                    if isinstance(x, str): x = models.lit(x)
                    else: g = value_under(e, g, {}) if g is not UNDEF else UNDEF
                    ok = g == x
                    undef = g is None or g is UNDEF
                    rep.obligation(what, ok)
                    if not ok: rep.violation(what, '%s.%s%s' % (w[2:], n, '' if k == 0 else ' (operand %d)' % k), 'is %s, required %s' % (
                        'left uninitialised' if undef else models.show(g) if isinstance(g, tuple) else g, models.show(x) if isinstance(x, tuple) else x), ctx.loc(o.loc))
    run('w_fresh', [], [(0, 0, '', '', '')], 'fresh')
    run('w_skip', [], [(1, 0, '', '', '')], 'made')
    run('w_skipEmpty', [], [(0, 1, '', '', '')], 'made')
    st = State(); run('w_alias', strs(st, 'name'), [(0, 0, 'name', '', '')], 'made', st)
    st = State(); run('w_custom', strs(st, 'in', 'out'), [(0, 0, '', 'in', 'out')], 'made', st)
    for s0, e0, s1, e1 in itertools.product((0, 1), repeat=4):
        for mask in range(64):
            n = [x if mask >> k & 1 else '' for k, x in enumerate(('a0', 'p0', 'q0', 'a1', 'p1', 'q1'))]
            if (s0, e0, s1, e1) not in ((0, 0, 0, 0), (1, 1, 1, 1), (1, 0, 0, 1)) and mask not in (0, 63): continue
            st = State()
            a = strs(st, *n)
            l, r = (s0, e0) + tuple(n[:3]), (s1, e1) + tuple(n[3:])
            both = (s0 | s1, e0 | e1) + tuple(x or y for x, y in zip(n[:3], n[3:]))
            run('w_or', [s0, e0] + a[:3] + [s1, e1] + a[3:], [both, l, r], 'combined', st)
