"""The type registry: lookup, lazy loading, aliases."""
from core import *
from props.names import eqs, benign, nonempty


def setup(ctx):
    e = ctx.engine()
    def put(st, x): st.mon['seen'] = st.mon.get('seen', ()) + (x,)
    def h(eng, st, c):
        k = c.qn
        if k == 'wo_load':
            i = obs(eng, st, 'type_id', c.args[1])
            put(st, ('load', c.args[0], c.args[1], eng.getstr(st, i, c.loc) if i is not None else None))
        elif k == 'wo_type': put(st, ('type', c.args[0]))
        elif k == 'wo_done': put(st, ('done', c.args[0]))
        elif k == 'wo_bool': put(st, ('bool', c.args[0]))
        elif k == 'wo_string': put(st, ('string', eng.getstr(st, c.args[0], c.loc)))
        return [(st, None)]
    e.add_hook(lambda q, p, d, n: q.startswith('wo_'), h)
    e.add_hook(lambda q, p, d, n: q == 'reflect::Registry::get', lambda eng, st, c: 'inline')
    e.add_hook(lambda q, p, d, n: q == 'reflect::type', lambda eng, st, c: 'inline')
    def told(eng, st, c):
        put(st, ('scope', eng.getstr(st, c.args[1], c.loc)))
        return [(st, None)]
    e.add_hook(lambda q, p, d, n: q == 'reflect::Scope::addType', told)
    return e


def strs(e, st, *names):
    r = []
    for n in names: r.append(nonempty(st, e, nonnull(st, lazy(n))))
    return r


def whole(T, st, e, names, always=()):
    eq, ok = eqs(e, T, st, names)
    return eq, ok


@uses_witness('registry.cpp')
def c13(ctx):
    e = setup(ctx)
    lookup(ctx, e)
    once(ctx, e)
    aliases(ctx, e)
    empties(ctx, e)


def lookup(ctx, e):
    for aliased in (0, 1, 2, 3):
        for gets in (0, 1, 2):
            if aliased == 3 and gets < 2: continue
            st = State()
            id0, id1, to, frm, q0, q1 = strs(e, st, 'id0', 'id1', 'to', 'from', 'q0', 'q1')
            outs = calls(e, st, ctx.fn('w_registry'), [id0, id1, to, frm, aliased, q0, q1, gets])
            T = Table(e)
            names = {'id0': id0, 'id1': id1}
            if gets: names['q0'] = q0
            if gets > 1: names['q1'] = q1
            if aliased: names.update({'to': to, 'from': frm})
            eq, ok = eqs(e, T, st, names)
            text = {n: e.getstr(st, p, None) for n, p in names.items()}

            def expect(v):
                seen = [('scope', 'id0'), ('done', 0), ('scope', 'id0' if eq(v, 'id0', 'id1') else 'id1'), ('done', 1), ('done', 2)]
                loaded = {}
                for q in ('q0', 'q1')[:gets]:
                    n = q
                    if aliased and eq(v, q, 'from') and (aliased < 3 or q == 'q1'): n = 'to'
                    hit = [x for x in ('id0', 'id1') if eq(v, x, n)]
                    if not hit: return tuple(seen) + ('error',)
                    k = hit[0]
                    if k not in loaded:
                        loaded[k] = len(loaded)
                        seen.append(('load', int(k[2]), loaded[k], k))
                    seen.append(('type', loaded[k]))
                return tuple(seen)

            def result(o, env):
                if o.kind not in ('return', 'error'): return o.kind
                return canon(e, o.state, env, text, ('id0', 'id1')) + (('error',) if o.kind == 'error' else ())
            compare(ctx, e, 'lookup', 'Registry::get (%s, %d lookups)' % (('no alias', 'alias first', 'alias last', 'alias between')[aliased], gets),
                    T, outs, expect, result, ok, ignore=benign, describe=show)


def show(r): return ' '.join(map(str, r)) if isinstance(r, tuple) else str(r)


def canon(e, st, env, text, ids):
    """Events with types numbered by first appearance and strings named by the identifiers they equal."""
    types = {}
    def ty(p): return types.setdefault(p, len(types))
    def name(parts):
        if parts is None: return None
        for n in ids:
            t = models.streq(e, parts, text[n])
            if value_under(e, t, env) == 1: return n
        return models.show(parts)
    r = []
    for x in st.mon.get('seen', ()):
        if x[0] == 'load': r.append(('load', x[1], ty(x[2]), name(x[3])))
        elif x[0] == 'type': r.append(('type', ty(x[1])))
        elif x[0] in ('scope', 'string'): r.append((x[0], name(x[1])))
        else: r.append(x)
    return tuple(r)


def once(ctx, e):
    st = State()
    i, o = strs(e, st, 'id', 'other')
    outs = calls(e, st, ctx.fn('w_reenter'), [i, o])
    T = Table(e)
    eq, ok = eqs(e, T, st, {'id': i, 'other': o})
    text = {'id': e.getstr(st, i, None), 'other': e.getstr(st, o, None)}

    def expect(v):
        if eq(v, 'id', 'other'):
            return (('scope', 'id'), ('scope', 'id'), ('load', 0, 0, 'id'), ('type', 0), ('type', 0), ('type', 0), ('type', 0))
        return (('scope', 'id'), ('scope', 'other'), ('load', 0, 0, 'id'), ('type', 0), ('load', 1, 1, 'other'), ('type', 0),
                ('type', 1), ('type', 0), ('type', 1))

    def result(x, env):
        if x.kind != 'return': return x.kind
        return canon(e, x.state, env, text, ('id', 'other'))
    compare(ctx, e, 'loading', 'Registry::get (from a loader)', T, outs, expect, result, ok, ignore=benign, describe=show)
    st = State()
    i, q = strs(e, st, 'id', 'q')
    outs = calls(e, st, ctx.fn('w_late'), [i, q])
    text = {'id': e.getstr(st, i, None)}
    compare(ctx, e, 'loading', 'Registry::add (after loading)', Table(e), outs,
            lambda v: (('scope', 'id'), ('load', 0, 0, 'id'), ('type', 0), ('scope', 'id'), ('type', 0)),
            lambda x, env: canon(e, x.state, env, text, ('id',)) if x.kind == 'return' else x.kind, ignore=benign, describe=show)


def aliases(ctx, e):
    st = State()
    to0, f0, to1, f1 = strs(e, st, 'to0', 'from0', 'to1', 'from1')
    outs = calls(e, st, ctx.fn('w_alias'), [to0, f0, to1, f1])
    T = Table(e)
    eq, ok = eqs(e, T, st, {'from0': f0, 'from1': f1, 'to0': to0, 'to1': to1})
    compare(ctx, e, 'aliases', 'Registry::alias', T, outs, lambda v: 'error' if eq(v, 'from0', 'from1') else 'return',
            lambda x, env: x.kind, ok, ignore=benign)


    st = State()
    to0, f0, to1, f1 = strs(e, st, 'to0', 'from0', 'to1', 'from1')
    outs = calls(e, st, ctx.fn('w_alias_used'), [to0, f0, to1, f1])
    T = Table(e)
    eq, ok = eqs(e, T, st, {'from0': f0, 'from1': f1, 'to0': to0, 'to1': to1})
    compare(ctx, e, 'aliases', 'Registry::alias (of a loaded type)', T, outs,
            lambda v: 'error' if eq(v, 'from0', 'from1') or eq(v, 'to0', 'from0') else 'return', lambda x, env: x.kind,
            lambda v: ok(v) and not eq(v, 'to0', 'from0'), ignore=benign)
    st = State()
    i, to0, f0, to1, f1, q = strs(e, st, 'id', 'to0', 'from0', 'to1', 'from1', 'q')
    outs = calls(e, st, ctx.fn('w_chain'), [i, to0, f0, to1, f1, q])
    T = Table(e)
    names = {'id': i, 'to0': to0, 'from0': f0, 'to1': to1, 'from1': f1, 'q': q}
    eq, ok = eqs(e, T, st, names)
    text = {n: e.getstr(st, p, None) for n, p in names.items()}

    def expect(v):
        if eq(v, 'from0', 'from1'): return ('error',)
        n = 'to0' if eq(v, 'q', 'from0') else 'to1' if eq(v, 'q', 'from1') else 'q'
        r = (('done', 0), ('scope', 'id'))
        return r + ((('load', 0, 0, 'id'), ('type', 0)) if eq(v, n, 'id') else ('error',))

    def result(x, env):
        if x.kind not in ('return', 'error'): return x.kind
        return canon(e, x.state, env, text, ('id',)) + (('error',) if x.kind == 'error' else ())
    compare(ctx, e, 'aliases', 'Registry::get (two aliases)', T, outs, expect, result, ok, ignore=benign, describe=show)


def empties(ctx, e):
    for what, name in enumerate(('add', 'add (no loader)', 'alias', 'get')):
        st = State()
        i, a = nonnull(st, lazy('id')), nonnull(st, lazy('alias'))
        outs = calls(e, st, ctx.fn('w_empty'), [i, a, what])
        T = Table(e)
        T.var('id empty', models.strempty(e, e.getstr(st, i, None)))
        T.var('alias empty', models.strempty(e, e.getstr(st, a, None)))

        def expect(v):
            if what == 0: return 'error' if v['id empty'] else 'return'
            if what == 2: return 'error' if v['id empty'] or v['alias empty'] else 'return'
            return 'error'
        compare(ctx, e, 'refusals', 'Registry::' + name, T, outs, expect, lambda x, env: x.kind, ignore=benign)
