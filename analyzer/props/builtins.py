"""Types which the library reflects itself: a program which has just started, with the real registry."""
from core import *
from props.dsl import says, known


class Real:
    """A started program: the static initialisers of every unit have run; unknown are the values it works on."""
    def __init__(self, ctx, json=False):
        self.ctx = ctx; self.rep = ctx.rep
        e = self.e = ctx.engine()
        e.start = True; e.widen = 400; e.lazykey = 40; e.max_depth = 1000
        for n in ('reflect::Registry::get', 'reflect::type'): e.add_hook(lambda q, p, d, m, n=n: q == n, lambda eng, st, c: 'inline')
        e.add_hook(lambda q, p, d, n: q.startswith('wd_'), self.saw)
        e.add_hook(lambda q, p, d, n: q.startswith('Item::'), self.item)
        e.add_hook(lambda q, p, d, n: q.startswith('std::ios_base::Init'), models.m_nop)
        st = State(); n = 0
        for f in ctx.P.raw:
            if not f.startswith('_GLOBAL__sub_I') or 'json' in f and not json: continue
            outs = calls(e, st, ctx.P.fn(f), [])
            o = outs[0]; n += 1
            if o.state.taint: raise Broken('%s: %s' % (f, o.state.taint))
            if o.kind != 'return':
                self.rep.obligation('started', False)
                self.rep.violation('started', 'a program which uses the library', 'ends with %s%s before main' % (o.kind, says(o)), ctx.loc(o.loc)); self.st = None; return
            st = o.state
        self.rep.obligation('started', True); self.rep.count('static initialisers', n)
        self.st = st

    def load(self, w, args=()):
        """The state of a program which has used these types already."""
        outs = [o for o in self.run(w, args)]
        if not outs: raise Broken('%s: %s' % (w, self.e.undecided[-1:]))
        o = outs[0]
        if len(outs) != 1 or o.state.taint: raise Broken('%s: %s' % (w, o.state.taint or 'more than one outcome'))
        self.rep.obligation('started', o.kind == 'return')
        if o.kind != 'return':
            self.rep.violation('started', 'loading of the types', 'ends with %s%s' % (o.kind, says(o)), self.ctx.loc(o.loc)); self.st = None; return
        self.st = o.state

    def saw(self, e, st, c):
        v = c.args[0]
        if c.qn == 'wd_text': v = ('text', e.getstr(st, v, c.loc))
        st.mon['seen'] = st.mon.get('seen', ()) + (v,); return [(st, None)]

    def item(self, e, st, c):
        """The program's own class: what happens to its objects is recorded."""
        k = c.qn.split('::')[1]
        what = 'destroyed' if k[0] == '~' else 'assigned' if k == 'operator=' else 'moved' if (c.params or '').endswith('&&') else 'copied' if c.params else 'made'
        st.mon['seen'] = st.mon.get('seen', ()) + ((what,) + tuple(c.args),)
        return [(st, c.args[0] if c.retty == 'ptr' else None)]

    def run(self, w, args=(), st=None):
        st = (st or self.st).copy(); st.mon = dict(st.mon); st.mon.pop('seen', None)
        outs = calls(self.e, st, self.ctx.fn(w), list(args))
        self.rep.count('abstract outcomes', len(outs))
        return outs

    def need(self, rule, construct, w, args, want, st=None, vary=None, ignore=()):
        """want: expected observations ('error' for a reported error); with vary = (symbol, representatives) a
        function of the symbol's value.  None entries are free."""
        rep = self.rep; e = self.e
        for o in self.run(w, args, st):
            if o.state.taint: rep.undecided(rule, '%s: unmodelled: %s' % (construct, o.state.taint[0]), self.ctx.loc(o.state.taint[1])); continue
            seen = o.state.mon.get('seen', ())
            if ignore: seen = tuple(x for x in seen if not (isinstance(x, tuple) and x[0] in ignore))
            for val in ([None] if vary is None else [v for v in vary[1] if allows(e, o.state, vary[0], v)]):
                env = {} if vary is None else {vary[0]: val}
                exp = want if vary is None else want(val)
                at = '' if vary is None else ' (%s = %d)' % (vary[2], val)
                if exp == 'error' or o.kind != 'return':
                    ok = (o.kind == 'error') == (exp == 'error') and o.kind in ('error', 'return')
                    rep.obligation(rule, ok)
                    if not ok: rep.violation(rule, construct, ('ends with %s%s' % (o.kind, says(o)) if o.kind != 'return' else 'reports no error') + at, self.ctx.loc(o.loc))
                    continue
                got = [ground(e, x, env) for x in seen]
                if callable(exp): ok = exp(got)
                else:
                    if any(g is None and x is not None for g, x in zip(got, exp)) and len(got) == len(exp):
                        rep.undecided(rule, '%s: result not determined' % construct); continue
                    ok = len(got) == len(exp) and all(x is None or same(g, x) for g, x in zip(got, exp))
                rep.obligation(rule, bool(ok))
                if not ok: rep.violation(rule, construct, 'yields %s%s%s' % (list_(got), '' if callable(exp) else '; required %s' % list_(exp), at), self.ctx.loc(o.loc))


def allows(e, st, s, v):
    """Whether what is known on a path leaves an input its value v."""
    for t, d in st.dom.items():
        if t != s and tuple(e.support(t) or ()) != (s,): continue
        x = v if t == s else value_under(e, t, {s: v})
        if x is None: continue
        lo, hi = e.bounds(d)
        if x not in d if isinstance(d, frozenset) else not lo <= x <= hi: return False
    return True


def ground(e, x, env):
    """An observed value with the varied symbol put in; other unknowns stay."""
    if isinstance(x, int): return x
    if isinstance(x, tuple) and x[:1] == ('u',): return None
    if isinstance(x, tuple) and x and x[0] in ('s', 't'):
        v = value_under(e, x, env)
        return x if v is None else v
    if isinstance(x, tuple) and x and x[0] == 'p' and not isinstance(x[2], int):
        v = value_under(e, x[2], env)
        return None if v is None else ('p', x[1], v)
    if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ('made', 'copied', 'moved', 'assigned', 'destroyed'): return (x[0],) + tuple(ground(e, y, env) for y in x[1:])
    return x


def same(a, b):
    if a == b: return True
    if isinstance(b, tuple) and b and b[0] == 'text': return isinstance(a, tuple) and a[:1] == ('text',) and a[1] == models.lit(b[1])
    return low(a) == low(b)


def low(v):
    """A value without the widening to the observation's type."""
    while isinstance(v, tuple) and v and v[0] == 't' and v[1] in ('sext', 'zext'): v = v[3]
    return v


def list_(xs):
    def one(x):
        if x is None: return '_'
        if isinstance(x, tuple) and x and x[0] == 'text': return '"%s"' % (x[1] if isinstance(x[1], str) else models.show(x[1]))
        if isinstance(x, tuple) and x and x[0] == 'p': return '&%s+%s' % (x[1][1] if isinstance(x[1], tuple) else x[1], x[2])
        if isinstance(x, tuple) and x and x[0] in ('made', 'copied', 'moved', 'assigned', 'destroyed'): return x[0] + ' ' + ' '.join(map(one, x[1:]))
        return str(x)
    return ' '.join(map(one, xs)) or 'nothing'


def T(s): return ('text', s)


KINDS = ('primitive', 'bool', 'integer', 'signed', 'unsigned', 'float', 'void', 'string', 'list', 'map', 'smartPtr', 'pointer')
def kinds(*ks): return [int(k in ks) for k in KINDS]


# name of the entry points, the type, its size on this target and what it is
PRIMS = (('bool', 'bool', 1, ('bool',)), ('char', 'char', 1, ('integer', 'signed')), ('schar', 'signed char', 1, ('integer', 'signed')), ('uchar', 'unsigned char', 1, ('integer', 'unsigned')),
         ('short', 'short int', 2, ('integer', 'signed')), ('ushort', 'unsigned short int', 2, ('integer', 'unsigned')), ('int', 'int', 4, ('integer', 'signed')), ('uint', 'unsigned int', 4, ('integer', 'unsigned')),
         ('long', 'long int', 8, ('integer', 'signed')), ('ulong', 'unsigned long int', 8, ('integer', 'unsigned')), ('llong', 'long long int', 8, ('integer', 'signed')),
         ('ullong', 'unsigned long long int', 8, ('integer', 'unsigned')), ('float', 'float', 4, ('float',)), ('double', 'double', 8, ('float',)), ('ldouble', 'long double', 16, ('float',)))


@uses_witness('builtins.cpp')
def c29(ctx):
    R = Real(ctx); e = R.e
    if R.st is not None: R.load('w_use_prims')
    if R.st is None: return
    for n, t, size, ks in PRIMS:
        R.need('kind', t, 'w_kind_' + n, [], kinds('primitive', *ks) + [T(t)])
        R.need('limits', t, 'w_limits_' + n, [], [1, 1])
        R.need('abilities', t, 'w_can_' + n, [], [1, 1, 1, 1, size])
        for w, k in (('add', 3), ('copy', 2), ('assign', 2), ('new', 2)): R.need('arithmetic' if w == 'add' else 'plumbing', '%s of %s' % (w, t), 'w_%s_%s' % (w, n), [], [1] * k)
    R.need('kind', 'void', 'w_kind_void', [], kinds('primitive', 'void') + [T('void')])
    for f in sorted(ctx.P.raw):
        if f.startswith('w_alias_'): R.need('alias', ctx_alias(ctx, f), f, [], [1])
    st = R.st.copy()
    p = ('p', e.new_region(st, 'pointee', 'h'), 0)
    for n, t, copies in (('int', 'int', 1), ('ptr', 'char*', 1), ('item', 'Item', 1)):
        R.need('kind', t + '*', 'w_ptr_' + n, [p], kinds('primitive', 'pointer') + [T(t + '*'), T('*'), 1, 1], st)
        R.need('abilities', t + '*', 'w_can_ptr_' + n, [p], [1, 1, 1, 1, 8], st)
        R.need('pointer', 'truth of a %s*' % t, 'w_true_' + n, [p], [1, 1], st)
        R.need('pointer', 'truth of a null %s*' % t, 'w_true_' + n, [0], [0, 0], st)
        R.need('pointer', '* of a %s*' % t, 'w_deref_' + n, [p], [p, 1, 0], st)
        R.need('pointer', '* of a constant %s*' % t, 'w_cderef_' + n, [p], [p, 1, 1], st)
    for text in ('', 'hello'):
        s = ('p', e.new_region(st, 'text', 'h'), 0); e.setstr(st, s, models.lit(text) if text else ())
        q = '"%s"' % text
        R.need('kind', 'std::string', 'w_text_kind', [s], kinds('string') + [T('std::string')], st)
        R.need('abilities', 'std::string', 'w_text_can', [s], [1, 1, 1, 1, 32], st)
        R.need('text', 'size', 'w_text_size', [s], [1], st)
        R.need('text', 'copy', 'w_text_copy', [s], [T(text), 1], st)
        R.need('text', 'assign', 'w_text_assign', [s], [T(text), T(text)], st)
        R.need('text', 'default', 'w_text_default', [s], [1], st)


def ctx_alias(ctx, f): return 'alias ' + f[len('w_alias_'):]


c29.compiles = 'types of the language'


BIG = (1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63), (1 << 64) - 1)


@uses_witness('builtins.cpp')
def c30(ctx):
    R = Real(ctx); e = R.e
    if R.st is not None: R.load('w_use_containers')
    if R.st is None: return
    st = R.st.copy()
    src = ('p', e.new_region(st, 'src', 'h'), 0)
    xs = []
    for i in range(8):
        v = e.sym('x%d' % i, 32); xs.append(v); e.store(st, ('p', src[1], 4 * i), v, 'i32', None)
    y = e.sym('y', 32)
    show = lambda vs: [len(vs)] + list(vs)

    # lists
    R.need('kind', 'std::vector<int>', 'w_list_kind', [], kinds('list') + [T('std::vector<int>'), 1], st)
    R.need('kind', 'vector of vectors', 'w_list_kind2', [], kinds('list') + [T('std::vector<std::vector<int>>'), 1], st)
    R.need('kind', 'std::vector<int> (abilities)', 'w_list_can', [], [1, 1, 1, 1, 24], st)
    for n in range(4):
        v = xs[:n]; a = [n, src]; o = ' of %d elements' % n
        R.need('list', 'size' + o, 'w_list_size', a, [n] + show(v), st); R.need('list', 'size of a constant list' + o, 'w_list_csize', a, [n] + show(v), st)
        i = e.sym('i', 64)
        reps = tuple(range(n + 2)) + BIG
        def element(val, more=[], n=n):
            if val >= n: return 'error'
            return lambda got, val=val: len(got) >= 2 and isinstance(got[0], tuple) and isinstance(got[1], tuple) and got[0][:2] == got[1][:2] and got[0][2] == got[1][2] + 4 * val \
                and len(got) == 2 + len(more) and all(x is None or same(g, x) for g, x in zip(got[2:], more))
        R.need('list', 'at' + o, 'w_list_at', a + [i], lambda val, v=v: element(val, show(v)), st, (i, reps, 'index'))
        R.need('list', 'at of a constant list' + o, 'w_list_cat', a + [i], lambda val, v=v: element(val, show(v)), st, (i, reps, 'index'))
        R.need('list', 'at (as a value)' + o, 'w_list_atv', a + [i], lambda val: element(val, [1, 1]), st, (i, reps, 'index'))
        for k in range(n):
            R.need('list', '[]' + o, 'w_list_index', a + [k], lambda val, k=k: element(k, [0, 1]), st, (i, (0,), 'index'))
            R.need('list', 'writing through []' + o, 'w_list_write', a + [k, y], show(v[:k] + [y] + v[k + 1:]), st)
        R.need('list', 'clear' + o, 'w_list_clear', a, [0], st)
        for m in range(5): R.need('list', 'resize' + o, 'w_list_resize', a + [m], show((v + [0] * 5)[:m]), st)
        for w, t in (('push', 'a constant'), ('pushr', 'an rvalue'), ('pushv', 'a value')): R.need('list', 'push_back of %s' % t + o, 'w_list_' + w, a + [y], show(v + [y]), st)
        R.need('list', 'copy' + o, 'w_list_copy', a, show(v) + [1] + show(v), st)
        R.need('list', 'move' + o, 'w_list_move', a, show(v), st)
        R.need('list', 'assign' + o, 'w_list_assign', a, show(v) + show(v), st)
        R.need('list', 'inner list' + o, 'w_list_nested', a + [y], show(v + [y]) + show(xs[5:6]) + [2], st)
    R.need('list', 'default', 'w_list_default', [], [0], st)
    p, q = (('p', e.new_region(st, k, 'h'), 0) for k in 'pq')
    one = lambda how: lambda got: got[0] == 0 and got[1][0] == how and got[1][2] == p and got[2] == 1 and got[3:] == [('destroyed', got[1][1])]
    R.need('list', 'push_back of an object', 'w_list_items', [p], one('copied'), st)
    R.need('list', 'push_back of a constant object', 'w_list_citems', [p], one('copied'), st)
    def along(got):
        # the object is moved, from where it was left each time, into the list
        at = p
        for x in got[1:]:
            if isinstance(x, tuple) and x[0] == 'copied': return False
            if isinstance(x, tuple) and x[0] == 'moved' and x[2] == at: at = x[1]
        return at in [x for x in got if isinstance(x, tuple) and x[0] == 'p'] and 1 in got
    R.need('list', 'push_back of an expiring object', 'w_list_ritems', [p], along, st)

    # maps
    k = e.sym('k', 32)
    for w, name, key in (('imap', 'std::map<int,int>', 'int'), ('smap', 'std::map<std::string,int>', 'text'), ('hash', 'std::unordered_map<std::string,int>', 'text')):
        R.need('kind', name, 'w_%s_kind' % w, [], kinds('map') + [T(name), 1, 1], st)
        R.need('kind', name + ' (abilities)', 'w_%s_can' % w, [], [1, 1, 1, 1, 48 if w != 'hash' else 56], st)
        for n in range(3):
            a = [n, src]; o = ' of %s with %d entries' % (name, n)
            R.need('map', 'size' + o, 'w_%s_size' % w, a, [n], st)
            R.need('map', 'keys' + o, 'w_%s_keys' % w, a, (lambda got, n=n: got[0] == n and sorted(got[1:-1]) == list(range(n)) and got[-1] == n), st)
            R.need('map', 'copy' + o, 'w_%s_copy' % w, a, [1, n, n] + xs[:n], st)
            if key == 'int': probes = [(k, (k, (0, 2, 3, 4, 5, 7, 8, 100, (1 << 31) - 1, 1 << 31, (1 << 32) - 1), 'key'), lambda val: {3: 0, 7: 1}.get(val, 9))]
            else:
                probes = []
                for t, ix in (('c', 0), ('g', 1), ('', 9), ('a', 9), ('cc', 9), ('e', 9), ('x', 9)):
                    s = ('p', e.new_region(st, 'key', 'h'), 0); e.setstr(st, s, models.lit(t) if t else ())
                    probes.append((s, None, lambda val, ix=ix: ix))
            for arg, vary, where in probes:
                def need(text, f, want):
                    R.need('map', text + o, 'w_%s_%s' % (w, f), a + [arg] + ([y] if f == 'write' else []), want if vary else want(None), st, vary)
                have = lambda val: where(val) < n
                need('count', 'count', lambda val: [int(have(val)), n])
                need('at', 'at', lambda val: [xs[where(val)], n, 1] if have(val) else 'error')
                need('at (as a value)', 'atv', lambda val: [xs[where(val)], n, 1, 1] if have(val) else 'error')
                need('[]', 'index', lambda val: [xs[where(val)] if have(val) else 0, n + (not have(val)), 1, 1, 0])
                need('writing through []', 'write', lambda val: [y, n + (not have(val))])

    # smart pointers
    for w, name in (('shared', 'std::shared_ptr'), ('unique', 'std::unique_ptr')):
        R.need('kind', name, 'w_%s_kind' % w, [p, q], kinds('smartPtr', 'pointer') + [T(name + '<Item>'), T(name), 1], st)
        R.need('kind', name + ' (abilities)', 'w_%s_can' % w, [p, q], [int(w == 'shared'), 1, 1, 1, 16 if w == 'shared' else 8], st)
        D = lambda *ps: [('destroyed', x) for x in ps] if w == 'unique' else []
        def need(text, f, a, want): R.need('smart pointer', '%s of %s' % (text, name), 'w_%s_%s' % (w, f), a, want, st, ignore=('destroyed',) if w == 'shared' else ())
        for x in (p, 0):
            d = D(x) if x else []; nul = '' if x else ' (null)'
            need('get' + nul, 'get', [x, q], [x, x, 0] + d)
            need('truth' + nul, 'bool', [x, q], [int(bool(x)), x, 0] + d)
            need('reset' + nul, 'reset', [x, q], d + [0, 0])
            need('reset to another' + nul, 'resetp', [x, q], d + [q, 0] + D(q))
            need('reset to null' + nul, 'resetp', [x, 0], d + [0, 0])
            need('construction' + nul, 'make', [x, q], [1, x, 0, 1])
            need('move' + nul, 'move', [x, q], [0, x, 0])
        need('*', 'deref', [p, q], [p, 1, p, 0] + D(p))
        need('==', 'eq', [p, q], [0, 1, 0] + D(q, p))
        need('default', 'empty', [p, q], [1, 0, 0])
    R.need('smart pointer', 'copy of std::shared_ptr', 'w_shared_copy', [p, q], [p, p, None, 0], st, ignore=('destroyed',))
    for x in (p, 0): R.need('smart pointer', 'release of std::unique_ptr', 'w_unique_release', [x, q], [x, 0, 0], st)


c30.compiles = 'containers and smart pointers'
