"""Reflected functions own what they call."""
from core import *
from program import split_args
from props.dsl import World, stopping, says, show1, showcalls

OWN = ('Fun', 'CFun', 'Copy', 'Once', 'Long', 'None', 'Obj')
FUN = OWN[:-1]
AFTER = {'type', 'scope', 'typeLvalue', 'typeConst', 'scopeLvalue', 'scopeConst', 'dsl'}     # the function outlives the witness
LVALUE = {'lvalue', 'const', 'typeLvalue', 'typeConst', 'scopeLvalue', 'scopeConst', 'dsl', 'unused'}


def story(ctx, construct, o, given, after, wanted, keep):
    """Follows every object of the program through its life; yields (rule, ok, text)."""
    live = dict(given); heap = {}; invoked = []; dead = set(); homes = set()
    bad = []
    def no(rule, text): bad.append((rule, text))
    for ev in o.state.mon.get('story', ()):
        if ev[0] == 'alloc': heap[ev[1]] = 1; continue
        if ev[0] == 'free':
            if ev[1] in (0,) : continue
            if ev[1] not in heap: no('freed', 'frees %s, which is not allocated' % show1(ev[1]))
            elif heap.pop(ev[1]) and any(k[1] == ev[1][1] for k in live): no('freed', 'frees the storage of a callable which was not destroyed'); 
            continue
        if ev[0] == 'uaf': no('freed', 'uses storage which was freed'); continue
        if ev[0] == 'twice': continue
        q, params, a = ev[1:]
        cls, name = q.split('::', 1)
        this = a[0]
        if name == cls:
            homes.add(this[1])
            if this in live: no('made', 'a callable is made over one which was not destroyed')
            if len(a) > 1:
                src = a[1]
                if src not in live: no('made', 'a callable is made from one which %s' % ('was destroyed' if src in dead else 'was never made')); live[this] = 'lost'; continue
                if live[src] == 'moved': no('made', 'a callable is made from one which was moved away')
                live[this] = live[src]
                if params.endswith('&&'):
                    if src in keep: no('intact', 'the callable given as an lvalue is moved from')
                    live[src] = 'moved'
            else: live[this] = 'new'
            dead.discard(this)
        elif name[0] == '~':
            if this not in live: no('destroyed', 'destroys a callable %s' % ('again' if this in dead else 'which was never made'))
            elif this in given: no('destroyed', 'destroys the callable of the caller')
            live.pop(this, None); dead.add(this)
        elif name == 'operator=':
            if len(a) > 1 and this in live: live[this] = live.get(a[1], 'lost')
        elif name.startswith('operator'):
            invoked.append(live.get(this, 'destroyed' if this in dead else 'lost'))
            if this in given: no('called', 'calls the callable of the caller; the function does not have its own')
    if wanted is not None and invoked != wanted: no('called', 'calls %s; required %s' % (' '.join(invoked) or 'nothing', ' '.join(wanted) or 'nothing'))
    heap = {k: 1 for k in heap if k[1] in homes}        # other storage is not the callable's
    left = {k: v for k, v in live.items() if k not in given}
    if not after:
        if left: no('destroyed', '%d callables are never destroyed' % len(left))
        if heap: no('freed', '%d pieces of storage are never freed' % len(heap))
    else:
        n = sum(v != 'moved' for v in left.values())
        if len(left) != 1 or n != 1: no('destroyed', '%d callables are left; the function has one' % len(left))
        elif heap and not any(k[1] == next(iter(left))[1] for k in heap): no('freed', 'the callable is not in storage of its own')
        elif len(heap) > 1: no('freed', '%d pieces of storage are left' % len(heap))
    return bad


@stopping
@uses_witness('lifecycle.cpp')
def c18(ctx):
    W = World(ctx, ('void', 'int', 'Obj', 'reflect::Value'), OWN, ('gfun', 'wd_sum'))
    e = W.e; st = W.st; rep = ctx.rep
    for t in ('void', 'int', 'Obj'): st = W.one('w_reflect_' + t, [tok(t)], st)
    sc = ('p', e.new_region(st, 'scope'), 0)
    st = W.one('w_scope', [sc], st)
    x, y = (('p', e.new_region(st, n), 0) for n in 'xy')

    inner = W.call
    def call(eng, s, c):
        if c.qn.split('::')[0] in FUN: s.mon['story'] = s.mon.get('story', ()) + (('call', c.qn, c.params or '', tuple(c.args[1:] if c.sret else c.args)),)
        return inner(eng, s, c)
    e.add_hook(lambda q, p, d, n: q.split('::')[0] in FUN and e.P.fn(n) is None, call)
    def mark(eng, s, c):
        s.mon['story'] = s.mon.get('story', ()) + (('mark',),); return [(s, None)]
    def monitor(eng, s, kind, data, loc):
        k = {'alloc': 'alloc', 'free': 'free', 'double-free': 'twice', 'use-after-free': 'uaf'}.get(kind)
        if k: s.mon['story'] = s.mon.get('story', ()) + ((k, data[0] if k in ('alloc', 'free') else data),)
    e.add_hook('wd_mark', lambda eng, s, c: [(s, None)])
    e.monitor = monitor

    def run(construct, w, args, given, after, wanted, keep=(), seen=None, lived=True):
        for o in W.run(w, args, st):
            if o.state.taint: rep.undecided('called', '%s: unmodelled: %s' % (construct, o.state.taint[0]), ctx.loc(o.state.taint[1])); continue
            if o.kind != 'return':
                rep.obligation('called', False); rep.violation('called', construct, 'ends with %s%s' % (o.kind, says(o)), ctx.loc(o.loc)); continue
            bad = story(ctx, construct, o, given, after, wanted, keep) if lived else []
            for rule in ('called', 'made', 'intact', 'destroyed', 'freed') if lived else ('called',):
                b = [t for r, t in bad if r == rule]
                rep.obligation(rule, not b)
                if b: rep.violation(rule, construct, '; '.join(sorted(set(b))[:2]), ctx.loc(o.loc))
            if seen is not None:
                s = o.state.mon.get('seen', ())
                if any(v is None for _, v in s): rep.undecided('called', '%s: result not determined' % construct); continue
                ok = [v for _, v in s] == seen
                rep.obligation('called', ok)
                if not ok: rep.violation('called', construct, 'yields %s; required %s' % ([v for _, v in s], seen), ctx.loc(o.loc))
    def res(q, params):
        return W.results.setdefault((q, tuple(split_args(params))), 1000 + 7 * len(W.results))

    HOW = {'rvalue': ['x', 'x'], 'unused': [], 'nameless': ['x'], 'moved': ['x'], 'movedTwice': ['x'], 'assigned': ['x'], 'refilled': ['y', 'x'], 'swapped': ['x', 'y'], 'self': ['x'],
           'type': ['x', 'x'], 'scope': ['x', 'x'], 'lvalue': ['x', 'x'], 'const': ['x'], 'typeLvalue': ['x'], 'typeConst': ['x'], 'scopeLvalue': ['x'], 'scopeConst': ['x'], 'dsl': ['x']}
    TEXT = {'lvalue': 'given as an lvalue', 'const': 'given as a constant', 'rvalue': 'given as an rvalue', 'unused': 'never called', 'nameless': 'under an empty name', 'moved': 'moved', 'movedTwice': 'moved twice', 'assigned': 'moved over another',
            'refilled': 'moved away and replaced', 'swapped': 'swapped', 'self': 'moved onto itself', 'type': 'added to a type', 'scope': 'added to a scope', 'typeLvalue': 'an lvalue added to a type',
            'typeConst': 'a constant added to a type', 'scopeLvalue': 'an lvalue added to a scope', 'scopeConst': 'a constant added to a scope', 'dsl': 'declared on a type'}
    for cls in ('Fun', 'CFun', 'Copy', 'Once'):
        n = res('%s::operator()' % cls, 'int')
        for how, want in HOW.items():
            if cls == 'Once' and how in LVALUE - {'unused'}: continue
            args = [x, y, tok('Obj')] + ([sc] if how.startswith('scope') else [])
            run('a %s functor %s' % ({'Fun': 'mutable', 'CFun': 'constant', 'Copy': 'copyable', 'Once': 'movable'}[cls], TEXT[how]), 'w_%s_%s' % (cls, how), args, {x: 'x', y: 'y'}, how in AFTER, want,
                {x, y} if how in LVALUE and how != 'unused' else (), [n] * len(want))
    for cls, ps in (('Long', 'int, int, int, int'), ('None', '')):
        for how, want in (('moved', ['x']), ('unused', [])):
            run('a functor of %d arguments %s' % (len(split_args(ps)), TEXT[how]), 'w_%s_%s' % (cls, how), [x, y, tok('Obj')], {x: 'x', y: 'y'}, False, want, {x, y}, [res('%s::operator()' % cls, ps)] * len(want))
    z = ('p', e.new_region(st, 'z'), 0)
    f, g, h = (res(c + '::operator()', p) for c, p in (('Fun', 'int'), ('None', ''), ('Long', 'int, int, int, int')))
    run('functions side by side', 'w_overloads', [x, y, z], {x: 'x', y: 'y', z: 'z'}, False, ['x', 'y', 'z', 'x'], {x, y, z}, [f, g, h, f])

    def plain(construct, w, args, seen): run(construct, w, args, {}, False, [], (), seen)
    W.check('called', 'a lambda with captured values', 'w_capture', [1, 2, 3], st, [('wd_sum', None, (1, 2, 3, 21))], [('int', res('wd_sum', ''))])
    plain('a lambda which counts', 'w_counter', [], [6, 7, 8, 5])
    plain('a lambda with a captured reference', 'w_reference', [], [12])
    plain('a function pointer', 'w_pointer', [], [res('gfun', 'int')])
    plain('a function pointer given as an lvalue', 'w_pointerLvalue', [], [res('gfun', 'int')])
    plain('a member function', 'w_member', [x], [res('Obj::mem', 'int')])
    plain('a constant member function', 'w_cmember', [x], [res('Obj::cmem', 'int, int')])


c18.compiles = 'functions of every kind'
