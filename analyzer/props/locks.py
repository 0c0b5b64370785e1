"""Locks around the tables shared by all threads."""
import re
from core import *
from engine import Call

CONT = re.compile(r'^std::(__cxx1998::|__debug::)?(unordered_(multi)?(map|set)|(multi)?(map|set)|vector|deque|list|forward_list|array|bitset|_Hashtable|'
                  r'_Rb_tree|_List|_Vector|_Deque|__detail|_Bit|pair<[^>]*iterator)|^__gnu_cxx::')
CMP = re.compile(r'^std::(__detail::)?operator[=!<>]')
READS = {'find', 'end', 'begin', 'cbegin', 'cend', 'rbegin', 'rend', 'count', 'at', 'size', 'empty', 'operator->', 'operator*', 'equal_range',
         'operator==', 'operator!=', 'lower_bound', 'upper_bound', 'front', 'back', 'contains', 'bucket', 'bucket_count', 'operator++', 'base'}
TAKE = {'lock', 'lock_shared'}
TRY = {'try_lock', 'try_lock_for', 'try_lock_until', 'try_lock_shared', 'try_lock_shared_for', 'try_lock_shared_until'}
MUTEX = re.compile(r'^std::(recursive_|timed_|recursive_timed_|shared_|shared_timed_)?mutex::(\w+)$')
RAW = {'pthread_mutex_lock': 'lock', 'pthread_mutex_unlock': 'unlock', 'pthread_mutex_trylock': 'try_lock', 'pthread_spin_lock': 'lock',
       'pthread_spin_unlock': 'unlock', 'pthread_rwlock_rdlock': 'lock_shared', 'pthread_rwlock_wrlock': 'lock', 'pthread_rwlock_unlock': 'unlock'}


def globals_of(P, f):
    """Mutable objects of static storage duration the function refers to by name."""
    r = set()
    def walk(o):
        if isinstance(o, list):
            if len(o) == 3 and o[0] == 'g' and isinstance(o[1], str):
                g = P.globals.get(o[1])
                if g is not None and not g['const'] and not g.get('tls') and not o[1].startswith(('_ZGV', '_ZTV', '_ZTI', '_ZTS', '__dso')): r.add(o[1])
            for x in o: walk(x)
    for b in f.blocks:
        for ins in b: walk(ins[3:])
    return r


def callees(f):
    for _, _, ins in f.calls():
        c = ins[3]
        if isinstance(c, list) and c[0] == 'g': yield c[1]


def ours(P, name):
    f = P.fn(name)
    return f is not None and f.file.startswith(SRC)


class Locks(Engine):
    """Interprets the code around shared tables; everything else is opaque."""

    def shared(self, st, p):
        if not (isinstance(p, tuple) and p[0] == 'p'): return None
        r, off = p[1], p[2]
        if isinstance(r, tuple) and r[0] == 'g':
            g = self.P.globals.get(r[1])
            if g is None or g['const'] or g.get('tls') or r[1] not in self.tables: return None
            return '%s->%s' % (r[1], off)
        if isinstance(r, tuple) and r[0] == 'd': return self.group(r[1], off)
        return None

    def group(self, n, off):
        """Which table a lazily named address belongs to: ('tab', table) reached through the table's contents,
        ('lz', 'glob:G', k, 8) the object a static pointer G holds."""
        if isinstance(n, tuple) and n[0] == 'tab': return n[1]
        if isinstance(n, tuple) and n[0] == 'lz':
            if isinstance(n[1], str) and n[1].startswith('glob:'):
                return '%s->%s' % (n[1][5:], off)
            g = self.group(n[1], n[2])
            return g if g is None or g.endswith('*') else g + '*'
        return None

    def holds(self, st, p):
        """The table an argument refers to: directly, or as an iterator kept in a local object."""
        g = self.shared(st, p)
        if g is not None: return g
        if isinstance(p, tuple) and p[0] == 'p' and not (isinstance(p[1], tuple) and p[1][0] in ('d', 'g', 'T')):
            for o, (s, v) in sorted(self.cells(st, p[1]).items()):
                if isinstance(p[2], int) and p[2] <= o < p[2] + 16 and isinstance(v, tuple) and v[0] == 'p' and isinstance(v[1], tuple) \
                        and v[1][0] == 'd' and isinstance(v[1][1], tuple) and v[1][1][0] == 'tab':
                    return v[1][1][1]
        return None

    def held(self, st): return st.mon.get('held', ())

    def note(self, st, g, kind, atomic, loc):
        self.events.setdefault(g, {}).setdefault((kind, atomic, tuple(sorted(set(h[0] for h in self.held(st) if h[2])))), (self.entry, loc))
        self.nev += 1

    def access(self, eng, st, kind, p, atomic, loc):
        g = self.shared(st, p)
        if g is not None:
            self.note(st, g, kind, atomic, loc)
            if kind == 'store': st.mon['flag'] = g
        elif kind == 'store': self.changed(st, p, loc)

    def changed(self, st, p, loc):
        """A write to an object which has already been put into a table."""
        if not (isinstance(p, tuple) and p[0] == 'p'): return
        k = st.mon.get('pub', {}).get(p[1])
        if k is None: return
        tab, locks = k
        now = set(h for h in self.held(st) if h[2])
        self.npub += 1
        if not (now & set(locks)):
            self.late.setdefault(tab, (self.entry, loc))

    def publish(self, st, tab, c):
        pub = dict(st.mon.get('pub', {}))
        todo = list(c.args)
        for a in c.args:
            if isinstance(a, tuple) and a[0] == 'p' and not (isinstance(a[1], tuple) and a[1][0] in ('d', 'g', 'T')):
                todo += [v for _, (s, v) in self.cells(st, a[1]).items()]
        for v in todo:
            if isinstance(v, tuple) and v[0] == 'p' and v[1][0] == 'h': pub.setdefault(v[1], (tab, self.held(st)))
        st.mon['pub'] = pub

    def result(self, st, c, g):
        """Anything, reached through table g when it is a pointer."""
        ty = c.retty
        def one(t):
            if t == 'ptr': return ('p', ('d', ('tab', g)), 0) if g else self.freshptr('ext')
            return self.fresh(int(t[1:]) if t[0] == 'i' else 64, 'ext')
        if ty == 'void' or ty is None: return None
        if isinstance(ty, list): return ('a', tuple((o, one(t)) for o, t in ty))
        return one(ty)

    def fill(self, st, p, g):
        if isinstance(p, tuple) and p[0] == 'p' and p[1] in st.mem or isinstance(p, tuple) and p[0] == 'p' and not isinstance(p[1], tuple):
            for k in (0, 8): self.store(st, self.padd(p, k), ('p', ('d', ('tab', g)), 0), 'ptr', None)

    def take(self, st, m, kind, how, loc):
        key = self.lockname(st, m)
        if how in TAKE or how in TRY:
            n = st.mon.get('locks', 0) + 1
            st.mon['locks'] = n
            h = self.held(st)
            if how in TAKE:
                if not kind.startswith('recursive') and any(x[0] == key for x in h): self.again.setdefault(key, (self.entry, loc))
                for x in h:
                    if x[0] != key: self.order.setdefault((x[0], key), (self.entry, loc))
                self.acquires.setdefault(self.entry, {})[key] = kind
            st.mon['held'] = h + ((key, n, self.shared(st, m) is not None),)
        else:
            h = list(self.held(st))
            for k in range(len(h) - 1, -1, -1):
                if h[k][0] == key: del h[k]; break
            st.mon['held'] = tuple(h)

    def lockname(self, st, m):
        g = self.shared(st, m)
        if g is not None: return g
        return repr(m[1:]) if isinstance(m, tuple) else repr(m)

    def invoke(self, st, fr, ins, callee, args):
        name = callee[1][1] if isinstance(callee, tuple) and callee[0] == 'p' and callee[1][0] == 'g' and callee[2] == 0 else None
        if name is None:
            c = Call(self, None, ins, args, callee)
            self.passed(st, args, ins[1], '(indirect call)')
            self.finish_call(st, self.result(st, c, None)); return None
        qn, params, dem = self.P.qn(name)
        c = Call(self, name, ins, args, callee)
        m = MUTEX.match(qn)
        if m or name in RAW:
            how = m.group(2) if m else RAW[name]
            kind = (m.group(1) or '') if m else ''
            if how in TRY:
                other = st.copy()
                self.take(st, args[0], kind, how, ins[1])
                ok, no = (1, 0) if m else (0, 16)
                self.finish_call(st, ok); self.finish_call(other, no)
                return [st, other]
            if how not in ('native_handle',) and not how.endswith('mutex'):
                self.take(st, args[0], kind, how, ins[1])
            self.finish_call(st, 0 if c.retty != 'void' else None); return None
        if qn.startswith(('std::', '__gnu_cxx::', 'operator', 'mem')) or not ours(self.P, name):
            gs = [(k, self.holds(st, a)) for k, a in enumerate(args)]
            hit = [(k, g) for k, g in gs if g is not None]
            if hit and (CONT.match(qn) or CMP.match(qn)):
                base = qn.rsplit('::', 1)[-1]
                first = next((g for k, g in hit if k == (1 if self.sret(name) else 0)), hit[0][1])
                direct = [g for k, g in hit if self.shared(st, args[k]) is not None]
                for g in set(direct):
                    w = base not in READS and not CMP.match(qn) and g == first and '__detail' not in qn
                    self.note(st, g, 'store' if w else 'load', False, ins[1])
                    if w: self.publish(st, g, c)
                if self.sret(name): self.fill(st, args[0], first)
                self.finish_call(st, self.result(st, c, first)); return None
            for k, g in hit:
                if self.shared(st, args[k]) is not None and self.hook(name) is not None:
                    const = '_ZNK' in name[:4] or k > 0
                    self.note(st, g, 'load' if const else 'store', False, ins[1])
            return Engine.invoke(self, st, fr, ins, callee, args)
        if qn == 'std::call_once': self.finish_call(st, None); return None
        if qn in ('reflect::reflectError', 'reflect::verror', 'reflect::error') or self.noreturn(name):
            return Engine.invoke(self, st, fr, ins, callee, args)
        follow = name in self.inside or (any(self.shared(st, a) is not None for a in args) and not qn.startswith('reflect::Scope::'))
        if follow: return Engine.invoke(self, st, fr, ins, callee, args)
        self.passed(st, args, ins[1], name)
        self.called.setdefault((self.entry, name), set()).add(tuple(sorted(set(h[0] for h in self.held(st)))))
        if qn == 'reflect::Registry::add' and st.mon.get('flag'): self.early.setdefault(self.entry, st.mon['flag'])
        self.finish_call(st, self.result(st, c, None)); return None

    def sret(self, name):
        f = self.P.fn(name)
        return bool(f and f.args and f.args[0][1] == 'sret')

    def noreturn(self, name):
        return self.hook(name) in (models.m_error, models.m_abort)

    def passed(self, st, args, loc, what):
        for a in args:
            self.changed(st, a, loc)
            if isinstance(a, tuple) and a[0] == 'p' and not (isinstance(a[1], tuple) and a[1][0] in ('d', 'g', 'T')):
                for _, (s, v) in self.cells(st, a[1]).items():
                    if isinstance(v, tuple) and v[0] == 'p' and v[1] != a[1]: self.changed(st, v, loc)


def entries(P):
    """(functions to start from, functions to follow, names of the tables)"""
    tabs = {}
    rev = {}
    for f in P.all():
        if not f.file.startswith(SRC): continue
        g = set(x for x in globals_of(P, f) if x.startswith('_Z'))
        if g: tabs[f.name] = g
        for c in callees(f): rev.setdefault(c, set()).add(f.name)
    skip = lambda n: n.startswith(('_GLOBAL__', '__cxx_global')) or P.fn(n).qn.startswith('__cxx_global')
    start, inside = set(), set()
    work = [n for n in tabs if not skip(n)]
    while work:
        n = work.pop()
        if n in inside or n in start: continue
        f = P.fn(n)
        if f.link == 'internal' or f.private or f.qn.startswith('reflect::(anonymous'):
            inside.add(n)
            work += [c for c in rev.get(n, ()) if not skip(c)]
        else: start.add(n)
    allt = set().union(*[g for n, g in tabs.items() if not skip(n)]) if tabs else set()
    return start, inside, allt


def show(P, g):
    def dem(n):
        import subprocess
        r = subprocess.run(['c++filt', n], stdout=subprocess.PIPE, text=True).stdout.strip()
        return re.sub(r'\[abi:cxx11\]', '', r)
    b, s, o = g.partition('->')
    b = re.sub(r'\.u\d+$', '', b)
    return dem(b) + (s + o if s else '')


@uses_witness('locks.cpp')
def c12(ctx):
    P, rep = ctx.P, ctx.rep
    start, inside, tables = entries(P)
    e = Locks(P); models.install(e); models.install_text(e)
    e.rep = rep
    e.guards_set = True
    e.inside = inside; e.tables = tables
    e.events = {}; e.late = {}; e.again = {}; e.order = {}; e.acquires = {}; e.called = {}; e.early = {}; e.nev = e.npub = 0
    e.on_access = e.access
    at = lambda w: 'in %s at %s' % (P.qn(w[0])[0], P.loc(w[1]))
    for n in sorted(start):
        f = P.fn(n)
        e.entry = n
        st = State()
        args = []
        for k, a in enumerate(f.args):
            args.append(nonnull(st, lazy('arg%d' % k)) if a[0] == 'ptr' else e.sym('arg%d' % k, int(a[0][1:]) if a[0][0] == 'i' else 64))
        outs = calls(e, st, f, args)
        left = [o for o in outs if o.kind == 'return' and e.held(o.state)]
        rep.obligation('released', not left)
        if left: rep.violation('released', f.qn, 'returns while holding the lock %s' % show(P, e.held(left[0].state)[0][0]), '%s:%d' % (P.short(f.file), f.line))
    rep.count('entry points', len(start)); rep.count('accesses', e.nev); rep.count('tables', len(e.events))
    for g, ev in sorted(e.events.items()):
        bad = None
        items = sorted(ev.items())
        for (k1, a1, h1), w1 in items:
            for (k2, a2, h2), w2 in items:
                if k1 == 'store' and not (a1 and a2) and not set(h1) & set(h2) and not bad: bad = (w1, k2, w2)
        rep.obligation('common lock', not bad)
        if bad: rep.violation('common lock', show(P, g), 'written %s and %s %s without a lock held in common' % (
            at(bad[0]), 'written' if bad[1] == 'store' else 'read', at(bad[2])), P.loc(bad[2][1]))
    rep.obligation('published complete', True, max(1, e.npub))
    for g, w in sorted(e.late.items()):
        rep.violation('published complete', show(P, g), 'an object other threads can find is changed %s without the lock it was stored under' % at(w), P.loc(w[1]))
    for k, w in sorted(e.again.items()):
        rep.violation('deadlock', show(P, k), 'locked %s while this thread already holds it' % at(w), P.loc(w[1]))
    later(ctx, e, at)


def later(ctx, e, at):
    """Locks taken by functions called while a lock is held."""
    P, rep = ctx.P, ctx.rep
    direct = {n: dict(d) for n, d in e.acquires.items()}
    reach = {}
    def locks(n):
        if n in reach: return reach[n]
        reach[n] = {}
        seen, work, got = set(), [n], {}
        while work:
            x = work.pop()
            if x in seen: continue
            seen.add(x)
            got.update(direct.get(x, {}))
            f = P.fn(x)
            if f is not None and (f.file.startswith(SRC) or x == n): work += list(callees(f))
        reach[n] = got
        return got
    order = dict(e.order)
    for (entry, callee), helds in sorted(e.called.items()):
        for h in helds:
            if not h: continue
            got = locks(callee)
            rep.obligation('deadlock', True)
            for l, kind in got.items():
                if l in h and not kind.startswith('recursive'):
                    rep.violation('deadlock', show(P, l), '%s calls %s which locks it again' % (P.qn(entry)[0], P.qn(callee)[0]))
                for x in h:
                    if x != l: order.setdefault((x, l), (entry, None))
    succ = {}
    for a, b in order: succ.setdefault(a, set()).add(b)
    for a, b in sorted(order):
        seen, work = set(), [b]
        while work:
            x = work.pop()
            if x in seen: continue
            seen.add(x); work += list(succ.get(x, ()))
        rep.obligation('lock order', a not in seen)
        if a in seen: rep.violation('lock order', show(P, min(a, b)), 'locked both before and after %s' % show(P, max(a, b)))
    for n, w in sorted(e.early.items()):
        rep.violation('announced last', P.qn(n)[2], 'marks the type as registered before it is')
    rep.obligation('announced last', not e.early, len([n for n, c in e.called if P.qn(c)[0] == 'reflect::Registry::add']) or 1)
