"""Trace-partitioning abstract interpreter over the exported IR.

Domain: finite sets and intervals for scalars, region/offset pairs for
pointers, lazily named contents for unknown memory, small abstract models for
std containers and strings.  States are kept disjunctive and are merged when
equal up to renaming (loop heads), so that every loop is analysed to a
fixpoint; loops which do not converge are widened.  No input is ever chosen,
no solver is asked and nothing of the analysed code is executed."""
import sys
from program import Program, uses, defined

MASK = [(1 << w) - 1 for w in range(0, 129)]


class Undecided(Exception):
    pass


class Undef:
    def __repr__(self): return 'undef'
UNDEF = ('u',)


def tosigned(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v


class Frame:
    __slots__ = ('fn', 'bb', 'ii', 'regs', 'prev', 'allocas', 'visits', 'retinfo')

    def __init__(self, fn):
        self.fn = fn; self.bb = 0; self.ii = 0; self.regs = {}; self.prev = -1
        self.allocas = (); self.visits = None; self.retinfo = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.bb = self.bb; f.ii = self.ii; f.regs = dict(self.regs); f.prev = self.prev
        f.allocas = self.allocas; f.visits = dict(self.visits) if self.visits else None
        f.retinfo = self.retinfo
        return f


class State:
    __slots__ = ('frames', 'mem', 'back', 'dom', 'mon', 'path', 'taint', 'owned', 'steps', 'exc', 'freed')

    def __init__(self):
        self.frames = []      # list of Frame
        self.mem = {}         # region -> {off: (size, val)}
        self.back = {}        # region -> tuple of (lo, hi, lazyid|None|'zero', delta)
        self.dom = {}         # term -> frozenset | ('iv', lo, hi)
        self.mon = {}         # monitor facts (small hashable values)
        self.path = None
        self.taint = None
        self.owned = set()
        self.steps = 0
        self.exc = None
        self.freed = frozenset()

    def copy(self):
        s = State.__new__(State)
        s.frames = list(self.frames)
        if s.frames: s.frames[-1] = s.frames[-1].copy()
        s.mem = dict(self.mem); s.back = dict(self.back); s.dom = dict(self.dom); s.mon = dict(self.mon)
        s.path = self.path; s.taint = self.taint
        s.owned = set(); self.owned = set()
        s.steps = self.steps; s.exc = self.exc; s.freed = self.freed
        return s

    def note(self, loc, text): self.path = (self.path, loc, text)

    def trail(self, P, limit=40):
        r = []; p = self.path
        while p: r.append((p[1], p[2])); p = p[0]
        r.reverse()
        if len(r) > limit: r = r[:8] + [(None, '... %d steps ...' % (len(r) - limit))] + r[-(limit - 8):]
        return ['%s: %s' % (P.loc(l), t) if l else t for l, t in r]


class Outcome:
    """kind: return | error | abort | throw | unreachable | nullderef | ..."""
    __slots__ = ('kind', 'state', 'value', 'loc', 'data')

    def __init__(self, kind, state, value=None, loc=None, data=None):
        self.kind = kind; self.state = state; self.value = value; self.loc = loc; self.data = data


def exact(op, a, b):
    """Arithmetic on small whole numbers is the same in every floating type."""
    if a is None or b is None or op not in ('fadd', 'fsub', 'fmul'): return None
    if abs(a) > 4096 or abs(b) > 4096 or a != int(a) or b != int(b): return None
    return ('f', '%e' % {'fadd': a + b, 'fsub': a - b, 'fmul': a * b}[op]) if a or b else None


def fval(v):
    """The number a floating point constant stands for, or None."""
    if v == 0: return 0.0
    return float(v[1]) if isinstance(v, tuple) and v[0] == 'f' else None


class Terminal(Exception):
    def __init__(self, kind, data=None): self.kind = kind; self.data = data


class Engine:
    def __init__(self, prog, max_steps=3000000, max_states=60000, widen=24):
        self.statics = set(); self.asize = {}
        self.start = False          # mutable globals hold what the program starts with
        self.P = prog
        self.max_steps = max_steps; self.max_states = max_states; self.widen = widen; self.lazykey = 0
        self.fresh_n = 0
        self.hooks = []           # (predicate(qn, params, dem, name), fn)
        self.hookcache = {}
        self.opaque = {}          # names of unmodelled externals met
        self.symw = {}            # symbol -> width
        self.on_access = None; self.on_store = None; self.guards_set = False
        self.total_steps = 0
        self.fns_seen = set()
        self.suppcache = {}
        self.max_depth = 300; self.endless = False
        self.blocks_seen = set()
        self.joins = 0
        self.project = False      # merge states that differ only in facts about dead values

    # ---------------------------------------------------------------- terms
    def fresh(self, w, tag='v'):
        self.fresh_n += 1
        s = ('s', '%s.%d' % (tag, self.fresh_n))
        self.symw[s] = w
        return s

    def sym(self, name, w):
        s = ('s', name); self.symw[s] = w; return s

    def ptr(self, region, off=0): return ('p', region, off)

    def freshptr(self, tag='ptr'):
        self.fresh_n += 1
        return ('p', ('d', '%s.%d' % (tag, self.fresh_n)), 0)

    def width(self, t):
        if t[0] == 's': return self.symw.get(t, 64)
        if t[0] == 't': return t[2]
        return 64

    def support(self, t):
        if isinstance(t, int): return ()
        r = self.suppcache.get(t)
        if r is None:
            if t[0] == 's': r = (t,)
            elif t[0] == 't':
                acc = []
                for a in t[3:]:
                    if isinstance(a, tuple):
                        sp = self.support(a)
                        if sp is None: acc = None; break
                        for x in sp:
                            if x not in acc: acc.append(x)
                r = None if acc is None else tuple(acc)
                if t[1] in ('peq', 'opaque', 'streq', 'strempty', 'strlen', 'atom', 'strlt'): r = (t,)
            else: r = None
            if r is None: r = (t,)
            self.suppcache[t] = r
        return r

    PW = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem',
          'zext', 'sext', 'trunc', 'eq', 'ult', 'slt', 'select', 'tab'}

    def ev(self, t, env):
        """Evaluates a term pointwise, under an assignment of its support."""
        if isinstance(t, int): return t
        if t in env: return env[t]
        if not isinstance(t, tuple) or t[0] != 't' or t[1] not in self.PW: raise Undecided('not a term over known values')
        op = t[1]; w = t[2]
        if op == 'select':
            return self.ev(t[4] if self.ev(t[3], env) else t[5], env)
        if op == 'tab':
            idx = tosigned(self.ev(t[4], env), 64)
            v = self.tabread(t[3], idx, w // 8 if w >= 8 else 1)
            return v
        a = self.ev(t[3], env)
        b = self.ev(t[4], env) if len(t) > 4 else 0
        return self.evop(op, w, a, b, t)

    def evop(self, op, w, a, b, t=None):
        m = MASK[w]
        if op == 'add': return (a + b) & m
        if op == 'sub': return (a - b) & m
        if op == 'mul': return (a * b) & m
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return (a << b) & m if b < w else 0
        if op == 'lshr': return a >> b if b < w else 0
        if op == 'ashr': return (tosigned(a, w) >> min(b, w - 1)) & m
        if op == 'udiv': return a // b if b else 0
        if op == 'urem': return a % b if b else 0
        if op in ('sdiv', 'srem'):
            x, y = tosigned(a, w), tosigned(b, w)
            if not y: return 0
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return (q if op == 'sdiv' else x - q * y) & m
        if op == 'zext': return a
        if op == 'sext': return tosigned(a, t[4]) & m if t is not None else a
        if op == 'trunc': return a & m
        if op == 'eq': return 1 if a == b else 0
        if op == 'ult': return 1 if a < b else 0
        if op == 'slt': return 1 if tosigned(a, t[5]) < tosigned(b, t[5]) else 0
        raise Undecided('op ' + op)

    def mk(self, op, w, *args):
        if all(isinstance(a, int) for a in args) and op in self.PW and op not in ('tab',):
            t = ('t', op, w) + args
            if op == 'select': return args[1] if args[0] else args[2]
            return self.evop(op, w, args[0], args[1] if len(args) > 1 else 0, t)
        a = args[0]; b = args[1] if len(args) > 1 else None
        for x in args:
            if isinstance(x, tuple) and x[0] not in ('s', 't'):
                return self.mk_odd(op, w, args)
        if op == 'add':
            if a == 0: return b
            if b == 0: return a
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int) and isinstance(a, tuple) and a[0] == 't' and a[1] == 'add' and isinstance(a[4], int):
                return self.mk('add', w, a[3], (a[4] + b) & MASK[w])
        elif op == 'sub':
            if b == 0: return a
            if a == b: return 0
            if isinstance(b, int): return self.mk('add', w, a, (-b) & MASK[w])
            # (x + c) - x
            if isinstance(a, tuple) and a[0] == 't' and a[1] == 'add' and a[3] == b: return a[4]
            if isinstance(b, tuple) and b[0] == 't' and b[1] == 'add' and b[3] == a and isinstance(b[4], int):
                return (-b[4]) & MASK[w]
        elif op == 'and':
            if a == 0 or b == 0: return 0
            if a == MASK[w]: return b
            if b == MASK[w]: return a
            if a == b: return a
            if isinstance(a, int): a, b = b, a
        elif op == 'or':
            if a == 0: return b
            if b == 0: return a
            if a == b: return a
            if w == 1 and (a == 1 or b == 1): return 1
            if isinstance(a, int): a, b = b, a
        elif op == 'xor':
            if a == b: return 0
            if a == 0: return b
            if b == 0: return a
            if isinstance(a, int): a, b = b, a
            if isinstance(a, tuple) and a[0] == 't' and a[1] == 'xor' and isinstance(b, int) and isinstance(a[4], int):
                return self.mk('xor', w, a[3], a[4] ^ b)
        elif op in ('shl', 'lshr', 'ashr'):
            if b == 0: return a
            if a == 0: return 0
        elif op == 'mul':
            if a == 0 or b == 0: return 0
            if a == 1: return b
            if b == 1: return a
            if isinstance(a, int): a, b = b, a
        elif op == 'eq':
            if a == b: return 1
            if isinstance(a, int): a, b = b, a
            ww = args[2] if len(args) > 2 else None
            if isinstance(b, int) and isinstance(a, tuple) and a[0] == 't':
                if a[1] in ('zext', 'sext'):
                    src = a[3]; sw = self.width(src)
                    lo = b & MASK[sw]
                    ok = (lo == b) if a[1] == 'zext' else ((tosigned(lo, sw) & MASK[a[2]]) == b)
                    if not ok: return 0
                    if sw == 1: return src if lo == 1 else self.mk('xor', 1, src, 1)
                    return self.mk('eq', 1, src, lo)
                if a[1] == 'add' and isinstance(a[4], int):
                    return self.mk('eq', 1, a[3], (b - a[4]) & MASK[a[2]])
            if isinstance(b, int) and isinstance(a, tuple) and self.width(a) == 1:
                return a if b == 1 else self.mk('xor', 1, a, 1)
            if not isinstance(b, int) and repr(a) > repr(b): a, b = b, a
            return ('t', 'eq', 1, a, b)
        elif op == 'ult':
            if a == b or b == 0: return 0
            return ('t', 'ult', 1, a, b)
        elif op == 'slt':
            if a == b: return 0
            return ('t', 'slt', 1, a, b, args[2])
        elif op == 'zext':
            if isinstance(a, tuple) and a[0] == 't' and a[1] == 'zext': return ('t', 'zext', w, a[3], self.width(a[3]))
        elif op == 'trunc':
            if isinstance(a, tuple) and a[0] == 't' and a[1] in ('zext', 'sext'):
                sw = self.width(a[3])
                if sw == w: return a[3]
                if sw > w: return self.mk('trunc', w, a[3])
                return self.mk(a[1], w, a[3], sw)
        elif op == 'select':
            if isinstance(a, int): return args[1] if a else args[2]
            if args[1] == args[2]: return args[1]
            if w == 1:
                if args[1] == 1 and args[2] == 0: return a
                if args[1] == 0 and args[2] == 1: return self.mk('xor', 1, a, 1)
        r = ('t', op, w, a) if b is None else ('t', op, w, a, b) + tuple(args[2:])
        return r

    def mk_odd(self, op, w, args):
        """Arithmetic over packs, pointers and undefined values."""
        a = args[0]; b = args[1] if len(args) > 1 else None
        if any(x == UNDEF for x in args if isinstance(x, tuple)):
            if op in ('zext', 'sext', 'trunc'): return UNDEF
            return UNDEF
        if isinstance(a, tuple) and a[0] == 'k':
            if op == 'trunc':
                return self.unpack(a, 0, w // 8 if w >= 8 else 1, w)
            if op in ('zext',): return a
            if op == 'lshr' and isinstance(b, int) and b % 8 == 0:
                return self.pack([(o - b // 8, s, v) for o, s, v in a[1] if o >= b // 8])
            if op == 'shl' and isinstance(b, int) and b % 8 == 0:
                return self.pack([(o + b // 8, s, v) for o, s, v in a[1]])
            if op == 'and' and isinstance(b, int):
                parts = []
                for o, s, v in a[1]:
                    mm = b >> (8 * o) & MASK[8 * s]
                    if mm == MASK[8 * s]: parts.append((o, s, v))
                    elif mm == 0: continue
                    else: parts.append((o, s, self.mk('and', 8 * s, v, mm)))
                return self.pack(parts)
            if op == 'or' and isinstance(b, tuple) and b[0] == 'k':
                return self.pack(sorted(list(a[1]) + list(b[1])))
            if op == 'or' and b == 0: return a
        if op == 'or' and isinstance(b, tuple) and b[0] == 'k' and a == 0: return b
        if isinstance(a, tuple) and a[0] == 'p' or isinstance(b, tuple) and b and b[0] == 'p':
            if op == 'sub' and isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'p' and a[1] == b[1]:
                return self.mk('sub', w, a[2] & MASK[64] if isinstance(a[2], int) else a[2],
                               b[2] & MASK[64] if isinstance(b[2], int) else b[2])
            if op == 'add' and isinstance(a, tuple) and a[0] == 'p' and not (isinstance(b, tuple) and b[0] == 'p'):
                return self.padd(a, b)
            if op == 'add' and isinstance(b, tuple) and b[0] == 'p' and not (isinstance(a, tuple) and a[0] == 'p'):
                return self.padd(b, a)
            if op == 'and' and b == 1: return 0      # pointer alignment
        return ('t', 'opaque', w, op) + tuple(args)

    def padd(self, p, d):
        if p == 0: return self.null_off(d)
        if not (isinstance(p, tuple) and p[0] == 'p'):
            return ('t', 'opaque', 64, 'gep', p, d)
        if isinstance(p[2], int) and isinstance(d, int): return ('p', p[1], p[2] + tosigned(d & MASK[64], 64))
        base = p[2] & MASK[64] if isinstance(p[2], int) else p[2]
        o = self.mk('add', 64, base, d & MASK[64] if isinstance(d, int) else d)
        if isinstance(o, int): o = tosigned(o, 64)
        return ('p', p[1], o)

    def null_off(self, d):
        if isinstance(d, int): return d
        return d

    def pack(self, parts):
        parts = [(o, s, v) for o, s, v in parts]
        if not parts: return 0
        if all(isinstance(v, int) for _, _, v in parts):
            r = 0
            for o, s, v in parts: r |= v << (8 * o)
            return r
        return ('k', tuple(sorted(parts, key=lambda x: x[0])))

    def unpack(self, k, off, size, w=None):
        """Part of a pack at byte offset off."""
        r = []
        for o, s, v in k[1]:
            if o + s <= off or o >= off + size: continue
            if o >= off and o + s <= off + size: r.append((o - off, s, v))
            else:
                # partial overlap
                lo = max(o, off); hi = min(o + s, off + size)
                r.append((lo - off, hi - lo, self.part(v, lo - o, hi - lo, s)))
        if len(r) == 1 and r[0][0] == 0:
            o, s, v = r[0]
            if w is not None and w < 8 * s: return self.mk('trunc', w, v)
            if s == size: return v
            if isinstance(v, int): return v
            if isinstance(v, tuple) and v[0] in 'st': return self.mk('zext', 8 * size, v, 8 * s)
        return self.pack(r)

    def part(self, v, off, size, total):
        if v == UNDEF: return UNDEF
        if isinstance(v, int): return (v >> (8 * off)) & MASK[8 * size]
        if v[0] == 'k': return self.unpack(v, off, size)
        if v[0] in 'st':
            x = self.mk('lshr', 8 * total, v, 8 * off) if off else v
            return self.mk('trunc', 8 * size, x)
        return ('t', 'opaque', 8 * size, 'part', v, off)

    # -------------------------------------------------------------- domains
    def dom(self, st, t):
        """Over-approximation of the values of a term: frozenset or ('iv', lo, hi)."""
        if isinstance(t, int): return frozenset((t,))
        d = st.dom.get(t)
        if d is not None: return d
        if t[0] == 's':
            w = self.symw.get(t, 64)
            return frozenset((0, 1)) if w == 1 else ('iv', 0, MASK[w])
        if t[0] != 't': return ('iv', 0, MASK[64])
        w = t[2]
        sp = self.support(t)
        n = 1
        fin = []
        for s in sp:
            ds = st.dom.get(s)
            if ds is None and s is not t and s[0] == 's' and self.symw.get(s) == 1: ds = frozenset((0, 1))
            if ds is None or ds.__class__ is not frozenset or s is t or s == t: n = None; break
            n *= len(ds); fin.append((s, ds))
            if n > 4096: n = None; break
        if n is not None and fin:
            return frozenset(self.points(t, fin))
        return self.ival(st, t)

    def points(self, t, fin):
        if len(fin) == 1:
            s, ds = fin[0]
            return [self.ev(t, {s: v}) for v in ds]
        import itertools
        return [self.ev(t, dict(zip([f[0] for f in fin], vs)))
                for vs in itertools.product(*[f[1] for f in fin])]

    def bounds(self, d):
        if d.__class__ is frozenset: return (min(d), max(d)) if d else (0, 0)
        return d[1], d[2]

    def ival(self, st, t):
        op, w = t[1], t[2]
        full = frozenset((0, 1)) if w == 1 else ('iv', 0, MASK[w])
        if op == 'streq':
            for x, y in ((t[3], t[4]), (t[4], t[3])):
                if not all(isinstance(k, int) for k in y): continue
                # a string known to equal one literal equals no other
                for k, v in st.dom.items():
                    if k[0] == 't' and k[1] == 'streq' and 1 in v and len(v) == 1:
                        o = k[4] if k[3] == x else k[3] if k[4] == x else None
                        if o is not None and o != y and all(isinstance(c, int) for c in o): return frozenset((0,))
        if op in ('peq', 'opaque', 'streq', 'strempty', 'strlen', 'atom', 'tab', 'strlt'): return full
        A = self.bounds(self.dom(st, t[3]))
        B = self.bounds(self.dom(st, t[4])) if len(t) > 4 and op not in ('sext', 'zext') else None
        m = MASK[w]
        def iv(lo, hi):
            if lo < 0 or hi > m: return full
            return ('iv', lo, hi) if w > 1 else full
        if op == 'add':
            lo, hi = A[0] + B[0], A[1] + B[1]
            if lo > m: return iv(lo - m - 1, hi - m - 1)
            return iv(lo, hi)
        if op == 'sub': return iv(A[0] - B[1], A[1] - B[0])
        if op == 'mul': return iv(A[0] * B[0], A[1] * B[1])
        if op == 'and': return iv(0, min(A[1], B[1]))
        if op == 'or':
            # low part / high part disjoint
            hb = B[1].bit_length()
            if self.tz(t[3]) >= hb: return iv(A[0] + B[0], A[1] + B[1])
            ha = A[1].bit_length()
            if self.tz(t[4]) >= ha: return iv(A[0] + B[0], A[1] + B[1])
            return iv(max(A[0], B[0]), MASK[max(A[1].bit_length(), B[1].bit_length())])
        if op == 'xor': return iv(0, MASK[max(A[1].bit_length(), B[1].bit_length())])
        if op == 'shl' and B[0] == B[1] and B[0] < w: return iv(A[0] << B[0], A[1] << B[0])
        if op == 'lshr' and B[0] == B[1]: return iv(A[0] >> B[0], A[1] >> B[0])
        if op == 'udiv' and B[0] == B[1] and B[0]: return iv(A[0] // B[0], A[1] // B[0])
        if op == 'urem' and B[0] == B[1] and B[0]: return iv(0, B[0] - 1)
        if op == 'zext': return iv(A[0], A[1])
        if op == 'sext':
            sw = t[4]
            if A[1] < 1 << (sw - 1): return iv(A[0], A[1])
            return full
        if op == 'trunc':
            if A[1] <= m: return iv(A[0], A[1])
            return full
        if op == 'select':
            c = self.dom(st, t[3])
            X = self.bounds(self.dom(st, t[4])); Y = self.bounds(self.dom(st, t[5]))
            if c == frozenset((1,)): return iv(*X)
            if c == frozenset((0,)): return iv(*Y)
            return iv(min(X[0], Y[0]), max(X[1], Y[1]))
        if op == 'eq':
            if A[1] < B[0] or B[1] < A[0]: return frozenset((0,))
            if A == B and A[0] == A[1]: return frozenset((1,))
            a = self.dom(st, t[3]); b = self.dom(st, t[4])
            if a.__class__ is frozenset and b.__class__ is frozenset and not (a & b): return frozenset((0,))
            # x == y decided by recorded order facts
            if st.dom.get(('t', 'ult', 1, t[3], t[4])) == frozenset((1,)) or \
               st.dom.get(('t', 'ult', 1, t[4], t[3])) == frozenset((1,)): return frozenset((0,))
            return full
        if op == 'ult':
            if A[1] < B[0]: return frozenset((1,))
            if A[0] >= B[1]: return frozenset((0,))
            if st.dom.get(('t', 'ult', 1, t[4], t[3])) == frozenset((1,)): return frozenset((0,))
            if st.dom.get(self.mk('eq', 1, t[3], t[4])) == frozenset((1,)): return frozenset((0,))
            # a+1 < b known  =>  a < b
            r = self.ult_facts(st, t[3], t[4])
            if r is not None: return frozenset((r,))
            return full
        if op == 'slt':
            ww = t[5]; h = 1 << (ww - 1)
            sa = self.sbounds(A, ww); sb = self.sbounds(B, ww)
            if sa and sb:
                if sa[1] < sb[0]: return frozenset((1,))
                if sa[0] >= sb[1]: return frozenset((0,))
            return full
        return full

    def ult_facts(self, st, a, b):
        """a < b from facts about a + c."""
        def split(x):
            if isinstance(x, tuple) and x[0] == 't' and x[1] == 'add' and isinstance(x[4], int) and x[4] < 1 << 62:
                return x[3], x[4]
            return x, 0
        a0, ac = split(a)
        if isinstance(a0, int): return None
        for k, v in st.dom.items():
            if k[0] == 't' and k[1] == 'ult' and k[4] == b and v == frozenset((1,)):
                k0, kc = split(k[3])
                if k0 == a0 and ac <= kc: return 1
        return None

    def sbounds(self, A, w):
        h = 1 << (w - 1)
        if A[1] < h: return A
        if A[0] >= h: return (A[0] - 2 * h, A[1] - 2 * h)
        return None

    def tz(self, t):
        """Known trailing zero bits."""
        if isinstance(t, int):
            return 64 if t == 0 else (t & -t).bit_length() - 1
        if t[0] == 't':
            if t[1] == 'shl' and isinstance(t[4], int): return t[4] + self.tz(t[3])
            if t[1] == 'zext': return self.tz(t[3])
            if t[1] == 'and': return max(self.tz(t[3]), self.tz(t[4]))
        return 0

    def restrict(self, st, t, pred):
        """Keeps only the points of t's single finite base symbol for which pred(value) holds.
        Returns False when that leaves nothing, None when not applicable."""
        sp = self.support(t)
        if len(sp) != 1: return None
        s = sp[0]
        if s == t and s[0] == 't': return None
        ds = st.dom.get(s)
        if ds is None and s[0] == 's' and self.symw.get(s) == 1: ds = frozenset((0, 1))
        if ds is None or ds.__class__ is not frozenset: return None
        keep = frozenset(v for v in ds if pred(self.ev(t, {s: v})))
        st.dom[s] = keep
        return bool(keep)

    def assume(self, st, t, truth):
        """Refines a state by a boolean term. False: infeasible."""
        if isinstance(t, int): return bool(t) == bool(truth)
        d = self.dom(st, t)
        if d.__class__ is frozenset and (1 if truth else 0) not in d: return False
        r = self.restrict(st, t, lambda v: bool(v) == bool(truth))
        if r is not None: return r
        if t[0] == 't':
            op = t[1]
            if op == 'xor' and t[4] == 1: 
                return self.assume(st, t[3], not truth)
            if op == 'and' and truth:
                if not (self.assume(st, t[3], True) and self.assume(st, t[4], True)): return False
            if op == 'or' and not truth:
                if not (self.assume(st, t[3], False) and self.assume(st, t[4], False)): return False
            if op == 'eq' and truth:
                a, b = t[3], t[4]
                da, db = self.dom(st, a), self.dom(st, b)
                if not self.meet(st, a, db) or not self.meet(st, b, da): return False
            if op == 'eq' and not truth and isinstance(t[4], int):
                a = t[3]; da = self.dom(st, a)
                if da.__class__ is frozenset:
                    if not self.meet(st, a, da - {t[4]}): return False
                elif da[1] == t[4]:
                    if not self.meet(st, a, ('iv', da[1] + 1, da[2])): return False
                elif da[2] == t[4]:
                    if not self.meet(st, a, ('iv', da[1], da[2] - 1)): return False
            if op == 'ult':
                a, b = t[3], t[4]
                A = self.bounds(self.dom(st, a)); B = self.bounds(self.dom(st, b))
                w = max(self.width(a) if not isinstance(a, int) else 0, self.width(b) if not isinstance(b, int) else 0)
                if truth:
                    if not self.meet(st, a, ('iv', 0, B[1] - 1)): return False
                    if not self.meet(st, b, ('iv', A[0] + 1, MASK[w])): return False
                else:
                    if not self.meet(st, a, ('iv', B[0], MASK[w])): return False
                    if not self.meet(st, b, ('iv', 0, A[1])): return False
            if op == 'slt':
                a, b, ww = t[3], t[4], t[5]
                h = 1 << (ww - 1)
                A = self.sbounds(self.bounds(self.dom(st, a)), ww); B = self.sbounds(self.bounds(self.dom(st, b)), ww)
                # only refine when both sides are known non-negative, or against a constant
                if B and not isinstance(a, int):
                    if truth and A and A[0] >= 0: 
                        if not self.meet(st, a, ('iv', 0, max(B[1] - 1, 0))): return False
                    if not truth and B[0] >= 0:      # a >= b >= 0
                        if not self.meet(st, a, ('iv', B[0], h - 1)): return False
                    if truth and B[1] <= 0 and not A:   # a < 0
                        if not self.meet(st, a, ('iv', h, MASK[ww] if B[1] == 0 else MASK[ww] + B[1])): return False
                if A and not isinstance(b, int):
                    if truth and A[0] >= 0:
                        if not self.meet(st, b, ('iv', A[0] + 1, h - 1)): return False
                    if not truth and A[0] >= 0 and A[1] < h and B and B[0] >= 0:
                        if not self.meet(st, b, ('iv', 0, A[1])): return False
        st.dom[t] = frozenset((1 if truth else 0,))
        return True

    def meet(self, st, t, d):
        if isinstance(t, int):
            if d.__class__ is frozenset: return t in d
            return d[1] <= t <= d[2]
        cur = self.dom(st, t)
        if d.__class__ is frozenset:
            if cur.__class__ is frozenset: n = cur & d
            else: n = frozenset(v for v in d if cur[1] <= v <= cur[2])
            if not n: return False
        else:
            if d[1] > d[2]: return False
            if cur.__class__ is frozenset:
                n = frozenset(v for v in cur if d[1] <= v <= d[2])
                if not n: return False
            else:
                lo, hi = max(cur[1], d[1]), min(cur[2], d[2])
                if lo > hi: return False
                n = ('iv', lo, hi) if hi - lo > 16 else frozenset(range(lo, hi + 1))
        if n == cur: return True
        r = self.restrict(st, t, (lambda v: v in n) if n.__class__ is frozenset else (lambda v: n[1] <= v <= n[2]))
        if r is not None: return r
        st.dom[t] = n
        # propagate through simple shapes
        if t[0] == 't':
            if t[1] == 'zext': return self.meet(st, t[3], n)
            if t[1] == 'add' and isinstance(t[4], int) and n.__class__ is not frozenset:
                lo, hi = n[1] - t[4], n[2] - t[4]
                c = self.bounds(self.dom(st, t[3]))
                if lo >= 0 and c[1] + t[4] <= MASK[t[2]]: return self.meet(st, t[3], ('iv', lo, hi))
            if t[1] == 'add' and isinstance(t[4], int) and n.__class__ is frozenset:
                return self.meet(st, t[3], frozenset((v - t[4]) & MASK[t[2]] for v in n))
        return True

    def truth(self, st, t):
        """1, 0 or None (both possible)."""
        if isinstance(t, int): return 1 if t & 1 else 0
        if t == UNDEF: raise Terminal('undef-branch')
        d = self.dom(st, t)
        if d.__class__ is frozenset and len(d) == 1: return 1 if 1 in d else 0
        return None

    def values(self, st, t, cap=64):
        d = self.dom(st, t)
        if d.__class__ is frozenset and len(d) <= cap: return sorted(d)
        if d.__class__ is not frozenset and d[2] - d[1] < cap: return list(range(d[1], d[2] + 1))
        return None

    def split(self, st, t, loc=None, what=''):
        """Forks a state over the truth of a term -> [(state, 0/1)]."""
        v = self.truth(st, t)
        if v is not None: return [(st, v)]
        a = st.copy(); b = st
        r = []
        if self.assume(a, t, True):
            r.append((a, 1))
        if self.assume(b, t, False):
            r.append((b, 0))
        if what and len(r) == 2:
            r[0][0].note(loc, what + ': yes'); r[1][0].note(loc, what + ': no')
        if not r: raise Terminal('infeasible')
        return r

    def concretize(self, st, t, cap=300):
        """Forks a state over the possible values of a term -> [(state, int)]."""
        if isinstance(t, int): return [(st, t)]
        vs = self.values(st, t, cap)
        if vs is None: raise Undecided('cannot enumerate the values of %r' % (t,))
        r = []
        for k, v in enumerate(vs):
            s = st.copy() if k < len(vs) - 1 else st
            if self.meet(s, t, frozenset((v,))): r.append((s, v))
        return r

    # --------------------------------------------------------------- memory
    def new_region(self, st, tag, kind='h', backing=None):
        self.fresh_n += 1
        r = (kind, '%s.%d' % (tag, self.fresh_n))
        st.mem[r] = {}; st.owned.add(r)
        if backing: st.back[r] = backing
        return r

    def cells(self, st, r, write=False):
        c = st.mem.get(r)
        if c is None:
            c = self.materialise(st, r)
            if c is None: c = {}
            st.mem[r] = c; st.owned.add(r)
        elif write and r not in st.owned:
            c = dict(c); st.mem[r] = c; st.owned.add(r)
        return c

    def materialise(self, st, r):
        if isinstance(r, tuple) and r[0] == 'd':
            st.back.setdefault(r, ((-(1 << 40), 1 << 40, r[1], 0),))
            return {}
        if isinstance(r, tuple) and r[0] == 'g':
            return self.global_cells(st, r)
        return {}

    def global_cells(self, st, r):
        g = self.P.globals.get(r[1])
        c = {}
        if g is None:
            st.back.setdefault(r, ((-(1 << 40), 1 << 40, 'ext:' + r[1], 0),))
            return c
        back = []
        if not g['const'] and not self.start:
            if r[1].startswith('_ZGV'):     # function-local static: its first use is the analysed one
                st.back.setdefault(r, ((0, 8, b'\1' * 8 if self.guards_set else 'zero', 0),))
                return c
            if not self.guards_set and r[1].startswith('_ZZ') and '_ZGV' + r[1][2:] not in self.P.globals and g['init']:
                # function-local static with a constant initialiser: first the initial value, then
                # (see core.calls) whatever an earlier run left there
                self.statics.add(r[1])
                for e in g['init']:
                    off, size, kind = e[0], e[1], e[2]
                    if kind == 'zero': back.append((off, off + size, 'zero', 0))
                    elif kind == 'bytes': back.append((off, off + size, bytes.fromhex(e[3]), off))
                    else: c[off] = (size, self.const(e[3]))
                if back: st.back.setdefault(r, tuple(back))
                return c
            # contents of a mutable global are whatever earlier code left there
            st.back.setdefault(r, ((-(1 << 40), 1 << 40, 'glob:' + r[1], 0),))
            return c
        for e in g['init']:
            off, size, kind = e[0], e[1], e[2]
            if kind == 'zero': back.append((off, off + size, 'zero', 0))
            elif kind == 'bytes':
                raw = bytes.fromhex(e[3])
                back.append((off, off + size, raw, off))
            else:
                c[off] = (size, self.const(e[3]))
        if back: st.back.setdefault(r, tuple(back))
        return c

    def const(self, o):
        k = o[0]
        if k == 'i': return o[2] & MASK[o[1]] if o[1] <= 128 else 0
        if k == 'g': return ('p', ('g', o[1]), o[2])
        if k == 'u': return UNDEF
        if k == 'f': return ('f', o[1])
        if k == 'c':
            cells = []
            for e in o[1]:
                if e[2] == 'zero': cells.append((e[0], e[1], 0))
                elif e[2] == 'val': cells.append((e[0], e[1], self.const(e[3])))
            return ('k', tuple(cells))
        return ('t', 'opaque', 64, 'const', str(o))

    def tysize(self, ty):
        if isinstance(ty, list):
            return max([o + self.tysize(t) for o, t in ty] or [0])
        if ty == 'ptr': return 8
        if ty[0] == 'i': return max(1, int(ty[1:]) // 8) if int(ty[1:]) >= 8 else 1
        if ty == 'f32': return 4
        if ty == 'f64': return 8
        if ty == 'f80': return 16
        return 8

    def load(self, st, p, ty, loc=None):
        if isinstance(ty, list):
            return ('a', tuple((o, self.load(st, self.padd(p, o), t, loc)) for o, t in ty))
        if not (isinstance(p, tuple) and p[0] == 'p'):
            if isinstance(p, int): raise Terminal('nullderef', p)
            if p == UNDEF: raise Terminal('undef-deref')
            st.taint = st.taint or ('load through unknown pointer', loc)
            w = 64 if ty == 'ptr' else (int(ty[1:]) if ty[0] == 'i' else 64)
            return self.freshptr('unk') if ty == 'ptr' else self.fresh(w, 'unk')
        self.deref(st, p, loc)
        r, off = p[1], p[2]
        size = self.tysize(ty)
        if isinstance(r, tuple) and r[0] == 'sc': return self.load_strchar(st, p, ty, loc)
        if not isinstance(off, int):
            vs = self.values(st, off, 1)
            if vs is not None and len(vs) == 1: off = tosigned(vs[0], 64)
            else: return self.load_symbolic(st, p, ty, loc)
        z = self.asize.get(r)
        if z is not None and not 0 <= off <= z - size: raise Terminal('out of bounds', (p, 'load', loc))
        c = self.cells(st, r)
        e = c.get(off)
        if e is not None and e[0] == size: return self.retype(e[1], ty)
        # overlapping cells
        parts = []
        for o in range(off - 15, off + size):
            x = c.get(o)
            if x is None: continue
            if o + x[0] <= off: continue
            lo, hi = max(o, off), min(o + x[0], off + size)
            if isinstance(x[1], tuple) and x[1] and x[1][0] in ('str', 'map', 'obj', 'fnobj', 'os', 'is'):
                continue
            v = x[1] if (lo == o and hi == o + x[0]) else self.part(x[1], lo - o, hi - lo, x[0])
            parts.append((lo - off, hi - lo, v))
        covered = sum(s for _, s, _ in parts)
        if covered < size:
            if not parts: return self.backing(st, r, off, size, ty, loc)
            # fill the gaps (padding or unknown bytes)
            have = set()
            for o, s, _ in parts: have.update(range(o, o + s))
            k = 0
            while k < size:
                if k in have: k += 1; continue
                b = self.backing(st, r, off + k, 1, 'i8', loc)
                if b != UNDEF: parts.append((k, 1, b))
                k += 1
        if len(parts) == 1 and parts[0][0] == 0:
            v = parts[0][2]
            if parts[0][1] == size: return self.retype(v, ty)
        if isinstance(ty, str) and ty[0] == 'i' and int(ty[1:]) <= 64:
            return self.pack(parts)
        return self.pack(parts)

    def retype(self, v, ty):
        if ty == 'i1': 
            if isinstance(v, int): return v & 1
            if isinstance(v, tuple) and v[0] in 'st' and self.width(v) > 1: return self.mk('trunc', 1, v)
        elif ty == 'i8' and isinstance(v, tuple) and v[0] in 'st' and self.width(v) == 1:
            return self.mk('zext', 8, v, 1)
        return v

    def backing(self, st, r, off, size, ty, loc):
        bs = st.back.get(r, ())
        for lo, hi, lid, delta in reversed(bs):
            if lo <= off and off + size <= hi:
                if lid is None: return UNDEF
                if lid == 'zero': return 0
                if isinstance(lid, bytes):
                    k = off - delta
                    if size == 1: return lid[k]
                    return int.from_bytes(lid[k:k + size], 'little')
                name = ('lz', lid, off + delta, size)
                if ty == 'ptr': return ('p', ('d', name), 0)
                if ty in ('f32', 'f64', 'f80'): return ('s', name + (ty,))
                w = int(ty[1:]) if ty[0] == 'i' else 8 * size
                s = ('s', name); self.symw[s] = 8 * size
                if w == 1: self.symw[s] = 8; 
                if w < 8: return self.mk('trunc', w, s)
                return s
        return UNDEF

    def tabread(self, raw, idx, size):
        if idx < 0 or idx + size > len(raw): return 0
        return int.from_bytes(raw[idx:idx + size], 'little')

    def load_symbolic(self, st, p, ty, loc):
        r, off = p[1], p[2]
        self.cells(st, r)
        size = self.tysize(ty)
        bs = st.back.get(r, ())
        if len(bs) == 1 and isinstance(bs[0][2], bytes) and not st.mem[r] and ty[0] == 'i':
            o = self.mk('sub', 64, off, bs[0][3])
            d = self.dom(st, o); b = self.bounds(d)
            if b[1] + size > len(bs[0][2]): self.event(st, 'oob-table', (r, b, len(bs[0][2])), loc)
            return ('t', 'tab', 8 * size, bs[0][2], o)
        if isinstance(r, tuple) and r[0] == 'g' and st.mem[r] and ty[0] == 'i' and all(
                isinstance(v[1], int) for v in st.mem[r].values()):
            # constant table of integers
            end = max(o + v[0] for o, v in st.mem[r].items())
            for lo, hi, lid, _ in bs:
                if lid == 'zero': end = max(end, hi)
            raw = bytearray(end)
            for o, v in st.mem[r].items(): raw[o:o + v[0]] = v[1].to_bytes(v[0], 'little')
            for lo, hi, lid, dl in bs:
                if isinstance(lid, bytes): raw[lo:hi] = lid
            return ('t', 'tab', 8 * size, bytes(raw), off)
        vs = self.values(st, off, 16)
        if vs is not None:
            got = [self.load(st, ('p', r, tosigned(v, 64)), ty, loc) for v in vs]
            if all(g == got[0] for g in got): return got[0]
            if all(isinstance(g, int) or g[0] in 'st' for g in got):
                res = got[-1]; w = int(ty[1:]) if ty[0] == 'i' else 64
                for v, g in zip(vs[:-1], got[:-1]): res = self.mk('select', w, self.mk('eq', 1, off, v), g, res)
                return res
        w = 64 if ty == 'ptr' else (int(ty[1:]) if ty[0] == 'i' else 64)
        name = ('sx', r, off, size)
        if isinstance(r, tuple) and r[0] in ('d', 'V'):      # unknown array: element named by its index
            if ty == 'ptr': return ('p', ('d', name), 0)
            s = ('s', name); self.symw[s] = max(w, 8); return s
        st.taint = st.taint or ('load at unknown offset', loc)
        return self.freshptr('sx') if ty == 'ptr' else self.fresh(w, 'sx')

    def store(self, st, p, v, ty, loc=None):
        if isinstance(ty, list):
            if isinstance(v, tuple) and v[0] == 'a':
                for (o, t), (o2, x) in zip(ty, v[1]): self.store(st, self.padd(p, o), x, t, loc)
                return
            if isinstance(v, tuple) and v[0] == 'k':
                for o, s, x in v[1]: self.store_raw(st, self.padd(p, o), x, s, loc)
                return
            if v == UNDEF or v == 0:
                for o, t in ty: self.store(st, self.padd(p, o), v, t, loc)
                return
            st.taint = st.taint or ('aggregate store', loc); return
        self.store_raw(st, p, v, self.tysize(ty), loc)

    def store_raw(self, st, p, v, size, loc=None):
        if not (isinstance(p, tuple) and p[0] == 'p'):
            if isinstance(p, int): raise Terminal('nullderef', p)
            if p == UNDEF: raise Terminal('undef-deref')
            st.taint = st.taint or ('store through unknown pointer', loc); return
        self.deref(st, p, loc)
        r, off = p[1], p[2]
        if isinstance(r, tuple) and r[0] == 'sc': return self.store_strchar(st, p, v, loc)
        if not isinstance(off, int):
            vs = self.values(st, off, 1)
            if vs is not None and len(vs) == 1: off = tosigned(vs[0], 64)
            else:
                self.event(st, 'store-symbolic', (p, v, size), loc)
                c = self.cells(st, r, True)
                if r[0] == 'd': return
                st.taint = st.taint or ('store at unknown offset', loc); return
        z = self.asize.get(r)
        if z is not None and not 0 <= off <= z - size: raise Terminal('out of bounds', (p, 'store', loc))
        c = self.cells(st, r, True)
        if self.on_store: self.on_store(self, st, r, off, size, v, loc)
        self.clear(st, c, off, size)
        if isinstance(v, tuple) and v[0] == 'k':
            st.back[r] = st.back.get(r, ()) + ((off, off + size, None, 0),)
            for o, s, x in v[1]: c[off + o] = (s, x)
            return
        c[off] = (size, v)

    def clear(self, st, c, off, size):
        if off in c and c[off][0] == size: return
        for o in [o for o in c if off - 64 < o < off + size]:
            s, v = c[o]
            if o + s <= off: continue
            if isinstance(v, tuple) and v and v[0] in ('str', 'map', 'obj', 'fnobj', 'os', 'is'):
                if o >= off and o + s <= off + size: del c[o]
                continue
            del c[o]
            if o < off: c[o] = (off - o, self.part(v, 0, off - o, s))
            if o + s > off + size: c[off + size] = (o + s - off - size, self.part(v, off + size - o, o + s - off - size, s))

    def copy_mem(self, st, dst, src, n, loc=None):
        if n == 0: return
        for p in (dst, src):
            if not (isinstance(p, tuple) and p[0] == 'p'):
                if isinstance(p, int): raise Terminal('nullderef', p)
                st.taint = st.taint or ('memcpy through unknown pointer', loc); return
        if not isinstance(n, int) or not isinstance(dst[2], int) or not isinstance(src[2], int):
            st.taint = st.taint or ('memcpy of unknown extent', loc); return
        self.deref(st, dst, loc); self.deref(st, src, loc)
        if src[1][0] == 'sc':
            st.taint = st.taint or ('memcpy from string', loc); return
        cs = self.cells(st, src[1]); so = src[2]; do = dst[2]
        moved = []
        for o, (s, v) in cs.items():
            if o + s <= so or o >= so + n: continue
            if o >= so and o + s <= so + n: moved.append((o - so, s, v))
            else:
                lo, hi = max(o, so), min(o + s, so + n)
                moved.append((lo - so, hi - lo, self.part(v, lo - o, hi - lo, s)))
        nb = []
        for lo, hi, lid, dl in st.back.get(src[1], ()):
            l, h = max(lo, so), min(hi, so + n)
            if l < h: nb.append((l - so + do, h - so + do, lid, dl + (so - do) if not isinstance(lid, bytes) else dl + do - so))
        cd = self.cells(st, dst[1], True)
        for o in [o for o in cd if do - 64 < o < do + n]:
            s, v = cd[o]
            if o + s <= do: continue
            del cd[o]
            if o < do: cd[o] = (do - o, self.part(v, 0, do - o, s))
        ob = st.back.get(dst[1], ())
        if nb or ob: st.back[dst[1]] = ob + ((do, do + n, None, 0),) + tuple(nb)
        for o, s, v in moved:
            cd[do + o] = (s, v)
            if self.on_store: self.on_store(self, st, dst[1], do + o, s, v, loc)

    def deref(self, st, p, loc):
        r = p[1]
        if isinstance(r, tuple) and r[0] == 'd':
            k = ('t', 'atom', 1, 'null', r)
            v = st.dom.get(k)
            if v is None: st.dom[k] = frozenset((0,))
            elif 1 in v: raise Terminal('nullderef', p)
        if r in st.freed: self.event(st, 'use-after-free', p, loc)

    # strings ------------------------------------------------------------
    def getstr(self, st, p, loc=None):
        """Abstract contents of a std::string object: tuple of parts."""
        if not (isinstance(p, tuple) and p[0] == 'p'):
            if isinstance(p, int): raise Terminal('nullderef', p)
            st.taint = st.taint or ('string through unknown pointer', loc)
            return (('S', self.fresh(64, 'str')),)
        self.deref(st, p, loc)
        c = self.cells(st, p[1])
        e = c.get(p[2])
        if e is not None and isinstance(e[1], tuple) and e[1] and e[1][0] == 'str': return e[1][1]
        if not isinstance(p[2], int):
            return (('S', ('lzs', p[1], p[2])),)
        for lo, hi, lid, delta in reversed(st.back.get(p[1], ())):
            if lo <= p[2] < hi:
                if lid is None or lid == 'zero' or isinstance(lid, bytes): break
                return (('S', ('lz', lid, p[2] + delta)),)
        if p[1][0] == 'd': return (('S', ('lz', p[1][1], p[2])),)
        st.taint = st.taint or ('string read before construction', loc)
        return (('S', self.fresh(64, 'str')),)

    def setstr(self, st, p, parts, loc=None):
        if not (isinstance(p, tuple) and p[0] == 'p'):
            if isinstance(p, int): raise Terminal('nullderef', p)
            st.taint = st.taint or ('string through unknown pointer', loc); return
        if not isinstance(p[2], int):
            self.event(st, 'str-write-symbolic', (p, parts), loc); return
        self.deref(st, p, loc)
        c = self.cells(st, p[1], True)
        for o in range(p[2], p[2] + 32):
            c.pop(o, None)
        c[p[2]] = (32, ('str', tuple(parts)))
        if self.on_store: self.on_store(self, st, p[1], p[2], 32, ('str', tuple(parts)), loc)

    def load_strchar(self, st, p, ty, loc):
        base = ('p', p[1][1], p[1][2])
        parts = self.getstr(st, base, loc)
        off = p[2]
        if not isinstance(off, int):
            vs = self.values(st, off, 1)
            if vs and len(vs) == 1: off = tosigned(vs[0], 64)
        n = len(parts)
        if isinstance(off, int):
            if off < 0:
                self.event(st, 'str-oob', (off, n), loc); return self.fresh(8, 'oob')
            pre = 0
            while pre < n and not (isinstance(parts[pre], tuple) and parts[pre][0] == 'S'): pre += 1
            if off < pre: return parts[off]
            if pre == n:
                if off == n: return 0
                self.event(st, 'str-oob', (off, n), loc); return self.fresh(8, 'oob')
            s = ('s', ('chr', parts[pre], off - pre)); self.symw[s] = 8
            if s not in st.dom: st.dom[s] = frozenset(range(256))
            return s
        self.event(st, 'str-index', (parts, off), loc)
        s = ('s', ('chr', parts, off)); self.symw[s] = 8
        if s not in st.dom: st.dom[s] = frozenset(range(256))
        return s

    def store_strchar(self, st, p, v, loc):
        base = ('p', p[1][1], p[1][2])
        parts = list(self.getstr(st, base, loc))
        if isinstance(p[2], int) and p[2] < len(parts) and not any(
                isinstance(x, tuple) and x[0] == 'S' for x in parts[:p[2] + 1]):
            parts[p[2]] = v; self.setstr(st, base, parts, loc); return
        st.taint = st.taint or ('store into string', loc)

    def cstr(self, st, p, loc=None):
        """Parts of a C string."""
        if not (isinstance(p, tuple) and p[0] == 'p'):
            if isinstance(p, int): raise Terminal('nullderef', p)
            return (('S', self.fresh(64, 'cstr')),)
        if p[1][0] == 'sc':
            parts = self.getstr(st, ('p', p[1][1], p[1][2]), loc)
            if isinstance(p[2], int) and p[2] <= len(parts) and not any(isinstance(x, tuple) and x[0] == 'S' for x in parts[:p[2]]):
                return parts[p[2]:]
            return (('S', ('cstr', p)),)
        self.cells(st, p[1])
        bs = st.back.get(p[1], ())
        if isinstance(p[2], int) and p[1][0] == 'g':
            out = []; k = p[2]
            while True:
                v = self.load(st, ('p', p[1], k), 'i8', loc)
                if not isinstance(v, int): break
                if v == 0: return tuple(out)
                out.append(v); k += 1
                if k - p[2] > 5000: break
        return (('S', ('cstr', p)),)

    # ------------------------------------------------------------ execution
    def event(self, st, kind, data, loc=None):
        if self.monitor: self.monitor(self, st, kind, data, loc)

    monitor = None

    def hook(self, name):
        h = self.hookcache.get(name, 0)
        if h == 0:
            qn, params, dem = self.P.qn(name)
            h = None
            for pred, f in reversed(self.hooks):
                if pred(qn, params, dem, name): h = f; break
            self.hookcache[name] = h
        return h

    def add_hook(self, names, f):
        """names: qualified name, set of names or predicate."""
        if callable(names): pred = names
        else:
            ns = {names} if isinstance(names, str) else set(names)
            pred = lambda qn, params, dem, name: qn in ns or name in ns
        self.hooks.append((pred, f)); self.hookcache = {}

    def val(self, fr, o):
        if isinstance(o, int): return fr.regs.get(o, UNDEF)
        if o is None: return None
        return self.const(o)

    def run(self, fn, args, st=None, deadline=None):
        """Analyses fn from the given abstract arguments; returns all outcomes."""
        st = st or State()
        base = len(st.frames)
        self.push(st, fn, args)
        work = [st]; outs = []; seen = {}; nstates = 0
        self.undecided = []
        steps = 0
        while work:
            s = work.pop()
            nstates += 1
            if nstates > self.max_states or steps > self.max_steps:
                self.undecided.append(('budget', fn.dem, len(work)))
                break
            while True:
                steps += 1
                try:
                    r = self.step(s, base, seen, outs)
                except Terminal as t:
                    if t.kind != 'infeasible':
                        outs.append(Outcome(t.kind, s, None, self.curloc(s), t.data))
                    break
                except Undecided as u:
                    self.undecided.append((str(u), self.P.loc(self.curloc(s)), s))
                    break
                if r is None: continue
                if r is False: break
                work.extend(r)
                break
        self.total_steps += steps
        return outs

    def curloc(self, st):
        for f in reversed(st.frames):
            b = f.fn.blocks[f.bb]
            i = min(f.ii, len(b) - 1)
            l = b[i][1]
            if l and not self.is_std(f.fn): return l
        return None

    def is_std(self, fn):
        return fn.file.startswith('/usr/')

    def stack(self, st):
        return ['%s' % f.fn.qn for f in st.frames]

    def push(self, st, fn, args):
        self.fns_seen.add(fn.name)
        f = Frame(fn)
        for k, a in enumerate(args):
            if k < len(fn.args): f.regs[k] = a
        st.frames.append(f)
        if len(st.frames) > self.max_depth:
            if self.endless: raise Terminal('endless recursion')
            raise Undecided('recursion depth')

    def goto(self, st, fr, bb):
        fr.prev = fr.bb; fr.bb = bb; fr.ii = 0

    def step(self, st, base, seen, outs):
        """One instruction. None: continue; False: path finished; list: forks."""
        fr = st.frames[-1]
        fn = fr.fn
        if fr.ii == 0:
            self.blocks_seen.add((fn.name, fr.bb))
            blk = fn.blocks[fr.bb]
            # phis first
            if blk[0][0] == 'phi':
                new = []
                k = 0
                while blk[k][0] == 'phi':
                    ins = blk[k]
                    for pb, v in ins[3]:
                        if pb == fr.prev: new.append((ins[2], self.val(fr, v))); break
                    k += 1
                for d, v in new: fr.regs[d] = v
                fr.ii = k
            if fr.bb in fn.headers:
                if fr.visits is None: fr.visits = {}
                n = fr.visits.get(fr.bb, (0, None))
                if fr.prev not in fn.headers[fr.bb] and n[0] <= self.widen: n = (0, None)     # the loop starts again
                cnt = n[0] + 1
                # keep live registers only
                live = fn.live_in[fr.bb]
                keep = set(live)
                for ins in blk:
                    if ins[0] != 'phi': break
                    keep.add(ins[2])
                fr.regs = {k: v for k, v in fr.regs.items() if k in keep}
                if cnt > self.widen: self.do_widen(st, fr, n[1])
                snap = dict(fr.regs) if cnt >= self.widen - 1 else None
                fr.visits[fr.bb] = (cnt, snap)
                if cnt > self.lazykey:
                    key = self.key(st)
                    if key in seen:
                        self.joins += 1
                        return False
                    seen[key] = True
        blk = fn.blocks[fr.bb]
        ins = blk[fr.ii]
        op = ins[0]
        loc = ins[1]
        st.steps += 1
        if op == 'call': return self.do_call(st, fr, ins)
        if op == 'load':
            p = self.val(fr, ins[3])
            if self.on_access: self.on_access(self, st, 'load', p, bool(ins[5]), loc)
            fr.regs[ins[2]] = self.load(st, p, ins[4], loc); fr.ii += 1; return None
        if op == 'store':
            if self.on_access: self.on_access(self, st, 'store', self.val(fr, ins[3]), bool(ins[5]), loc)
            self.store(st, self.val(fr, ins[3]), self.val(fr, ins[2]), ins[4], loc); fr.ii += 1; return None
        if op == 'gep':
            p = self.val(fr, ins[3])
            p = self.padd(p, ins[4]) if ins[4] else p
            for o, sc in ins[5]:
                v = self.val(fr, o)
                w = 64
                if isinstance(v, int): d = tosigned(v * sc & MASK[64], 64)
                elif isinstance(v, tuple) and v[0] in 'st':
                    if self.width(v) < 64: v = self.mk('sext', 64, v, self.width(v))
                    d = self.mk('mul', 64, v, sc & MASK[64])
                else: d = ('t', 'opaque', 64, 'idx', v, sc)
                p = self.padd(p, d)
            fr.regs[ins[2]] = p; fr.ii += 1; return None
        if op == 'alloca':
            self.fresh_n += 1
            r = ('a', self.fresh_n)
            st.mem[r] = {}; st.owned.add(r)
            if isinstance(ins[3], int): self.asize[r] = ins[3]
            fr.allocas = fr.allocas + (r,)
            fr.regs[ins[2]] = ('p', r, 0); fr.ii += 1; return None
        if op == 'icmp':
            fr.regs[ins[2]] = self.icmp(st, ins[3], self.val(fr, ins[4]), self.val(fr, ins[5]), ins[6])
            fr.ii += 1; return None
        if op == 'bin':
            ty = ins[4]
            a, b = self.val(fr, ins[5]), self.val(fr, ins[6])
            if ty[0] == 'i': 
                w = int(ty[1:])
                if ins[3] in ('shl', 'lshr', 'ashr'): self.event(st, 'shift', (ins[3], w, a, b), loc)
                if ins[3] in ('udiv', 'sdiv', 'urem', 'srem'): self.event(st, 'div', (ins[3], w, a, b), loc)
                fr.regs[ins[2]] = self.mk(ins[3], w, a, b)
            else: fr.regs[ins[2]] = exact(ins[3], fval(a), fval(b)) or ('t', 'opaque', 64, ins[3], a, b)
            fr.ii += 1; return None
        if op == 'cast':
            fr.regs[ins[2]] = self.cast(st, ins[3], ins[4], ins[5], self.val(fr, ins[6]))
            fr.ii += 1; return None
        if op == 'br':
            self.goto(st, fr, ins[2]); return None
        if op == 'cbr':
            c = self.val(fr, ins[2])
            v = self.truth(st, c)
            if v is not None:
                self.goto(st, fr, ins[3] if v else ins[4]); return None
            res = []
            for s, t in self.split(st, c):
                f = s.frames[-1]
                s.note(loc, 'branch %s' % ('taken' if t else 'not taken'))
                self.goto(s, f, ins[3] if t else ins[4]); res.append(s)
            return res
        if op == 'switch':
            c = self.val(fr, ins[2])
            if c == UNDEF: raise Terminal('undef-branch')
            if isinstance(c, int):
                for v, b in ins[4]:
                    if v == c: self.goto(st, fr, b); return None
                self.goto(st, fr, ins[3]); return None
            res = []; cases = []
            d = self.dom(st, c)
            if d.__class__ is frozenset and len(self.support(c)) == 1:
                # cases with the same target stay together
                tgt = {}
                for v, b in ins[4]: tgt.setdefault(b, set()).add(v)
                rest = d - frozenset(v for v, _ in ins[4])
                if rest: tgt.setdefault(ins[3], set()).update(rest)
                for b, vs in tgt.items():
                    s = st.copy()
                    if not self.meet(s, c, frozenset(vs)): continue
                    s.note(loc, 'case %s' % (' '.join(str(v) for v in sorted(vs)[:6])) if vs != rest else 'default')
                    self.goto(s, s.frames[-1], b); res.append(s)
                return res
            for v, b in ins[4]:
                s = st.copy()
                if self.meet(s, c, frozenset((v,))) and self.assume(s, self.mk('eq', 1, c, v), True):
                    s.note(loc, 'case %d' % v); self.goto(s, s.frames[-1], b); res.append(s)
                cases.append(v)
            s = st
            d = self.dom(s, c)
            ok = True
            if d.__class__ is frozenset: ok = self.meet(s, c, d - frozenset(cases)) if d - frozenset(cases) else False
            else:
                for v in cases:
                    if not self.assume(s, self.mk('eq', 1, c, v), False): ok = False; break
            if ok:
                s.note(loc, 'default'); self.goto(s, s.frames[-1], ins[3]); res.append(s)
            return res
        if op == 'ret':
            v = self.val(fr, ins[2]) if ins[2] is not None else None
            return self.do_ret(st, v, base, outs, loc)
        if op == 'select':
            c = self.val(fr, ins[3]); a = self.val(fr, ins[4]); b = self.val(fr, ins[5])
            t = self.truth(st, c)
            if t is not None: fr.regs[ins[2]] = a if t else b; fr.ii += 1; return None
            if all(isinstance(x, int) or x[0] in 'st' for x in (a, b)):
                w = max([self.width(x) for x in (a, b) if not isinstance(x, int)] or [64])
                if self.width(c) == 1 and isinstance(a, int) and isinstance(b, int) and a <= 1 and b <= 1: w = 1
                fr.regs[ins[2]] = self.mk('select', w, c, a, b); fr.ii += 1; return None
            res = []
            for s, t in self.split(st, c):
                f = s.frames[-1]; f.regs[ins[2]] = a if t else b; f.ii += 1; res.append(s)
            return res
        if op == 'extract':
            a = self.val(fr, ins[3])
            if isinstance(a, tuple) and a[0] == 'a' and len(ins[4]) == 1: v = a[1][ins[4][0]][1]
            elif isinstance(a, tuple) and a[0] == 'k': v = a[1][ins[4][0]][2] if ins[4][0] < len(a[1]) else 0
            elif a == UNDEF: v = UNDEF
            else: v = ('t', 'opaque', 64, 'ext', a, tuple(ins[4]))
            fr.regs[ins[2]] = v; fr.ii += 1; return None
        if op == 'insert':
            a = self.val(fr, ins[3]); x = self.val(fr, ins[4]); ty = ins[6]
            if isinstance(a, tuple) and a[0] == 'a': parts = list(a[1])
            else: parts = [(o, UNDEF) for o, _ in ty] if isinstance(ty, list) else []
            k = ins[5][0]
            if k < len(parts): parts[k] = (parts[k][0], x)
            fr.regs[ins[2]] = ('a', tuple(parts)); fr.ii += 1; return None
        if op == 'unreachable': raise Terminal('unreachable')
        if op == 'landingpad':
            fr.regs[ins[2]] = ('a', ((0, self.freshptr('exc')), (8, self.fresh(32, 'sel')))); fr.ii += 1; return None
        if op == 'resume':
            return self.unwind(st, base, outs, loc)
        if op == 'other':
            o = ins[3]
            if o == 'freeze': fr.regs[ins[2]] = self.val(fr, ins[5][0])
            elif o == 'fcmp': fr.regs[ins[2]] = self.fcmp(ins[6], *[self.val(fr, x) for x in ins[5]])
            elif o in ('atomicrmw', 'cmpxchg'):
                p, a = self.val(fr, ins[5][0]), self.val(fr, ins[5][1])
                ty = ins[7]; w = 64 if ty == 'ptr' else int(ty[1:])
                if self.on_access:
                    self.on_access(self, st, 'load', p, True, loc); self.on_access(self, st, 'store', p, True, loc)
                old = self.load(st, p, ty, loc)
                if o == 'cmpxchg':
                    b = self.val(fr, ins[5][2])
                    same = self.icmp(st, 'eq', old, a, w)
                    new = (b if same else old) if isinstance(same, int) else (
                        self.mk('select', w, same, b, old) if ty != 'ptr' else ('t', 'opaque', 64, 'cmpxchg', old, a, b))
                    fr.regs[ins[2]] = ('a', ((0, old), (self.tysize(ty), same)))
                else:
                    k = ins[6]
                    if k == 'xchg': new = a
                    elif k in ('add', 'sub', 'and', 'or', 'xor') and ty != 'ptr': new = self.mk(k, w, old, a)
                    else: new = self.fresh(w, 'rmw'); st.taint = st.taint or ('atomicrmw ' + k, loc)
                    fr.regs[ins[2]] = old
                self.store(st, p, new, ty, loc)
            elif o == 'fence': pass
            elif o == 'fneg': fr.regs[ins[2]] = ('t', 'opaque', 64, 'fneg', self.val(fr, ins[5][0]))
            else:
                st.taint = st.taint or ('instruction ' + o, loc)
                if ins[2] >= 0: fr.regs[ins[2]] = self.fresh(64, o)
            fr.ii += 1; return None
        raise Undecided('instruction ' + op)

    def do_widen(self, st, fr, prev):
        if not prev: return
        for k, v in list(fr.regs.items()):
            pv = prev.get(k)
            if pv is not None and pv != v:
                if isinstance(v, int) or isinstance(v, tuple) and v[0] in 'st':
                    w = 64
                    for ins in fr.fn.blocks[fr.bb]:
                        if ins[0] == 'phi' and ins[2] == k and ins[4][0] == 'i': w = int(ins[4][1:])
                    s = self.fresh(w, 'widen'); fr.regs[k] = s
                elif isinstance(v, tuple) and v[0] == 'p' and isinstance(pv, tuple) and pv[0] == 'p' and v[1] == pv[1]:
                    fr.regs[k] = ('p', v[1], self.fresh(64, 'widen'))
        if fr.visits[fr.bb][0] > 3 * self.widen: raise Undecided('loop does not converge')

    def do_ret(self, st, v, base, outs, loc):
        fr = st.frames.pop()
        if len(st.frames) == base:
            st.frames.append(fr)
            outs.append(Outcome('return', st, v, loc))
            return False
        for r in fr.allocas:
            st.mem.pop(r, None); st.back.pop(r, None)
        c = st.frames[-1].copy()
        st.frames[-1] = c
        if fr.retinfo is not None:
            # return to a model's continuation
            return fr.retinfo(self, st, v)
        ins = c.fn.blocks[c.bb][c.ii]
        if ins[2] is not None and ins[2] >= 0: c.regs[ins[2]] = v
        if ins[6] is not None: self.goto(st, c, ins[6])
        else: c.ii += 1
        return None

    def finish_call(self, st, v):
        """Completes the call instruction at the top frame with value v."""
        c = st.frames[-1]
        ins = c.fn.blocks[c.bb][c.ii]
        if ins[2] is not None and ins[2] >= 0: c.regs[ins[2]] = v
        if ins[6] is not None: self.goto(st, c, ins[6])
        else: c.ii += 1

    def unwind(self, st, base, outs, loc):
        fr = st.frames.pop()
        for r in fr.allocas: st.mem.pop(r, None)
        while len(st.frames) > base:
            c = st.frames[-1].copy(); st.frames[-1] = c
            ins = c.fn.blocks[c.bb][c.ii]
            if ins[0] == 'call' and ins[7] is not None:
                self.goto(st, c, ins[7]); return None
            st.frames.pop()
        st.frames.append(fr)
        outs.append(Outcome('throw', st, None, loc, st.exc))
        return False

    def throw(self, st, what):
        """Starts unwinding from the call instruction at the top frame."""
        st.exc = what
        c = st.frames[-1]
        ins = c.fn.blocks[c.bb][c.ii]
        if ins[0] == 'call' and ins[7] is not None:
            self.goto(st, c, ins[7]); return st
        st.mon = dict(st.mon); 
        raise Terminal('throw', what)

    def do_call(self, st, fr, ins):
        callee = self.val(fr, ins[3])
        args = [self.val(fr, a) for a in ins[4]]
        return self.invoke(st, fr, ins, callee, args)

    def invoke(self, st, fr, ins, callee, args):
        loc = ins[1]
        name = None
        if isinstance(callee, tuple) and callee[0] == 'p' and callee[1][0] == 'g' and callee[2] == 0: name = callee[1][1]
        if name is None:
            h = self.indirect
            if h is None: raise Undecided('indirect call')
            return self.apply_hook(h, st, fr, ins, callee, args, None)
        h = self.hook(name)
        if h is not None: return self.apply_hook(h, st, fr, ins, callee, args, name)
        f = self.P.fn(name)
        if f is None:
            qn, params, dem = self.P.qn(name)
            return self.apply_hook(self.unknown, st, fr, ins, callee, args, name)
        # byval arguments get their own copy
        for k, a in enumerate(f.args):
            if a[1] == 'byval' and k < len(args):
                r = self.new_region(st, 'byval', 'b')
                self.copy_mem(st, ('p', r, 0), args[k], a[2], loc)
                args[k] = ('p', r, 0)
        if len(args) < len(f.args) and not st.taint:
            # a function entered with fewer arguments than it takes
            st.mon['badcall'] = (f.qn, tuple(loc) if isinstance(loc, list) else loc)
        self.push(st, f, args)
        return None

    indirect = None

    def unknown(self, eng, st, call):
        """An external function nobody modelled: its result is anything."""
        self.opaque[call.qn] = self.opaque.get(call.qn, 0) + 1
        st.taint = st.taint or ('unmodelled call to ' + call.qn, call.loc)
        ty = call.retty
        if ty == 'void': return [(st, None)]
        if ty == 'ptr': return [(st, self.freshptr('ext'))]
        if isinstance(ty, list): return [(st, ('a', tuple((o, self.freshptr('ext') if t == 'ptr' else self.fresh(64, 'ext')) for o, t in ty)))]
        w = int(ty[1:]) if ty[0] == 'i' else 64
        return [(st, self.fresh(w, 'ext'))]

    def apply_hook(self, h, st, fr, ins, callee, args, name):
        call = Call(self, name, ins, args, callee)
        r = h(self, st, call)
        if r == 'inline':
            f = self.P.fn(name)
            if f is None: return self.apply_hook(self.unknown, st, fr, ins, callee, args, name)
            for k, a in enumerate(f.args):
                if a[1] == 'byval' and k < len(args):
                    rg = self.new_region(st, 'byval', 'b')
                    self.copy_mem(st, ('p', rg, 0), args[k], a[2], ins[1])
                    args[k] = ('p', rg, 0)
            self.push(st, f, args); return None
        if r is None: r = [(st, None)]
        if r == 'pushed': return None
        res = []
        for x in r:
            if len(x) == 2:
                s, v = x
                self.finish_call(s, v); res.append(s)
            else:          # (state, 'throw', what) or (state, 'raw')
                s, k, d = x
                if k == 'throw':
                    try: res.append(self.throw(s, d))
                    except Terminal as t: self.pending.append(Outcome('throw', s, None, ins[1], d))
                elif k == 'raw': res.append(s)
                elif k == 'end': self.pending.append(Outcome(d[0], s, None, ins[1], d[1]))
        if len(res) == 1 and res[0] is st and not self.pending: return None
        return res

    pending = []

    def run_all(self, *a, **k):
        self.pending = []
        outs = self.run(*a, **k)
        outs.extend(self.pending); self.pending = []
        return outs

    FCMP = {'oeq': (0, 1, 0, 0), 'one': (1, 0, 1, 0), 'olt': (1, 0, 0, 0), 'ole': (1, 1, 0, 0), 'ogt': (0, 0, 1, 0), 'oge': (0, 1, 1, 0), 'ord': (1, 1, 1, 0),
            'ueq': (0, 1, 0, 1), 'une': (1, 0, 1, 1), 'ult': (1, 0, 0, 1), 'ule': (1, 1, 0, 1), 'ugt': (0, 0, 1, 1), 'uge': (0, 1, 1, 1), 'uno': (0, 0, 0, 1)}

    def fcmp(self, pred, a, b):
        x, y = fval(a), fval(b)
        if x is None or y is None or pred not in self.FCMP: return ('t', 'opaque', 1, 'fcmp', pred, a, b)
        return self.FCMP[pred][0 if x < y else 1 if x == y else 2 if x > y else 3]

    def icmp(self, st, pred, a, b, w):
        if a == UNDEF or b == UNDEF: return UNDEF
        pa = isinstance(a, tuple) and a[0] == 'p'; pb = isinstance(b, tuple) and b[0] == 'p'
        if pa or pb:
            if pred in ('eq', 'ne'):
                t = self.peq(st, a, b)
                return t if pred == 'eq' else self.mk('xor', 1, t, 1)
            if pa and pb and a[1] == b[1]:
                x = a[2] & MASK[64] if isinstance(a[2], int) else a[2]
                y = b[2] & MASK[64] if isinstance(b[2], int) else b[2]
                return self.icmp(st, pred, x, y, 64)
            return ('t', 'opaque', 1, pred, a, b)
        for x in (a, b):
            if isinstance(x, tuple) and x[0] == 'k':
                # compare packs piecewise for equality with a constant
                if pred in ('eq', 'ne') and (isinstance(a, int) or isinstance(b, int)):
                    k = a if isinstance(a, tuple) else b; c = b if k is a else a
                    t = 1
                    for o, s, v in k[1]:
                        t = self.mk('and', 1, t, self.icmp(st, 'eq', v, c >> (8 * o) & MASK[8 * s], 8 * s))
                    return t if pred == 'eq' else self.mk('xor', 1, t, 1)
                return ('t', 'opaque', 1, pred, a, b)
            if isinstance(x, tuple) and x[0] not in 'st': return ('t', 'opaque', 1, pred, a, b)
        if pred == 'eq': return self.mk('eq', 1, a, b)
        if pred == 'ne': return self.mk('xor', 1, self.mk('eq', 1, a, b), 1)
        if pred == 'ult': return self.mk('ult', 1, a, b)
        if pred == 'ugt': return self.mk('ult', 1, b, a)
        if pred == 'uge': return self.mk('xor', 1, self.mk('ult', 1, a, b), 1)
        if pred == 'ule': return self.mk('xor', 1, self.mk('ult', 1, b, a), 1)
        if pred == 'slt': return self.mk('slt', 1, a, b, w)
        if pred == 'sgt': return self.mk('slt', 1, b, a, w)
        if pred == 'sge': return self.mk('xor', 1, self.mk('slt', 1, a, b, w), 1)
        if pred == 'sle': return self.mk('xor', 1, self.mk('slt', 1, b, a, w), 1)
        raise Undecided('icmp ' + pred)

    def peq(self, st, a, b):
        if a == b: return 1
        if isinstance(a, int): a, b = b, a
        if isinstance(b, int):
            if b != 0:
                return 0 if isinstance(a, tuple) and a[0] == 'p' and a[1][0] != 'd' else ('t', 'atom', 1, 'peq', a, b)
            if isinstance(a, int): return 1 if a == b else 0
            if a[0] == 'p':
                if a[1][0] == 'd':
                    if a[2] == 0: return ('t', 'atom', 1, 'null', a[1])
                    return 0
                return 0
            return ('t', 'atom', 1, 'peq', a, b)
        if a[0] == 'p' and b[0] == 'p':
            if a[1] == b[1]:
                x = a[2] & MASK[64] if isinstance(a[2], int) else a[2]
                y = b[2] & MASK[64] if isinstance(b[2], int) else b[2]
                return self.mk('eq', 1, x, y)
            ka, kb = a[1][0], b[1][0]
            if ka != 'd' and kb != 'd': return 0
            if 'd' in (ka, kb) and ({ka, kb} - {'d'}) & {'a', 'h', 'b'}: return 0
            x, y = sorted((a, b), key=repr)
            return ('t', 'atom', 1, 'peq', x, y)
        x, y = sorted((a, b), key=repr)
        return ('t', 'atom', 1, 'peq', x, y)

    def cast(self, st, op, src, dst, v):
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'): return v
        if v == UNDEF: return UNDEF
        if op == 'trunc':
            return self.mk('trunc', int(dst[1:]), v)
        if op in ('zext', 'sext'):
            return self.mk(op, int(dst[1:]), v, int(src[1:]))
        return ('t', 'opaque', int(dst[1:]) if dst[0] == 'i' else 64, op, v)

    # ------------------------------------------------------- canonical keys
    def key(self, st):
        """State up to renaming of symbols and regions, dead parts dropped."""
        names = {}; order = []
        def canon(x, d=0):
            if isinstance(x, (int, str, bytes)) or x is None: return x
            if isinstance(x, frozenset): return x
            t = x[0] if x else None
            if t == 's':
                r = names.get(x)
                if r is None:
                    r = names[x] = ('S', len(names)); order.append(x)
                return r
            if t == 'p':
                rg = x[1]
                if rg[0] == 'g': return ('p', rg, canon(x[2]))
                if rg[0] == 'sc':
                    return ('p', ('sc', canon(('p', rg[1], rg[2]))), canon(x[2]))
                r = names.get(rg)
                if r is None:
                    r = names[rg] = ('R', rg[0] if rg[0] not in ('d',) else 'd', len(names)); order.append(rg)
                return ('p', r, canon(x[2]))
            if isinstance(x, tuple): return tuple(canon(y) for y in x)
            return x
        parts = []
        nf = len(st.frames)
        for k, f in enumerate(st.frames):
            if k == nf - 1: live = sorted(f.regs)
            else:
                la = self.live_after(f)
                live = [r for r in sorted(f.regs) if r in la]
            parts.append((f.fn.name, f.bb, f.ii, f.prev if k < nf - 1 else 0) + tuple((r, canon(f.regs[r])) for r in live))
        parts.append(canon(tuple(sorted(st.mon.items(), key=lambda kv: repr(kv[0])))))
        parts.append(bool(st.taint))
        # reachable memory
        i = 0; memk = []
        groots = sorted(r for r in st.mem if r[0] == 'g' and st.mem[r] and not self.isconst(r))
        for r in groots:
            names.setdefault(r, r); order.append(r)
        while i < len(order):
            x = order[i]; i += 1
            if x[0] == 's':
                continue
            c = st.mem.get(x)
            if c or x in st.back:
                bk = st.back.get(x, ())
                memk.append((names[x], tuple((o, c[o][0], canon(c[o][1])) for o in sorted(c)) if c else (),
                             self.canback(bk, names)))
        parts.append(tuple(memk))
        # facts about live symbols only
        facts = []
        for t, d in st.dom.items():
            if not self.project: facts.append((t, d)); continue
            sy = self.termsyms(t)
            if all(s in names for s in sy):
                facts.append((canon(t), d))
        facts.sort(key=repr)
        parts.append(tuple(facts))
        return hash(tuple(parts)), tuple(parts[:-2])

    def canback(self, bk, names):
        # lazily named contents: only the shape matters
        if not bk: return ()
        last = bk[-1]
        return (len(bk) if len(bk) < 4 else 4, last[0], last[1], last[2] if isinstance(last[2], (bytes, type(None))) or last[2] == 'zero' else 'lz')

    def isconst(self, r):
        g = self.P.globals.get(r[1])
        return g is not None and g['const']

    _ts = {}

    def termsyms(self, t):
        r = self._ts.get(t)
        if r is None:
            acc = []
            def walk(x):
                if not isinstance(x, tuple) or not x: return
                if x[0] == 's': acc.append(x); return
                if x[0] == 'p':
                    if x[1][0] not in ('g', 'sc', 'T'): acc.append(x[1])
                    walk(x[2]); return
                if x[0] in ('d', 'a', 'h', 'b') and len(x) == 2: acc.append(x); return
                for y in x: walk(y)
            walk(t)
            r = self._ts[t] = tuple(acc)
        return r

    _la = {}

    def live_after(self, f):
        k = (f.fn.name, f.bb, f.ii)
        r = self._la.get(k)
        if r is None: r = self._la[k] = frozenset(f.fn.live_after(f.bb, f.ii))
        return r


class Call:
    """A call site met by the interpreter, as the models see it."""
    __slots__ = ('e', 'name', 'ins', 'args', 'callee', 'loc', 'retty')

    def __init__(self, e, name, ins, args, callee):
        self.e = e; self.name = name; self.ins = ins; self.args = args; self.callee = callee
        self.loc = ins[1]; self.retty = ins[5]

    @property
    def qn(self): return self.e.P.qn(self.name)[0] if self.name else '<indirect>'

    @property
    def dem(self): return self.e.P.qn(self.name)[2] if self.name else '<indirect>'

    @property
    def params(self): return self.e.P.qn(self.name)[1] if self.name else None

    @property
    def targs(self):
        from program import template_args
        return template_args(self.dem)

    @property
    def sret(self): return bool(self.ins[8]) and self.ins[8][0] == 'sret'
