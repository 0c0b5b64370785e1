"""Abstract models of the standard library, keyed by resolved callee.

Everything that is not modelled here and has no body in the IR taints the
path: tainted paths are counted in the evidence and never reported."""
from engine import Engine, State, Undecided, Terminal, UNDEF, MASK, tosigned
from program import template_args, split_args

SPECIAL = ('str', 'map', 'obj', 'fnobj', 'os', 'is')


def ptrval(p): return isinstance(p, tuple) and p[0] == 'p'


# ------------------------------------------------------------------ strings
def norm(parts):
    return tuple(parts)


def streq(e, a, b):
    """Equality of two abstract strings: 0, 1 or an atom (normalised)."""
    a = list(a); b = list(b)
    if a == b: return 1
    def isS(x): return isinstance(x, tuple) and x[0] == 'S'
    while a and b and not isS(a[0]) and not isS(b[0]):
        if a[0] == b[0]: a.pop(0); b.pop(0); continue
        if isinstance(a[0], int) and isinstance(b[0], int): return 0
        break
    while a and b and a[0] == b[0]: a.pop(0); b.pop(0)
    while a and b and not isS(a[-1]) and not isS(b[-1]):
        if a[-1] == b[-1]: a.pop(); b.pop(); continue
        if isinstance(a[-1], int) and isinstance(b[-1], int): return 0
        break
    while a and b and a[-1] == b[-1]: a.pop(); b.pop()
    if not a and not b: return 1
    if not a or not b:
        o = a or b
        if any(not isS(x) for x in o): return 0
        if len(o) == 1: return ('t', 'strempty', 1, tuple(o))
        r = 1
        for x in o: r = e.mk('and', 1, r, ('t', 'strempty', 1, (x,)))
        return r
    if not any(isS(x) for x in a + b):
        if len(a) != len(b): return 0
        r = 1
        for x, y in zip(a, b): r = e.mk('and', 1, r, e.mk('eq', 1, x, y))
        return r
    na = sum(1 for x in a if not isS(x)); nb = sum(1 for x in b if not isS(x))
    if not any(isS(x) for x in a) and nb > na: return 0
    if not any(isS(x) for x in b) and na > nb: return 0
    x, y = sorted((tuple(a), tuple(b)), key=repr)
    return ('t', 'streq', 1, x, y)


def strempty(e, parts):
    if any(not (isinstance(x, tuple) and x[0] == 'S') for x in parts): return 0
    r = 1
    for x in parts: r = e.mk('and', 1, r, ('t', 'strempty', 1, (x,)))
    return r


def strlen(e, parts):
    n = 0; r = 0
    for x in parts:
        if isinstance(x, tuple) and x[0] == 'S':
            t = ('t', 'strlen', 64, (x,))
            r = e.mk('add', 64, r, t) if r != 0 else t
        else: n += 1
    return e.mk('add', 64, r, n)


def lit(s): return tuple(s.encode() if isinstance(s, str) else s)


def show(parts):
    out = ''
    for x in parts:
        if isinstance(x, int): out += chr(x) if 32 <= x < 127 else '\\x%02x' % x
        else: out += '{%s}' % (x[1] if x[0] == 'S' else x[1],)
    return out


def m_string(e, st, c):
    q = c.qn; m = q.rsplit('::', 1)[1]; a = c.args; ps = split_args(c.params or '')
    loc = c.loc
    S = lambda p: e.getstr(st, p, loc)
    C = lambda p: e.cstr(st, p, loc)
    isstr = lambda t: 'basic_string<' in t and '&' in t
    if m == 'basic_string':
        if not ps or ps[0].startswith('std::allocator<') and len(ps) == 1: e.setstr(st, a[0], (), loc); return [(st, None)]
        if isstr(ps[0]):
            parts = S(a[1])
            if len(ps) == 1 or ps[1].startswith('std::allocator'):
                e.setstr(st, a[0], parts, loc)
                if ps[0].endswith('&&'): e.setstr(st, a[1], (), loc)
                return [(st, None)]
            n = a[3] if len(ps) > 2 and not ps[2].startswith('std::alloc') else MASK[64]
            return [(s, None) for s, r in substr(e, st, parts, a[2], n, loc) if e.setstr(s, a[0], r, loc) is None]
        if ps[0] == 'char const*':
            if len(ps) == 1 or ps[1].startswith('std::allocator'):
                if a[1] == 0: raise Terminal('nullderef', 0)
                e.setstr(st, a[0], C(a[1]), loc); return [(st, None)]
            if ps[1].startswith('unsigned long'):
                n = a[2]
                raw = rawbytes(e, st, a[1], n, loc)
                e.event(st, 'str-from-buffer', (a[1], n), loc)
                e.setstr(st, a[0], raw, loc); return [(st, None)]
            # iterator pair
            if ps[1] == 'char const*' and ptrval(a[1]) and ptrval(a[2]) and a[1][1] == a[2][1]:
                raw = rawbytes(e, st, a[1], e.mk('sub', 64, a[2][2], a[1][2]), loc)
                e.setstr(st, a[0], raw, loc); return [(st, None)]
        if ps[0].startswith('unsigned long') and len(ps) > 1 and ps[1] == 'char':
            n, ch = a[1], a[2]
            if isinstance(n, int) and n < 1 << 16: e.setstr(st, a[0], (ch,) * n, loc)
            else: e.setstr(st, a[0], (('S', ('rep', n, ch)),), loc)
            return [(st, None)]
        if ps[0].startswith('std::initializer_list'):
            e.setstr(st, a[0], rawbytes(e, st, a[1], a[2], loc), loc); return [(st, None)]
        if ps[0].startswith('__gnu_cxx::__normal_iterator') and len(ps) >= 2:
            x, y = a[1], a[2]
            if ptrval(x) and ptrval(y) and x[1] == y[1] and x[1][0] == 'sc':
                parts = e.getstr(st, ('p', x[1][1], x[1][2]), loc)
                n = e.mk('sub', 64, y[2] if not isinstance(y[2], int) else y[2] & MASK[64], x[2] if not isinstance(x[2], int) else x[2] & MASK[64])
                return [(s, None) for s, r in substr(e, st, parts, x[2] if not isinstance(x[2], int) else x[2] & MASK[64], n, loc) if e.setstr(s, a[0], r, loc) is None]
        return e.unknown(e, st, c)
    if m == '~basic_string': return [(st, None)]
    if m == 'operator=':
        if isstr(ps[0]):
            e.setstr(st, a[0], S(a[1]), loc)
            if ps[0].endswith('&&') and a[0] != a[1]: e.setstr(st, a[1], (), loc)
        elif ps[0] == 'char const*': e.setstr(st, a[0], C(a[1]), loc)
        elif ps[0] == 'char': e.setstr(st, a[0], (a[1],), loc)
        else: return e.unknown(e, st, c)
        return [(st, a[0])]
    if m in ('operator+=', 'append', 'push_back', 'assign'):
        base = () if m == 'assign' else S(a[0])
        if m == 'push_back' or ps[0] == 'char':
            e.setstr(st, a[0], base + (a[1],), loc)
        elif isstr(ps[0]) and len(ps) == 1: e.setstr(st, a[0], base + S(a[1]), loc)
        elif ps[0] == 'char const*' and len(ps) == 1: e.setstr(st, a[0], base + C(a[1]), loc)
        elif ps[0] == 'char const*' and ps[1].startswith('unsigned long'):
            e.event(st, 'str-from-buffer', (a[1], a[2]), loc)
            e.setstr(st, a[0], base + rawbytes(e, st, a[1], a[2], loc), loc)
        elif ps[0].startswith('unsigned long') and ps[1] == 'char' and isinstance(a[1], int) and a[1] < 1 << 16:
            e.setstr(st, a[0], base + (a[2],) * a[1], loc)
        elif isstr(ps[0]) and len(ps) == 3:
            r = []
            for s, x in substr(e, st, S(a[1]), a[2], a[3], loc):
                e.setstr(s, a[0], base + x, loc); r.append((s, a[0]))
            return r
        else:
            e.setstr(st, a[0], (('S', e.fresh(64, 'str')),), loc)
            return e.unknown(e, st, c)
        return [(st, a[0] if m != 'push_back' else None)]
    if m in ('size', 'length'): return [(st, strlen(e, S(a[0])))]
    if m == 'empty': return [(st, strempty(e, S(a[0])))]
    if m == 'clear': e.setstr(st, a[0], (), loc); return [(st, None)]
    if m in ('reserve', 'shrink_to_fit'): return [(st, None)]
    if m in ('c_str', 'data'): 
        if not ptrval(a[0]): raise Terminal('nullderef', a[0])
        return [(st, ('p', ('sc', a[0][1], a[0][2]), 0))]
    if m in ('begin', 'cbegin'): return [(st, ('p', ('sc', a[0][1], a[0][2]), 0))]
    if m in ('end', 'cend'):
        n = strlen(e, S(a[0]))
        return [(st, ('p', ('sc', a[0][1], a[0][2]), n))]
    if m in ('operator[]', 'at'):
        if m == 'at':
            t = e.icmp(st, 'ult', a[1], strlen(e, S(a[0])), 64); r = []
            for s, v in e.split(st, t):
                if v: r.append((s, e.padd(('p', ('sc', a[0][1], a[0][2]), 0), a[1])))
                else: r.append((s, 'throw', 'std::out_of_range'))
            return r
        return [(st, e.padd(('p', ('sc', a[0][1], a[0][2]), 0), a[1]))]
    if m == 'front': return [(st, ('p', ('sc', a[0][1], a[0][2]), 0))]
    if m == 'back': return [(st, e.padd(('p', ('sc', a[0][1], a[0][2]), 0), e.mk('sub', 64, strlen(e, S(a[0])), 1)))]
    if m == 'pop_back':
        x = S(a[0])
        if x and not (isinstance(x[-1], tuple) and x[-1][0] == 'S'): e.setstr(st, a[0], x[:-1], loc); return [(st, None)]
        return e.unknown(e, st, c)
    if m == 'substr':
        r = []
        for s, parts in substr(e, st, S(a[1]), a[2], a[3], loc):
            e.setstr(s, a[0], parts, loc); r.append((s, None))
        return r
    if m == 'compare' and len(ps) == 1:
        x = S(a[0]); y = S(a[1]) if isstr(ps[0]) else C(a[1])
        t = streq(e, x, y)
        if t == 1: return [(st, 0)]
        if t == 0: return [(st, e.sym(('cmp', x, y), 32))]
        return [(s, 0 if v else 1) for s, v in e.split(st, t)]
    if m in ('find', 'rfind', 'find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of'):
        x = S(a[0])
        if len(a) >= 3 and all(isinstance(k, int) for k in x) and m in ('find', 'rfind') and isinstance(a[2], int):
            raw = bytes(x)
            y = bytes([a[1]]) if ps[0] == 'char' and isinstance(a[1], int) else None
            if y is None:
                yy = S(a[1]) if isstr(ps[0]) else C(a[1])
                if all(isinstance(k, int) for k in yy): y = bytes(yy)
            if y is not None:
                if m == 'find': k = raw.find(y, a[2]) if a[2] <= len(raw) else -1
                else: k = raw.rfind(y, 0, min(a[2], len(raw)) + len(y))
                return [(st, k & MASK[64])]
        return m_find(e, st, c, x, m, ps)
    if m in ('swap',):
        x, y = S(a[0]), S(a[1]); e.setstr(st, a[0], y, loc); e.setstr(st, a[1], x, loc); return [(st, None)]
    if m == 'resize':
        x = S(a[0])
        if isinstance(a[1], int) and all(not (isinstance(k, tuple) and k[0] == 'S') for k in x):
            ch = a[2] if len(a) > 2 else 0
            e.setstr(st, a[0], x[:a[1]] + (ch,) * max(0, a[1] - len(x)), loc); return [(st, None)]
        return e.unknown(e, st, c)
    if m == '_Alloc_hider' or m.startswith('_M_') or m.startswith('_S_') or m == '~_Alloc_hider': 
        return e.unknown(e, st, c)
    return e.unknown(e, st, c)


def m_find(e, st, c, x, m, ps):
    """Searches in a string of known length: forks over the position of the first match."""
    a, loc = c.args, c.loc
    if any(isinstance(k, tuple) and k[0] == 'S' for k in x) or len(x) > 256 or ps[0].startswith('char const*') and len(ps) > 2: return e.unknown(e, st, c)
    y = (a[1],) if ps[0] == 'char' else e.getstr(st, a[1], loc) if 'basic_string<' in ps[0] else e.cstr(st, a[1], loc)
    if any(isinstance(k, tuple) and k[0] == 'S' for k in y): return e.unknown(e, st, c)
    at = a[2] if len(a) > 2 else 0
    if not isinstance(at, int): return e.unknown(e, st, c)
    def eqs(p, q): return e.mk('eq', 1, p, q)
    if m in ('find', 'rfind'):
        def hit(i):
            r = 1
            for k in range(len(y)): r = e.mk('and', 1, r, eqs(x[i + k], y[k]))
            return r
        last = len(x) - len(y)
    else:
        def hit(i):
            r = 0
            for k in y: r = e.mk('or', 1, r, eqs(x[i], k))
            return e.mk('xor', 1, r, 1) if 'not' in m else r
        last = len(x) - 1
    order = range(at, last + 1) if m in ('find', 'find_first_of', 'find_first_not_of') else range(min(at, last), -1, -1)
    r = []
    for i in order:
        t = hit(i)
        if t == 0: continue
        if t == 1: return r + [(st, i)]
        sp = e.split(st, t); st = None
        for s2, v in sp:
            if v: r.append((s2, i))
            else: st = s2
        if st is None: return r
    return r + [(st, MASK[64])]


def rawbytes(e, st, p, n, loc):
    if p == 0: return ()
    if isinstance(n, int) and n <= 1 << 16 and ptrval(p):
        if p[1][0] == 'sc': 
            parts = e.getstr(st, ('p', p[1][1], p[1][2]), loc)
            if isinstance(p[2], int) and p[2] + n <= len(parts) and not any(isinstance(k, tuple) and k[0] == 'S' for k in parts):
                return parts[p[2]:p[2] + n]
            if p[2] == 0 and n == 0: return ()
        elif isinstance(p[2], int):
            return tuple(e.load(st, ('p', p[1], p[2] + k), 'i8', loc) for k in range(n))
    if ptrval(p) and p[1][0] == 'sc' and p[2] == 0:
        parts = e.getstr(st, ('p', p[1][1], p[1][2]), loc)
        if strlen(e, parts) == n: return parts
    return (('S', ('raw', p, n)),)


def substr(e, st, parts, pos, n, loc):
    """-> [(state, parts)]"""
    if isinstance(pos, int):
        pre = 0
        while pre < len(parts) and not (isinstance(parts[pre], tuple) and parts[pre][0] == 'S'): pre += 1
        whole = pre == len(parts)
        if pos <= pre and (isinstance(n, int)):
            if whole: 
                return [(st, parts[pos:] if n >= len(parts) - pos else parts[pos:pos + n])]
            if n >= 1 << 63: return [(st, parts[pos:])]
            if pos + n <= pre: return [(st, parts[pos:pos + n])]
        if whole and pos > len(parts): 
            st.taint = st.taint or ('substr out of range', loc)
        if pos == 0 and n == strlen(e, parts): return [(st, parts)]
    elif pos == strlen(e, parts): return [(st, ())]
    e.event(st, 'substr', (parts, pos, n), loc)
    return [(st, (('S', ('sub', parts, pos, n)),))]


def m_str_op(e, st, c):
    """std::operator+, ==, != over strings."""
    q = c.qn; a = c.args; ps = split_args(c.params or ''); loc = c.loc
    def val(p, t):
        if 'basic_string' in t: return e.getstr(st, p, loc)
        if t == 'char': return (p,)
        if t == 'char const*': return e.cstr(st, p, loc)
        return None
    op = q[len('std::operator'):]
    if op == '+':
        x, y = val(a[1], ps[0]), val(a[2], ps[1])
        if x is None or y is None: return 'inline'
        for p, t in ((a[1], ps[0]), (a[2], ps[1])):
            if t.endswith('&&') and p != a[0]: e.setstr(st, p, (), loc)
        e.setstr(st, a[0], x + y, loc); return [(st, None)]
    if not any('basic_string<' in t for t in ps): return 'inline'
    x, y = val(a[0], ps[0]), val(a[1], ps[1])
    if x is None or y is None: return 'inline'
    t = streq(e, x, y)
    if op == '==': return [(st, t)]
    if op == '!=': return [(st, e.mk('xor', 1, t, 1))]
    if op in ('<', '>', '<=', '>='):
        if op in ('>', '<='): x, y = y, x
        t2 = ('t', 'strlt', 1, x, y)
        if all(isinstance(k, int) for k in x + y): t2 = 1 if bytes(x) < bytes(y) else 0
        return [(st, t2 if op in '<>' else e.mk('xor', 1, t2, 1))]
    return e.unknown(e, st, c)


# ------------------------------------------------------------------- memory
def m_memcpy(e, st, c):
    e.event(st, 'memcpy', (c.args[0], c.args[1], c.args[2]), c.loc)
    e.copy_mem(st, c.args[0], c.args[1], c.args[2], c.loc)
    return [(st, c.args[0] if c.retty != 'void' else None)]


def m_memset(e, st, c):
    p, v, n = c.args[:3]
    if ptrval(p) and isinstance(n, int) and isinstance(p[2], int):
        cells = e.cells(st, p[1], True)
        for o in [o for o in cells if p[2] <= o < p[2] + n]: del cells[o]
        ob = st.back.get(p[1], ())
        if v == 0: st.back[p[1]] = ob + ((p[2], p[2] + n, 'zero', 0),)
        elif isinstance(v, int) and n <= 1 << 16: st.back[p[1]] = ob + ((p[2], p[2] + n, bytes([v & 255]) * n, p[2]),)
        else:
            e.fresh_n += 1
            st.back[p[1]] = ob + ((p[2], p[2] + n, 'ms%d' % e.fresh_n, 0),)
    elif n != 0:
        e.event(st, 'memset', (p, v, n), c.loc)
        st.taint = st.taint or ('memset of unknown extent', c.loc)
    return [(st, p if c.retty != 'void' else None)]


def m_new(e, st, c):
    r = e.new_region(st, 'new', 'h')
    if isinstance(c.args[0], int): e.asize[r] = c.args[0]
    st.mem[r] = {}
    st.back[r] = ((-(1 << 40), 1 << 40, None, 0),)
    e.event(st, 'alloc', (('p', r, 0), c.args[0], c.qn), c.loc)
    return [(st, ('p', r, 0))]


def m_delete(e, st, c):
    p = c.args[0]
    e.event(st, 'free', (p, c.qn), c.loc)
    if ptrval(p):
        if p[1] in st.freed: e.event(st, 'double-free', p, c.loc)
        elif p[1][0] == 'h': st.freed = st.freed | {p[1]}
    return [(st, None)]


def m_nop(e, st, c): return [(st, c.args[0] if c.retty == 'ptr' and c.args else (0 if c.retty and c.retty != 'void' else None))]


# --------------------------------------------------------------------- maps
def getmap(e, st, p, loc):
    if not ptrval(p): raise Terminal('nullderef', p)
    e.deref(st, p, loc)
    c = e.cells(st, p[1]); x = c.get(p[2])
    if x is not None and isinstance(x[1], tuple) and x[1] and x[1][0] == 'map': return x[1]
    base = None
    for lo, hi, lid, delta in reversed(st.back.get(p[1], ())):
        if isinstance(p[2], int) and lo <= p[2] < hi:
            if lid is None: break
            base = ('lz', lid, p[2] + delta); break
    if base is None:
        if p[1][0] == 'd': base = ('lz', p[1][1], p[2])
        else:
            st.taint = st.taint or ('map read before construction', loc); base = ('unk', p)
    m = ('map', base, ())
    setmap(e, st, p, m, loc)
    return m


def setmap(e, st, p, m, loc):
    c = e.cells(st, p[1], True)
    for o in range(p[2], p[2] + 56): c.pop(o, None)
    c[p[2]] = (56, m)


KEYOFF = 8


SCALARS = {'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'unsigned char': 8, 'char': 8, 'short': 16, 'bool': 8}


def putkey(cells, key):
    if key[:1] == ('K',): cells[KEYOFF] = (8, key[1])
    else: cells[KEYOFF] = (32, ('str', key))


def keyeq(e, st, a, b):
    if a[:1] == ('K',) or b[:1] == ('K',): return e.icmp(st, 'eq', a[1], b[1], 64) if a != b else 1
    return streq(e, a, b)


def lookup(e, st, p, key, loc):
    """-> [(state, node pointer or 0)]"""
    m = getmap(e, st, p, loc)
    work = [(st, 0)]; res = []
    ents = m[2]
    cur = [st]
    for k, node in ents:
        nxt = []
        for s in cur:
            t = keyeq(e, s, k, key)
            for s2, v in (e.split(s, t) if not isinstance(t, int) else [(s, t)]):
                if v: res.append((s2, ('p', node, 0) if node else 0))
                else: nxt.append(s2)
        cur = nxt
        if not cur: break
    for s in cur:
        if m[1] is None: res.append((s, 0)); continue
        t = ('t', 'atom', 1, 'has', m[1], key)
        for s2, v in e.split(s, t, loc, 'key %s present' % show(key)):
            node = ('d', ('el', m[1], key))
            m2 = getmap(e, s2, p, loc)
            if v:
                s2.dom[('t', 'atom', 1, 'null', node)] = frozenset((0,))
                cc = e.cells(s2, node, True)
                if KEYOFF not in cc: putkey(cc, key)
            setmap(e, s2, p, ('map', m2[1], m2[2] + ((key, node if v else None),)), loc)
            res.append((s2, ('p', node, 0) if v else 0))
    return res


def mapset(e, st, p, key, node, loc):
    m = getmap(e, st, p, loc)
    ents = tuple((k, n) for k, n in m[2] if k != key)
    setmap(e, st, p, ('map', m[1], ((key, node),) + ents), loc)


def newnode(e, st, key):
    r = e.new_region(st, 'node', 'h')
    st.back[r] = ((-(1 << 40), 1 << 40, None, 0),)
    st.mem[r] = {}; putkey(st.mem[r], tuple(key))
    return r


def keyparts(e, st, p, ty, loc):
    if 'basic_string' in ty: return e.getstr(st, p, loc)
    if 'char const' in ty and ('*' in ty or '[' in ty):
        if '(&)' in ty or '[' in ty: return e.cstr(st, p, loc)
        if '&' in ty: return e.cstr(st, e.load(st, p, 'ptr', loc), loc)
        return e.cstr(st, p, loc)
    return None


def mapargs(dem):
    """Template arguments of the container in a demangled member name."""
    i = dem.find('std::unordered_')
    j = dem.find('<', i)
    d = 0
    for k in range(j, len(dem)):
        if dem[k] == '<': d += 1
        elif dem[k] == '>':
            d -= 1
            if d == 0: return split_args(dem[j + 1:k].replace('std::__cxx11::', 'std::'))
    return []


def m_map(e, st, c):
    q = c.qn; m = q.rsplit('::', 1)[1]; a = c.args; loc = c.loc
    ps = split_args(c.params or '')
    isset = 'unordered_set' in q
    ta = mapargs(c.dem)
    scalar = bool(ta) and (ta[0].endswith('*') or ta[0] in SCALARS)
    if ta and 'basic_string' not in ta[0] and not scalar:
        return m_map_other(e, st, c, m, ta)
    voff = KEYOFF + (8 if scalar else 32)
    if scalar:
        w = SCALARS.get(ta[0], 64)
        def keyat(p, ty=None): return ('K', e.load(st, p, 'ptr' if ta[0].endswith('*') else 'i%d' % w, loc))
        def keyin(p, ty): return keyat(p)
    else:
        def keyat(p): return e.getstr(st, p, loc)
        def keyin(p, ty): return keyparts(e, st, p, ty, loc)
    if m in ('unordered_map', 'unordered_set'):
        if not ps or 'initializer_list' not in ps[0] and not ('unordered_' in ps[0]):
            setmap(e, st, a[0], ('map', None, ()), loc); return [(st, None)]
        if 'unordered_' in ps[0]:
            setmap(e, st, a[0], getmap(e, st, a[1], loc), loc)
            if ps[0].endswith('&&'): setmap(e, st, a[1], ('map', None, ()), loc)
            return [(st, None)]
        return e.unknown(e, st, c)
    if m in ('~unordered_map', '~unordered_set'): return [(st, None)]
    if m == 'operator=':
        x = getmap(e, st, a[1], loc)
        setmap(e, st, a[0], x, loc)
        if ps and ps[0].endswith('&&') and a[0] != a[1]: setmap(e, st, a[1], ('map', None, ()), loc)
        return [(st, a[0])]
    if m in ('find', 'count', 'at', 'operator[]', 'emplace', 'insert', 'erase', 'contains', 'try_emplace'):
        if m == 'erase' and ps and 'iterator' in ps[0]:
            node = a[1]
            if ptrval(node):
                key = keyat(('p', node[1], node[2] + KEYOFF))
                e.event(st, 'map-erase', (a[0], key), loc)
                mapset(e, st, a[0], key, None, loc)
            return [(st, 0)]
        if m == 'insert':
            if not ps: return e.unknown(e, st, c)
            if isset and 'pair' not in ps[0]: key = keyat(a[1]); src = None
            elif 'pair<' in ps[0]:
                key = keyat(a[1]); src = ('p', a[1][1], a[1][2] + voff - KEYOFF)
            else: return e.unknown(e, st, c)
        elif m in ('emplace', 'try_emplace'):
            if len(ps) < 1: return e.unknown(e, st, c)
            key = keyin(a[1], ps[0]); src = a[2] if len(a) > 2 else None
            if key is None: return e.unknown(e, st, c)
            if len(a) > 3: return e.unknown(e, st, c)
        else:
            key = keyin(a[1], ps[0]); src = None
            if key is None: return e.unknown(e, st, c)
        e.event(st, 'map-' + m, (a[0], key, src), loc)
        res = []
        for s, node in lookup(e, st, a[0], key, loc):
            if m == 'find': res.append((s, node))
            elif m in ('count', 'contains'): res.append((s, 0 if node == 0 else 1))
            elif m == 'at':
                if node == 0: res.append((s, 'throw', 'std::out_of_range'))
                else: res.append((s, ('p', node[1], voff)))
            elif m == 'erase':
                mapset(e, s, a[0], key, None, loc); res.append((s, 0 if node == 0 else 1))
            elif m == 'operator[]':
                if node != 0: res.append((s, ('p', node[1], voff))); continue
                r = newnode(e, s, key); mapset(e, s, a[0], key, r, loc)
                e.event(s, 'map-new', (a[0], key, r), loc)
                res.extend(default_construct(e, s, c, r, ta[1], loc, voff))
            else:
                if node != 0: res.append((s, ('a', ((0, node), (8, 0))))); continue
                r = newnode(e, s, key); mapset(e, s, a[0], key, r, loc)
                e.event(s, 'map-new', (a[0], key, r), loc)
                if src is not None and not isset:
                    vt = ta[1]; pt = ps[1] if m != 'insert' else ''
                    copy_value(e, s, ('p', r, voff), src, vt, pt, loc)
                res.append((s, ('a', ((0, ('p', r, 0)), (8, 1)))))
        return res
    if m in ('size', 'empty'):
        x = getmap(e, st, a[0], loc)
        ins = [k for k, n in x[2] if n]
        if x[1] is None:
            n = len(ins)
            return [(st, n if m == 'size' else int(n == 0))]
        if m == 'empty':
            if ins: return [(st, 0)]
            return [(st, ('t', 'atom', 1, 'mapempty', x[1]))]
        return [(st, e.sym(('mapsize', x[1], len(ins)), 64))]
    if m == 'clear': setmap(e, st, a[0], ('map', None, ()), loc); return [(st, None)]
    if m in ('reserve', 'rehash', 'max_load_factor'): return [(st, None)]
    if m in ('end', 'cend'): return [(st, 0)]
    if m in ('begin', 'cbegin'):
        return mapnext(e, st, a[0], (), loc)
    return e.unknown(e, st, c)


def mapnext(e, st, p, done, loc):
    """Iteration: the known entries first, then (for an unknown base) any others."""
    x = getmap(e, st, p, loc)
    for k, n in x[2]:
        if n and n not in done:
            st.mon[('it', n)] = (p, done + (n,))
            return [(st, ('p', n, 0))]
    if x[1] is None: return [(st, 0)]
    a = st.copy()
    e.fresh_n += 1
    node = ('d', ('mel', x[1], e.fresh_n))
    a.dom[('t', 'atom', 1, 'null', node)] = frozenset((0,))
    a.mon[('it', node)] = (p, done)
    st.dom[('t', 'atom', 1, 'mapempty', x[1])] = frozenset((0, 1))
    return [(a, ('p', node, 0)), (st, 0)]


def m_map_iter(e, st, c):
    it = c.args[0]
    cur = e.load(st, it, 'ptr', c.loc)
    if not ptrval(cur): return e.unknown(e, st, c)
    r = st.mon.pop(('it', cur[1]), None)
    if r is None: return e.unknown(e, st, c)
    res = []
    for s, v in mapnext(e, st, r[0], r[1], c.loc):
        e.store(s, it, v, 'ptr', c.loc)
        res.append((s, it))
    return res


def m_map_other(e, st, c, m, ta):
    """Maps whose key is not a string: contents unknown."""
    return e.unknown(e, st, c)


def copy_value(e, st, dst, src, vt, pt, loc):
    if vt.endswith('*'):
        if src == 0: e.store(st, dst, 0, 'ptr', loc)
        elif 'nullptr' in pt: e.store(st, dst, 0, 'ptr', loc)
        else: e.store(st, dst, e.load(st, src, 'ptr', loc), 'ptr', loc)
        return
    if 'basic_string' in vt and vt.startswith('std::basic_string'):
        if '*' in pt or '[' in pt: e.setstr(st, dst, keyparts(e, st, src, pt, loc) or (), loc)
        else: e.setstr(st, dst, e.getstr(st, src, loc), loc)
        return
    r = e.P.record(vt.replace('std::basic_string', 'std::__cxx11::basic_string')) or e.P.record(vt.split('::')[-1])
    n = r['size'] if r else 256
    if ptrval(src): e.copy_mem(st, dst, src, n, loc)
    else: st.taint = st.taint or ('map value from unknown source', loc)


WIDTH = {'bool': 8, 'char': 8, 'unsigned char': 8, 'signed char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32,
         'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}


def default_construct(e, s, c, r, vt, loc, voff=KEYOFF + 32):
    dst = ('p', r, voff)
    if vt.endswith('*'): e.store(s, dst, 0, 'ptr', loc); return [(s, dst)]
    if vt.startswith('std::basic_string'): e.setstr(s, dst, (), loc); return [(s, dst)]
    if vt in WIDTH: e.store(s, dst, 0, 'i%d' % WIDTH[vt], loc); return [(s, dst)]
    short = vt.split('<')[0].split('::')[-1]
    for f in e.P.find(vt.split('<')[0] + '::' + short):
        if len(f.args) == 1 and (not f.params or f.params == 'void'):
            e.push(s, f, [dst])
            def cont(eng, st, v, dst=dst):
                eng.finish_call(st, dst); return None
            s.frames[-1].retinfo = cont
            return [(s, 'raw', None)]
    s.taint = s.taint or ('default construction of ' + vt, loc)
    return [(s, dst)]


# ------------------------------------------------------------- std::map nodes
# node: colour at 0, parent at 8, left at 16, right at 24; order is all that matters here, balance isn't
def rb(e, st, p, k, loc): return e.load(st, e.padd(p, {'parent': 8, 'left': 16, 'right': 24}[k]), 'ptr', loc)
def rbset(e, st, p, k, v, loc): e.store(st, e.padd(p, {'parent': 8, 'left': 16, 'right': 24}[k]), v, 'ptr', loc)


def m_rb_insert(e, st, c):
    left, x, p, h = c.args
    if not isinstance(left, int):
        res = []
        for s, v in e.split(st, left, c.loc, 'before the found node'):
            c.args = [v] + list(c.args[1:]); res += m_rb_insert(e, s, c)
        return res
    L = c.loc
    rbset(e, st, x, 'parent', p, L); rbset(e, st, x, 'left', 0, L); rbset(e, st, x, 'right', 0, L)
    if left:
        rbset(e, st, p, 'left', x, L)
        if p == h: rbset(e, st, h, 'parent', x, L); rbset(e, st, h, 'right', x, L)
        elif rb(e, st, h, 'left', L) == p: rbset(e, st, h, 'left', x, L)
    else:
        rbset(e, st, p, 'right', x, L)
        if rb(e, st, h, 'right', L) == p: rbset(e, st, h, 'right', x, L)
    return [(st, None)]


def m_rb_step(e, st, c):
    """Next or previous node; the header is the parent of the root and has itself as its parent's parent."""
    fwd, back = ('right', 'left') if 'increment' in c.qn else ('left', 'right')
    x = c.args[0]; L = c.loc
    for _ in range(200):
        if not ptrval(x): return e.unknown(e, st, c)
        d = rb(e, st, x, fwd, L)
        if fwd == 'left' and rb(e, st, rb(e, st, x, 'parent', L), 'parent', L) == x and header(st, e, x, L): return [(st, rb(e, st, x, 'right', L))]
        if ptrval(d):
            while True:
                n = rb(e, st, d, back, L)
                if not ptrval(n): break
                d = n
            return [(st, d)]
        y = rb(e, st, x, 'parent', L)
        while ptrval(y) and rb(e, st, y, fwd, L) == x:
            x, y = y, rb(e, st, y, 'parent', L)
        if rb(e, st, x, fwd, L) != y: x = y
        return [(st, x)]
    return e.unknown(e, st, c)


def header(st, e, x, L):
    v = e.load(st, x, 'i32', L)
    return v == 0       # the header alone is red; nodes of this model have no colour


# --------------------------------------------------------------- shared_ptr
def m_sp(e, st, c):
    q = c.qn; m = q.rsplit('::', 1)[1]; a = c.args; loc = c.loc; ps = split_args(c.params or '')
    def put(p, x, y):
        e.store(st, p, x, 'ptr', loc); e.store(st, e.padd(p, 8), y, 'ptr', loc)
    def get(p): return e.load(st, p, 'ptr', loc), e.load(st, e.padd(p, 8), 'ptr', loc)
    if m in ('shared_ptr', '__shared_ptr'):
        if not ps or 'nullptr' in ps[0]: put(a[0], 0, 0); return [(st, None)]
        if 'shared_ptr<' in ps[0] and ps[0].rstrip().endswith('&') and len(ps) == 1:
            x, y = get(a[1]); put(a[0], x, y)
            if ps[0].endswith('&&'): put(a[1], 0, 0)
            else: e.event(st, 'sp-share', y, loc)
            return [(st, None)]
        if ps[0].endswith('*'):
            ctrl = e.new_region(st, 'ctrl', 'h')
            dele = own(e, c, ps)
            st.mem[ctrl][0] = (8, ('obj', dele))
            st.mem[ctrl][8] = (8, a[1])
            put(a[0], a[1], ('p', ctrl, 0))
            e.event(st, 'sp-own', (a[1], dele), loc)
            return [(st, None)]
        return e.unknown(e, st, c)
    if m in ('~shared_ptr', '~__shared_ptr'):
        e.event(st, 'sp-drop', a[0], loc); return [(st, None)]
    if m == 'operator=':
        x, y = get(a[1])
        if ps[0].endswith('&&') and a[0] != a[1]:
            put(a[0], x, y); put(a[1], 0, 0)
        else: put(a[0], x, y)
        return [(st, a[0])]
    if m == 'reset':
        if len(a) == 1: put(a[0], 0, 0); return [(st, None)]
        dele = own(e, c, ps)
        ctrl = e.new_region(st, 'ctrl', 'h')
        st.mem[ctrl][0] = (8, ('obj', dele)); st.mem[ctrl][8] = (8, a[1])
        put(a[0], a[1], ('p', ctrl, 0))
        e.event(st, 'sp-own', (a[1], dele), loc)
        return [(st, None)]
    if m == 'swap':
        x, y = get(a[0]); u, v = get(a[1]); put(a[0], u, v); put(a[1], x, y); return [(st, None)]
    if m in ('use_count', 'unique'): 
        return [(st, e.sym(('usecount',) + (get(a[0])[1],), 64 if m == 'use_count' else 1))]
    return 'inline'


def own(e, c, ps):
    if len(ps) >= 2: return ps[1]
    return 'delete ' + ps[0]


# -------------------------------------------------------------------- misc
def m_guard_acquire(e, st, c):
    """Function-local statics: not initialised yet on the analysed path."""
    g = c.args[0]
    e.event(st, 'guard-acquire', g, c.loc)
    return [(st, 1)]


def m_guard_release(e, st, c):
    e.event(st, 'guard-release', c.args[0], c.loc)
    e.store(st, c.args[0], 1, 'i8', c.loc)
    return [(st, None)]


def m_lock(e, st, c):
    e.event(st, 'unlock' if 'unlock' in c.name else 'lock', c.args[0], c.loc)
    return [(st, 0)]


def m_error(e, st, c):
    e.event(st, 'error', c.args, c.loc)
    fmt = e.cstr(st, c.args[2], c.loc) if len(c.args) > 2 else ()
    return [(st, 'end', ('error', fmt))]


def m_abort(e, st, c): return [(st, 'end', ('abort', c.qn))]


def m_throw(e, st, c): return [(st, 'throw', 'exception')]


def m_type(e, st, c):
    ta = c.targs
    if not ta: return 'inline'
    return [(st, ('p', ('T', cleantype(ta[0])), 0))]


def cleantype(t):
    """The bare C++ type behind references and qualifiers, as CleanType computes it."""
    t = t.strip()
    while True:
        if t.endswith('&&'): t = t[:-2].strip()
        elif t.endswith('&'): t = t[:-1].strip()
        elif t.endswith(' const') and True: t = t[:-6].strip()
        else: break
    return t


def m_stream(e, st, c):
    """Streams: what is written is an event, the stream's text is unknown."""
    q = c.qn; m = q.rsplit('::', 1)[1]; a = c.args; loc = c.loc
    if m == 'str':
        if c.sret or c.retty == 'void' and len(a) == 2:
            e.setstr(st, a[0], (('S', ('text', e.fresh(64, 'ss'))),), loc); return [(st, None)]
        return [(st, None)]
    if m.startswith('operator<<') or m == 'operator<<':
        e.event(st, 'os-write', (a[0], tuple(a[1:]), c.params), loc)
        return [(st, a[0])]
    if c.retty == 'ptr' and a: return [(st, a[0])]
    if c.retty == 'void': return [(st, None)]
    if c.retty and c.retty[0] == 'i': return [(st, e.fresh(int(c.retty[1:]), 'stream'))]
    return e.unknown(e, st, c)


STREAMS = ('std::basic_stringstream::', 'std::basic_ostringstream::')


def install_text(e):
    """Only for analyses which do not care about the text streams hold."""
    e.add_hook(lambda q, p, d, n: q.startswith(STREAMS), m_stream)
    e.add_hook(lambda q, p, d, n: (q in ('std::operator<<',) or q.startswith('std::basic_ostream::operator<<')), m_stream)
    e.add_hook({'std::hex', 'std::dec', 'std::boolalpha', 'std::endl', 'std::flush', 'std::setw', 'std::setfill'}, m_nop)
    e.add_hook(lambda q, p, d, n: q.startswith('std::ostream::operator<<'), m_stream)


def m_clz(e, st, c):
    v = c.args[0]; w = int(c.retty[1:])
    if isinstance(v, int): return [(st, w - v.bit_length())]
    # fork over the position of the highest bit
    r = []
    d = e.bounds(e.dom(st, v))
    for n in range(d[0].bit_length(), d[1].bit_length() + 1):
        s = st.copy()
        if n == 0:
            if e.meet(s, v, frozenset((0,))): r.append((s, w))
        elif e.meet(s, v, ('iv', 1 << (n - 1), (1 << n) - 1)): r.append((s, w - n))
    return r


def install(e, errors=True):
    e.add_hook(lambda q, p, d, n: n.startswith('llvm.ctlz'), m_clz)
    isop = lambda q: q in ('std::operator+', 'std::operator==', 'std::operator!=', 'std::operator<', 'std::operator>')
    e.add_hook(lambda q, p, d, n: isop(q) and p is not None and 'basic_string<' in p and 'basic_ostream' not in p and any(x.startswith(('std::basic_string<', 'std::__cxx11::basic_string<')) for x in split_args(p)), m_str_op)
    e.add_hook(lambda q, p, d, n: q.startswith('std::basic_string::'), m_string)
    e.add_hook(lambda q, p, d, n: n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove'), m_memcpy)
    e.add_hook(lambda q, p, d, n: n.startswith('llvm.memset') or n == 'memset', m_memset)
    e.add_hook(lambda q, p, d, n: n.startswith('llvm.lifetime') or n.startswith('llvm.dbg') or n.startswith('llvm.assume')
               or n.startswith('llvm.va_') or n.startswith('llvm.stack') or n.startswith('llvm.experimental.noalias'), m_nop)
    e.add_hook(lambda q, p, d, n: n in ('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t') or n.startswith('_ZnwmSt') or q in ('std::malloc',), m_new)
    e.add_hook(lambda q, p, d, n: n in ('_ZdlPv', '_ZdlPvm', '_ZdlPvRKSt9nothrow_t', '_ZdaPv', '_ZdaPvm', 'free') or n.startswith('_ZdlPvSt'), m_delete)
    e.add_hook(lambda q, p, d, n: (q.startswith('std::unordered_map::') or q.startswith('std::unordered_set::')), m_map)
    e.add_hook(lambda q, p, d, n: q in ('std::__detail::_Node_const_iterator::operator++', 'std::__detail::_Node_iterator::operator++') and (p or '') == '', m_map_iter)
    e.add_hook(lambda q, p, d, n: q.startswith('std::shared_ptr::') or q.startswith('std::__shared_ptr::'), m_sp)
    e.add_hook('std::_Rb_tree_insert_and_rebalance', m_rb_insert)
    e.add_hook({'std::_Rb_tree_increment', 'std::_Rb_tree_decrement'}, m_rb_step)
    e.add_hook('__cxa_guard_acquire', m_guard_acquire)
    e.add_hook(lambda q, p, d, n: n in ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', 'pthread_spin_lock', 'pthread_spin_unlock',
                                        'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock', 'pthread_rwlock_unlock'), m_lock)
    e.add_hook('__cxa_guard_release', m_guard_release)
    e.add_hook({'__cxa_guard_abort', '__cxa_atexit', '__cxa_free_exception'}, m_nop)
    e.add_hook({'abort', 'std::abort', 'llvm.trap', 'exit', 'std::terminate', '__clang_call_terminate'}, m_abort)
    e.add_hook({'__cxa_throw', '__cxa_rethrow'}, m_throw)
    e.add_hook(lambda q, p, d, n: q.startswith('std::__throw_'), m_throw)
    e.add_hook(lambda q, p, d, n: q in ('std::allocator::allocator', 'std::allocator::~allocator', 'std::__new_allocator::__new_allocator',
                                        'std::__new_allocator::~__new_allocator'), m_nop)
    if errors:
        e.add_hook('reflect::error', m_error)
        e.add_hook('reflect::type', m_type)
        e.add_hook('reflect::Registry::get', m_type)
    return e
