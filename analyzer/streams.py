"""Abstract models of text streams, character classes and number conversion.

Input streams are tapes of abstract characters followed by the end of the
stream; output streams accumulate abstract text."""
import re
from engine import MASK, Terminal, fval, tosigned
from models import lit, ptrval, show
from program import split_args

SLOT = -64
EOF = MASK[32]


def slot(e, st, p, loc=None):
    if not ptrval(p): raise Terminal('nullderef', p)
    c = e.cells(st, p[1]).get(SLOT)
    return c[1] if c else None


def setslot(e, st, p, v): e.cells(st, p[1], True)[SLOT] = (1, v)


# ------------------------------------------------------------------- input
def input_stream(e, st, chars, name='in'):
    """A readable stream over the given characters."""
    r = e.new_region(st, name)
    vt = e.new_region(st, name + '.vt')
    e.store_raw(st, ('p', vt, 8), 16, 8)
    e.store_raw(st, ('p', r, 0), ('p', vt, 32), 8)
    e.store_raw(st, ('p', r, 16), ('p', vt, 32), 8)
    setslot(e, st, ('p', r, 0), ('is', tuple(chars), 0, 0, 0))
    return ('p', r, 0)


def consumed(e, st, p):
    s = slot(e, st, p)
    return s[2]


def m_istream(e, st, c):
    m = c.qn.rsplit('::', 1)[1]; a = c.args
    p = a[1] if c.sret else a[0] if a else None
    s = slot(e, st, p) if ptrval(p) else None
    if s is None or s[0] != 'is': return m_ostream(e, st, c)
    _, tape, pos, eof, fail = s
    ps = split_args(c.params or '')

    def put(pos, eof, fail): setslot(e, st, p, ('is', tape, pos, eof, fail))

    def ch(x): return e.mk('zext', 32, x, 8) if not isinstance(x, int) else x
    if m in ('get', 'peek') and not ps:
        if eof or fail: put(pos, eof, 1); return [(st, EOF)]
        if pos >= len(tape): put(pos, 1, 1 if m == 'get' else fail); return [(st, EOF)]
        if m == 'get': put(pos + 1, eof, fail)
        return [(st, ch(tape[pos]))]
    if m == 'get' and ps == ['char&']:
        if eof or fail: put(pos, eof, 1)
        elif pos >= len(tape): put(pos, 1, 1)
        else: put(pos + 1, 0, 0); e.store(st, a[1], tape[pos], 'i8', c.loc)
        return [(st, p)]
    if m in ('unget', 'putback') and not fail and pos > 0:
        if m == 'unget' or a[1] == tape[pos - 1]: put(pos - 1, 0, 0); return [(st, p)]
    if m == 'ignore' and (not ps or a[1] == 1 or len(a) == 1):
        if eof or fail: put(pos, eof, 1)
        elif pos >= len(tape): put(pos, 1, fail)
        else: put(pos + 1, 0, 0)
        return [(st, p)]
    if m in ('operator bool', 'operator!', 'fail', 'good', 'eof', 'bad', 'rdstate'):
        v = {'operator bool': not fail, 'operator!': fail, 'fail': fail, 'good': not (eof or fail), 'eof': eof, 'bad': 0}.get(m)
        if m == 'rdstate': v = 2 * eof + 4 * fail
        return [(st, int(v))]
    if m in ('width', 'precision', 'flags', 'tellg'): pass
    return e.unknown(e, st, c)


# ------------------------------------------------------------------ output
def text(e, st, p):
    s = slot(e, st, p)
    return s[1] if s and s[0] == 'os' else ()


def number(v, signed, w):
    if isinstance(v, int): return lit(str(tosigned(v, w) if signed else v))
    return (('S', ('num', v)),)


def output_stream(e, st, name='out'):
    r = e.new_region(st, name)
    vt = e.new_region(st, name + '.vt')
    e.store_raw(st, ('p', vt, 8), 16, 8)
    e.store_raw(st, ('p', r, 0), ('p', vt, 32), 8)
    e.store_raw(st, ('p', r, 16), ('p', vt, 32), 8)
    setslot(e, st, ('p', r, 0), ('os', ()))
    return ('p', r, 0)


INTS = {'int': (32, 1), 'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'long long': (64, 1),
        'unsigned long long': (64, 0), 'short': (16, 1), 'unsigned short': (16, 0)}


def put(e, st, p, x):
    t = text(e, st, p) + x
    if len(t) > st.mon.get('cap', 1 << 30): raise Terminal('unending output', p)
    setslot(e, st, p, ('os', t) + tuple((slot(e, st, p) or ())[2:]))


def m_ostream(e, st, c):
    q = c.qn; m = q.rsplit('::', 1)[1]; a = c.args; loc = c.loc
    ps = split_args(c.params or '')
    if m.startswith('basic_') or m.startswith('~basic_'):
        if ptrval(a[0]): e.cells(st, a[0][1], True).pop(SLOT, None)
        return [(st, None)]
    if m == 'str':
        if c.sret: e.setstr(st, a[0], text(e, st, a[1]), loc); return [(st, None)]
        if len(a) == 2: setslot(e, st, a[0], ('os', e.getstr(st, a[1], loc))); return [(st, None)]
    if q == 'std::operator<<' and len(a) == 2:
        if 'basic_string<' in ps[1]: x = e.getstr(st, a[1], loc)
        elif ps[1] == 'char': x = (a[1],)
        elif ps[1] == 'char const*': x = e.cstr(st, a[1], loc)
        else: return 'inline'
        put(e, st, a[0], x); return [(st, a[0])]
    if m == 'operator<<' and len(a) == 2:
        base = ((slot(e, st, a[0]) or ()) + (None, None, 10))[2] if ptrval(a[0]) else 10
        if ps[0] in INTS and base != 10:
            if not isinstance(a[1], int): return e.unknown(e, st, c)
            x = lit('%x' % (a[1] & MASK[INTS[ps[0]][0]]) if base == 16 else '%o' % (a[1] & MASK[INTS[ps[0]][0]]))
        elif ps[0] in INTS: x = number(a[1], INTS[ps[0]][1], INTS[ps[0]][0])
        elif ps[0] == 'bool' and isinstance(a[1], int): x = lit(str(a[1]))
        elif ps[0] in ('double', 'float', 'void const*', 'bool'): x = (('S', ('num', a[1])),)
        elif '(*)' in ps[0]:
            n = e.P.qn(a[1][1][1])[0] if ptrval(a[1]) and a[1][2] == 0 and isinstance(a[1][1], tuple) and a[1][1][0] in ('g', 'f') else None
            if n in ('std::hex', 'std::dec', 'std::oct'):
                setslot(e, st, a[0], ('os', text(e, st, a[0]), {'std::hex': 16, 'std::dec': 10, 'std::oct': 8}[n])); return [(st, a[0])]
            if n is None or n.split('<')[0] not in ('std::endl', 'std::flush', 'std::ends'): return e.unknown(e, st, c)
            x = lit('\n' if 'endl' in n else '\0' if 'ends' in n else '')
        else: return e.unknown(e, st, c)
        put(e, st, a[0], x); return [(st, a[0])]
    if m == 'put': put(e, st, a[0], (a[1],)); return [(st, a[0])]
    if m == 'write':
        from models import rawbytes
        e.event(st, 'write', (a[1], a[2]), loc)
        put(e, st, a[0], bufbytes(e, st, a[1], a[2], loc)); return [(st, a[0])]
    if m == 'flush': return [(st, a[0])]
    if m in ('operator bool', 'good'): return [(st, 1)]
    if m in ('operator!', 'fail', 'bad', 'eof'): return [(st, 0)]
    return e.unknown(e, st, c)


# ------------------------------------------------------------ characters
CLASSES = {'isspace': b' \t\n\v\f\r', 'isdigit': b'0123456789', 'isxdigit': b'0123456789abcdefABCDEF',
           'isupper': bytes(range(65, 91)), 'islower': bytes(range(97, 123)),
           'isalpha': bytes(range(65, 91)) + bytes(range(97, 123)),
           'isalnum': bytes(range(48, 58)) + bytes(range(65, 91)) + bytes(range(97, 123)),
           'isprint': bytes(range(32, 127)), 'isgraph': bytes(range(33, 127)),
           'iscntrl': bytes(range(32)) + b'\x7f',
           'ispunct': bytes(x for x in range(33, 127) if not chr(x).isalnum())}


def fork(e, st, t, pred):
    """-> [(state, 0/1)] over a predicate of a finite term, or None."""
    if isinstance(t, int): return [(st, 1 if pred(t) else 0)]
    a, b = st.copy(), st.copy()
    ra, rb = e.restrict(a, t, pred), e.restrict(b, t, lambda v: not pred(v))
    if ra is None or rb is None: return None
    return [(s, v) for s, v, k in ((a, 1, ra), (b, 0, rb)) if k]


def m_ctype(e, st, c):
    cls = set(CLASSES[c.qn.rsplit('::', 1)[-1]])
    v = c.args[0]
    res = []
    ok = lambda x: x <= 255 or x == EOF
    g = fork(e, st, v, ok)
    if g is None: return e.unknown(e, st, c)
    for s, good in g:
        if not good:
            s.mon['ub'] = s.mon.get('ub') or ('%s is given a negative character' % c.qn, tuple(c.loc) if isinstance(c.loc, list) else c.loc)
            res.append((s, 0)); continue
        res += fork(e, s, v, lambda x: x in cls)
    return res


def m_strto(e, st, c):
    """strtol and relatives in base ten on text whose length is known."""
    q = c.name.replace('__isoc23_', ''); loc = c.loc
    parts = e.cstr(st, c.args[0], loc)
    if q in ('strtod', 'strtof', 'strtold', 'atof'):
        w = 64
        return [(st, ('s', ('strtod', parts)))]
    if all(isinstance(x, int) for x in parts) and (len(c.args) < 2 or isinstance(c.args[1], int) or ptrval(c.args[0])):
        return strto_const(e, st, c, q, bytes(parts))
    if any(isinstance(x, tuple) and x[0] == 'S' for x in parts) or len(c.args) > 2 and c.args[2] != 10 or len(c.args) > 1 and c.args[1] != 0:
        return e.unknown(e, st, c)
    lo, hi = (0, 2**64 - 1) if 'ul' in q else (-2**63, 2**63 - 1)
    res = []

    def done(s, neg, digs):
        k = len(digs)
        if k <= 18:
            v = 0
            for d in digs:
                v = e.mk('mul', 64, v, 10) if v != 0 else 0
                x = e.mk('sub', 64, e.mk('zext', 64, d, 8) if not isinstance(d, int) else d, 48)
                v = e.mk('add', 64, v, x) if v != 0 else x
            if neg: v = e.mk('sub', 64, 0, v)
            res.append((s, v)); return
        syms = [d for d in digs if not isinstance(d, int)]
        if len(syms) > 1: s.taint = s.taint or ('long number', loc); res.append((s, e.fresh(64, 'num'))); return
        def val(x):
            n = int(''.join(chr(d if isinstance(d, int) else x) for d in digs))
            return -n if neg else n
        if not syms: todo = [(s, 48)]
        else: todo = e.concretize(s, syms[0])
        for s2, x in todo:
            n = val(x)
            if n < lo or n > hi:
                e.store(s2, ERRNO, 34, 'i32', loc)
                n = lo if n < lo else hi
            res.append((s2, n & MASK[64]))

    def scan(s, i, neg, digs):
        if i == len(parts): done(s, neg, digs); return
        f = fork(e, s, parts[i], lambda x: 48 <= x <= 57)
        if f is None: s.taint = s.taint or ('number text', loc); res.append((s, e.fresh(64, 'num'))); return
        for s2, v in f:
            if v: scan(s2, i + 1, neg, digs + (parts[i],))
            else: done(s2, neg, digs)
    if not parts: return [(st, 0)]
    f = fork(e, st, parts[0], lambda x: x == 45)
    if f is None: return e.unknown(e, st, c)
    for s, v in f: scan(s, 1 if v else 0, v, ())
    return res


def strto_const(e, st, c, q, text):
    """The same for a constant text, in any base and with the place where the number ends."""
    base = c.args[2] if len(c.args) > 2 else 10
    if not isinstance(base, int) or base not in (0, 8, 10, 16): return e.unknown(e, st, c)
    m = re.match(rb'[ \t\n\v\f\r]*([+-]?)(0[xX](?=[0-9a-fA-F]))?', text)
    hexa = m.group(2) if base in (0, 16) else None
    i = m.end() if hexa else m.end(1)
    if base == 0: base = 16 if hexa else 8 if text[i:i + 1] == b'0' else 10
    k = i
    while k < len(text) and text[k:k + 1].isalnum() and text[k] < 128 and int(chr(text[k]), 36) < base: k += 1
    n = int(text[i:k], base) if k > i else 0
    if m.group(1) == b'-': n = -n
    if len(c.args) > 1 and c.args[1] != 0: e.store(st, c.args[1], e.padd(c.args[0], k if k > i else 0), 'ptr', c.loc)
    lo, hi = (0, 2**64 - 1) if 'ul' in q else (-2**63, 2**63 - 1)
    if 'ul' in q and -hi <= n < 0: n += 1 << 64
    if n < lo or n > hi:
        e.store(st, ERRNO, 34, 'i32', c.loc); n = lo if n < lo and 'ul' not in q else hi
    return [(st, n & MASK[64])]


ERRNO = ('p', ('x', 'errno'), 0)


# --------------------------------------------------------------- messages
def m_format(e, st, c):
    """errorFormat: the text is the format, with unknown arguments."""
    if not c.sret: return e.unknown(e, st, c)
    fmt = e.cstr(st, c.args[1], c.loc)
    e.setstr(st, c.args[0], (('S', ('fmt', fmt)),), c.loc)
    return [(st, None)]


def m_exception(e, st, c):
    m = c.qn.rsplit('::', 1)[1]; a = c.args; loc = c.loc
    ps = split_args(c.params or '')
    def put(v): e.cells(st, a[0][1], True)[a[0][2] + 8] = (8, ('os', v))
    if m == '~logic_error' or m == '~exception' or m == 'exception': return [(st, None)]
    if m == 'what': return [(st, e.freshptr('what'))]
    if not ptrval(a[0]) or not isinstance(a[0][2], int): return e.unknown(e, st, c)
    if m == 'logic_error' and 'basic_string<' in ps[0]: put(e.getstr(st, a[1], loc)); return [(st, None)]
    if m == 'logic_error' and ps[0] == 'char const*': put(e.cstr(st, a[1], loc)); return [(st, None)]
    if m in ('logic_error', 'operator='):
        x = e.cells(st, a[1][1]).get(a[1][2] + 8)
        put(x[1][1] if x and x[1][0] == 'os' else (('S', e.fresh(64, 'what')),))
        return [(st, a[0] if m == 'operator=' else None)]
    return e.unknown(e, st, c)


def message(e, st, p):
    x = e.cells(st, p[1]).get(p[2] + 8)
    return x[1][1] if x and isinstance(x[1], tuple) and x[1][0] == 'os' else None


def install(e):
    st = ('std::basic_istream::', 'std::istream::', 'std::basic_ios::', 'std::basic_ostream::', 'std::ostream::', 'std::basic_stringstream::',
          'std::basic_ostringstream::', 'std::basic_istringstream::')
    e.add_hook(lambda q, p, d, n: q.startswith(st), m_istream)
    e.add_hook(lambda q, p, d, n: q == 'std::operator<<' and p is not None and p.startswith('std::basic_ostream<'), m_ostream)
    e.add_hook(lambda q, p, d, n: q.rsplit('::', 1)[-1] in CLASSES and n in CLASSES, m_ctype)
    NUM = {'strtol', 'strtoll', 'strtoul', 'strtoull', 'strtod', 'strtof', 'strtold', 'atol', 'atoll', 'atof'}
    e.add_hook(lambda q, p, d, n: n.replace('__isoc23_', '') in NUM, m_strto)
    e.add_hook(lambda q, p, d, n: n == 'snprintf', m_snprintf)
    e.add_hook('__errno_location', lambda eng, st, c: [(st, ERRNO)])
    e.add_hook({'reflect::errorFormat', 'reflect::verrorFormat'}, m_format)
    e.add_hook(lambda q, p, d, n: q.startswith('std::logic_error::') or q.startswith('std::exception::'), m_exception)
    e.add_hook(lambda q, p, d, n: q == 'std::to_string', m_to_string)


def m_to_string(e, st, c):
    ps = split_args(c.params or '')
    if ps and ps[0] in INTS and c.sret:
        w, s = INTS[ps[0]]
        e.setstr(st, c.args[0], number(c.args[1], s, w), c.loc); return [(st, None)]
    return 'inline'


# ------------------------------------------------------------- formatting
def m_snprintf(e, st, c):
    """snprintf with integer and character conversions."""
    buf, size, loc = c.args[0], c.args[1], c.loc
    fmt = e.cstr(st, c.args[2], loc)
    if not all(isinstance(x, int) for x in fmt) or not isinstance(size, int): return e.unknown(e, st, c)
    args = list(c.args[3:])
    todo = [(st, ())]; i = 0
    while i < len(fmt):
        ch = chr(fmt[i]); i += 1
        if ch != '%': todo = [(s, p + (ord(ch),)) for s, p in todo]; continue
        spec = ''
        while i < len(fmt) and chr(fmt[i]) in '0123456789.-+ #hlzjtq': spec += chr(fmt[i]); i += 1
        if i >= len(fmt): return e.unknown(e, st, c)
        k = chr(fmt[i]); i += 1
        if k == '%': todo = [(s, p + (37,)) for s, p in todo]; continue
        if not args: return e.unknown(e, st, c)
        a = args.pop(0)
        mods = spec.lstrip('0123456789.-+ #'); flags = spec[:len(spec) - len(mods)]
        w = {'': 32, 'h': 16, 'hh': 8, 'l': 64, 'll': 64, 'j': 64, 'z': 64, 't': 64, 'q': 64}.get(mods)
        if k in 'aefgAEFG' and fval(a) is not None and not mods:
            todo = [(s, p + lit(('%' + flags + k) % fval(a))) for s, p in todo]; continue
        if k in 'aefgAEFG': todo = [(s, p + (('S', ('num', a, spec + k)),)) for s, p in todo]; continue
        if k == 'c': todo = [(s, p + (e.mk('trunc', 8, a),)) for s, p in todo]; continue
        if k == 's':
            x = e.cstr(st, a, loc)
            if flags: return e.unknown(e, st, c)
            todo = [(s, p + x) for s, p in todo]; continue
        if k not in 'diuxX' or w is None: return e.unknown(e, st, c)
        if isinstance(a, tuple) and a[0] in 'st' and e.width(a) > w or isinstance(a, int): a = e.mk('trunc', w, a)
        if isinstance(a, int):
            t = {'d': '%d', 'i': '%d', 'u': '%d', 'x': '%x', 'X': '%X'}[k] % (tosigned(a, w) if k in 'di' else a)
            if flags:
                try: t = ('%' + flags + ('d' if k in 'diu' else k)) % (tosigned(a, w) if k in 'di' else a)
                except ValueError: return e.unknown(e, st, c)
            todo = [(s, p + lit(t)) for s, p in todo]; continue
        if k in 'diu':
            if flags: return e.unknown(e, st, c)
            todo = [(s, p + (('S', ('num', a) if k != 'u' else ('num', a, 'u')),)) for s, p in todo]; continue
        # hexadecimal: fork over the number of digits
        pad = int(flags.lstrip('-+ #').lstrip('0') or 0) if flags.startswith('0') or not flags else None
        if pad is None: return e.unknown(e, st, c)
        new = []
        for s, p in todo:
            b = e.bounds(e.dom(s, a))
            hi = max(1, (b[1].bit_length() + 3) // 4)
            for n in range(1, hi + 1):
                s2 = s.copy()
                lo_v = 0 if n == 1 else 1 << 4 * (n - 1)
                if not e.meet(s2, a, ('iv', lo_v, (1 << 4 * n) - 1)): continue
                d = ()
                for j in reversed(range(n)):
                    x = e.mk('and', w, e.mk('lshr', w, a, 4 * j) if j else a, 15)
                    x = e.mk('trunc', 8, x) if w > 8 else x
                    small = e.mk('ult', 1, x, 10)
                    d += (e.mk('add', 8, x, e.mk('select', 8, small, 48, 87 if k == 'x' else 55)),)
                new.append((s2, p + (48,) * (pad - n) + d))
        todo = new
    res = []
    for s, p in todo:
        if any(isinstance(x, tuple) and x[0] == 'S' for x in p):
            n = ('s', ('len', p)); e.symw[n] = 32
            s.dom[n] = frozenset(range(1, 25))
            if not ptrval(buf) or not isinstance(buf[2], int): return e.unknown(e, st, c)
            s.mon['cbuf', buf[1], buf[2]] = (p, n, size)
            if size <= 24: s.taint = s.taint or ('short buffer', loc)
            res.append((s, n)); continue
        n = len(p)
        if size:
            for j, x in enumerate(p[:size - 1]): e.store(s, e.padd(buf, j), x, 'i8', loc)
            e.store(s, e.padd(buf, min(n, size - 1)), 0, 'i8', loc)
        res.append((s, n))
    return res


def bufbytes(e, st, p, n, loc):
    """Bytes written from a buffer that a formatting function filled."""
    from models import rawbytes
    if ptrval(p):
        b = st.mon.get(('cbuf', p[1], p[2]))
        if b is not None:
            x = n
            while isinstance(x, tuple) and x[0] == 't' and x[1] in ('zext', 'sext', 'trunc'): x = x[3]
            if x == b[1]: return b[0]
    return rawbytes(e, st, p, n, loc)


def static_strings(ctx, e, st, part):
    """Runs the initialisers of string constants with dynamic initialisation."""
    P = ctx.P
    for f in P.all():
        if not f.name.startswith('__cxx_global_var_init') or part not in f.file: continue
        cs = [P.qn(i[3][1])[0] for _, _, i in f.calls() if isinstance(i[3], list) and i[3][0] == 'g']
        if not any(q == 'std::basic_string::basic_string' for q in cs): continue
        if not all(q.startswith(('std::basic_string::', 'std::allocator::', 'std::__new_allocator::', 'std::__throw')) or q in ('__cxa_atexit', '__gxx_personality_v0') or q.startswith('llvm.')
                   for q in cs): continue
        outs = [o for o in e.run_all(f, [], st) if o.kind == 'return']
        if len(outs) == 1: st = outs[0].state; st.frames = []
    return st
