"""Errors: their messages, and that nothing goes on after them."""
import re
from core import *
import streams
from program import split_args

FORMATTERS = {'reflect::error': 2, 'reflect::errorFormat': 1, 'reflect::json::Reader::error': 1, 'reflect::json::Writer::error': 1}
CONV = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|j|z|t|q|L)?(.)', re.S)


def bare(t): return re.sub(r'\bconst\b', '', t.rstrip('& ')).strip() if 'basic_string' not in t else 'string'


def expects(t):
    """What a conversion must look like for an argument of this type."""
    b = bare(t)
    if b == 'string' or b.replace(' ', '') in ('char*',) or re.match(r'char\s*(\(&\))?\s*\[\d*\]', b) or re.match(r'char\s*\(', b): return ('s', '')
    w = {'char': (32, 'c'), 'signed char': (32, 'c'), 'unsigned char': (32, 'c'), 'bool': (32, ''), 'short': (32, ''), 'unsigned short': (32, ''),
         'int': (32, 'c'), 'unsigned int': (32, 'c'), 'long': (64, ''), 'unsigned long': (64, ''), 'long long': (64, ''), 'unsigned long long': (64, '')}.get(b)
    if w: return ('i', w)
    if b in ('double', 'float'): return ('f', '')
    if b.endswith('*'): return ('p', '')
    return None


def fits(conv, x):
    mod, k = conv
    w = {'': 32, 'hh': 32, 'h': 32, 'l': 64, 'll': 64, 'j': 64, 'z': 64, 't': 64, 'q': 64}.get(mod or '')
    if x[0] == 's': return k == 's' and not mod or k == 'p'
    if x[0] == 'f': return k in 'aefgAEFG'
    if x[0] == 'p': return k == 'p'
    if k == 'c': return x[1][0] == 32 and not mod
    return k in 'diuxXo' and w == x[1][0]


def sites(ctx):
    """Constant formats agree with the arguments they are given."""
    P, rep = ctx.P, ctx.rep
    for f in P.all():
        if not f.file.startswith(SRC): continue
        defs = None
        for b, i, ins in f.calls():
            if not (isinstance(ins[3], list) and ins[3][0] == 'g'): continue
            q = P.qn(ins[3][1])[0]
            if q not in FORMATTERS: continue
            g = P.fn(ins[3][1])
            ta = g.targs if g is not None else None
            k = FORMATTERS[q]
            if ta is None or k >= len(ins[4]): continue
            fmt = ins[4][k]
            where = ctx.loc(ins[1])
            rep.count('call sites')
            if not isinstance(fmt, list):
                if defs is None: defs = {x[2]: x for bb in f.blocks for x in bb if len(x) > 2 and isinstance(x[2], int) and x[2] >= 0}
                d = defs.get(fmt)
                if d is not None and d[0] == 'call' and isinstance(d[3], list) and d[3][0] == 'g' and P.qn(d[3][1])[0] in ('std::basic_string::c_str', 'std::basic_string::data'):
                    rep.obligation('format', False)
                    rep.violation('format', f.qn, 'text which is not a constant is used as a format', where)
                else: rep.count('formats passed on')
                continue
            text = None
            if fmt[0] == 'g' and fmt[2] == 0:
                gl = P.globals.get(fmt[1])
                for e in (gl or {}).get('init') or ():
                    if isinstance(e[-1], str) or isinstance(e[-1], bytes): text = e[-1]
                text = const_text(ctx, fmt)
            if text is None: rep.undecided('format', 'format of unknown text', where); continue
            convs = []; bad = None
            for m in CONV.finditer(text):
                if m.group(5) == '%': continue
                if m.group(2) == '*' or m.group(3) == '*': bad = 'takes a width'
                convs.append((m.group(4), m.group(5)))
            if any(c[1] == 'n' for c in convs): bad = 'writes through its arguments'
            xs = [expects(t) for t in ta]
            if bad is None and len(convs) > len(xs): bad = 'has %d conversions for %d arguments' % (len(convs), len(xs))
            if bad is None:
                if any(x is None for x in xs): rep.undecided('format', 'argument of unknown type', where); continue
                for c, x, t in zip(convs, xs, ta):
                    if not fits(c, x): bad = 'converts an argument of type %s with %%%s%s' % (bare(t), c[0] or '', c[1]); break
            rep.obligation('format', bad is None)
            if bad: rep.violation('format', '%s "%s"' % (f.qn, text), 'the format "%s" %s' % (text, bad), where)


def const_text(ctx, g):
    e = ctx._fe = getattr(ctx, '_fe', None) or ctx.engine()
    st = State()
    try: t = e.cstr(st, ('p', ('g', g[1]), g[2]))
    except Exception: return None
    return bytes(t).decode('latin1') if all(isinstance(x, int) for x in t) else None


def chars(e, st, text):
    """A pointer to constant characters."""
    r = e.new_region(st, 'text')
    e.setstr(st, ('p', r, 0), models.lit(text))
    return ('p', ('sc', r, 0), 0)


def param_value(e, st, t, k):
    """An argument of this forwarding-reference type: (operand, what must arrive)."""
    b = bare(t)
    if b == 'string':
        p = ('p', e.new_region(st, 'arg%d' % k), 0); x = (('S', 'text%d' % k),)
        e.setstr(st, p, x); return p, ('text', x)
    x = expects(t)
    if x is None: return None
    p = ('p', e.new_region(st, 'arg%d' % k), 0)
    if x[0] == 's':
        if '*' not in b: return None
        s = 'chars%d' % k
        e.store_raw(st, p, chars(e, st, s), 8); return p, ('text', models.lit(s))
    if x[0] != 'i': return None
    w = {'char': 8, 'signed char': 8, 'unsigned char': 8, 'bool': 8, 'short': 16, 'unsigned short': 16}.get(b, x[1][0])
    v = (0x5a if w == 8 else 0x1234 if w == 16 else 0x12345678 + k if w == 32 else 0x123456789abcd + k)
    e.store_raw(st, p, v, w // 8); return p, ('int', v)


@uses_witness('errors.cpp')
def c10(ctx):
    rep, P = ctx.rep, ctx.P
    sites(ctx)
    e = ctx.engine(text=False); streams.install(e)
    inline = lambda eng, st, c: 'inline'
    e.add_hook({'reflect::error', 'reflect::errorFormat', 'reflect::verrorFormat'}, inline)

    def seen(st, x): st.mon['seen'] = st.mon.get('seen', ()) + (x,)

    def on_text(eng, st, c): seen(st, ('text', eng.getstr(st, c.args[0], c.loc))); return [(st, None)]

    def on_flag(eng, st, c): seen(st, ('flag', c.args[0])); return [(st, None)]

    def on_what(eng, st, c): seen(st, ('what', streams.message(eng, st, c.args[0]))); return [(st, None)]

    def on_throw(eng, st, c): seen(st, ('thrown', streams.message(eng, st, c.args[0]))); return [(st, 'throw', 'exception')]

    def on_printf(eng, st, c):
        n = c.name; a = c.args
        direct = n[0] == 'f' and 'stderr' in repr(a[0] if n == 'fprintf' else a[1])
        if n == 'puts': x = eng.cstr(st, a[0], c.loc)
        elif n == 'fputs': x = eng.cstr(st, a[0], c.loc)
        else:
            k = 1 if n == 'fprintf' else 0
            fmt = eng.cstr(st, a[k], c.loc); x = (); args = list(a[k + 1:]); i = 0
            while i < len(fmt):
                if fmt[i] == 37 and i + 1 < len(fmt):
                    if fmt[i + 1] == 115 and args: x += eng.cstr(st, args.pop(0), c.loc)
                    elif fmt[i + 1] == 37: x += (37,)
                    else: x += (('S', ('num', args.pop(0) if args else 0)),)
                    i += 2
                elif isinstance(fmt[i], tuple): x += (('S', ('read as a format', fmt[i])),); i += 1  # it may have conversions of its own
                else: x += (fmt[i],); i += 1
        seen(st, ('printed' if direct else 'buffered', x)); return [(st, 1)]

    def on_flush(eng, st, c):
        st.mon['seen'] = tuple(('printed', x[1]) if x[0] == 'buffered' else x for x in st.mon.get('seen', ()))
        return [(st, 0)]
    e.add_hook('wx_text', on_text); e.add_hook('wx_flag', on_flag); e.add_hook('wx_what', on_what)
    e.add_hook('__cxa_throw', on_throw)
    e.add_hook(lambda q, p, d, n: n in ('printf', 'puts', 'fprintf', 'fputs', 'putchar'), on_printf)
    e.add_hook('__cxa_allocate_exception', lambda eng, st, c: [(st, ('p', eng.new_region(st, 'exception'), 0))])
    e.add_hook({'fflush', 'setvbuf', 'setbuf', 'exit', 'std::exit'}, lambda eng, st, c: (on_flush(eng, st, c) if c.name[0] == 'f' else models.m_abort(eng, st, c) if c.name == 'exit' and on_flush(eng, st, c) else eng.unknown(eng, st, c)))

    def run(f, args, st):
        outs = calls(e, st, f, args)
        for o in outs:
            for g in ('_ZSt4cerr', '_ZSt4cout', '_ZSt4clog'):
                t = streams.text(e, o.state, ('p', ('g', g), 0))
                if t: seen(o.state, ('printed', t))
        rep.count('abstract outcomes', len(outs))
        return outs

    def judge(rule, construct, ok, msg, loc):
        rep.obligation(rule, bool(ok))
        if not ok: rep.violation(rule, construct, msg, ctx.loc(loc))

    def tainted(o, rule):
        if o.state.taint: rep.undecided(rule, 'unmodelled: %s' % (o.state.taint[0],), ctx.loc(o.state.taint[1])); return True

    # 1. arguments reach the formatting function as given
    def capture(eng, st, c):
        st.mon['fmt'] = st.mon.get('fmt', ()) + (tuple(c.args[2:]),)
        if not c.sret: return eng.unknown(eng, st, c)
        ts = ()
        for a in c.args[2:]:
            try: ts += (eng.cstr(st, a, c.loc) if ptrval_(a) else a,)
            except Exception: ts += (None,)
        st.mon['vals'] = st.mon.get('vals', ()) + ((eng.cstr(st, c.args[1], c.loc), ts),)
        eng.setstr(st, c.args[0], models.lit('MESSAGE'), c.loc); return [(st, None)]
    e.add_hook('reflect::verrorFormat', capture)
    for f in sorted(P.all(), key=lambda f: f.name):
        if f.qn not in ('reflect::error', 'reflect::errorFormat') or f.targs is None: continue
        st = State()
        fr = chars(e, st, 'the format')
        fl = chars(e, st, 'a/file.cpp')
        args = [fl, 42, fr] if f.qn == 'reflect::error' else [('p', e.new_region(st, 'out'), 0), fr]
        want = []
        for k, t in enumerate(f.targs):
            pv = param_value(e, st, t, k)
            if pv is None: want = None; break
            args.append(pv[0]); want.append(pv[1])
        name = '%s(%s)' % (f.qn, ', '.join(re.sub(r'std::basic_string<.*>>', 'string', t) for t in f.targs))
        if want is None or len(args) != len(f.args): rep.undecided('arguments', 'cannot call %s' % name); continue
        for o in run(f, args, st):
            if tainted(o, 'arguments'): continue
            vals = o.state.mon.get('vals', ())
            if not vals: rep.undecided('arguments', 'message of %s not formatted' % name); continue
            fm, ts = vals[-1]
            ok = fm == models.lit('the format') and len(ts) == len(want) and all(same(w, x) for w, x in zip(want, ts))
            judge('arguments', name, ok, 'formats (%s) instead of (%s)' % (', '.join(map(shown, ts)), ', '.join(shown(w[1]) for w in want)), o.loc)
            if f.qn == 'reflect::error':
                judge('fatal', name, o.kind != 'return', 'returns to the caller which reported the error', o.loc)
                said = [x[1] for x in o.state.mon.get('seen', ()) if x[0] in ('printed', 'thrown')]
                judge('reported', name, any(contains(x, models.lit('a/file.cpp:42: MESSAGE')) for x in said),
                      'says %s; required a/file.cpp:42: MESSAGE' % (' / '.join(map(shown, said)) or 'nothing'), o.loc)

    # 2. raising with and without exceptions
    for ex in (0, 1):
        st = State(); fl = chars(e, st, 'b.h')
        m = ('p', e.new_region(st, 'msg'), 0); e.setstr(st, m, (('S', 'message'),))
        for o in run(ctx.fn('w_verror'), [ex, fl, 7, m], st):
            if tainted(o, 'fatal'): continue
            c = 'verror, exceptions %s' % ('on' if ex else 'off')
            judge('fatal', c, o.kind != 'return', 'returns to the caller which reported the error', o.loc)
            said = [x for x in o.state.mon.get('seen', ()) if x[0] in ('printed', 'thrown')]
            want = models.lit('b.h:7: ') + (('S', 'message'),)
            if ex: judge('reported', c, o.kind == 'throw' and said and said[-1] == ('thrown', want), 'ends with %s saying %s' % (o.kind, ' / '.join(shown(x[1]) for x in said) or 'nothing'), o.loc)
            else: judge('reported', c, o.kind == 'abort' and any(contains(x[1], want) for x in said), 'ends with %s saying %s' % (o.kind, ' / '.join(shown(x[1]) for x in said) or 'nothing'), o.loc)

    # 3. error objects
    for w in ('w_objects', 'w_json_objects'):
        N = ((), 0); S = ((('S', 'text'),), 1)
        cases = {0: [('flag', 0), ('what', ())], 1: [('flag', 1), ('what', S[0])], 2: [('flag', 1), ('what', S[0])], 3: [('flag', 1), ('what', S[0]), ('flag', 1)],
                 4: [('flag', 1), ('what', S[0])], 5: [('flag', 0), ('what', ())]}
        for k, want in cases.items():
            st = State(); p = ('p', e.new_region(st, 'text'), 0); e.setstr(st, p, S[0])
            for o in run(ctx.fn(w), [p, k], st):
                if tainted(o, 'object'): continue
                got = o.state.mon.get('seen', ())
                c = '%s %s' % (w[2:], ('default', 'with text', 'copied', 'assigned', 'moved into', 'cleared')[k])
                judge('object', c, o.kind == 'return' and list(got) == want, 'is %s, required %s' % (' '.join('%s %s' % (x[0], shown(x[1])) for x in got), ' '.join('%s %s' % (x[0], shown(x[1])) for x in want)), o.loc)

    # 4. the formatting function itself, whatever vsnprintf needs
    e.add_hook('reflect::verrorFormat', inline)

    def vsn(eng, st, c):
        buf, size = c.args[0], c.args[1]
        n = st.mon['n']
        if not isinstance(size, int): return eng.unknown(eng, st, c)
        st.mon['given'] = eng.cstr(st, c.args[2], c.loc)
        if n < 0: return [(st, (1 << 32) - 1)]
        if size:
            if not ptrval_(buf) or not isinstance(buf[2], int): return eng.unknown(eng, st, c)
            cap = room(eng, st, buf)
            if cap is None: st.taint = st.taint or ('buffer of unknown size', c.loc)
            elif size > cap: st.mon['over'] = (size, cap); return [(st, 'end', ('overflow', (size, cap)))]
            m = min(n, size - 1)
            for j in range(m): eng.store_raw(st, eng.padd(buf, j), 97 + j % 26, 1)
            eng.store_raw(st, eng.padd(buf, m), 0, 1)
        return [(st, n)]
    e.add_hook('vsnprintf', vsn)
    e.add_hook('vasprintf', e.unknown)
    for n in (-1, 0, 1, 5, 255, 256, 500, 511, 512, 1000, 1022, 1023, 1024, 1025, 2047, 2048, 4096, 9000):
        st = State(); fr = chars(e, st, '<%s>')
        s = ('p', e.new_region(st, 's'), 0); e.setstr(st, s, (('S', 'arg'),))
        st.mon['n'] = n
        for o in run(ctx.fn('w_format'), [fr, s], st):
            c = 'message of %s' % ('%d characters' % n if n >= 0 else 'unknown length')
            if o.kind in ('overflow', 'out of bounds', 'uninit'):
                judge('bounded', c, False, 'reaches outside of its buffer (%s)' % (o.data,), o.loc); continue
            if tainted(o, 'bounded'): continue
            got = [x[1] for x in o.state.mon.get('seen', ()) if x[0] == 'text']
            if o.kind != 'return' or len(got) != 1: judge('bounded', c, False, 'ends with %s' % o.kind, o.loc); continue
            if n < 0: judge('bounded', c, True, '', o.loc); continue
            full = tuple(97 + j % 26 for j in range(n))
            ok = got[0] == full if n <= 1000 else got[0] == full[:len(got[0])] and len(got[0]) >= 1000
            judge('bounded', c, ok, 'becomes a text of %d characters, of which the message is not made' % len(got[0]), o.loc)

    # 5. readers and writers keep the first error
    T = lambda s: models.lit(s)
    A, B = (('S', 'first'),), (('S', 'second'),)

    def fmt(eng, st, c):
        if not c.sret: return eng.unknown(eng, st, c)
        f = eng.cstr(st, c.args[1], c.loc); out = (); args = list(c.args[2:]); i = 0
        while i < len(f):
            if f[i] == 37 and i + 1 < len(f):
                k = i + 1
                while f[k] in b'lzhj0123456789': k += 1
                if f[k] == 37: out += (37,)
                elif f[k] == 115: out += eng.cstr(st, args.pop(0), c.loc)
                else:
                    v = args.pop(0)
                    out += T(str(v)) if isinstance(v, int) else (('S', ('num', v)),)
                i = k + 1
            else: out += (f[i],); i += 1
        eng.setstr(st, c.args[0], out, c.loc); return [(st, None)]
    e.add_hook('reflect::verrorFormat', fmt)
    for text in (b'', b'ab', b'a\nb', b'\n\nxyz', b'\n'):
        st = State()
        a, b = (('p', e.new_region(st, x), 0) for x in 'ab'); e.setstr(st, a, A); e.setstr(st, b, B)
        line = 1 + text.count(b'\n')
        for n in sorted({0, 1, len(text)}):
            if n > len(text): continue
            st2 = st.copy()
            inp = streams.input_stream(e, st2, text)
            for o in run(ctx.fn('w_reader'), [inp, a, b, n], st2):
                if tainted(o, 'first'): continue
                line = 1 + text[:n].count(b'\n')
                check_stream(judge, 'reader', 'json::Reader::error', o, lambda m: m is not None and m[:len(T('%d:' % line))] == T('%d:' % line) and ends(m, T('<') + A + T('> here')), 'line %d and <first> here' % line, True)
    st = State(); a, b = (('p', e.new_region(st, x), 0) for x in 'ab'); e.setstr(st, a, A); e.setstr(st, b, B)
    out = streams.output_stream(e, st)
    for o in run(ctx.fn('w_writer'), [out, a, b], st):
        if tainted(o, 'first'): continue
        check_stream(judge, 'writer', 'json::Writer::error', o, lambda m: m is not None and ends(m, T('<') + A + T('> here')), '<first> here', False)


def check_stream(judge, what, name, o, good, want, reader):
    got = list(o.state.mon.get('seen', ()))
    n = 7 if reader else 6
    if o.kind != 'return' or len(got) != n: judge('first', name, False, 'ends with %s' % o.kind, o.loc); return
    judge('first', name + ' before any', got[0] == ('flag', 0), 'a new %s has an error' % what, o.loc)
    judge('first', name + ' one', got[1] == ('flag', 1), 'the error is not kept', o.loc)
    judge('first', name + ' message', good(got[2][1]), 'says %s; required %s' % (shown(got[2][1]), want), o.loc)
    k = 3
    judge('first', name + ' state', got[k] == ('flag', 0) and (not reader or got[k + 1] == ('flag', 0)), 'the %s still claims to be fine' % what, o.loc)
    k += 2 if reader else 1
    judge('first', name + ' two', got[k] == ('flag', 1) and got[k + 1] == got[2], 'the second error replaces the first one: %s' % shown(got[k + 1][1]), o.loc)


def ptrval_(v): return isinstance(v, tuple) and v[0] == 'p'
def ends(m, t): return len(m) >= len(t) and m[len(m) - len(t):] == t


def contains(m, t):
    m = m or ()
    return any(m[i:i + len(t)] == t for i in range(len(m) - len(t) + 1))


def same(w, x):
    if w[0] == 'text': return x == w[1]
    if not isinstance(x, int): return False
    b = 64
    return x == w[1] or x == w[1] & 0xffffffff and w[1] < 1 << 32


def shown(x):
    if isinstance(x, tuple):
        try: return '"%s"' % models.show(x)
        except Exception: return 'unknown'
    return str(x)


def room(e, st, p):
    n = e.asize.get(p[1])
    return None if n is None else n - p[2]
