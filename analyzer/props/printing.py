"""Printing JSON: scalars and the structure of arrays and objects."""
import itertools
from core import *
from props.lexer import Texts, reflex, shown, FULL
import streams


def wopts(ctx): return enumerators(ctx.P, 'reflect::json::Writer::Options')


def utf8ok(b, strict):
    """True, False, or None where nothing is required."""
    i = 0; odd = False
    while i < len(b):
        c = b[i]
        if c < 128: i += 1; continue
        k = 2 if c >> 5 == 6 else 3 if c >> 4 == 14 else 4 if c >> 3 == 30 else 0
        if not k or i + k > len(b) or any(x >> 6 != 2 for x in b[i + 1:i + k]): return False
        u = c & (1 << 7 - k) - 1
        for x in b[i + 1:i + k]: u = u << 6 | x & 63
        if u < (0, 0, 0x80, 0x800, 0x10000)[k]:
            if strict: return False
            odd = True
        if u > 0x10ffff or 0xd800 <= u < 0xe000: odd = True
        i += k
    return None if odd else True


def c24(ctx):
    """Scalars are printed as the JSON text that denotes them."""
    rep = ctx.rep
    T = Texts(ctx); e = T.e
    O = wopts(ctx)
    F = ctx.fn('w_format')
    thorough = ctx.tier == 'thorough'
    bits = {'e': O['EscapeUnicode'], 'v': O['ValidateUnicode'], 'p': O['Pretty'], 'c': O['Compact']}
    good = len(set(bits.values())) == 4 and all(b and not b & (b - 1) for b in bits.values()) and O['None'] == 0 and O['Default'] == bits['e'] | bits['v']
    rep.obligation('options', good)
    if not good: rep.violation('options', 'Writer::Options', 'the options are not four distinct flags of which escaping and validating are the default: %s' % O)

    def judge_string(opt, what):
        def judge(text, o, env):
            def f():
                if o.kind != 'return': return 'the program ends with %s' % o.kind
                q = o.state.mon.get('seen', ())
                if len(q) != 1 or not isinstance(q[0][1], int): return None
                ok = q[0][1]
                valid = True
                if 'e' in opt: valid = utf8ok(text, False)
                elif 'v' in opt: valid = utf8ok(text, True)
                if valid is None: return False
                if not valid: return 'no error is reported for invalid UTF-8' if ok else ''
                if not ok: return 'an error is reported'
                out = T.concrete(streams.text(e, o.state, o.state.mon['out']), env)
                if out is None: return None
                r = reflex(out, False, True, 'v' in opt and 'e' not in opt)
                if r[-1][0] == 'open': return False
                if len(r) != 2 or r[0][0] != 'string' or r[0][1] != text: return 'the text printed is %s' % shown(out)
                if 'e' in opt and any(c > 127 for c in out): return 'the text printed is not ASCII: %s' % shown(out)
                return ''
            bad = f()
            return bad and (what, '(options %s) %s' % (opt or 'none', bad))
        return judge

    def setup(opt, what, i=0):
        def f(st, chars):
            out = streams.output_stream(e, st)
            st.mon['out'] = out
            r = e.new_region(st, 'text'); e.setstr(st, ('p', r, 0), tuple(chars))
            return [out, sum(bits[x] for x in opt), what, ('p', r, 0), i]
        return f

    def fix(s): return [bytes([c]) for c in s.encode('latin1')]
    HI = bytes(range(128, 256))
    tapes = [[FULL] * n for n in range(3)] + [fix('a') + [FULL] + fix('"'), [HI, HI], [HI, HI, b'a"\\\x80']]
    for h in (0xdf, 0xe0, 0xe1, 0xef, 0xf0, 0xf1, 0xf4): tapes.append([bytes([h]), HI, HI])
    for h, a in ((0xe0, 0xa0), (0xe2, 0x82), (0xed, 0x9f), (0xee, 0x80), (0xef, 0xbf)): tapes.append([bytes([h]), bytes([a]), HI, b'"a'])
    for h, a in ((0xf0, 0x8f), (0xf0, 0x90), (0xf0, 0x9f), (0xf1, 0x80), (0xf3, 0xbf), (0xf4, 0x8f)):
        tapes.append([bytes([h]), bytes([a]), HI, b'\x80\xbf\xaa'])
        tapes.append([bytes([h]), bytes([a]), b'\x80\xbf\xaa', HI + b'a'])
        tapes.append([bytes([h]), bytes([a]), HI])
    if thorough: tapes += [[FULL] * 3, [HI, HI, HI], [FULL, HI, HI, FULL]]
    for tape in tapes:
        for opt in ('ev', 'v', 'e', '') if len(tape) < 3 else ('ev', 'v'):
            T.run(F, tape, None, 'string', judge_string(opt, 'formatString'), setup(opt, 0))
    for opt in ('ev', 'v', '', 'evp', 'vc'): T.run(F, [FULL], None, 'string', judge_string(opt, 'printString'), setup(opt, 1))

    def one(what, name, vals, expect):
        for v in vals:
            st = State(); out = streams.output_stream(e, st)
            for o in calls(e, st, F, [out, O['Default'], what, out, v]):
                if o.state.taint: rep.undecided('scalar', str(o.state.taint[0])); continue
                q = o.state.mon.get('seen', ())
                got = streams.text(e, o.state, out)
                ok = o.kind == 'return' and len(q) == 1 and q[0][1] == 1 and expect(v, got)
                rep.obligation('scalar', ok)
                if not ok: rep.violation('scalar', name, 'for %s the text printed is %s%s' % (v if isinstance(v, int) else 'any value', models.show(got), '' if q and q[0][1] == 1 else ' or an error'),
                                         ctx.loc(o.loc), o.state.trail(ctx.P))

    def toks(got, want):
        if not all(isinstance(x, int) for x in got): return False
        r = reflex(bytes(got), False, True, True)
        return len(r) == 2 and r[0][:2] == want
    x = e.sym('value', 64)
    for what, name in ((2, 'formatInt'), (3, 'printInt')):
        one(what, name, [x], lambda v, got: got == (('S', ('num', v)),))
        one(what, name, [0, 1, MASK[64], 1 << 31, MASK[32], 1 << 63, (1 << 63) - 1], lambda v, got: toks(got, ('int', str(tosigned(v, 64)).encode())))
    for what, name in ((4, 'formatBool'), (5, 'printBool')): one(what, name, [0, 1], lambda v, got: toks(got, ('bool', v)))
    for what, name in ((6, 'formatNull'), (7, 'printNull')): one(what, name, [0], lambda v, got: toks(got, ('null', None)))
    st = State(); out = streams.output_stream(e, st)
    for o in calls(e, st, ctx.fn('w_first'), [out]):
        if o.state.taint: rep.undecided('first error', str(o.state.taint[0])); continue
        q = o.state.mon.get('seen', ())
        ok = o.kind == 'return' and len(q) == 2 and q[0][1] is not None and q[0][1] == q[1][1]
        rep.obligation('first error', ok)
        if not ok: rep.violation('first error', 'Writer::error', 'a later error replaces the first one', ctx.loc(o.loc))


c24.witness = ('printing.cpp',)


def layout(out, pretty):
    """'' or what is wrong with the white space of printed text."""
    if not pretty: return 'white space is printed without Pretty' if any(c in b' \n\t\r' for c in out) else ''
    # containers with several entries put each on a line of its own
    depth = []; i = 0
    while i < len(out):
        c = out[i]
        if c == 34:
            i += 1
            while out[i] != 34: i += 2 if out[i] == 92 else 1
        elif c in b'[{': depth.append(out[i + 1:i + 2] == b'\n')
        elif c in b']}': depth.pop()
        elif c == 10:
            j = i + 1
            while out[j:j + 1] == b' ': j += 1
            want = 4 * (sum(depth) - (out[j:j + 1] in (b']', b'}') and depth[-1]))
            if j - i - 1 != want: return 'a line is indented by %d, required %d' % (j - i - 1, want)
            i = j - 1
        i += 1
    return ''


def c25(ctx):
    """Arrays and objects: every item once, in order, well-formed and indented."""
    rep = ctx.rep
    T = Texts(ctx); e = T.e
    O = wopts(ctx)
    F = ctx.fn('w_print')
    e.add_hook(lambda q, p, d, n: q in ('wq_skip', 'wq_fail'), lambda eng, st, c: [(st, ask(st, c.qn[3:], c.args[0]))])
    bools = {}

    def ask(st, what, i):
        s = e.sym((what, i), 1)
        bools[what, i] = s
        n = st.mon.get('asked', ())
        st.mon['asked'] = n + ((what, i),)
        return s
    base = static(ctx, e); base.mon['cap'] = 20000
    KEYS = ['b', '', 'a"', 'x']
    modes = {0: 'printArray', 1: 'printArray (skipping)', 2: 'printObject', 3: 'printObject (skipping)'}
    for pretty in (0, 1):
        for mode in range(4):
            for n in range(4):
                for outer in (0, 1, 2):
                    if outer and n == 3: continue
                    for fails in (0, 1):
                        if fails and (outer > 1 or n > 2): continue
                        if mode in (1, 3) and outer == 2 and n == 2 and ctx.tier != 'thorough': continue
                        st = base.copy()
                        st.mon['asked'] = ()
                        for i in range(4):
                            st.dom[e.sym(('fail', i), 1)] = frozenset((0, 1)) if fails else frozenset((0,))
                        out = streams.output_stream(e, st)
                        r = e.new_region(st, 'keys')
                        for i in range(n): e.setstr(st, ('p', r, 32 * i), models.lit(KEYS[i]))
                        outs = calls(e, st, F, [out, O['Pretty'] | O['Default'] if pretty else O['Default'], mode, ('p', r, 0), n, outer])
                        rep.count('abstract outcomes', len(outs))
                        for o in outs: judge(ctx, T, o, modes[mode], mode, n, outer, pretty, KEYS, out)
    # long ones
    e.widen = 100000
    for n in (260,):
        for pretty in (0, 1):
            for mode in (0, 2):
                st = base.copy(); st.mon['cap'] = 200000; st.mon['asked'] = ()
                for i in range(n): st.dom[e.sym(('fail', i), 1)] = frozenset((0,))
                out = streams.output_stream(e, st)
                r = e.new_region(st, 'keys'); keys = ['k%d' % i for i in range(n)]
                for i in range(n): e.setstr(st, ('p', r, 32 * i), models.lit(keys[i]))
                outs = calls(e, st, F, [out, O['Pretty'] | O['Default'] if pretty else O['Default'], mode, ('p', r, 0), n, 0])
                rep.count('abstract outcomes', len(outs))
                for o in outs: judge(ctx, T, o, modes[mode], mode, n, 0, pretty, keys, out)
    for n in (300, 65537):
        st = base.copy(); st.mon['asked'] = (); st.dom[e.sym(('fail', n - 1), 1)] = frozenset((0,))
        out = streams.output_stream(e, st)
        for o in calls(e, st, ctx.fn('w_last'), [out, O['None'], n]):
            if o.state.taint: rep.undecided('structure', 'unmodelled: %s' % (o.state.taint[0],), ctx.loc(o.state.taint[1])); continue
            got = streams.text(e, o.state, out); want = models.lit('[%d]' % (n - 1))
            if not all(isinstance(x, int) for x in got): rep.undecided('structure', 'text not determined'); continue
            ok = o.kind == 'return' and [x[:2] for x in reflex(bytes(got), False, True, True)] == [('[', None), ('int', b'%d' % (n - 1)), (']', None), ('eos', None)]
            rep.obligation('structure', ok)
            if not ok: rep.violation('structure', 'printArray (skipping)', '%d entries, all but the last skipped: the text printed is %s' % (n, shown(bytes(got)) if o.kind == 'return' else 'lost: the program ends with %s' % o.kind), ctx.loc(o.loc), o.state.trail(ctx.P))
    F = ctx.fn('w_indent')
    for n in (0, 1, 2, 7, 1023, 1024, 1025, 2048, 2049):
        for pretty in (0, 1):
            st = base.copy(); out = streams.output_stream(e, st)
            for o in calls(e, st, F, [out, O['Pretty'] if pretty else O['None'], n]):
                if o.state.taint: rep.undecided('indent', str(o.state.taint[0])); continue
                got = streams.text(e, o.state, out)
                want = models.lit('\n' + ' ' * (4 * n) + ' ') if pretty else ()
                ok = o.kind == 'return' and got == want
                rep.obligation('indent', ok)
                if not ok: rep.violation('indent', 'Writer::newline', 'at depth %d %s is printed after a line feed, required %d spaces' % (n, 'a text of %d characters' % (len(got) - 2) if o.kind == 'return' else o.kind, 4 * n), ctx.loc(o.loc))


def judge(ctx, T, o, name, mode, n, outer, pretty, keys, out):
    rep, e = ctx.rep, T.e
    st = o.state
    if st.taint: rep.undecided('structure', 'unmodelled: %s' % (st.taint[0],), ctx.loc(st.taint[1])); return
    asked = st.mon.get('asked', ())
    what = []
    for k, i in asked:
        v = e.values(st, e.sym((k, i), 1))
        what.append((k, i, v))
    # enumerate the choices left open
    free = sorted({(k, i) for k, i, v in what if len(v) > 1})
    for combo in itertools.product((0, 1), repeat=len(free)):
        val = {(k, i): v[0] for k, i, v in what if len(v) == 1}
        val.update(dict(zip(free, combo)))
        bad = check(T, o, mode, n, outer, pretty, keys, val, out)
        if bad is None: rep.undecided('structure', 'result not determined'); continue
        rep.obligation('structure', not bad)
        if bad: rep.violation('structure', name, '%d entries%s%s: %s' % (n, ', nested in %d' % outer if outer else '', ', pretty' if pretty else '', bad), ctx.loc(o.loc), st.trail(ctx.P))


def check(T, o, mode, n, outer, pretty, keys, val, out):
    if o.kind != 'return': return 'the program ends with %s' % o.kind
    q = list(o.state.mon.get('seen', ()))
    want = []; toks = []
    failed = False
    k = '[' if mode < 2 else '{'
    if outer: toks.append(('[', None))
    for rep in range(outer or 1):
        if rep: toks.append((',', None))
        toks.append((k, None)); first = True
        for i in range(n):
            if failed: break
            if mode in (1, 3) and val.get(('skip', i), 0): continue
            if not first: toks.append((',', None))
            first = False
            if mode > 1:
                want.append(('key', models.lit(keys[i]))); toks += [('string', keys[i].encode()), (':', None)]
            want.append(('item', i))
            if val.get(('fail', i), 0): failed = True
            else: toks.append(('int', str(i).encode()))
        if failed: break
        toks.append((']' if mode < 2 else '}', None))
    if outer: toks.append((']', None))
    if not q or q[-1][0] != 'end': return None
    if q[-1][1] not in (0, 1): return None
    if q[:-1] != want: return 'the entries printed are %s, required %s' % (evs(q[:-1]), evs(want))
    if bool(q[-1][1]) == failed: return 'the error is lost' if failed else 'an error is reported'
    if failed: return ''
    text = streams.text(T.e, o.state, out)
    if not all(isinstance(x, int) for x in text): return None
    text = bytes(text)
    got = [x[:2] for x in reflex(text, False, True, True)]
    if got != toks + [('eos', None)]: return 'the text printed is %s' % shown(text)
    return layout(text, pretty)


def evs(l): return ' '.join(models.show(x[1]) if isinstance(x[1], tuple) else str(x[1]) for x in l) or 'none'


def static(ctx, e): return streams.static_strings(ctx, e, State(), 'json')


c25.witness = ('printing.cpp',)
