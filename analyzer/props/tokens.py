"""Tokens: what they are made of, what they convert to, how they are shown."""
from core import *
import streams
from props.dsl import says

QUESTIONS = ('type', 'asBool', 'asInt', 'asFloat', 'asString', 'print')
NAMES = {'NoToken': 'notok', 'ObjectStart': '{', 'ObjectEnd': '}', 'ArrayStart': '[', 'ArrayEnd': ']', 'Separator': ',', 'KeySeparator': ':', 'String': 'string',
         'Int': 'int', 'Float': 'float', 'Bool': 'bool', 'Null': 'null', 'EOS': 'eos'}
CONVERTS = {1: ('Bool',), 2: ('Int',), 3: ('Int', 'Float'), 4: ('String',)}


@uses_witness('tokens.cpp')
def c31(ctx):
    rep = ctx.rep
    e = ctx.engine(text=False); streams.install(e)
    e.start = True
    e.add_hook(lambda q, p, d, n: q.startswith('reflect::Registry::') or q.startswith('reflect::scope') or q.startswith('std::ios_base::Init'), models.m_nop)
    K = enumerators(ctx.P, 'reflect::json::Token::Type')

    def saw(eng, st, c):
        v = eng.getstr(st, c.args[0], c.loc) if c.name == 'wk_text' else c.args[0]
        st.mon['seen'] = st.mon.get('seen', ()) + ((c.name[3:], v),); return [(st, None)]
    e.add_hook(lambda q, p, d, n: n.startswith('wk_'), saw)
    start = State()
    for f in sorted(ctx.P.raw):
        if not f.startswith('_GLOBAL__sub_I') or 'json' not in f: continue
        for o in calls(e, start, ctx.P.fn(f), []):
            if o.kind == 'return' and not o.state.taint: start = o.state
            break
    e.start = False

    def run(w, args, want, rule, construct, st):
        """want: None when it has to raise, else one (kind, judge)."""
        for o in calls(e, st, ctx.fn(w), args):
            rep.count('abstract outcomes')
            if o.state.taint: rep.undecided(rule, 'unmodelled: %s' % (o.state.taint[0],), ctx.loc(o.state.taint[1])); continue
            seen = o.state.mon.get('seen', ())
            if want is None:
                ok = o.kind in ('abort', 'throw', 'error') and not seen
                rep.obligation(rule, ok)
                if not ok: rep.violation(rule, construct, 'has to be refused but ends with %s%s' % (o.kind, ' ' + shown(seen[0][1]) if seen else ''), ctx.loc(o.loc))
                continue
            if o.kind != 'return':
                rep.obligation(rule, False); rep.violation(rule, construct, 'ends with %s%s' % (o.kind, says(o)), ctx.loc(o.loc)); continue
            if len(seen) != 1: rep.undecided(rule, 'result not determined'); continue
            ok = want(o.state, seen[0][1])
            if ok is None: rep.undecided(rule, 'result not determined', ctx.loc(o.loc)); continue
            rep.obligation(rule, ok)
            if not ok: rep.violation(rule, construct, 'gives %s' % shown(seen[0][1]), ctx.loc(o.loc))

    def text(st, s):
        p = ('p', e.new_region(st, 'text'), 0); e.setstr(st, p, s); return p

    def same(x):
        def f(st, v):
            if isinstance(v, tuple) and v[:2] == ('t', 'opaque') and v[3] == 'fptosi' and v[4][0] == 's' and v[4][1][0] == 'strtod' and all(isinstance(c, int) for c in v[4][1][1]):
                # an integer read as a floating point number: exact only up to 2^53
                n = int(float(bytes(v[4][1][1])))
                v = n & (1 << 64) - 1 if -2**63 <= n < 2**63 else None
            return None if not isinstance(v, int) else v == x
        return f

    def said(x): return lambda st, v: x == v if v is not None else None

    def number(s):
        def f(st, v): return None if not (isinstance(v, tuple) and v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == 'strtod') else v[1][1] == models.lit(s)
        return f

    OPEN = (('S', 'text'),)
    for n, k in sorted(K.items()):
        if n not in NAMES: continue
        lit = models.lit
        run('w_name', [k], said(lit(NAMES[n])), 'name', n, start.copy())
        for q, ask in enumerate(QUESTIONS):
            c = '%s of a token %s' % (ask, n)
            fine = q not in CONVERTS or n in CONVERTS[q]
            # without a value: conversions of the wrong type are refused, the others have nothing to give
            if not q: run('w_plain', [k, q], same(k), 'type', c, start.copy())
            elif q == 5: run('w_plain', [k, q], said(lit('<Token %s>' % NAMES[n])), 'print', c, start.copy())
            elif not fine: run('w_plain', [k, q], None, 'refused', c, start.copy())
            for cp in ('', '_copy'):
                cc = c + (' (copied)' if cp else '')
                for b in (0, 1):
                    want = same(k) if not q else same(b) if q == 1 else said(lit('<Token %s: %s>' % (NAMES[n], 'true' if b else 'false'))) if q == 5 else None
                    if fine and (q != 1 or n == 'Bool') and (want is not None):
                        run('w_bool' + cp, [k, b, q], want, 'type' if not q else 'print' if q == 5 else 'value', '%s made of %s' % (cc, bool(b)), start.copy())
                    elif not fine: run('w_bool' + cp, [k, b, q], None, 'refused', '%s made of %s' % (cc, bool(b)), start.copy())
                for s in (OPEN,) if q not in (2, 3) or not fine else (lit('12'), lit('-7'), lit('9223372036854775807'), lit('9007199254740993'), lit('-9223372036854775808'), lit('0'), lit('012'), lit('-08')) + ((lit('1.5'), lit('-2e3')) if q == 3 else ()):
                    if q == 1 and fine: continue
                    st = start.copy(); p = text(st, s)
                    if not q: want = same(k)
                    elif q == 2: want = same(int(bytes(s)) & (1 << 64) - 1) if fine else None
                    elif q == 3: want = number(bytes(s).decode()) if fine else None
                    elif q == 4: want = said(s) if fine else None
                    elif q == 5: want = said(lit('<Token %s: ' % NAMES[n]) + s + lit('>'))
                    else: want = None
                    run('w_text' + cp, [k, p, q], want, 'refused' if not fine else 'type' if not q else 'print' if q == 5 else 'value', '%s made of %s' % (cc, 'a text' if s is OPEN else bytes(s).decode()), st)
    for q, ask in enumerate(QUESTIONS):
        run('w_none', [q], same(K['NoToken']) if not q else said(models.lit('<Token notok>')) if q == 5 else None, 'empty', '%s of a default token' % ask, start.copy())


def shown(v):
    if isinstance(v, tuple):
        try: return '"%s"' % models.show(v)
        except Exception: return 'something else'
    return str(v)
