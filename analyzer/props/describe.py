"""Descriptions of types and scopes show everything that was declared, once."""
from core import *
import streams
from props.builtins import Real
from props.dsl import says

SIG = {'get': ['char(int)', 'void(int, int const&)'], 'set': ['void(std::string&)'], 'f': ['void()'], 'does': ['void()']}


def tree(text):
    """The blocks of a description, without layout and without orders which are not promised."""
    lines = [l.strip() for l in text.split('\n')]
    lines = [l for l in lines if l]
    pos = [0]

    def traits(l):
        """'... [ b a ]' with the traits in order."""
        if l.endswith(']') and '[ ' in l:
            a, b = l.split('[', 1); return a + '[ ' + ' '.join(sorted(b[:-1].split())) + ' ]'
        return l

    def block():
        title = lines[pos[0]]; pos[0] += 1
        if pos[0] >= len(lines) or lines[pos[0]] != '{': raise ValueError('no { after "%s"' % title)
        pos[0] += 1
        fields, rest, group = [], [], None
        while True:
            if pos[0] >= len(lines): raise ValueError('no } after "%s"' % title)
            l = lines[pos[0]]
            if l == '}': pos[0] += 1; break
            if l.split(' ')[0] in ('type', 'scope') and not l.endswith(';'): rest.append(block()); group = None; continue
            pos[0] += 1
            if l.startswith('0x'): fields.append(traits(l)); group = None
            elif l.endswith(';'): rest.append(('type', l)); group = None
            elif l.endswith(':') and not l.endswith('::'): group = [l]; rest.append(group)
            elif group is not None: group.append(traits(l))
            else: rest.append(('line', traits(l)))
        rest = [tuple(r[:1] + sorted(r[1:])) if isinstance(r, list) else r for r in rest]
        return ('block', title, tuple(fields), tuple(sorted(rest, key=repr)))
    r = block()
    if pos[0] != len(lines): raise ValueError('"%s" follows' % lines[pos[0]])
    return r


def flat(t):
    if t[0] == 'block': return [t[1]] + list(t[2]) + [x for r in t[3] for x in flat(r)]
    if t[0] in ('line', 'type'): return [t[1]]
    return list(t)


def functions(n):
    r = []
    if n: r.append(tuple(['get:'] + sorted((['[ fast ]'] if n > 2 else []) + SIG['get'][:min(n, 2)])))
    if n > 2: r.append(tuple(['set:'] + SIG['set']))
    return r


def fields(n):
    r = {0: [], 1: ['0x1a: int late'], 2: ['0x0: char first [ marked ]', '0x1a: int late'], 3: ['0x0: char first [ marked ]', '0x8: std::string middle', '0x1a: int late']}
    r[4] = r[3] + ['0x10004: int far', '0x100000002: int beyond']
    return tuple(r[n])


def traitline(n, names=('one', 'two', 'three')): return [('line', '[ ' + ' '.join(sorted(names[:n])) + ' ]')] if n else []


def block(title, fs, rest): return ('block', title, tuple(fs), tuple(sorted(rest, key=repr)))


@uses_witness('describe.cpp')
def c32(ctx):
    R = Real(ctx); rep = ctx.rep
    if R.st is None: return
    R.load('w_use')
    if R.st is None: return
    streams.install(R.e)
    R.e.add_hook(lambda q, p, d, n: q.startswith('wd_'), R.saw)

    def need(rule, construct, w, args, good):
        for o in R.run(w, args):
            if o.state.taint: rep.undecided(rule, '%s: unmodelled: %s' % (construct, o.state.taint[0]), ctx.loc(o.state.taint[1])); continue
            seen = o.state.mon.get('seen', ())
            if good == 'error':
                rep.obligation(rule, o.kind == 'error')
                if o.kind != 'error': rep.violation(rule, construct, 'has to be an error but ends with %s' % o.kind, ctx.loc(o.loc))
                continue
            if o.kind != 'return':
                rep.obligation(rule, False); rep.violation(rule, construct, 'ends with %s%s' % (o.kind, says(o)), ctx.loc(o.loc)); continue
            if len(seen) != 1 or not all(isinstance(x, int) for x in seen[0][1]): rep.undecided(rule, '%s: text not determined' % construct, ctx.loc(o.loc)); continue
            bad = good(bytes(seen[0][1]).decode('latin1'))
            rep.obligation(rule, not bad)
            if bad: rep.violation(rule, construct, bad, ctx.loc(o.loc))

    def like(want):
        def f(text):
            try: got = tree(text)
            except (ValueError, IndexError) as x: return 'is not a description: %s' % x
            if got == want: return None
            g, w = flat(got), flat(want)
            for x in w:
                if g.count(x) < w.count(x): return 'does not show "%s" as it should' % x
            for x in g:
                if g.count(x) > w.count(x): return 'shows "%s"%s' % (x, ' %d times' % g.count(x) if x in w else ' which is not part of it')
            return 'shows its members in the wrong place: %s' % ', '.join(g)
        return f

    for t in range(3):
        for f in range(5):
            for n in range(4):
                for ind in (0, 4):
                    want = block('type Thing', fields(f), traitline(t) + functions(n))
                    need('type', 'a type with %d traits, %d fields, %d functions' % (t, f, n), 'w_type', [t, f, n, ind], like(want))
    for t in range(2):
        for f in range(2):
            for n in range(2):
                for pt, pf, pn in ((0, 0, 0), (1, 0, 0), (0, 2, 0), (0, 0, 2), (2, 3, 3)):
                    anc = block('type Ancestor', (), [])
                    par = block('type Parent', fields(pf), [anc] + traitline(pt) + functions(pn))
                    want = block('type Thing', ['0xc: int own'] if f else [], [par] + ([('line', '[ mine ]')] if t else []) + ([('does:', 'void()')] if n else []))
                    need('derived', 'a derived type with %d traits, %d fields, %d functions; its parent %d, %d, %d' % (t, f, n, pt, pf, pn), 'w_child', [t, f, n, pt, pf, pn], like(want))
    for t in range(2):
        for n in range(4):
            for ty in range(3):
                for s in range(3):
                    sub = []
                    if s: sub.append(block('scope inner', (), [('f:', 'void()')]))
                    if s > 1: sub.append(block('scope other', (), [block('scope deep', (), [('type', 'type Gamma;')])]))
                    want = block('scope here', (), traitline(t) + functions(n) + [('type', 'type %s;' % x) for x in ('Alpha', 'Beta')[:ty]] + sub)
                    need('scope', 'a scope with %d traits, %d functions, %d types, %d scopes' % (t, n, ty, s), 'w_scope', [t, n, ty, s], like(want))
    for n in range(4):
        names = sorted(('one', 'two', 'three')[:n])
        need('traits', '%d traits' % n, 'w_traits', [n], lambda text, names=names: None if text.split()[:1] == ['['] and text.split()[-1:] == [']'] and sorted(text.split()[1:-1]) == names else 'shows %s; required %s' % (text, names))
    minus = (1 << 32) - 1
    for name, k, i in (('reflect::RefType', 'LValue RValue Copy', 0), ('reflect::Match', 'None Partial Exact', 1)):
        K = enumerators(ctx.P, name)
        for x in k.split():
            need('enumerations', '%s::%s' % (name, x), 'w_enums', [K[x], minus] if not i else [minus, K[x]], lambda text, x=x: None if text == x else 'is shown as %s' % text)
        need('enumerations', 'no %s' % name, 'w_enums', [77, minus] if not i else [minus, 77], 'error')
