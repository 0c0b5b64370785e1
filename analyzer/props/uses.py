"""Values are used as the objects they hold: their operators, functions, fields and truth."""
from core import *
from props.builtins import Real, ground, same, list_
from props.dsl import says

OWN = ('Truth', 'Both', 'Plain', 'TruthChild', 'BothChild', 'PlainChild', 'Num', 'NumChild')
VOID, INT, NUM = 0, 1, 2


class Used(Real):
    def __init__(self, ctx):
        self.truth = {}; self.made = {}
        super().__init__(ctx)
        self.e.add_hook(lambda q, p, d, n: q.split('::')[0] in OWN and '::' in q and self.e.P.fn(n) is None, self.ran)

    def number(self, key): return self.made.setdefault(key, 1000 + 7 * len(self.made))

    def ran(self, e, st, c):
        """A function of the program: recorded, with a result of its own."""
        cls, k = c.qn.split('::', 1); a = c.args
        put = lambda x: st.mon.__setitem__('seen', st.mon.get('seen', ()) + (x,))
        if k == cls: put(('copy', a[0], a[1]) if len(a) > 1 else ('new', a[0])); return [(st, None)]
        if k[0] == '~': put(('end', a[0])); return [(st, None)]
        args = a[1:] if c.sret else a
        put(('ran', k, len(args) - 1) + tuple(args))
        if c.sret: e.store_raw(st, a[0], self.number(k), 4, c.loc); return [(st, None)]
        if c.retty == 'void': return [(st, None)]
        if c.retty == 'ptr': return [(st, self.part(k))]
        if c.retty == 'i1': return [(st, self.truth[k])]
        if c.retty[0] == 'i': return [(st, self.number((k, len(args))))]
        return e.unknown(e, st, c)

    def part(self, k): return ('p', ('R', 'result of ' + k), 0)


@uses_witness('uses.cpp')
def c34(ctx):
    R = Used(ctx); e = R.e; rep = ctx.rep
    if R.st is not None: R.load('w_use')
    if R.st is None: return

    def need(rule, construct, w, args, ran, vals=(), st=None):
        """ran: what the program's classes are asked for, in order; vals: what the program sees; or 'error', with nothing asked."""
        for o in R.run(w, args, st):
            if o.state.taint: rep.undecided(rule, '%s: unmodelled: %s' % (construct, o.state.taint[0]), ctx.loc(o.state.taint[1])); continue
            seen = o.state.mon.get('seen', ())
            got = [x for x in seen if isinstance(x, tuple) and x and x[0] == 'ran']
            src = {x[1]: x[2] for x in seen if isinstance(x, tuple) and x and x[0] == 'copy'}
            def fail(t): rep.obligation(rule, False); rep.violation(rule, construct, t, ctx.loc(o.loc))
            name = lambda x: x[1] if x[1].startswith('operator') else x[1] + '()'
            if ran == 'error':
                if o.kind != 'error': fail('has to be an error but ends with %s' % o.kind)
                elif got: fail('is an error, but only after it ran %s' % name(got[0]))
                else: rep.obligation(rule, True)
                continue
            if o.kind != 'return': fail('ends with %s%s' % (o.kind, says(o))); continue
            bad = None
            if len(got) != len(ran): bad = 'runs %s; required %s' % (', '.join(map(name, got)) or 'nothing', ', '.join(r[0] for r in ran) or 'nothing')
            for g, r in zip(got, ran):
                if bad: break
                if (g[1], g[2]) != (r[0], len(r) - 2): bad = 'runs %s with %d arguments; required %s with %d' % (name(g), g[2], r[0], len(r) - 2); break
                for i, (x, y) in enumerate(zip(g[3:], r[1:])):
                    if isinstance(y, tuple) and y[0] == 'like':
                        n = 0
                        while x != y[1] and x in src and n < 8: x = src[x]; n += 1
                        y = y[1]; 
                    if not same(x, y): bad = 'runs %s %s %s; required %s' % (name(g), 'on' if not i else 'with argument %d being' % i, list_([x]), list_([y])); break
            shown = [ground(e, x, {}) for x in seen if not (isinstance(x, tuple) and x and x[0] in ('ran', 'copy', 'new', 'end'))]
            if not bad and any(x is None for x in shown): rep.undecided(rule, '%s: result not determined' % construct, ctx.loc(o.loc)); continue
            if not bad and (len(shown) != len(vals) or not all(same(x, y) for x, y in zip(shown, vals))): bad = 'yields %s; required %s' % (list_(shown), list_(vals))
            if bad: fail(bad)
            else: rep.obligation(rule, True)

    st = R.st.copy()
    for c in ('Truth', 'Both', 'Plain'):
        for child in ('', 'Child'):
            p = ('p', e.new_region(st, 'object', 'h'), 0)
            for t in (0, 1):
                for n in (0, 1):
                    R.truth = {'operator bool': t, 'operator!': n}
                    for k, kind in (('', 'a'), ('c', 'a constant')):
                        what = '%s %s%s%s' % (kind, c, child, '' if c == 'Plain' else ' which is %s' % ('true' if t else 'false') + (', ! of which is %s' % ('true' if n else 'false') if c == 'Both' else ''))
                        w = '_%s%s' % (c, child)
                        B, N = ('operator bool', p), ('operator!', p)
                        if c == 'Plain': yes = no = 'error'
                        else: yes, no = [B], [N] if c == 'Both' else [B]
                        neg = n if c == 'Both' else 1 - t
                        need('truth', 'truth of ' + what, 'w_%strue' % k + w, [p], yes, [t], st)
                        need('truth', '! of ' + what, 'w_%snot' % k + w, [p], no, [neg], st)
                    need('truth', '! twice of ' + what, 'w_notnot' + w, [p], no if no == 'error' else no * 2, [neg] * 2, st)
    p = ('p', e.new_region(st, 'object', 'h'), 0)
    need('refused', 'an unknown function of a Both', 'w_unknown_Both', [p], 'error', (), st); need('refused', '() with an argument too many of a Both', 'w_callone', [p], 'error', (), st)
    need('operators', '() of a Both', 'w_callnone', [p], [('operator()', p)], [INT, 0, 1, 1, R.number(('operator()', 1))], st)
    for what in range(10):
        need('nothing', ('truth', '!', '+', 'a function', 'a field', 'assignment', 'a copy', 'moving', '==', 'typed access')[what] + ' of a void value', 'w_void', [what], 'error', (), st)

    p, q = (('p', e.new_region(st, k, 'h'), 0) for k in ('object', 'other'))
    for r, i in ((p, 3), (q, 5)):
        for off, v in ((0, i), (4, 40 + i), (8, 80)): e.store(st, ('p', r[1], off), v, 'i32', None)
    REF = lambda t, at, const=0: [t, const, 1, 0, at]
    NEW = lambda t, *v: [t, 0, 1, 1] + list(v)
    num = lambda k, n=2: R.number((k, n))
    x = 17
    for t in (0, 1):
        R.truth = {'operator==': t, 'operator<': 1 - t}
        for K, kind, const in (('num', 'a Num', 0), ('cnum', 'a constant Num', 1), ('child', 'a class derived from Num', 0), ('cchild', 'a constant class derived from Num', 1)):
            def op(rule, what, w, args, ran, vals=(), changes=0):
                need(rule, '%s of %s' % (what, kind), 'w_%s_%s' % (w, K), [p] + args, 'error' if changes and const else ran, vals, st)
            ran = lambda k, *a: [(k, p) + a]
            op('operators', '==', 'eq', [q], ran('operator==', q), [t]); op('operators', '== with a value', 'eqv', [q], ran('operator==', q), [t])
            op('operators', '<', 'lt', [q], ran('operator<', ('like', q)), [1 - t])
            if t: continue
            op('operators', '+=', 'addto', [q], ran('operator+=', q), REF(NUM, R.part('operator+=')), 1)
            op('operators', '+= with a value', 'addtov', [q], ran('operator+=', q), REF(NUM, R.part('operator+=')), 1)
            op('operators', '-', 'minus', [q], ran('operator-', q), NEW(INT, num('operator-')))
            op('operators', '- with a value of a derived class', 'minusv', [q], ran('operator-', q), NEW(INT, num('operator-')))
            op('operators', '%', 'mod', [q], ran('operator%', q), NEW(INT, num('operator%')))
            op('refused', '% with a constant', 'modc', [q], 'error'); op('refused', '% with a value of a constant', 'modcv', [q], 'error')
            op('operators', '&', 'and', [x], ran('operator&', x), NEW(INT, num('operator&')))
            op('refused', '& with another class', 'andwrong', [q], 'error')
            op('operators', '|', 'or', [q], ran('operator|', q), NEW(NUM))
            op('operators', '<<=', 'shift', [q], ran('operator<<=', q), [VOID, 0, 0, 0], 1)
            op('operators', '[]', 'index', [x], ran('operator[]', x), REF(INT, R.part('operator[]')), 1)
            op('operators', '()', 'call', [q, x], ran('operator()', q, x), NEW(INT, num('operator()', 3)))
            op('refused', '() with too few arguments', 'callfew', [q], 'error'); op('refused', '() with too many arguments', 'callmany', [q, x], 'error')
            op('operators', '++', 'inc', [], ran('operator++'), REF(NUM, R.part('operator++')), 1)
            op('operators', 'postfix --', 'dec', [], [('operator--', p, 0)], NEW(NUM), 1)
            op('refused', 'prefix --, which there is not,', 'prefix', [], 'error')
            op('operators', '*', 'deref', [], ran('operator*'), REF(INT, R.part('operator*'), 1))
            op('refused', 'binary *, which there is not,', 'missing', [q], 'error'); op('refused', '!=, which there is not,', 'ne', [q], 'error'); op('refused', '~, which there is not,', 'tilde', [], 'error')
            op('operators', 'conversion', 'convert', [], ran('operator int'), [num('operator int', 1)]); op('refused', 'conversion to another type', 'convertno', [], 'error')
            op('operators', 'assign', 'assign', [q], ran('operator=', q), (), 1)
            op('functions', 'two overloads', 'twice', [x], [('twice', p, x), ('twice', p)], [num('twice', 2), num('twice', 1)])
            op('functions', 'a function', 'set', [x], ran('set', x), (), 1); op('refused', 'a result of a function without', 'setr', [x], 'error'); op('refused', 'an unknown function', 'unknown', [], 'error')
            op('fields', 'a field', 'part', [], [], REF(INT, ('p', p[1], 4), const) + [43]); op('refused', 'an unknown field', 'nopart', [], 'error')
            op('fields', 'a field used', 'partadd', [2], [], NEW(INT, 45) + [43]); op('fields', 'a field assigned to', 'partset', [x], [], [x], 1)
            op('operators', '+= and then []', 'chain', [q, x], ran('operator+=', q) + [('operator[]', R.part('operator+='), x)], REF(INT, R.part('operator[]')), 1)
