"""Common machinery of the checks: building the IR of the current tree,
running the abstract interpreter over entry points, comparing the resulting
cubes with decision tables, and reporting."""
import hashlib, itertools, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
BUILD = os.path.join(VERIF, 'build')
EVID = os.path.join(VERIF, 'evidence')

from program import Program
import engine as E
from engine import Engine, State, Undecided, Terminal, UNDEF, MASK, tosigned
import models

CXX = 'clang++-18'
FLAGS = ['-std=c++11', '-I' + SRC, '-g', '-O0', '-Xclang', '-disable-O0-optnone',
         '-fno-discard-value-names', '-emit-llvm', '-c', '-w', '-pthread']

BASE_TUS = ['reflect.cpp', 'utils/json/json.cpp', 'types/primitives.cpp', 'types/std/string.cpp',
            'types/reflect/type.cpp', 'types/reflect/value.cpp', 'types/primitive_void.cpp']


class Broken(Exception):
    """The check cannot be carried out (no verdict)."""


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f: h.update(f.read())
    return h.hexdigest()[:20]


def repo_sources():
    r = []
    for d, _, fs in os.walk(SRC):
        for f in fs:
            if f.endswith(('.h', '.tcc', '.cpp')): r.append(os.path.join(d, f))
    return r


def build_irx():
    src = os.path.join(VERIF, 'tools', 'irx.cpp')
    out = os.path.join(BUILD, 'irx-' + digest([src]))
    if os.path.exists(out): return out
    cfg = lambda *a: sh(['llvm-config-18'] + list(a)).stdout.split()
    cxx = [x for x in cfg('--cxxflags') if x != '-std=c++17']
    tmp = out + '.%d' % os.getpid()
    r = sh([CXX, '-std=c++17', '-O1'] + cxx + ['-fno-rtti', src, '-o', tmp] + cfg('--ldflags') + ['-lLLVM-18'])
    if r.returncode: raise Broken('exporter does not build:\n' + r.stdout[-2000:])
    os.replace(tmp, out)
    return out


def tu_list():
    tus = [os.path.join(SRC, t) for t in BASE_TUS if os.path.exists(os.path.join(SRC, t))]
    d = os.path.join(SRC, 'types')
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if f.endswith('.cpp') and p not in tus: tus.append(p)
    return tus


class CompileError(Exception):
    def __init__(self, path, out): self.path = path; self.out = out


def load_program(witnesses=(), base=True, extra_flags=(), only=None, optional=()):
    """IR of /repo's library sources plus the named witness units."""
    os.makedirs(BUILD, exist_ok=True)
    wit = [os.path.join(VERIF, 'witness', w) for w in ('accessors.cpp',) + tuple(witnesses)]
    tus = (tu_list() if base else []) + wit
    if only is not None: tus = [os.path.join(SRC, t) for t in only] + wit
    key = digest(repo_sources() + wit + [os.path.join(VERIF, 'tools', 'irx.cpp')], ' '.join(list(extra_flags) + tus + FLAGS))
    out = os.path.join(BUILD, 'ir-%s.json' % key)
    if os.path.exists(out): return Program(out)
    tmpd = os.path.join(BUILD, 'tmp-%s-%d' % (key, os.getpid()))
    os.makedirs(tmpd, exist_ok=True)
    try:
        def comp(t):
            o = os.path.join(tmpd, hashlib.sha1(t.encode()).hexdigest()[:12] + '.bc')
            r = sh([CXX] + FLAGS + list(extra_flags) + [t, '-o', o])
            if r.returncode: raise CompileError(t, r.stdout)
            return o
        with ThreadPoolExecutor(8) as ex:
            fx = ex.submit(build_irx)
            bcs = list(ex.map(comp, tus))
            irx = fx.result()
        part = os.path.join(tmpd, 'ir.json')
        r = sh([irx, part] + bcs)
        if r.returncode: raise Broken('export failed: ' + r.stdout[-2000:])
        os.replace(part, out)
    finally:
        for f in os.listdir(tmpd): os.unlink(os.path.join(tmpd, f))
        os.rmdir(tmpd)
    # keep the scratch folder small
    old = sorted((os.path.getmtime(os.path.join(BUILD, f)), f) for f in os.listdir(BUILD) if f.startswith('ir-'))
    for _, f in old[:-8]:
        try: os.unlink(os.path.join(BUILD, f))
        except OSError: pass
    return Program(out)


# ------------------------------------------------------------------ reporting
class Report:
    def __init__(self, pid, tier, seed):
        self.pid = pid; self.tier = tier; self.seed = seed
        self.viol = {}            # key -> dict
        self.und = []             # (what, reason)
        self.obl = 0; self.dis = 0
        self.rules = {}           # rule -> [obligations, discharged]
        self.counts = {}          # free-form numbers
        self.samples = {}
        self.fns = set()
        self.t0 = time.time()
        self.assumptions = []
        self.trusted = []
        self.level = 'other'
        self.explanation = ''
        self.notes = []

    def obligation(self, rule, ok=True, n=1):
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += n; self.obl += n
        if ok: r[1] += n; self.dis += n

    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n

    def violation(self, rule, construct, msg, loc='?', trail=()):
        """rule + construct identify the violation independently of line numbers."""
        key = '%s|%s' % (rule, construct)
        if key in self.viol: return
        if getattr(self, 'first', None) and (self.pid, key) not in known_findings():
            self.first(); self.first = None
        self.viol[key] = dict(key=key, rule=rule, construct=construct, message=msg, loc=loc, trail=list(trail))

    def undecided(self, rule, why, loc=None):
        self.und.append((rule, '%s%s' % (why, ' at ' + loc if loc else '')))


def known_findings():
    p = os.path.join(VERIF, 'known-findings.txt')
    res = {}
    if not os.path.exists(p): return res
    for line in open(p):
        line = line.strip()
        if not line.startswith('finding:'): continue
        body = line[len('finding:'):].strip()
        pid = body.split()[0].split('=', 1)[1]
        key = body.split('key=', 1)[1].split(' :: ')[0].strip()
        txt = body.split(' :: ', 1)[1] if ' :: ' in body else ''
        res[(pid, key)] = txt
    return res


def finish(rep, R=None):
    known = known_findings()
    os.makedirs(EVID, exist_ok=True)
    new = []
    for v in rep.viol.values():
        if (rep.pid, v['key']) in known:
            print('KNOWN-FINDING: property=%s %s' % (rep.pid, known[rep.pid, v['key']] or v['message']))
        else: new.append(v)
    cov = dict(obligations=rep.obl, discharged=rep.dis,
               rules={k: dict(obligations=a, discharged=b) for k, (a, b) in sorted(rep.rules.items())},
               counts=dict(sorted(rep.counts.items())),
               undecided=len(rep.und), undecided_sample=['%s: %s' % u for u in rep.und[:20]],
               functions_analysed=len(rep.fns), functions_sample=sorted(rep.fns)[:400],
               samples=rep.samples,
               explanation=rep.explanation or 'see DESIGN.md')
    ev = dict(property=rep.pid, tier=rep.tier, seed=rep.seed, level=rep.level, coverage=cov,
              wall_s=round(time.time() - rep.t0, 3), assumptions=rep.assumptions,
              violations=[v for v in rep.viol.values()])
    if rep.level == 'proof':
        cov['checker_cmd'] = 'python3 analyzer/check.py --property %s --tier %s' % (rep.pid, rep.tier)
        cov['trusted_base'] = rep.trusted or ['clang 18 front end', 'tools/irx.cpp', 'analyzer/engine.py', 'analyzer/models.py']
    ev['violations'] = len(new)
    cov['violation_details'] = new
    with open(os.path.join(EVID, rep.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    rp = os.path.join(EVID, rep.pid + '.replay.txt')
    if new:
        with open(rp, 'w') as f:
            for v in new:
                f.write('rule: %s\nconstruct: %s\nlocation: %s\n%s\n' % (v['rule'], v['construct'], v['loc'], v['message']))
                for t in v['trail']: f.write('    %s\n' % t)
                f.write('\n')
        for v in new[:8]:
            print('  [%s] %s: %s: %s' % (v['rule'], v['construct'], v['loc'], v['message']))
        print('VIOLATION property=%s replay=%s' % (rep.pid, rp))
        return 1
    if os.path.exists(rp): os.unlink(rp)
    if rep.obl == 0:
        print('no obligation was generated for %s: the analysed constructs were not found' % rep.pid)
        return 2
    print('%s: %d obligations, %d discharged, %d undecided, %d functions, %.1fs' % (
        rep.pid, rep.obl, rep.dis, len(rep.und), len(rep.fns), time.time() - rep.t0))
    return 0


# ------------------------------------------------------------- entry helpers
class Ctx:
    """One property's view: program, report, engine factory."""
    def __init__(self, rep, prog): self.rep = rep; self.P = prog; self.tier = rep.tier

    def engine(self, text=True, **k):
        e = Engine(self.P, **k)
        models.install(e)
        if text: models.install_text(e)
        e.rep = self.rep
        return e

    def fn(self, name):
        f = self.P.fn(name)
        if f is None: raise Broken('entry point %s not found' % name)
        return f

    def loc(self, l): return self.P.loc(l)


def tok(name): return ('p', ('T', name), 0)
def lazy(name): return ('p', ('d', name), 0)


def nonnull(st, p):
    st.dom[('t', 'atom', 1, 'null', p[1])] = frozenset((0,))
    return p


def symset(e, st, name, w, vals):
    s = e.sym(name, w); st.dom[s] = frozenset(vals); return s


def calls(e, st, f, args, want=('return',)):
    """Runs f (by Fn) to completion from st, on top of whatever memory st has.
    Returns outcomes; states come back with no frames so they can be reused."""
    st = st.copy(); st.frames = []
    outs = e.run_all(f, args, st.copy())
    # function-local statics: also start from what such a run leaves behind
    seen = set(); work = list(outs)
    while e.statics and work and len(seen) < 6:
        nxt = []
        for o in work:
            if o.kind != 'return' or o.state.taint: continue
            left = []
            for g in sorted(e.statics):
                r = ('g', g)
                if r in st.mem: continue
                c = o.state.mem.get(r)
                if c: left.append((r, tuple(sorted(c.items()))))
            key = tuple(left)
            if not left or key in seen or len(seen) >= 6: continue
            seen.add(key)
            s2 = st.copy(); s2.frames = []
            for r, c in left:
                s2.mem[r] = dict(c)
                s2.back[r] = o.state.back.get(r, ())
            nxt += e.run_all(f, args, s2)
        outs = outs + nxt; work = nxt
    for u in e.undecided:
        e.rep.undecided('engine', '%s: %s' % (f.qn, u[0]), u[1] if isinstance(u[1], str) else None)
    for n in e.fns_seen:
        q = e.P.fn(n)
        if q is not None and q.file.startswith(SRC): e.rep.fns.add(q.qn)
    for o in outs:
        o.state.frames = []
        o.state.owned = set()
    return outs


class Table:
    """Decision table over named variables (terms with finite domains)."""
    def __init__(self, e):
        self.e = e; self.vars = []        # (name, term, domain)

    def var(self, name, term, dom=(0, 1)):
        if not isinstance(term, int): self.vars.append((name, term, tuple(dom)))
        return term

    def facts(self, st, ignore=None):
        """(facts over the variables, other facts) of a state."""
        terms = [t for _, t, _ in self.vars]
        ts = set(terms)
        inn, out = [], []
        for t, d in st.dom.items():
            if t in ts: inn.append((t, d, None)); continue
            sup = self.e.support(t)
            if sup is not None and sup and all(x in ts for x in sup): inn.append((t, d, sup)); continue
            if ignore and ignore(t, d): continue
            if d.__class__ is frozenset and len(d) == 256: continue
            out.append((t, d))
        return inn, out

    def valuations(self, consistent=lambda v: True):
        names = [n for n, _, _ in self.vars]
        for vs in itertools.product(*[d for _, _, d in self.vars]):
            v = dict(zip(names, vs))
            if consistent(v): yield v, {t: x for (n, t, _), x in zip(self.vars, vs)}

    def admits(self, inn, env):
        for t, d, _ in inn:
            try: x = env[t] if t in env else self.e.ev(t, env)
            except (Undecided, KeyError, TypeError): continue
            if d.__class__ is frozenset:
                if x not in d: return False
            elif not d[1] <= x <= d[2]: return False
        return True


def value_under(e, v, env):
    """Concrete value of an outcome's returned term under a valuation, or None."""
    if isinstance(v, int): return v
    if isinstance(v, tuple) and v and v[0] in 'st':
        try: return e.ev(v, env)
        except (Undecided, KeyError, TypeError, IndexError): return None
    return None


def compare(ctx, e, rule, construct, tab, outs, expect, result, consistent=lambda v: True,
            ignore=None, extra='report', describe=str):
    """expect(v) -> expected result (or None for don't care); result(outcome, env) -> result or None."""
    rep = ctx.rep
    pre = []
    for o in outs:
        if o.state.taint:
            rep.undecided(rule, 'unmodelled: %s' % (o.state.taint[0],), ctx.loc(o.state.taint[1])); continue
        inn, out = tab.facts(o.state, ignore)
        if out and extra != 'report':
            rep.undecided(rule, 'depends on %s' % (out[:3],)); continue
        pre.append((o, inn, out))
    rep.count('abstract outcomes', len(outs))
    n = 0
    for v, env in tab.valuations(consistent):
        want = expect(v)
        if want is None: continue
        n += 1; ok = True; hit = False
        for o, inn, out in pre:
            if not tab.admits(inn, env): continue
            got = result(o, env)
            if got is None: rep.undecided(rule, 'result not determined'); continue
            hit = True
            if got != want:
                ok = False
                if len([1 for k in rep.viol if k.startswith(rule + '|' + construct)]) < 1:
                    rep.violation(rule, construct, 'for %s the result is %s, required %s%s' % (
                        ', '.join('%s=%s' % (k, x) for k, x in v.items()), describe(got), describe(want),
                        ' (when also %s)' % (out[:3],) if out else ''), ctx.loc(o.loc), o.state.trail(ctx.P))
        rep.obligation(rule, ok)
        if not hit: rep.count('table rows no outcome reaches')
    return n


def pure(e, st, f, args):
    """The single result of a side-effect free accessor, or None."""
    sub = st.copy(); sub.frames = []
    und, pend, seen = getattr(e, 'undecided', []), e.pending, set(e.fns_seen)
    try:
        outs = e.run_all(f, args, sub)
        bad = e.undecided
    finally:
        e.undecided, e.pending = und, pend
    if bad or len(outs) != 1 or outs[0].kind != 'return': return None
    return outs[0].value


def obs(e, st, name, *args):
    """Observes an abstract object through the public interface."""
    return pure(e, st, accessor(e.P, 'wa_' + name, len(args)), list(args))


def accessor(P, qn, nargs=1, const=None):
    r = [f for f in P.find(qn) if len(f.args) == nargs and (const is None or f.dem.endswith(' const') == const)]
    if not r: raise Broken('accessor %s not found' % qn)
    return r[0]


def enumerators(P, name):
    r = P.record(name)
    if not r or r.get('tag') != 'enum': raise Broken('enumeration %s not found' % name)
    return dict((n, v) for n, v in r['members'])


def uses_witness(*w):
    def d(f): f.witness = w; return f
    return d


def basesym(st, t, vals):
    """The symbol a loaded flag or enumeration boils down to, restricted to its legal values."""
    x = t
    while isinstance(x, tuple) and x[0] == 't' and x[1] in ('trunc', 'zext', 'sext', 'and'): x = x[3]
    if isinstance(x, tuple) and x[0] == 's': st.dom[x] = frozenset(vals)
    return x


def ownership(e, st, v):
    """Control-block pointers of the shared ownership members of an object (by type, not by name)."""
    r = e.P.record('reflect::Value')
    if not r: raise Broken('Value record not found')
    res = []
    for m in r['members']:
        if m[0] == 'member' and 'shared_ptr<' in (m[5] or ''):
            res.append((e.load(st, e.padd(v, m[2]), 'ptr'), e.load(st, e.padd(v, m[2] + 8), 'ptr')))
    if len(res) != 1: raise Broken('shared ownership member of Value not found')
    return res[0]
