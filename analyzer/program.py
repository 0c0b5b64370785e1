"""Loads the exported IR and offers the resolved program: functions by
qualified name, call graph, control-flow graphs, liveness, loop headers."""
import json, re, sys

_OPS = ['<<=', '>>=', '<=>', '->*', '<<', '>>', '<=', '>=', '->', '<', '>']


def opname(s, j):
    """The operator symbol at s[j:]; 'operator<<int>' is operator< with template arguments."""
    hit = next((o for o in _OPS if s.startswith(o, j)), None)
    if hit == '<<' and s[j + 2:j + 3] not in ('(', '<', '', ' '): hit = '<'
    if hit == '>>' and s[j + 2:j + 3] not in ('(', '<', '', ' '): hit = '>'
    return hit


def simplify(dem):
    """-> (qualified name without template arguments, top-level parameter text)

    'bool reflect::f<int>(int&&) const' -> ('reflect::f', 'int&&')"""
    s = dem.replace('std::__cxx11::', 'std::').replace('[abi:cxx11]', '')
    s = re.sub(r' \(\.[^)]*\)$', '', s)
    out = []
    i, n = 0, len(s)
    depth = 0          # template depth
    pdepth = 0         # parenthesis depth (outside of templates)
    params = ''
    cur = []
    while i < n:
        c = s[i]
        if depth == 0 and pdepth == 0 and s.startswith('operator', i) and \
                (i == 0 or not (s[i-1].isalnum() or s[i-1] == '_')):
            j = i + 8
            if s.startswith('()', j):
                out.append('operator()'); i = j + 2; 
                out[-1] = 'operator\x01'
                continue
            hit = opname(s, j)
            if hit:
                out.append('operator' + ''.join({'<': '\x02', '>': '\x03'}.get(x, x) for x in hit))
                i = j + len(hit)
                continue
            out.append('operator'); i = j
            continue
        if c == '<' :
            depth += 1; i += 1
            if pdepth: cur.append(c)
            continue
        if c == '>' and depth and not (i and s[i-1] == '-'):
            depth -= 1; i += 1
            if pdepth: cur.append(c)
            continue
        if depth == 0:
            if c == '(':
                if s.startswith('(anonymous namespace)', i) and pdepth == 0:
                    out.append('\x04'); i += len('(anonymous namespace)'); continue
                if pdepth == 0: cur = []
                else: cur.append(c)
                pdepth += 1; i += 1; continue
            if c == ')':
                pdepth -= 1; i += 1
                if pdepth == 0:
                    params = ''.join(cur); out.append('\x05')
                else: cur.append(c)
                continue
            if pdepth == 0: out.append(c)
            else: cur.append(c)
        elif pdepth: cur.append(c)
        i += 1
    q = ''.join(out)
    q = re.sub(r'( const| volatile| &&?| noexcept)+$', '', q)
    q = re.sub('\x05(?: const| volatile| &&?)+(?=::)', '\x05', q)
    q = re.sub(r"'lambda(\d*)'\x05", r'{lambda#\1}', q)
    q = q.replace('{lambda\x05', '{lambda')
    # drop clone suffixes and the parameter list
    isfn = q.endswith('\x05')
    if isfn: q = q[:-1]
    q = q.replace('\x05', '()')
    k = q.find('operator ')
    lim = k if k >= 0 else len(q)
    sp = q.rfind(' ', 0, lim)
    if sp >= 0 and not q.startswith('vtable for') and not q.startswith('guard variable') \
            and not q.startswith('typeinfo') and not q.startswith('non-virtual thunk'):
        q = q[sp+1:]
    q = q.lstrip('*&')
    q = (q.replace('\x01', '()').replace('\x02', '<').replace('\x03', '>')
          .replace('\x04', '(anonymous namespace)'))
    return q, (params if isfn else None)


def template_args(dem):
    """Template arguments of the last template-id before the parameter list."""
    s = dem.replace('std::__cxx11::', 'std::').replace('[abi:cxx11]', '')
    # cut parameter list: first '(' at template depth 0 that's not anonymous namespace / operator()
    depth = 0; i = 0; n = len(s); last = None; start = None
    while i < n:
        if depth == 0 and s.startswith('operator', i):
            j = i + 8
            if s.startswith('()', j): i = j + 2; continue
            hit = opname(s, j)
            i = j + (len(hit) if hit else 0)
            continue
        c = s[i]
        if c == '(' and depth == 0:
            if s.startswith('(anonymous namespace)', i): i += 21; continue
            break
        if c == '<':
            if depth == 0: start = i + 1
            depth += 1
        elif c == '>' and not (i and s[i-1] == '-'):
            depth -= 1
            if depth == 0: last = (start, i)
        i += 1
    if not last: return []
    return split_args(s[last[0]:last[1]])


def split_args(t):
    res = []; d = 0; cur = ''
    for k, c in enumerate(t):
        if c in '<({[': d += 1
        elif c in ')}]' or (c == '>' and not (k and t[k-1] == '-')): d -= 1
        if c == ',' and d == 0:
            res.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): res.append(cur.strip())
    return res


class Fn:
    __slots__ = ('name', 'dem', 'qn', 'params', 'link', 'file', 'line', 'args', 'ret', 'vararg', 'n',
                 'blocks', 'private', '_succ', '_headers', '_live', 'art', '_targs', '_loopblocks')

    def __init__(self, name, d):
        self.name = name
        self.dem = d['dem']
        self.qn, self.params = simplify(self.dem)
        self.link = d['link']
        self.file = d.get('file', '')
        self.line = d.get('line', 0)
        self.args = d['args']
        self.ret = d['ret']
        self.vararg = d['vararg']
        self.n = d['n']
        self.blocks = d['blocks']
        self.art = d.get('artificial', False)
        self.private = d.get('private', False)
        self._succ = self._headers = self._live = self._targs = self._loopblocks = None

    @property
    def targs(self):
        if self._targs is None: self._targs = template_args(self.dem)
        return self._targs

    @property
    def succ(self):
        if self._succ is None:
            self._succ = [term_succ(b[-1]) for b in self.blocks]
        return self._succ

    @property
    def headers(self):
        """Targets of back edges of a depth-first search -> where these come from."""
        if self._headers is None:
            h = {}; color = [0] * len(self.blocks)
            st = [(0, iter(self.succ[0]))]; color[0] = 1
            while st:
                b, it = st[-1]
                for s in it:
                    if color[s] == 1: h.setdefault(s, set()).add(b)
                    elif color[s] == 0:
                        color[s] = 1; st.append((s, iter(self.succ[s]))); break
                else:
                    color[b] = 2; st.pop()
            self._headers = h
        return self._headers

    @property
    def live_in(self):
        """Registers live at entry of each block, plus after each call."""
        if self._live is None:
            nb = len(self.blocks)
            use = [set() for _ in range(nb)]; dfn = [set() for _ in range(nb)]
            phiuse = {}
            for bi, blk in enumerate(self.blocks):
                for ins in blk:
                    if ins[0] == 'phi':
                        for pb, v in ins[3]:
                            if isinstance(v, int): phiuse.setdefault(pb, set()).add(v)
                        dfn[bi].add(ins[2]); continue
                    for u in uses(ins):
                        if u not in dfn[bi]: use[bi].add(u)
                    d = defined(ins)
                    if d is not None: dfn[bi].add(d)
            live = [set() for _ in range(nb)]
            ch = True
            while ch:
                ch = False
                for bi in range(nb - 1, -1, -1):
                    o = set(phiuse.get(bi, ()))
                    for s in self.succ[bi]: o |= live[s]
                    x = use[bi] | (o - dfn[bi])
                    if x != live[bi]: live[bi] = x; ch = True
            self._live = [frozenset(x) for x in live]
        return self._live

    def live_after(self, bi, ii):
        """Registers live just after instruction ii of block bi (its own result excluded)."""
        blk = self.blocks[bi]
        o = set()
        for s in self.succ[bi]:
            o |= self.live_in[s]
            for ins in self.blocks[s]:
                if ins[0] != 'phi': break
                for pb, v in ins[3]:
                    if pb == bi and isinstance(v, int): o.add(v)
        for k in range(len(blk) - 1, ii, -1):
            ins = blk[k]
            d = defined(ins)
            if d is not None: o.discard(d)
            if ins[0] != 'phi': o |= set(uses(ins))
        d = defined(blk[ii])
        if d is not None: o.discard(d)
        return o

    def calls(self):
        for bi, b in enumerate(self.blocks):
            for ii, ins in enumerate(b):
                if ins[0] == 'call': yield bi, ii, ins


def term_succ(t):
    op = t[0]
    if op == 'br': return [t[2]]
    if op == 'cbr': return [t[3], t[4]] if t[3] != t[4] else [t[3]]
    if op == 'switch': return list(dict.fromkeys([t[3]] + [b for _, b in t[4]]))
    if op == 'call' and t[6] is not None: return [t[6], t[7]]
    return []


def uses(ins):
    op = ins[0]
    if op == 'ret': c = [ins[2]]
    elif op == 'cbr' or op == 'switch': c = [ins[2]]
    elif op == 'call': c = [ins[3]] + ins[4]
    elif op == 'load': c = [ins[3]]
    elif op == 'store': c = [ins[2], ins[3]]
    elif op == 'gep': c = [ins[3]] + [x[0] for x in ins[5]]
    elif op == 'icmp': c = [ins[4], ins[5]]
    elif op == 'bin': c = [ins[5], ins[6]]
    elif op == 'cast': c = [ins[6]]
    elif op == 'select': c = ins[3:6]
    elif op == 'extract': c = [ins[3]]
    elif op == 'insert': c = [ins[3], ins[4]]
    elif op == 'other': c = ins[5]
    else: c = []
    return [x for x in c if isinstance(x, int)]


def defined(ins):
    op = ins[0]
    if op in ('call', 'load', 'gep', 'alloca', 'icmp', 'bin', 'cast', 'phi', 'select', 'extract', 'insert',
              'landingpad', 'other'):
        return ins[2] if ins[2] is not None and ins[2] >= 0 else None
    return None


class Program:
    def __init__(self, path):
        with open(path) as f: d = json.load(f)
        self.files = d['files']
        self.raw = d['functions']
        self._fn = {}
        self.decls = d['decls']
        self.globals = d['globals']
        self.records = d['records']
        self.aliases = {a: t for a, t in d['aliases'].items() if a not in self.raw}
        self._qn = {}
        self._bases = None
        self._defs = None

    def fn(self, name):
        f = self._fn.get(name)
        if f is None:
            r = self.raw.get(name)
            if r is None:
                t = self.aliases.get(name)
                if t is None or t not in self.raw: return None
                f = self._fn[name] = self.fn(t); return f
            f = self._fn[name] = Fn(name, r)
        return f

    def all(self):
        for n in self.raw: yield self.fn(n)

    def qn(self, name):
        """(qualified name, params, demangled) of a defined or declared function."""
        r = self._qn.get(name)
        if r is None:
            if name in self.raw or name in self.aliases:
                f = self.fn(name); r = (f.qn, f.params, f.dem)
            else:
                dem = self.decls.get(name, name)
                q, p = simplify(dem); r = (q, p, dem)
            self._qn[name] = r
        return r

    def find(self, qn, pred=None):
        if self._defs is None:
            self._defs = {}
            for f in self.all(): self._defs.setdefault(f.qn, []).append(f)
        r = self._defs.get(qn, [])
        return [f for f in r if pred is None or pred(f)]

    def loc(self, l):
        if not l: return '?'
        return '%s:%d' % (self.short(self.files[l[0]]), l[1])

    def short(self, p):
        import os
        p = os.path.normpath(p)
        if p.startswith('/repo/'): return p[6:]
        return p

    def record(self, name): return self.records.get(name)

    def member(self, rec, name):
        r = self.records.get(rec)
        if r is None: return None
        for m in r['members']:
            if m[0] == 'member' and m[1] == name: return m
        return None
