"""A universe of reflected types and objects at the level of Value, Type,
Field and Function, for analyses of the code which is written against them.

The public operations of these classes are replaced by their meaning over
abstract objects.  A C++ Value is one memory cell ('val', type, object,
stored, const); objects live in regions ('O', n), scalars and pointers in the
memory of the region, containers in the state's monitor."""
import re
from engine import MASK, Terminal, UNDEF
from models import lit, ptrval, show, cleantype, getmap, KEYOFF
from program import split_args, template_args

WIDTH = {'bool': 8, 'char': 8, 'short': 16, 'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}
SCALAR = {'bool': 'bool', 'int': 'int', 'unsigned int': 'int', 'long': 'int', 'unsigned long': 'int', 'long long': 'int', 'unsigned long long': 'int',
          'double': 'float', 'float': 'float'}
TRAITS = {'bool': ('primitive', 'bool'), 'int': ('primitive', 'integer', 'signed'), 'float': ('primitive', 'float'), 'string': ('string',), 'list': ('list',),
          'map': ('map',), 'void': ('primitive', 'void'), 'ptr': ('pointer',), 'obj': (), 'custom': ('json',), 'any': ()}


class Universe:
    def __init__(self, ctx, e, types):
        self.ctx = ctx; self.e = e; self.types = dict(types)
        self.types.setdefault('void', dict(kind='void'))
        P = ctx.P
        self.vsize = P.record('reflect::Value')['size']
        self.jt = P.record('reflect::json::Traits')
        self.joff = {m[1]: m[2] for m in self.jt['members'] if m[0] == 'member'} if self.jt else {}
        self.install()

    # ------------------------------------------------------------- objects
    def kind(self, t): return self.types[t]['kind']

    def new(self, st, t, content=None):
        """A default object (or one holding the given content) of a type."""
        e = self.e
        n = st.mon.get('On', 0); st.mon['On'] = n + 1
        r = ('O', n)
        st.mem[r] = {}; st.back[r] = ((-(1 << 40), 1 << 40, None, 0),)
        st.mon['OT', r] = t
        k = self.kind(t); p = ('p', r, 0)
        if k in ('bool', 'int', 'float'):
            e.store_raw(st, p, 0 if content is None else content, 1 if k == 'bool' else 8)
        elif k == 'string': e.setstr(st, p, () if content is None else content)
        elif k == 'ptr': e.store_raw(st, p, 0 if content is None else ('p', content, 0), 8)
        elif k in ('list', 'map'): st.mon['OC', r] = content or ()
        elif k == 'obj': st.mon['OC', r] = content if content is not None else tuple((lit(f[0]), self.new(st, f[1])) for f in self.types[t]['fields'])
        elif k == 'custom': st.mon['OC', r] = content or 'fresh'
        return r

    def copy(self, st, r):
        e = self.e; t = st.mon['OT', r]; k = self.kind(t); p = ('p', r, 0)
        if k in ('bool', 'int', 'float'): return self.new(st, t, e.load(st, p, 'i8' if k == 'bool' else 'i64'))
        if k == 'string': return self.new(st, t, e.getstr(st, p))
        if k == 'ptr':
            v = e.load(st, p, 'ptr'); return self.new(st, t, v[1] if v != 0 else None)
        c = st.mon['OC', r]
        if k == 'list': c = tuple(self.copy(st, x) for x in c)
        elif k in ('map', 'obj'): c = tuple((n, self.copy(st, x)) for n, x in c)
        return self.new(st, t, c)

    def assign(self, st, dst, src):
        """Assignment of one object to another of the same type."""
        e = self.e; t = st.mon['OT', dst]; k = self.kind(t); p = ('p', dst, 0)
        if st.mon['OT', src] != t: raise Terminal('mismatch', 'an object of type %s is assigned to one of type %s' % (st.mon['OT', src], t))
        tmp = self.copy(st, src)
        for x in ('mem', 'back'):
            d = getattr(st, x)
            if tmp in d: d[dst] = d[tmp]
        if ('OC', tmp) in st.mon: st.mon['OC', dst] = st.mon['OC', tmp]

    def show(self, st, r, seen=()):
        """The object as nested Python data."""
        if r is None: return None
        e = self.e; t = st.mon['OT', r]; k = self.kind(t); p = ('p', r, 0)
        if k in ('bool', 'int', 'float'): return (k, e.load(st, p, 'i8' if k == 'bool' else 'i64'))
        if k == 'string': return (k, e.getstr(st, p))
        if k == 'ptr':
            v = e.load(st, p, 'ptr')
            if v == 0: return (k, None)
            return (k, '...' if v[1] in seen else self.show(st, v[1], seen + (v[1],)))
        c = st.mon.get(('OC', r))
        if k == 'list': return (k, tuple(self.show(st, x, seen) for x in c))
        if k in ('map', 'obj'): return (k, tuple(sorted((n, self.show(st, x, seen)) for n, x in c)))
        if k == 'any': return (k, self.show(st, c, seen))
        return (k, c)

    # --------------------------------------------------------------- values
    def put(self, st, p, t, r, stored=0, const=0):
        c = self.e.cells(st, p[1], True)
        for o in range(p[2], p[2] + self.vsize): c.pop(o, None)
        c[p[2]] = (self.vsize, ('val', t, r, stored, const))

    def get(self, st, p):
        if not ptrval(p): raise Terminal('nullderef', p)
        x = self.e.cells(st, p[1]).get(p[2])
        if x is None or not isinstance(x[1], tuple) or x[1][0] != 'val':
            st.taint = st.taint or ('a value that is not modelled', None); raise Terminal('taint')
        return x[1]

    def need(self, v):
        if v[2] is None: raise Terminal('error', 'an operation on a void value')
        return v[2]

    def tok(self, t): return ('p', ('T', t), 0)

    def typename(self, p):
        if ptrval(p) and p[1][0] == 'T' and p[1][1] in self.types: return p[1][1]
        return None

    def vec(self, st, p, strings):
        e = self.e
        r = e.new_region(st, 'strings', 'h')
        st.back[r] = ((-(1 << 40), 1 << 40, None, 0),)
        for i, s in enumerate(strings): e.setstr(st, ('p', r, 32 * i), s)
        n = 32 * len(strings)
        for k, v in enumerate((('p', r, 0), ('p', r, n), ('p', r, n)) if n else (0, 0, 0)): e.store_raw(st, ('p', p[1], p[2] + 8 * k), v, 8)

    # -------------------------------------------------------------- install
    def install(self):
        e = self.e; me = self

        def wrap(f):
            def g(eng, st, c):
                try: return f(st, c)
                except Terminal as t:
                    if t.kind in ('error', 'mismatch'): return [(st, 'end', (t.kind, t.data))]
                    if t.kind == 'taint': return e.unknown(e, st, c)
                    raise
            return g
        for cls in ('Value', 'Type', 'Traits', 'Field', 'Overloads', 'Function', 'Argument'):
            pre = 'reflect::%s::' % cls
            def disp(st, c, cls=cls, pre=pre):
                m = c.qn[len(pre):]
                r = getattr(me, cls.lower())(st, c, m)
                return e.unknown(e, st, c) if r is None else r
            e.add_hook(lambda q, p, d, n, pre=pre: q.startswith(pre) and '::' not in q[len(pre):], wrap(disp))
        e.add_hook(lambda q, p, d, n: 'reflect::cast<' in d, wrap(self.cast))

    # ------------------------------------------------------------ behaviour
    def traits(self, st, c, m):
        e = self.e; a = c.args; loc = c.loc
        this = a[1] if c.sret else a[0]
        t = self.typename(this)
        field = this[1][1:] if ptrval(this) and this[1][0] == 'F' else None
        if t is None and field is None: return None
        if m in ('Traits', '~Traits'): return None
        name = e.getstr(st, a[2] if c.sret else a[1], loc) if len(a) > 1 else None
        if name is None or not all(isinstance(x, int) for x in name): return None
        name = bytes(name).decode()
        if field:
            f = [f for f in self.types[field[0]]['fields'] if f[0] == field[1]][0]
            has = {'json'} if len(f) > 2 else set()
            json = dict(f[2]) if len(f) > 2 else None
        else:
            d = self.types[t]
            has = set(TRAITS[d['kind']]) | set(d.get('traits', ()))
            if d.get('smart'): has.add('smartPtr')
            json = {k: d[k] for k in ('parser', 'printer') if k in d} if 'json' in has else None
        if m == 'is': return [(st, int(name in has))]
        if m == 'getValue':
            ta = c.targs
            if name == 'valueType' and not field and d['kind'] in ('list', 'map') and ta and ta[0].endswith('*'): return [(st, self.tok(d['of']))]
            if name == 'json' and json is not None and c.sret and self.joff:
                p = a[0]
                for k in ('skip', 'skipEmpty'): e.store_raw(st, ('p', p[1], p[2] + self.joff[k]), int(bool(json.get(k))), 1)
                for k in ('alias', 'parser', 'printer'): e.setstr(st, ('p', p[1], p[2] + self.joff[k]), lit(json.get(k, '')))
                return [(st, None)]
            if name not in has: raise Terminal('error', 'the trait <%s> is not present' % name)
        return None

    def type(self, st, c, m):
        e = self.e; a = c.args; loc = c.loc
        this = a[1] if c.sret else a[0]
        t = self.typename(this)
        if t is None: return None
        d = self.types[t]; k = d['kind']
        def s(i): return e.getstr(st, a[i], loc)
        if m == 'id': 
            r = ('Tid', t)
            if r not in st.mem:
                st.mem[r] = {}; st.back[r] = ((-(1 << 40), 1 << 40, None, 0),)
                e.setstr(st, ('p', r, 0), lit(t))
            return [(st, ('p', r, 0))]
        if m == 'isPointer': return [(st, int(k == 'ptr'))]
        if m == 'pointee':
            if k != 'ptr': raise Terminal('error', '<%s> is not a pointer' % t)
            return [(st, self.tok(d['of']))]
        if m in ('isCopiable', 'isMovable'): return [(st, int(d.get(m, 1)))]
        if m == 'fields' and c.sret:
            self.vec(st, a[0], [lit(f[0]) for f in d.get('fields', ())]); return [(st, None)]
        if m in ('field', 'hasField'):
            n = s(1)
            hit = [f for f in d.get('fields', ()) if lit(f[0]) == n]
            if m == 'hasField': return [(st, int(bool(hit)))]
            if not hit: raise Terminal('error', '<%s> has no field %s' % (t, show(n)))
            return [(st, ('p', ('F', t, hit[0][0]), 0))]
        if m in ('function', 'hasFunction'):
            n = bytes(s(1)).decode()
            ok = n in (d.get('parser'), d.get('printer'))
            if m == 'hasFunction': return [(st, int(ok))]
            if not ok: raise Terminal('error', '<%s> has no function <%s>' % (t, n))
            return [(st, ('p', ('FN', t, n), 0))]
        if m == 'construct' and c.sret and len(a) == 2:
            self.put(st, a[0], t, self.new(st, t), 1); return [(st, None)]
        if m == 'alloc' and c.sret:
            inner = self.new(st, t)
            pt = t + '*'
            if pt not in self.types: self.types[pt] = dict(kind='ptr', of=t)
            self.put(st, a[0], pt, self.new(st, pt, inner), 1); return [(st, None)]
        if m in ('isChildOf', 'isParentOf') and len(a) == 2: return [(st, int(a[1] == this))]
        if m == 'parent': return [(st, 0)]
        return None

    def field(self, st, c, m):
        p = c.args[0]
        if not (ptrval(p) and p[1][0] == 'F'): return None
        f = [f for f in self.types[p[1][1]]['fields'] if f[0] == p[1][2]][0]
        if m == 'type': return [(st, self.tok(f[1]))]
        return None

    def overloads(self, st, c, m):
        p = c.args[0]
        if ptrval(p) and p[1][0] == 'FN' and m == 'get': return [(st, ('p', p[1] + (c.targs[0],), 0))]
        if ptrval(p) and p[1][0] == 'FN' and m == 'call': return self.function(st, c, m)
        return None

    def function(self, st, c, m):
        p = c.args[0]
        if not (ptrval(p) and p[1][0] == 'FN') or m != 'call' or c.sret or len(c.args) != 3: return None
        v = self.get(st, c.args[1])
        ps = split_args(c.params)
        what = 'reader' if 'Reader' in ps[1] else 'writer' if 'Writer' in ps[1] else None
        if what is None: return None
        n = st.mon.get('custom', ())
        st.mon['custom'] = n + ((p[1][2], v[2]),)
        if what == 'reader' and st.mon.get(('OC', v[2])) == 'fresh': st.mon['OC', v[2]] = 'read'
        f = self.ctx.fn('w_custom_' + what)
        self.e.push(st, f, [c.args[2]])
        def cont(eng, s, x): eng.finish_call(s, None); return None
        st.frames[-1].retinfo = cont
        return [(st, 'raw', None)]

    def argument(self, st, c, m): return None

    def cast(self, st, c):
        """reflect::cast<Target>(value)"""
        i = c.dem.rfind('reflect::cast<')
        ta = template_args(c.dem[i:])
        v = c.args[1] if c.sret else c.args[0]
        x = self.get(st, v)
        r = self.convert(st, c, x, ta[0])
        return self.e.unknown(self.e, st, c) if r is None else r

    def convert(self, st, c, v, target):
        e = self.e; loc = c.loc
        ref = target.endswith('&'); t = cleantype(target)
        if t == 'reflect::Value':
            self.put(st, c.args[0], *v[1:]); return [(st, None)]
        o = self.need(v); k = self.kind(v[1]); p = ('p', o, 0)
        if t in SCALAR and SCALAR[t] == k:
            if ref: return [(st, p)]
            if k == 'float': return [(st, e.load(st, p, 'i64', loc))]
            x = e.load(st, p, 'i8' if k == 'bool' else 'i64', loc)
            w = 1 if k == 'bool' else WIDTH[t]
            return [(st, e.mk('trunc', w, x) if w < (8 if k == 'bool' else 64) else x)]
        if t == 'bool' and k == 'ptr' and not ref:
            x = e.load(st, p, 'ptr', loc)
            return [(st, e.mk('xor', 1, e.icmp(st, 'eq', x, 0, 64), 1))]
        if t.startswith('std::basic_string') and k == 'string':
            if ref: return [(st, p)]
            e.setstr(st, c.args[0], e.getstr(st, p, loc), loc); return [(st, None)]
        if k in ('bool', 'int', 'float', 'string', 'list', 'map', 'obj', 'custom') and (t in SCALAR or t.startswith('std::basic_string')):
            raise Terminal('mismatch', 'a value of type %s is cast to %s' % (v[1], t))
        return None

    def typeof(self, cpp):
        """The universe's type for a C++ type."""
        t = cleantype(cpp)
        if t in ('bool',): return 'bool'
        if SCALAR.get(t) == 'int': return 'long'
        if SCALAR.get(t) == 'float': return 'double'
        if t.startswith('std::basic_string'): return 'std::string'
        return None

    def read(self, st, p, cpp, loc):
        """The object denoted by a C++ argument passed by reference."""
        e = self.e; t = cleantype(cpp)
        if t == 'reflect::Value': return self.need(self.get(st, p))
        k = self.typeof(cpp)
        if k is None or k not in self.types: return None
        kind = self.kind(k)
        if kind == 'string': return self.new(st, k, e.getstr(st, p, loc))
        x = e.load(st, p, 'i%d' % WIDTH.get(t, 64), loc)
        if kind == 'int' and WIDTH[t] < 64: x = e.mk('sext', 64, x, WIDTH[t])
        return self.new(st, k, x)

    def value(self, st, c, m):
        e = self.e; a = c.args; loc = c.loc; ps = split_args(c.params or '')
        if m == 'Value':
            if not ps: self.put(st, a[0], 'void', None); return [(st, None)]
            if cleantype(ps[0]) == 'reflect::Value':
                v = self.get(st, a[1])
                self.put(st, a[0], *v[1:])
                if ps[0].endswith('&&'): self.put(st, a[1], 'void', None)
                return [(st, None)]
            r = self.wrapped(st, a[1], ps[0], loc)
            if r is None: return None
            self.put(st, a[0], st.mon['OT', r], r, int(not ps[0].endswith('&') or ps[0].endswith('&&'))); return [(st, None)]
        if m == '~Value': return [(st, None)]
        if m == 'operator=':
            v = self.get(st, a[1]); self.put(st, a[0], *v[1:])
            if ps[0].endswith('&&') and a[0] != a[1]: self.put(st, a[1], 'void', None)
            return [(st, a[0])]
        this = a[1] if c.sret else a[0]
        v = self.get(st, this)
        if m == 'type': return [(st, self.tok(v[1]))]
        if m == 'typeId': return self.type(st, Sub(c, [self.tok(v[1])]), 'id')
        if m == 'isVoid': return [(st, int(v[1] == 'void'))]
        if m == 'isStored': return [(st, v[3])]
        if m == 'isConst': return [(st, v[4])]
        if m == 'is': return self.traits(st, Sub(c, [self.tok(v[1]), a[1]]), 'is')
        if m == 'value': return [(st, ('p', v[2], 0) if v[2] else 0)]
        if m in ('as', 'get'): return [(st, ('p', self.need(v), 0))] if self.kind(v[1]) in ('bool', 'int', 'float', 'string', 'ptr') else None
        if m in ('rvalue', 'toConst') and c.sret: self.put(st, a[0], v[1], v[2], v[3], 1 if m == 'toConst' else v[4]); return [(st, None)]
        if m == 'copy' and c.sret: self.put(st, a[0], v[1], self.copy(st, self.need(v)), 1); return [(st, None)]
        if m == 'move' and c.sret:
            self.put(st, a[0], v[1], self.need(v), 1); self.put(st, this, 'void', None); return [(st, None)]
        if m == 'assign': return self.setto(st, v, a[1], ps[0], loc)
        if m == 'field' and c.sret:
            n = e.getstr(st, a[2], loc); o = self.need(v)
            if self.kind(v[1]) == 'obj':
                hit = [x for f, x in st.mon['OC', o] if f == n]
                if hit: self.put(st, a[0], st.mon['OT', hit[0]], hit[0], 0, v[4]); return [(st, None)]
            raise Terminal('error', '<%s> has no field %s' % (v[1], show(n)))
        if m == 'operator bool': return self.convert(st, c, v, 'bool')
        if m == 'operator!':
            r = self.convert(st, c, v, 'bool')
            return r and [(s, e.mk('xor', 1, x, 1)) for s, x in r]
        if m.startswith('operator') and c.sret: return self.invoke(st, c, v, m, a[2:], ps, 'reflect::Value')
        if m == 'call':
            n = e.getstr(st, a[2] if c.sret else a[1], loc)
            if not all(isinstance(x, int) for x in n): return None
            return self.invoke(st, c, v, bytes(n).decode(), a[3:] if c.sret else a[2:], ps[1:], c.targs[0])
        return None

    def setto(self, st, v, p, cpp, loc):
        o = self.need(v)
        if v[4]: raise Terminal('error', 'a constant is assigned to')
        src = self.read(st, p, cpp, loc)
        if src is None: return None
        k = self.kind(v[1]); sk = self.kind(st.mon['OT', src])
        if k == 'ptr' and sk == 'ptr' and st.mon['OT', src] != v[1]:
            if self.types[v[1]]['of'] != self.types[st.mon['OT', src]]['of'] or self.types[v[1]].get('smart'): raise Terminal('mismatch', 'a pointer is assigned to another kind of pointer')
            self.e.store_raw(st, ('p', o, 0), self.e.load(st, ('p', src, 0), 'ptr', loc), 8); return [(st, None)]
        self.assign(st, o, src); return [(st, None)]

    def wrapped(self, st, p, cpp, loc):
        """A stored object made of a C++ temporary."""
        e = self.e; t = cleantype(cpp)
        if t.startswith('std::vector<reflect::Value'):
            b, x = e.load(st, p, 'ptr', loc), e.load(st, e.padd(p, 8), 'ptr', loc)
            items = []
            if b != 0:
                if not (ptrval(b) and ptrval(x) and b[1] == x[1] and isinstance(x[2], int)): return None
                items = [self.boxed(st, self.get(st, ('p', b[1], o))) for o in range(b[2], x[2], self.vsize)]
            return self.new(st, 'Values', tuple(items))
        if t.startswith('std::unordered_map<std::basic_string<') and 'reflect::Value' in t:
            mp = getmap(e, st, p, loc)
            if mp[1] is not None: return None
            return self.new(st, 'ValueMap', tuple((k, self.boxed(st, self.get(st, ('p', n, KEYOFF + 32)))) for k, n in mp[2] if n))
        return self.read(st, p, cpp, loc)

    def boxed(self, st, v):
        r = self.new(st, 'Value'); st.mon['OC', r] = v[2]; return r

    def invoke(self, st, c, v, name, args, ps, ret):
        e = self.e; loc = c.loc
        o = self.need(v); k = self.kind(v[1]); d = self.types[v[1]]

        def scalar(x, w=64):
            t = cleantype(ret)
            if c.sret:
                if t != 'reflect::Value': return None
                self.put(st, c.args[0], 'long', self.new(st, 'long', x), 1); return [(st, None)]
            if t == 'bool': return [(st, x)]
            return [(st, e.mk('trunc', WIDTH[t], x) if WIDTH[t] < w else x)]

        def result(r, const=0):
            if c.sret and cleantype(ret) == 'reflect::Value': self.put(st, c.args[0], st.mon['OT', r], r, 0, const or v[4]); return [(st, None)]
            return None
        if name == 'size':
            if k in ('list', 'map'): return scalar(len(st.mon['OC', o]))
            if k == 'string': return scalar(e_strlen(e, e.getstr(st, ('p', o, 0), loc)))
        if name in ('at', 'operator[]') and len(args) == 1:
            if name == 'operator[]' and v[4]: raise Terminal('error', 'no function operator[] for a constant')
            c_ = st.mon.get(('OC', o))
            if k == 'list':
                w = WIDTH.get(cleantype(ps[0]))
                if w is None: return None
                i = e.load(st, args[0], 'i%d' % w, loc)
                if not isinstance(i, int): return None
                if i >= len(c_): raise Terminal('error', 'item %d of %d' % (i, len(c_)))
                return result(c_[i], int(name == 'at'))
            if k == 'map':
                if 'basic_string' not in ps[0]: return None
                key = e.getstr(st, args[0], loc)
                if not all(isinstance(x, int) for x in key): return None
                hit = [x for n, x in c_ if n == key]
                if hit: return result(hit[0], int(name == 'at'))
                if name == 'at': raise Terminal('error', 'no key %s' % show(key))
                r = self.new(st, d['of']); st.mon['OC', o] = c_ + ((key, r),)
                return result(r)
        if name == 'count' and k == 'map' and 'basic_string' in ps[0]:
            key = e.getstr(st, args[0], loc)
            return scalar(int(any(n == key for n, x in st.mon['OC', o])))
        if name == 'keys' and k == 'map' and c.sret and 'vector' in ret:
            self.vec(st, c.args[0], [n for n, x in st.mon['OC', o]]); return [(st, None)]
        if name == 'push_back' and k == 'list' and len(args) == 1 and ret == 'void':
            if v[4]: raise Terminal('error', 'a constant list is changed')
            r = self.read(st, args[0], ps[0], loc)
            if r is None: return None
            if st.mon['OT', r] != d['of']: raise Terminal('mismatch', 'an item of type %s is added to a list of %s' % (st.mon['OT', r], d['of']))
            st.mon['OC', o] = st.mon['OC', o] + (self.copy(st, r),); return [(st, None)]
        if name == 'operator*' and k == 'ptr' and not args:
            x = e.load(st, ('p', o, 0), 'ptr', loc)
            if x == 0: raise Terminal('nullderef', x)
            if not (ptrval(x) and x[1][0] == 'O'): return None
            self.put(st, c.args[0], st.mon['OT', x[1]], x[1]); return [(st, None)]
        if name == 'operator bool()' and k == 'ptr': return self.convert(st, c, v, 'bool')
        if name == 'reset' and k == 'ptr' and d.get('smart') and ret == 'void':
            if v[4]: raise Terminal('error', 'a constant pointer is changed')
            if not args: e.store_raw(st, ('p', o, 0), 0, 8); return [(st, None)]
            x = self.get(st, args[0])
            if self.kind(x[1]) != 'ptr' or self.types[x[1]].get('smart') or self.types[x[1]]['of'] != d['of']: raise Terminal('mismatch', 'reset to a value of type %s' % x[1])
            e.store_raw(st, ('p', o, 0), e.load(st, ('p', x[2], 0), 'ptr', loc), 8); return [(st, None)]
        if name == 'operator=' and len(args) == 1: return self.setto(st, v, args[0], ps[0], loc)
        if name in ('clear',) and k in ('list', 'map'): st.mon['OC', o] = (); return [(st, None)]
        raise Terminal('error', '<%s> has no function <%s>' % (v[1], name))


class Sub:
    """A call seen with other arguments."""
    def __init__(self, c, args): self.c = c; self.args = args; self.sret = False; self.loc = c.loc; self.targs = []; self.params = c.params; self.qn = c.qn; self.retty = c.retty


def e_strlen(e, parts):
    from models import strlen
    return strlen(e, parts)
