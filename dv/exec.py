"""Symbolic executor (the VC generator) over the decoded IR.

A path is executed forward; every memory access, contract precondition and specification clause
becomes a named obligation that is discharged under the path condition.  Callees with a contract
are replaced by it, other callees of /repo are executed in place, external functions by their
assumed contracts.  Branches that depend on data (not on lengths or positions) are joined again
at their immediate postdominator.
"""
from . import terms as tm
from . import solver, lia
from .terms import T, const, concat, extract


class Undecided(Exception):
    """outside the verifier's reach (never a violation)"""


class NeedCut(Exception):
    def __init__(self, key):
        self.key = key


class Refork(Exception):
    def __init__(self, states):
        self.states = states


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off if isinstance(off, T) else const(off, 64)

    def __repr__(self):
        return '&%s+%r' % (self.obj, self.off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.obj == self.obj and o.off is self.off

    def __hash__(self):
        return hash((self.obj, self.off))

    def add(self, k):
        return Ptr(self.obj, tm.addc(self.off, k))


class FPtr:
    __slots__ = ('name', 'fn')

    def __init__(self, n, fn=None):
        self.name = n
        self.fn = fn              # the function of the program it is (static functions of several files may share a name)

    def __repr__(self):
        return '@' + self.name

    def __eq__(self, o):
        return isinstance(o, FPtr) and o.name == self.name and o.fn is self.fn

    def __hash__(self):
        return hash(self.name)


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)


class PB:
    """byte i of a stored pointer"""
    __slots__ = ('p', 'i')

    def __init__(self, p, i):
        self.p = p
        self.i = i

    def __eq__(self, o):
        return isinstance(o, PB) and o.p == self.p and o.i == self.i

    def __hash__(self):
        return hash((self.p, self.i))


NULL = const(0, 64)
UNDEF8 = 'undef'


class Obj:
    __slots__ = ('name', 'kind', 'size', 'data', 'init', 'owner', 'log', 'const', 'freed', 'meta', 'old', 'written')

    def clone(self, owner):
        o = Obj()
        o.name = self.name
        o.kind = self.kind
        o.size = self.size
        o.data = dict(self.data) if self.data is not None else None
        o.init = self.init
        o.owner = owner
        o.log = list(self.log) if self.log is not None else None
        o.const = self.const
        o.freed = self.freed
        o.meta = dict(self.meta) if self.meta else None
        o.old = self.old
        o.written = self.written
        return o


class Frame:
    __slots__ = ('fn', 'blk', 'idx', 'regs', 'ret', 'iters', 'sym', 'allocas')

    def copy(self):
        f = Frame()
        f.fn = self.fn
        f.blk = self.blk
        f.idx = self.idx
        f.regs = list(self.regs)
        f.ret = self.ret
        f.iters = dict(self.iters)
        f.sym = dict(self.sym)
        f.allocas = list(self.allocas)
        return f


_sid = [0]


import os
DEBUG = os.environ.get('DV_DEBUG')


class State:
    def __init__(self):
        _sid[0] += 1
        self.id = _sid[0]
        self.frames = []
        self.mem = {}
        self.pc = []
        self.ghost = {}
        self.events = []
        self.trail = []
        self.data = {}       # python-side model state (copied shallowly)

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.events = list(self.events)
        s.trail = list(self.trail)
        s.data = dict(self.data)
        # both now share the objects
        _sid[0] += 1
        self.id = _sid[0]
        return s

    # ---------------- memory
    def new(self, name, size, kind='fix', init=None, data=None):
        o = Obj()
        o.name = name
        o.kind = kind
        o.size = size
        o.data = {} if data is None else data
        o.init = init
        o.owner = self.id
        o.log = [] if kind == 'arr' else None
        o.const = False
        o.freed = False
        o.meta = None
        o.old = None
        o.written = False
        oid = name
        k = 0
        while oid in self.mem:
            k += 1
            oid = '%s#%d' % (name, k)
        self.mem[oid] = o
        o.name = oid
        return Ptr(oid, 0)

    def w(self, oid):
        o = self.mem[oid]
        if o.owner != self.id:
            o = o.clone(self.id)
            self.mem[oid] = o
        return o

    def rb(self, oid, off):
        """read a byte of a fixed object (no checks)"""
        o = self.mem[oid]
        b = o.data.get(off)
        if b is None:
            if o.init is None:
                b = tm.fresh('undef.%s.%d' % (oid, off), 8)
                self.w(oid).data[off] = b
            else:
                b = o.init(off)
        return b

    def bytes(self, p, n):
        off = p.off.a
        return [self.rb(p.obj, off + i) for i in range(n)]

    def val(self, p, n):
        """n-byte little-endian value at p"""
        return concat(self.bytes(p, n))

    def wb(self, p, bs):
        o = self.w(p.obj)
        off = p.off.a
        for i, b in enumerate(bs):
            o.data[off + i] = b
        o.written = True

    def wval(self, p, t):
        if isinstance(t, (Ptr, FPtr)):
            self.wb(p, [PB(t, i) for i in range(8)])
        else:
            self.wb(p, tm.bytes_of(t))

    def assume(self, c):
        if c is not tm.TRUE and c not in self.pc:
            self.pc.append(c)

    # ---------------- substitution
    def subst(self, m):
        S = tm.Subst(m)

        def sv(v):
            if isinstance(v, T):
                return S(v)
            if isinstance(v, Ptr):
                o = S(v.off)
                return v if o is v.off else Ptr(v.obj, o)
            if isinstance(v, Agg):
                return Agg([sv(x) for x in v.v])
            if isinstance(v, PB):
                return PB(sv(v.p), v.i)
            if isinstance(v, list):
                return [sv(x) for x in v]
            if isinstance(v, tuple):
                return tuple(sv(x) for x in v)
            if isinstance(v, dict):
                return {k: sv(x) for k, x in v.items()}
            if hasattr(v, 'subst'):
                return v.subst(sv)
            return v
        for f in self.frames:
            f.regs = [sv(v) for v in f.regs]
        for oid in list(self.mem):
            o = self.mem[oid]
            ch = False
            if o.kind == 'fix':
                for b in o.data.values():
                    if isinstance(b, T):
                        if tm.vars_of(b) & S.names:
                            ch = True
                            break
                    elif isinstance(b, PB) and isinstance(b.p, Ptr) and tm.vars_of(b.p.off) & S.names:
                        ch = True
                        break
            else:
                ch = bool(o.log) or isinstance(o.size, T)
            if isinstance(o.size, T) and tm.vars_of(o.size) & S.names:
                ch = True
            if o.meta:
                ch = True
            if ch:
                o = self.w(oid)
                if o.kind == 'fix':
                    o.data = {k: sv(b) for k, b in o.data.items()}
                else:
                    o.log = [(S(a), sv(b)) for a, b in o.log or ()]
                if isinstance(o.size, T):
                    o.size = S(o.size)
                if o.meta:
                    o.meta = {k: sv(x) for k, x in o.meta.items()}
        npc = []
        for c in self.pc:
            c = S(c)
            if c is not tm.TRUE and c not in npc:
                npc.append(c)
        self.pc = npc
        self.ghost = {k: sv(v) for k, v in self.ghost.items()}
        self.data = {k: sv(v) for k, v in self.data.items()}
        self.events = [sv(e) for e in self.events]
        return S


def is_ctl(t):
    """depends on control variables only"""
    for n in tm.vars_of(t):
        if n[0] != '#':
            return False
    return True


def solve_for(t, v):
    """substitution making t == v (v constant int) or None"""
    if t.op == 'v':
        return {t: const(v, t.w)}
    if t.op == 'lin':
        for x, c in t.a[0]:
            if x.op == 'v' and c & 1:
                rest = tm.lin([(y, d) for y, d in t.a[0] if y is not x], t.a[1], t.w)
                if x.a in tm.vars_of(rest):
                    continue
                inv = pow(c, -1, 1 << t.w)
                return {x: tm.lin(((tm.sub(const(v, t.w), rest), inv),), 0, t.w)}
    if t.op == 'ext' and t.a[0].op == 'v':
        b, h, l = t.a
        ps = []
        if l:
            ps.append(tm.fresh(b.a, l))
        ps.append(const(v, h - l + 1))
        if h < b.w - 1:
            ps.append(tm.fresh(b.a, b.w - 1 - h))
        return {b: concat(ps)}
    if t.op == 'ext' and t.a[0].op == 'lin' and t.a[2] == 0:
        # low bits of a linear combination: make one variable absorb it
        lo = tm.extract(t.a[0], t.a[1], 0)
    if t.op == 'cat':
        pos = 0
        nc = [p for p in t.a if p.op != 'c']
        if len(nc) == 1:
            for p in t.a:
                if p is nc[0]:
                    return solve_for(p, (v >> pos) & ((1 << p.w) - 1))
                pos += p.w
        p = t.a[0]
        if p.op == 'v':         # sign extension
            m = {p: const(v & ((1 << p.w) - 1), p.w)}
            if tm.Subst(m)(t) is const(v, t.w):
                return m
    return None


class Result:
    """obligation book-keeping"""

    def __init__(self):
        self.proved = 0
        self.failed = []        # (name, detail)
        self.unknown = []
        self.names = {}
        self.insns = 0
        self.paths = 0
        self.solver_s = 0.0
        self.fns = {}

    def ok(self, name):
        self.proved += 1
        self.names[name] = self.names.get(name, 0) + 1

    def fail(self, name, detail=''):
        self.failed.append((name, detail))

    def unk(self, name, detail=''):
        self.unknown.append((name, detail))


class Exec:
    def __init__(self, prog, contracts=None, externs=None, limit=20, res=None):
        self.prog = prog
        self.contracts = contracts or {}
        self.externs = externs or {}
        self.cuts = {}
        self.limit = limit
        self.res = res or Result()
        self.max_states = 20000
        self.max_insns = 30_000_000
        self.memsafe = True
        self.indirect = None
        self.no_inline = set()
        self.deadline = None
        self.concrete = False

    # ------------------------------------------------------------ obligations
    def oblige(self, st, cond, name, line=0):
        if cond is tm.TRUE:
            self.res.ok(name)
            return True
        r = solver.valid(st.pc, cond)
        if r is True:
            self.res.ok(name)
            return True
        if r is False:
            self.res.fail(name, 'line %d: %r is not implied by the path condition' % (line, cond))
        else:
            self.res.unk(name, 'line %d: solver gave no answer' % line)
        return False

    # ------------------------------------------------------------ values
    def ev(self, st, o):
        k = o[0]
        if k == 'r':
            v = st.frames[-1].regs[o[1]]
            if v is None:
                raise Undecided("read of an undefined value r%d in %s block %d" % (o[1], st.frames[-1].fn.name, st.frames[-1].blk))
            return v
        if k == 'c':
            return const(o[1], o[2])
        if k == 'null':
            return NULL
        if k == 'g':
            return self.gptr(st, o[1], o[2], st.frames[-1].fn.mod if st.frames else None)
        if k == 'f':
            return FPtr(o[1], self.prog.find_fn(o[1], st.frames[-1].fn.mod if st.frames else None))
        if k == 'undef':
            return self.undef(o[1])
        if k == 'zero':
            return self.zero(o[1])
        if k == 'agg':
            ty = o[1]
            vs = [self.ev(st, x) for x in o[2]]
            if ty.k == 'vector':
                return concat(vs)
            return Agg(vs)
        raise Undecided('operand ' + k)

    def undef(self, ty):
        if ty.k in ('int', 'vector'):
            return tm.fresh('undef', ty.w)
        if ty.k == 'ptr':
            return NULL
        if ty.k == 'struct':
            return Agg([self.undef(e) for e in ty.el])
        raise Undecided('undef')

    def zero(self, ty):
        if ty.k in ('int', 'vector', 'ptr'):
            return const(0, ty.w)
        if ty.k == 'struct':
            return Agg([self.zero(e) for e in ty.el])
        if ty.k == 'array':
            return Agg([self.zero(ty.el)] * ty.n)
        raise Undecided('zero')

    def gptr(self, st, name, off, mod):
        g = None
        key = None
        if mod is not None and name in mod._gl and not mod.glob(name).decl:
            g = mod.glob(name)
        else:
            g = self.prog.find_glob(name, mod)
        if g is None:
            key = 'ext:' + name
            if key not in st.mem:
                self.ext_global(st, key, name)
            return Ptr(key, off)
        key = 'g:%s' % name if g.linkage not in (8, 9) else 'g:%s:%s' % (name, g.mod.path.rsplit('/', 1)[-1])
        if key not in st.mem:
            o = Obj()
            o.name = key
            o.kind = 'fix'
            o.size = g.size
            o.data = {}
            o.owner = st.id
            o.log = None
            o.const = g.const
            o.freed = False
            o.meta = None
            o.old = None
            o.written = False
            init = g.init
            rel = g.relocs
            if rel:
                for a, op in rel.items():
                    v = NULL
                    if op[0] == 'g':
                        v = None
                        rp = self.gptr(st, op[1], op[2], g.mod) if op[1] != name else Ptr(key, op[2])
                        v = rp
                    elif op[0] == 'f':
                        v = FPtr(op[1], self.prog.find_fn(op[1], g.mod))
                    elif op[0] == 'c':
                        v = const(op[1], 64)
                    if isinstance(v, T):
                        for i, b in enumerate(tm.bytes_of(v)):
                            o.data[a + i] = b
                    else:
                        for i in range(8):
                            o.data[a + i] = PB(v, i)
            o.init = lambda off, init=init: const(init[off], 8)
            st.mem[key] = o
        return Ptr(key, off)

    def ext_global(self, st, key, name):
        raise Undecided('external global ' + name)

    # ------------------------------------------------------------ memory access
    def _decomp(self, off):
        """off = k + stride * x, x an index term with a small range"""
        if off.op == 'c':
            return off.a, None, 0
        if off.op == 'lin':
            if len(off.a[0]) == 1:
                x, c = off.a[0][0]
                u = tm.ub(x)
                if u <= 70000 and x.op == 'cat' and u * c < 1 << 40:
                    k0, y, s0 = self._decomp(x)
                    if y is not None:
                        return off.a[1] + k0 * c, y, s0 * c
                if u <= 70000 and u * c < 1 << 40:
                    return off.a[1], x, c
        elif off.op == 'cat':
            k = 0
            pos = 0
            y = None
            s = 0
            for p in off.a:
                if p.op == 'c':
                    k |= p.a << pos
                elif y is None:
                    y = p
                    s = 1 << pos
                else:
                    return None
                pos += p.w
            if y is not None and tm.ub(y) <= 70000:
                return k, y, s
        elif tm.ub(off) <= 70000:
            return 0, off, 1
        return None

    def load(self, st, p, ty, line=0):
        n = ty.size if ty.k != 'int' else (ty.w + 7) // 8
        if isinstance(p, T):
            if p.op == 'c' and p.a == 0:
                self.res.fail('mem:null-load', 'line %d in %s' % (line, st.frames[-1].fn.name))
                raise PathEnd()
            if p.op == 'ite':
                return self.split_ptr(st, p)
            raise Undecided('load through a non-pointer %r line %d' % (p, line))
        if isinstance(p, FPtr):
            raise Undecided('load of code')
        o = st.mem[p.obj]
        if o.freed:
            self.res.fail('mem:use-after-free', 'line %d in %s' % (line, st.frames[-1].fn.name))
            raise PathEnd()
        if o.kind == 'arr':
            self.bounds(st, o, p, n, line, 'load')
            v = concat([self.arr_read(st, o, tm.addc(p.off, i)) for i in range(n)])
        elif o.kind == 'opaque':
            raise Undecided('load from an opaque object %s line %d' % (p.obj, line))
        else:
            d = self._decomp(p.off)
            if d is not None and d[1] is None:
                k = d[0]
                self.bounds(st, o, p, n, line, 'load')
                if k + n > o.size or k < 0:
                    raise PathEnd()
                bs = [st.rb(p.obj, k + i) for i in range(n)]
                b0 = bs[0]
                if isinstance(b0, PB) or any(isinstance(b, PB) for b in bs):
                    if isinstance(b0, PB) and n == 8 and all(isinstance(b, PB) and b.i == i and b.p == b0.p for i, b in enumerate(bs)):
                        return b0.p
                    if n == 8 or ty.k == 'ptr':
                        raise Undecided('mixed pointer bytes')
                    bs = [tm.fresh('ptrbyte', 8) if isinstance(b, PB) else b for b in bs]
                v = concat(bs)
            else:
                v = self.load_sym(st, o, p, n, d, line)
                if not isinstance(v, T):
                    return v
        if ty.k == 'int' and ty.w != 8 * n:
            v = tm.trunc(v, ty.w)
        if ty.k == 'struct':
            raise Undecided('aggregate load')
        return v

    def load_sym(self, st, o, p, n, d, line):
        if d is None:
            self.reconc(st, p.off)
        k, x, s = d
        m = tm.ub(x)
        # feasible range in bounds?
        sz = o.size
        m = min(m, 70000)
        if k < sz and k + m * s + n <= sz:
            self.res.ok('mem:load')
        else:
            self.bounds(st, o, p, n, line, 'load')
            m = min(m, (sz - n - k) // s if sz - n - k >= 0 else -1)
            if m < 0:
                raise PathEnd()
        key = None
        if o.const or not o.written:
            key = (o.name, k, s, n, m)
            t = _tabcache.get(key)
            if t is not None and t[0] is o.init:
                return tm.sel(t[1], self._ix(x, m))
        vals = []
        for j in range(m + 1):
            v = 0
            for i in range(n):
                b = o.data.get(k + j * s + i)
                if b is None:
                    b = st.rb(p.obj, k + j * s + i)
                if not isinstance(b, T) or b.op != 'c':
                    v = None
                    break
                v |= b.a << (8 * i)
            if v is None:
                break
            vals.append(v)
        if len(vals) == m + 1:
            t = tm.table(vals, 8 * n)
            if key:
                _tabcache[key] = (o.init, t)
            return tm.sel(t, self._ix(x, m))
        if is_ctl(x):
            self.reconc(st, p.off)
        # data-dependent index into symbolic contents: explicit selection
        if m <= 300:
            r = None
            for j in range(m + 1):
                bs = [st.rb(p.obj, k + j * s + i) for i in range(n)]
                if any(not isinstance(b, T) for b in bs):
                    raise Undecided('pointer selected by data')
                v = concat(bs)
                r = v if r is None else tm.ite(tm.eq(x, const(j, x.w)), v, r)
            return r
        self.reconc(st, p.off)

    def _ix(self, x, m):
        # smallest width holding the index
        w = max(m.bit_length(), 1)
        if x.w > w:
            return extract(x, w - 1, 0)
        return x

    def store(self, st, p, v, line=0):
        if isinstance(p, T):
            if p.op == 'c' and p.a == 0:
                self.res.fail('mem:null-store', 'line %d in %s' % (line, st.frames[-1].fn.name))
                raise PathEnd()
            raise Undecided('store through a non-pointer line %d' % line)
        if isinstance(v, Agg):
            raise Undecided('aggregate store')
        n = 8 if not isinstance(v, T) else (v.w + 7) // 8
        o = st.mem[p.obj]
        if o.freed:
            self.res.fail('mem:use-after-free', 'line %d in %s' % (line, st.frames[-1].fn.name))
            raise PathEnd()
        if isinstance(v, T) and v.w % 8:
            v = tm.zext(v, 8 * n)
        if o.kind == 'arr':
            self.bounds(st, o, p, n, line, 'store')
            o = st.w(p.obj)
            if not isinstance(v, T):
                raise Undecided('pointer into a data buffer')
            for i, b in enumerate(tm.bytes_of(v)):
                o.log.append((tm.addc(p.off, i), b))
            return
        if o.kind == 'opaque':
            raise Undecided('store to an opaque object')
        if o.const:
            self.res.fail('mem:store-to-const', 'line %d' % line)
            raise PathEnd()
        if p.off.op != 'c':
            if not is_ctl(p.off):
                d = self._decomp(p.off)
                if d is not None and isinstance(v, T):
                    k, x, s = d
                    m = tm.ub(x)
                    if m <= 300 and k + m * s + n <= o.size:
                        self.res.ok('mem:store')
                        nb = tm.bytes_of(v)
                        for j in range(m + 1):
                            c = tm.eq(x, const(j, x.w))
                            for i in range(n):
                                old = st.rb(p.obj, k + j * s + i)
                                st.wb(Ptr(p.obj, k + j * s + i), [tm.ite(c, nb[i], old)])
                        return
            self.reconc(st, p.off)
        self.bounds(st, o, p, n, line, 'store')
        k = p.off.a
        if k + n > o.size:
            raise PathEnd()
        st.wval(p, v)

    def bounds(self, st, o, p, n, line, what):
        sz = o.size
        off = p.off
        if isinstance(sz, int) and off.op == 'c':
            if off.a + n <= sz:
                self.res.ok('mem:' + what)
            else:
                self.res.fail('mem:%s out of bounds' % what, '%s of %d bytes at offset %d of %s (size %d), line %d in %s' % (what, n, tm.sgn(off.a, 64), o.name, sz, line, st.frames[-1].fn.name))
            return
        szt = const(sz, 64) if isinstance(sz, int) else sz
        # 0 <= off, off + n <= size without wrap
        left = tm.sub(szt, off)
        c = tm.and_(tm.ule(off, szt), tm.ule(const(n, 64), left))
        nm = 'mem:' + what
        if c is tm.TRUE:
            self.res.ok(nm)
            return
        r = solver.valid(st.pc, c)
        if r is True:
            self.res.ok(nm)
        elif r is False:
            self.res.fail(nm + ' out of bounds', '%s of %d bytes at offset %r of %s (size %r), line %d in %s' % (what, n, off, o.name, szt, line, st.frames[-1].fn.name))
        else:
            self.res.unk(nm, 'line %d' % line)

    def arr_read(self, st, o, off):
        if 'rd' in st.data and o.meta and 'rd' in o.meta:
            st.data['rd'] = st.data['rd'] + (off,)
        for a, b in reversed(o.log):
            d = tm.sub(off, a)
            if d.op == 'c':
                if d.a == 0:
                    return b
                continue
            # symbolic distance
            r = solver.valid(st.pc, tm.not_(tm.eq(off, a)))
            if r is True:
                continue
            r = solver.valid(st.pc, tm.eq(off, a))
            if r is True:
                return b
            raise Undecided('unresolved aliasing in buffer %s' % o.name)
        if o.old is not None:
            return o.old(st, o, off)
        return tm.arr(o.name if o.init is None else o.init, off)

    def split_ptr(self, st, p):
        raise Undecided('conditional pointer')

    # ------------------------------------------------------------ concretisation
    def unique(self, st, t):
        """the only value t can have, or None"""
        if t.op == 'c':
            return t.a
        conds = solver._relevant(st.pc, [t])
        k = (frozenset(conds), t, 1)
        vs = self.vcache.get(k)
        if vs is None:
            vs = self.vcache[k] = lia.values(conds, t, 1) or []
        return vs[0] if len(vs) == 1 else None

    def values(self, st, t, limit=300):
        """all values of t under the path condition"""
        if t.op == 'c':
            return [t.a]
        vs = []
        u = tm.ub(t)
        if u <= 8:
            for v in range(u + 1):
                if solver.feasible(st.pc, tm.eq(t, const(v, t.w))):
                    vs.append(v)
            return vs
        conds = solver._relevant(st.pc, [t])
        if all(is_ctl(x) for x in conds) and is_ctl(t):
            k = (frozenset(conds), t, limit)
            vs = self.vcache.get(k)
            if vs is None:
                vs = lia.values(conds, t, limit)
                if vs is not None:
                    self.vcache[k] = vs
            if vs is not None:
                if len(vs) > limit:
                    raise Undecided('too many values for %r' % t)
                return vs
        vs = []
        ex = []
        while True:
            r, m = solver.check(conds + ex, model=True)
            if r == 'unsat':
                return vs
            if r != 'sat' or len(vs) > limit:
                raise Undecided('too many values for %r' % t)
            import z3
            v = m.eval(solver.z(t), model_completion=True).as_long()
            vs.append(v)
            ex.append(tm.not_(tm.eq(t, const(v, t.w))))

    def reconc(self, st, t, limit=300):
        """fork on the values of t; re-executes the current instruction in each"""
        vs = self.values(st, t, limit)
        out = []
        for v in vs:
            s = st.fork()
            self.pin(s, t, v)
            out.append(s)
        raise Refork(out)

    def pin(self, s, t, v):
        k = const(v, t.w)
        if t.op == 'cat':
            o = 0
            part = []
            for x in t.a:
                if x.op != 'c':
                    part.append((x, o))
                o += x.w
            if len(part) == 1:
                x, o = part[0]
                return self.pin(s, x, v >> o & ((1 << x.w) - 1))
        if t.op == 'ite':
            c, a, b = t.a
            ea, eb = tm.eq(a, k), tm.eq(b, k)
            if ea is not tm.FALSE and eb is not tm.FALSE:
                if not solver.feasible(s.pc, tm.and_(c, ea)):
                    ea = tm.FALSE
                elif not solver.feasible(s.pc, tm.and_(tm.not_(c), eb)):
                    eb = tm.FALSE
            if ea is tm.FALSE or eb is tm.FALSE:
                # only one branch can have this value
                s.assume(tm.not_(c) if ea is tm.FALSE else c)
                u = b if ea is tm.FALSE else a
                s.subst({t: k})
                if u.op != 'c':
                    self.pin(s, u, v)
                return
        s.assume(tm.eq(t, k))
        m = solve_for(t, v)
        if m is None:
            s.subst({t: k})
            s.assume(tm.eq(t, k))
        else:
            s.subst(m)

    def add_cond(self, s, c):
        """add a branch condition, using control equalities as substitutions"""
        s.assume(c)
        self.learn(s, c)

    def learn(self, s, c):
        if c.op == 'eq' and is_ctl(c):
            a, b = c.a
            if a.op == 'c':
                m = solve_for(b, a.a)
            else:
                m = solve_for(tm.sub(b, a), 0)
            if m:
                s.subst(m)
        elif c.op == 'and':
            for x in c.a:
                self.learn(s, x)
        else:
            # a small variable that the bounds leave no choice
            if c.op == 'xor' and len(c.a) == 2 and (c.a[0] is tm.TRUE or c.a[1] is tm.TRUE):
                c = c.a[0] if c.a[1] is tm.TRUE else c.a[1]
            if c.op == 'ult' and (c.a[0].op == 'c') != (c.a[1].op == 'c'):
                t = c.a[1] if c.a[0].op == 'c' else c.a[0]
                if t.op == 'cat':
                    nc = [x for x in t.a if x.op != 'c']
                    if len(nc) == 1:
                        t = nc[0]
                if not is_ctl(t):
                    return
                v = None
                if t.w <= 8 and t.op in ('v', 'ext'):
                    v = self.unique(s, t)
                elif t.op == 'lin':
                    lo, hi = 0, (1 << t.w) - 1
                    for d in s.pc:
                        neg = False
                        if d.op == 'xor' and len(d.a) == 2 and (d.a[0] is tm.TRUE or d.a[1] is tm.TRUE):
                            d = d.a[0] if d.a[1] is tm.TRUE else d.a[1]
                            neg = True
                        if d.op == 'ult' and d.a[1] is t and d.a[0].op == 'c':
                            if neg:
                                hi = min(hi, d.a[0].a)
                            else:
                                lo = max(lo, d.a[0].a + 1)
                        elif d.op == 'ult' and d.a[0] is t and d.a[1].op == 'c':
                            if neg:
                                lo = max(lo, d.a[1].a)
                            else:
                                hi = min(hi, d.a[1].a - 1)
                        elif neg and d.op == 'eq' and t in d.a and lo == 0 and any(y.op == 'c' and y.a == 0 for y in d.a):
                            lo = 1
                    if lo == hi:
                        v = lo
                if v is not None:
                    m = solve_for(t, v)
                    if m:
                        s.subst(m)
                        return True

    def implied(self, s, c):
        """the branch has one side only; remember a bound that fixes a sum"""
        d = c
        if d.op == 'xor' and len(d.a) == 2 and (d.a[0] is tm.TRUE or d.a[1] is tm.TRUE):
            d = d.a[0] if d.a[1] is tm.TRUE else d.a[1]
        if d.op == 'ult' and (d.a[0].op == 'c') != (d.a[1].op == 'c'):
            t = d.a[1] if d.a[0].op == 'c' else d.a[0]
            if t.op == 'lin' and is_ctl(t) and c not in s.pc:
                s.pc.append(c)
                if not self.learn(s, c):
                    if s.pc and s.pc[-1] is c:
                        s.pc.pop()

    # ------------------------------------------------------------ running
    def call_fn(self, st, name, args):
        """push a frame for a function of the program"""
        f = self.prog.find_fn(name) if isinstance(name, str) else name
        if f is None:
            raise Undecided('function %s not found' % name)
        fr = Frame()
        fr.fn = f
        fr.blk = 0
        fr.idx = 0
        fr.regs = [None] * f.nregs
        fr.ret = None
        fr.iters = {}
        fr.sym = {}
        fr.allocas = []
        if len(args) != len(f.args):
            raise Undecided('arity of ' + f.name)
        for r, a in zip(f.args, args):
            fr.regs[r] = a
        if len(st.frames) > 60:
            raise Undecided('recursion')
        st.frames.append(fr)
        self.res.fns[f.name] = self.res.fns.get(f.name, 0) + 1

    def run(self, st, depth=0, stop=None):
        """explore until the frame stack returns to `depth` frames ('ret'), or block `stop` of frame
        number len==stop[0] is entered ('stop'), or a cut point ('cut').  -> [(kind, state, value)]"""
        work = [st]
        out = []
        while work:
            s = work.pop()
            try:
                r = self.run1(s, depth, stop)
            except Refork as e:
                work.extend(reversed(e.states))
                continue
            except PathEnd:
                out.append(('end', s, None))
                continue
            if r[0] == 'fork':
                work.extend(reversed(r[1]))
            elif r[0] == 'many':
                out.extend(r[1])
            else:
                out.append(r)
            if len(out) + len(work) > self.max_states:
                raise Undecided('too many paths')
        return out

    def jump(self, s, blk):
        """enter a block: evaluates phis.  returns True when at a cut header"""
        f = s.frames[-1]
        b = f.fn.blocks[blk]
        prev = f.blk
        if b.phis:
            vals = []
            for ph in b.phis:
                o = ph.x[prev]
                if o[0] == 'undef':
                    vals.append(None)
                elif o[0] == 'r' and f.regs[o[1]] is None:
                    vals.append(None)
                else:
                    vals.append(self.ev(s, o))
            for ph, v in zip(b.phis, vals):
                f.regs[ph.dst] = v
        f.blk = blk
        f.idx = 0
        body = f.fn.loops.get(blk)
        if body is not None:
            if prev in body and prev != blk or prev == blk:
                f.iters[blk] = f.iters.get(blk, 0) + 1
            else:
                f.iters[blk] = 0
                f.sym[blk] = 0
        return (f.fn.name, blk) in self.cuts

    def run1(self, s, depth, stop):
        res = self.res
        while True:
            f = s.frames[-1]
            b = f.fn.blocks[f.blk]
            ins = b.insts
            n = len(ins)
            while f.idx < n:
                i = ins[f.idx]
                res.insns += 1
                if res.insns > self.max_insns:
                    raise Undecided('instruction budget')
                if self.deadline and res.insns & 1023 == 0:
                    import time
                    if time.time() > self.deadline:
                        raise Undecided('time budget')
                op = i.op
                if op == 'br':
                    if not i.ops:
                        t = i.x[0]
                    else:
                        c = self.ev(s, i.ops[0])
                        if c.op == 'c':
                            t = i.x[0] if c.a else i.x[1]
                        else:
                            r = self.branch(s, c, i.x[0], i.x[1], depth, stop, i)
                            if isinstance(r, int):
                                t = r
                            else:
                                return r
                    r = self.goto(s, t, depth, stop)
                    if r is not None:
                        return r
                    break
                if op == 'switch':
                    c = self.ev(s, i.ops[0])
                    d, cases = i.x
                    if c.op == 'c':
                        t = d
                        for v, bb in cases:
                            if v == c.a:
                                t = bb
                        r = self.goto(s, t, depth, stop)
                        if r is not None:
                            return r
                        break
                    return self.do_switch(s, c, d, cases, depth, stop)
                if op == 'ret':
                    v = self.ev(s, i.ops[0]) if i.ops else None
                    for a in f.allocas:
                        s.mem.pop(a, None)
                    s.frames.pop()
                    if len(s.frames) == depth:
                        res.paths += 1
                        return ('ret', s, v)
                    g = s.frames[-1]
                    ci = g.fn.blocks[g.blk].insts[g.idx]
                    if ci.dst is not None:
                        g.regs[ci.dst] = v
                    g.idx += 1
                    h = self.on_return.get(f.fn.name) if self.on_return else None
                    break
                if op == 'call':
                    r = self.do_call(s, i)
                    if r is None:
                        f.idx += 1
                        continue
                    if r == 'push':
                        break
                    return r
                if op == 'unreachable':
                    return ('end', s, None)
                self.step(s, f, i)
                f.idx += 1
            # loop around with the (possibly new) top frame

    on_return = None
    vcache = {}

    def goto(self, s, t, depth, stop):
        f = s.frames[-1]
        fromb = f.blk
        cut = self.jump(s, t)
        body = f.fn.loops.get(t)
        if stop is not None and len(s.frames) == stop[0] and t == stop[1]:
            return ('stop', s, None)
        if cut:
            return ('cut', s, (f.fn.name, t))
        if body is not None and f.iters.get(t, 0) > self.limit and f.sym.get(t, 0) > self.limit and not self.concrete:
            raise NeedCut((f.fn.name, t))
        return None

    def loops_of(self, f, blk):
        return [h for h, body in f.fn.loops.items() if blk in body]

    def branch(self, s, c, bt, bf, depth, stop, inst):
        nc = tm.not_(c)
        to = 10000 if is_ctl(c) else 300
        ft = solver.feasible(s.pc, c, to)
        ff = solver.feasible(s.pc, nc, to)
        if ft and not ff:
            self.implied(s, c)
            return bt
        if ff and not ft:
            self.implied(s, nc)
            return bf
        if not ft and not ff:
            raise PathEnd()
        f = s.frames[-1]
        for h in self.loops_of(f, f.blk):
            f.sym[h] = f.sym.get(h, 0) + 1
        j = f.fn.ipdom[f.blk]
        if not is_ctl(c) and j is not None:
            if DEBUG:
                print('MERGE', f.fn.name, f.blk, repr(c)[:300])
            r = self.try_merge(s, c, nc, bt, bf, j, depth, stop)
            if r is not None:
                return r
        s2 = s.fork()
        out = []
        self.add_cond(s, c)
        r = self.goto(s, bt, depth, stop)
        out.append(r if r is not None else s)
        self.add_cond(s2, nc)
        r = self.goto(s2, bf, depth, stop)
        out.append(r if r is not None else s2)
        if all(isinstance(x, State) for x in out):
            return ('fork', out)
        res = []
        pend = []
        for x in out:
            if isinstance(x, State):
                pend.append(x)
            else:
                res.append(x)
        for x in pend:
            res.extend(self.run(x, depth, stop))
        return ('many', res)

    def try_merge(self, s, c, nc, bt, bf, j, depth, stop):
        d = len(s.frames)
        sides = []
        for cond, b in ((c, bt), (nc, bf)):
            x = s.fork()
            x.assume(cond)
            r = self.goto(x, b, depth, (d, j))
            if r is not None:
                sides.append([r])
            else:
                sides.append(self.run(x, depth, (d, j)))
        ok = all(len(x) == 1 and x[0][0] == 'stop' for x in sides)
        m = None
        if ok:
            m = merge(sides[0][0][1], sides[1][0][1], c, s.pc)
        outs = []
        if m is not None:
            outs = [m]
        else:
            done = []
            for side in sides:
                for k, x, v in side:
                    if k == 'stop':
                        outs.append(x)
                    else:
                        done.append((k, x, v))
            # states that stopped at the join continue
            res = done
            for x in outs:
                res.extend(self.after_stop(x, depth, stop, j))
            return ('many', res)
        res = self.after_stop(outs[0], depth, stop, j, single=True)
        return res

    def after_stop(self, x, depth, stop, j, single=False):
        """x has just entered block j of its top frame under an inner stop"""
        f = x.frames[-1]
        if stop is not None and len(x.frames) == stop[0] and j == stop[1]:
            r = ('stop', x, None)
            return r if single else [r]
        if (f.fn.name, j) in self.cuts:
            r = ('cut', x, (f.fn.name, j))
            return r if single else [r]
        if single:
            return ('fork', [x])
        return self.run(x, depth, stop)

    def do_switch(self, s, c, d, cases, depth, stop):
        out = []
        res = []
        neg = []
        todo = []
        for v, bb in cases:
            e = tm.eq(c, const(v, c.w))
            todo.append((e, bb))
            neg.append(tm.not_(e))
        for e, bb in todo:
            if solver.feasible(s.pc, e):
                x = s.fork()
                self.add_cond(x, e)
                r = self.goto(x, bb, depth, stop)
                (res if r is not None else out).append(r if r is not None else x)
        x = s.fork()
        if solver.check(solver._relevant(x.pc, neg) + neg) != 'unsat':
            for e in neg:
                x.assume(e)
            r = self.goto(x, d, depth, stop)
            (res if r is not None else out).append(r if r is not None else x)
        for x in out:
            res.extend(self.run(x, depth, stop))
        return ('many', res)

    # ------------------------------------------------------------ calls
    def do_call(self, s, i):
        f = s.frames[-1]
        t = i.x
        if t[0] == 'asm':
            raise Undecided('inline assembly in ' + f.fn.name)
        fn = None
        if t[0] == 'f':
            name = t[1]
        else:
            v = self.ev(s, t)
            if isinstance(v, FPtr):
                name = v.name
                fn = v.fn
            elif self.indirect:
                name = self.indirect(self, s, v, i)
                if name is None:
                    return None
            else:
                if isinstance(v, T) and v.op == 'c' and v.a == 0:
                    self.res.fail('mem:call through a null pointer', 'line %d in %s' % (i.line, f.fn.name))
                    raise PathEnd()
                raise Undecided('indirect call line %d in %s' % (i.line, f.fn.name))
        args = [self.ev(s, o) if o[0] != 'md' else None for o in i.ops]
        return self.dispatch(s, i, name, args, fn)

    def dispatch(self, s, i, name, args, fn=None):
        f = s.frames[-1]
        h = self.contracts.get(name)
        if h is None and name.startswith('llvm.'):
            return self.intrinsic(s, i, name, args)
        if h is None:
            fn = fn or self.prog.find_fn(name, f.fn.mod)
            if fn is not None and name not in self.no_inline:
                self.call_fn(s, fn, args)
                return 'push'
            h = self.externs.get(name)
            if h is None:
                raise Undecided('no contract for external function %s (called from %s line %d)' % (name, f.fn.name, i.line))
        r = h(self, s, args, i)
        if isinstance(r, list):
            # [(state, value)]
            out = []
            for x, v in r:
                g = x.frames[-1]
                if i.dst is not None:
                    g.regs[i.dst] = v
                g.idx += 1
                out.append(x)
            return ('fork', out)
        if r == 'push':
            return 'push'
        if i.dst is not None:
            if r is None and i.ty.k != 'void':
                raise Undecided('contract of %s gives no value' % name)
            f = s.frames[-1]
            f.regs[i.dst] = r
        return None

    def intrinsic(self, s, i, name, args):
        f = s.frames[-1]
        b = name.split('.')
        k = b[1]
        if k in ('memcpy', 'memmove'):
            self.memcpy(s, args[0], args[1], args[2], i.line)
            return None
        if k == 'memset':
            self.memset(s, args[0], args[1], args[2], i.line)
            return None
        r = None
        if k == 'x86' and b[2] in ('mmx', 'sse') and b[-1] in ('emms',):
            return None
        if k in ('fshl', 'fshr'):
            a, c, n = args
            if n.op != 'c':
                raise Undecided('funnel shift')
            w = a.w
            sh = n.a % w
            cc = concat((c, a))
            if k == 'fshl':
                r = extract(cc, 2 * w - 1 - sh, w - sh)
            else:
                r = extract(cc, w - 1 + sh, sh)
        elif k == 'bswap':
            r = concat(list(reversed(tm.bytes_of(args[0]))))
        elif k in ('umin', 'umax', 'smin', 'smax'):
            lt = tm.ult if k[0] == 'u' else tm.slt
            a, c = args
            r = tm.ite(lt(a, c), a, c) if k.endswith('min') else tm.ite(lt(a, c), c, a)
        elif k in ('uadd', 'usub') and b[2] == 'with':
            a, c = args
            w = a.w
            if k == 'uadd':
                v = tm.add(tm.zext(a, w + 1), tm.zext(c, w + 1))
                r = Agg([tm.add(a, c), extract(v, w, w)])
            else:
                r = Agg([tm.sub(a, c), tm.ult(a, c)])
        elif k == 'x86' and b[2] == 'addcarry':
            cin, a, c = args
            w = a.w
            ci = tm.not_(tm.eq(cin, const(0, 8)))
            v = tm.add(tm.add(tm.zext(a, w + 1), tm.zext(c, w + 1)), tm.zext(ci, w + 1))
            r = Agg([tm.zext(extract(v, w, w), 8), tm.trunc(v, w)])
        elif k in ('stacksave',):
            r = NULL
        elif k in ('stackrestore', 'prefetch', 'va_start', 'va_end'):
            return None
        elif k == 'expect':
            r = args[0]
        elif k == 'objectsize':
            r = const(-1, i.ty.w)
        elif k == 'is' and b[2] == 'constant':
            r = const(0, 1)
        elif k == 'trap':
            raise PathEnd()
        elif k == 'abs':
            a = args[0]
            r = tm.ite(tm.slt(a, const(0, a.w)), tm.neg(a), a)
        else:
            raise Undecided('intrinsic ' + name)
        f.regs[i.dst] = r
        return None

    def memcpy(self, s, d, p, n, line=0):
        if n.op != 'c':
            self.reconc(s, n)
        n = n.a
        if n == 0:
            return
        bs = self.read_bytes(s, p, n, line)
        self.write_bytes(s, d, bs, line)

    def read_bytes(self, s, p, n, line=0):
        """n raw bytes at p (checked)"""
        if n == 0:
            return []
        if not isinstance(p, Ptr):
            if isinstance(p, T) and p.op == 'c' and p.a == 0:
                self.res.fail('mem:null-read', 'line %d in %s' % (line, s.frames[-1].fn.name if s.frames else ''))
                raise PathEnd()
            raise Undecided('read through a non-pointer')
        o = s.mem[p.obj]
        if o.freed:
            self.res.fail('mem:use-after-free', 'line %d' % line)
            raise PathEnd()
        if o.kind == 'arr':
            self.bounds(s, o, p, n, line, 'load')
            return [self.arr_read(s, o, tm.addc(p.off, j)) for j in range(n)]
        if p.off.op != 'c':
            self.reconc(s, p.off)
        nf = len(self.res.failed)
        self.bounds(s, o, p, n, line, 'load')
        if p.off.a + n > o.size:
            raise PathEnd()
        return [s.rb(p.obj, p.off.a + j) for j in range(n)]

    def write_bytes(self, s, p, bs, line=0):
        n = len(bs)
        if n == 0:
            return
        if not isinstance(p, Ptr):
            if isinstance(p, T) and p.op == 'c' and p.a == 0:
                self.res.fail('mem:null-write', 'line %d' % line)
                raise PathEnd()
            raise Undecided('write through a non-pointer')
        o = s.mem[p.obj]
        if o.freed:
            self.res.fail('mem:use-after-free', 'line %d' % line)
            raise PathEnd()
        if o.kind == 'arr':
            self.bounds(s, o, p, n, line, 'store')
            o = s.w(p.obj)
            for j, b in enumerate(bs):
                o.log.append((tm.addc(p.off, j), b))
            return
        if p.off.op != 'c':
            self.reconc(s, p.off)
        self.bounds(s, o, p, n, line, 'store')
        if p.off.a + n > o.size:
            raise PathEnd()
        s.wb(p, bs)

    def memset(self, s, d, v, n, line=0):
        if n.op != 'c':
            self.reconc(s, n)
        v = tm.trunc(v, 8)
        self.write_bytes(s, d, [v] * n.a, line)

    # ------------------------------------------------------------ instructions
    def step(self, s, f, i):
        op = i.op
        R = f.regs
        ev = self.ev
        if op == 'load':
            R[i.dst] = self.load(s, ev(s, i.ops[0]), i.ty, i.line)
        elif op == 'store':
            self.store(s, ev(s, i.ops[1]), ev(s, i.ops[0]), i.line)
        elif op == 'gep':
            p = ev(s, i.ops[0])
            off, vs = i.x
            k = off
            prs = []
            for o, w, st in vs:
                v = ev(s, o)
                if w < 64:
                    v = tm.sext(v, 64)
                if v.op == 'c':
                    k += tm.sgn(v.a, 64) * st
                else:
                    prs.append((v, st))
            if isinstance(p, Ptr):
                if prs:
                    R[i.dst] = Ptr(p.obj, tm.lin([(p.off, 1)] + prs, k, 64))
                else:
                    R[i.dst] = Ptr(p.obj, tm.addc(p.off, k)) if k else p
            elif isinstance(p, T):
                R[i.dst] = tm.lin([(p, 1)] + prs, k, 64)
            else:
                raise Undecided('gep')
        elif op in BIN:
            a, b = ev(s, i.ops[0]), ev(s, i.ops[1])
            if not isinstance(a, T) or not isinstance(b, T):
                R[i.dst] = self.ptr_arith(s, op, a, b)
                return
            if i.ty.k == 'vector':
                R[i.dst] = self.vec_bin(op, a, b, i.ty)
            else:
                if op in ('udiv', 'sdiv', 'urem', 'srem') and b.op != 'c':
                    self.oblige(s, tm.not_(tm.eq(b, const(0, b.w))), 'div:nonzero', i.line)
                R[i.dst] = BIN[op](a, b)
        elif op == 'icmp':
            R[i.dst] = self.icmp(s, i.x[0], ev(s, i.ops[0]), ev(s, i.ops[1]), i.x[1])
        elif op in ('zext', 'sext', 'trunc'):
            v = ev(s, i.ops[0])
            if i.ty.k == 'vector':
                sw = i.x[0].el.w
                dw = i.ty.el.w
                g = {'zext': tm.zext, 'sext': tm.sext, 'trunc': tm.trunc}[op]
                R[i.dst] = concat([g(extract(v, (j + 1) * sw - 1, j * sw), dw) for j in range(i.ty.n)])
            else:
                if not isinstance(v, T):
                    R[i.dst] = tm.fresh('ptrint', i.ty.w)
                    return
                R[i.dst] = tm.zext(v, i.ty.w) if op == 'zext' else (tm.sext(v, i.ty.w) if op == 'sext' else tm.trunc(v, i.ty.w))
        elif op == 'select':
            c = ev(s, i.ops[0])
            a, b = ev(s, i.ops[1]), ev(s, i.ops[2])
            R[i.dst] = self.select(s, c, a, b, i)
        elif op in ('bitcast', 'freeze', 'inttoptr', 'ptrtoint'):
            v = ev(s, i.ops[0])
            if op == 'ptrtoint' and isinstance(v, Ptr):
                v = self.ptrint(s, v)
            elif op == 'inttoptr' and isinstance(v, T) and v.op != 'c':
                v = self.intptr(s, v)
            R[i.dst] = v
        elif op == 'alloca':
            n = ev(s, i.ops[0])
            if n.op != 'c':
                raise Undecided('dynamic alloca')
            p = s.new('%s.L%d' % (f.fn.name, i.uid), i.x.size * n.a)
            f.allocas.append(p.obj)
            R[i.dst] = p
        elif op == 'extractvalue':
            v = ev(s, i.ops[0])
            for k in i.x[0]:
                v = v.v[k]
            R[i.dst] = v
        elif op == 'insertvalue':
            v = ev(s, i.ops[0])
            if len(i.x[0]) != 1:
                raise Undecided('insertvalue')
            l = list(v.v)
            l[i.x[0][0]] = ev(s, i.ops[1])
            R[i.dst] = Agg(l)
        elif op == 'extractelement':
            v, ix = ev(s, i.ops[0]), ev(s, i.ops[1])
            w = i.ty.w
            if ix.op != 'c':
                raise Undecided('vector index')
            R[i.dst] = extract(v, (ix.a + 1) * w - 1, ix.a * w)
        elif op == 'insertelement':
            v, x, ix = ev(s, i.ops[0]), ev(s, i.ops[1]), ev(s, i.ops[2])
            w = i.ty.el.w
            if not isinstance(x, T):
                raise Undecided('pointer vector')
            es = [extract(v, (j + 1) * w - 1, j * w) for j in range(i.ty.n)]
            es[ix.a] = x
            R[i.dst] = concat(es)
        elif op == 'shufflevector':
            a, b = ev(s, i.ops[0]), ev(s, i.ops[1])
            mask, sty = i.x
            w = sty.el.w
            n = sty.n
            es = []
            for m in mask:
                if m < 0:
                    es.append(const(0, w))
                elif m < n:
                    es.append(extract(a, (m + 1) * w - 1, m * w))
                else:
                    es.append(extract(b, (m - n + 1) * w - 1, (m - n) * w))
            R[i.dst] = concat(es)
        else:
            raise Undecided('%s: %s line %d' % (f.fn.name, i.x if op == 'bad' else op, i.line))

    def select(self, s, c, a, b, i=None):
        if c.op == 'c':
            return a if c.a else b
        if isinstance(a, T) and isinstance(b, T):
            if i is not None and i.ty.k == 'vector' and c.w > 1:
                w = i.ty.el.w
                return concat([tm.ite(extract(c, j, j), extract(a, (j + 1) * w - 1, j * w), extract(b, (j + 1) * w - 1, j * w)) for j in range(i.ty.n)])
            return tm.ite(c, a, b)
        if a == b:
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return Ptr(a.obj, tm.ite(c, a.off, b.off))
        # decide the condition by forking
        out = []
        for cc in (c, tm.not_(c)):
            if solver.feasible(s.pc, cc):
                x = s.fork()
                x.assume(cc)
                x.subst({c: tm.TRUE if cc is c else tm.FALSE} if c.op not in ('eq',) else {c: tm.TRUE if cc is c else tm.FALSE})
                out.append(x)
        raise Refork(out)

    def ptrint(self, s, v):
        """address of an object as an integer: an unknown base, remembered for inttoptr"""
        return tm.add(tm.var('#addr.' + v.obj, 64), v.off)

    def intptr(self, s, v):
        if v.op == 'v' and v.a.startswith('#addr.'):
            return Ptr(v.a[6:], 0)
        if v.op == 'lin':
            for x, c in v.a[0]:
                if c == 1 and x.op == 'v' and x.a.startswith('#addr.'):
                    return Ptr(x.a[6:], tm.sub(v, x))
        raise Undecided('inttoptr')

    def ptr_arith(self, s, op, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                return tm.sub(a.off, b.off)
        av = self.ptrint(s, a) if isinstance(a, Ptr) else a
        bv = self.ptrint(s, b) if isinstance(b, Ptr) else b
        if isinstance(av, T) and isinstance(bv, T):
            return BIN[op](av, bv)
        raise Undecided('pointer arithmetic')

    def icmp(self, s, pred, a, b, ty):
        pa, pb = not isinstance(a, T), not isinstance(b, T)
        if pa or pb:
            if isinstance(a, FPtr) or isinstance(b, FPtr):
                e = isinstance(a, FPtr) and isinstance(b, FPtr) and a == b
                if isinstance(a, FPtr) != isinstance(b, FPtr):
                    e = False
                return const(int(e if pred == 'eq' else not e), 1)
            if pa and pb:
                if a.obj == b.obj:
                    a, b = a.off, b.off
                    if pred in ('ult', 'ule', 'ugt', 'uge'):
                        # same object: signed comparison of offsets is the same thing
                        pass
                else:
                    if pred == 'eq':
                        return tm.FALSE
                    if pred == 'ne':
                        return tm.TRUE
                    a = self.ptrint(s, a)
                    b = self.ptrint(s, b)
            else:
                x = b if pa else a
                if x.op == 'c' and x.a == 0:
                    if pred == 'eq':
                        return tm.FALSE
                    if pred == 'ne':
                        return tm.TRUE
                    if pred in ('ugt', 'uge') and pa or pred in ('ult', 'ule') and pb:
                        return tm.TRUE
                if pred in ('eq', 'ne') and x.op == 'v' and x.a.startswith('#addr.') is False:
                    return tm.fresh('#pcmp', 1)
                a = self.ptrint(s, a) if pa else a
                b = self.ptrint(s, b) if pb else b
        if ty.k == 'vector':
            w = ty.el.w
            return concat([CMP[pred](extract(a, (j + 1) * w - 1, j * w), extract(b, (j + 1) * w - 1, j * w)) for j in range(ty.n)])
        return CMP[pred](a, b)

    def vec_bin(self, op, a, b, ty):
        if op in ('xor', 'and', 'or'):
            return BIN[op](a, b)
        w = ty.el.w
        return concat([BIN[op](extract(a, (j + 1) * w - 1, j * w), extract(b, (j + 1) * w - 1, j * w)) for j in range(ty.n)])


class PathEnd(Exception):
    pass


_tabcache = {}
BIN = {'add': tm.add, 'sub': tm.sub, 'mul': tm.mul, 'udiv': tm.udiv, 'sdiv': tm.sdiv, 'urem': tm.urem, 'srem': tm.srem,
       'shl': tm.shl, 'lshr': tm.lshr, 'ashr': tm.ashr, 'and': tm.and_, 'or': tm.or_, 'xor': tm.xor}
CMP = {'eq': tm.eq, 'ne': lambda a, b: tm.not_(tm.eq(a, b)), 'ult': tm.ult, 'ule': tm.ule, 'ugt': lambda a, b: tm.ult(b, a),
       'uge': lambda a, b: tm.ule(b, a), 'slt': tm.slt, 'sle': tm.sle, 'sgt': lambda a, b: tm.slt(b, a), 'sge': lambda a, b: tm.sle(b, a)}


def _mv(c, a, b):
    if a is b:
        return a
    if a is None or b is None:
        return None
    if isinstance(a, T) and isinstance(b, T):
        return tm.ite(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
        if a.off is b.off:
            return a
        raise _NoMerge
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.v) == len(b.v):
        return Agg([_mv(c, x, y) for x, y in zip(a.v, b.v)])
    if a == b:
        return a
    raise _NoMerge


class _NoMerge(Exception):
    pass


def merge(A, B, c, pc):
    """join two states that entered the same block; c selects A"""
    if len(A.frames) != len(B.frames) or A.events != B.events or A.ghost.keys() != B.ghost.keys():
        return None
    try:
        for k in A.ghost:
            if A.ghost[k] is not B.ghost[k] and A.ghost[k] != B.ghost[k]:
                return None
        if A.data != B.data:
            return None
        R = A.fork()
        for fr, fb in zip(R.frames, B.frames):
            if fr.fn is not fb.fn or fr.blk != fb.blk or fr.idx != fb.idx:
                return None
            fr.regs = [_mvr(c, x, y) for x, y in zip(fr.regs, fb.regs)]
            fr.allocas = list(dict.fromkeys(fr.allocas + fb.allocas))
        for oid in set(A.mem) | set(B.mem):
            if oid not in A.mem:
                R.mem[oid] = B.mem[oid]
                continue
            if oid not in B.mem:
                continue
            x, y = A.mem[oid], B.mem[oid]
            if x is y:
                continue
            if x.freed != y.freed or x.kind != y.kind or x.meta != y.meta:
                return None
            if x.kind == 'fix':
                o = R.w(oid)
                for k in set(x.data) | set(y.data):
                    p = x.data.get(k)
                    q = y.data.get(k)
                    if p is q:
                        continue
                    if p is None:
                        p = A.rb(oid, k)
                    if q is None:
                        q = B.rb(oid, k)
                    o.data[k] = _mv(c, p, q)
                o.written = x.written or y.written
            else:
                if len(x.log) != len(y.log):
                    return None
                o = R.w(oid)
                nl = []
                for (a, p), (b, q) in zip(x.log, y.log):
                    if a is not b:
                        return None
                    nl.append((a, _mv(c, p, q)))
                o.log = nl
        # facts common to both sides
        R.pc = [x for x in A.pc if x in B.pc]
        return R
    except _NoMerge:
        return None


def _mvr(c, x, y):
    try:
        return _mv(c, x, y)
    except _NoMerge:
        # registers not live after the join may differ arbitrarily; a later use is "undefined"
        return None
