"""Exact GF(2) normal form: every bit of a value is a polynomial of degree at most one in the bits of each
of two operands (bilinear).  Used for the multiplications in GF(2^n), where word-level reasoning explodes.

BilExec executes the real code with the ordinary executor; whenever paths join or a loop is re-entered the
values computed so far are named by fresh variables whose bits are known polynomials, so that terms stay small.
"""
from . import terms as tm
from .terms import T, const
from .exec import Exec, Undecided, Agg
from . import solver


class Space:
    """a, b: names of the operands' bytes (LSB-first bit order within the value)"""

    def __init__(self, n):
        self.n = n
        self.defs = {}
        self.memo = {}
        self.k = 0
        self.LA = ((1 << n) - 1) << 1
        self.LB = ((1 << n) - 1) << (1 + n)
        self.NB = ~((1 << (1 + 2 * n)) - 1)
        self.mm = {}

    def a(self, i):
        return 1 << (1 + i)

    def b(self, j):
        return 1 << (1 + self.n + j)

    def mul(self, x, y):
        if x == 0 or y == 0:
            return 0
        if x == 1:
            return y
        if y == 1 or x == y:
            return x
        k = (x, y)
        r = self.mm.get(k)
        if r is not None:
            return r
        n = self.n
        if x & self.NB or y & self.NB:
            raise Undecided('degree')
        r = 0
        if x & 1:
            r ^= y
        if y & 1:
            r ^= x & ~1
        xa, xb = (x & self.LA) >> 1, (x & self.LB) >> (1 + n)
        ya, yb = (y & self.LA) >> 1, (y & self.LB) >> (1 + n)
        # a*a or b*b products of different variables are outside the form
        if xa and ya or xb and yb:
            raise Undecided('degree')
        for p, q in ((xa, yb), (ya, xb)):
            while p:
                l = p & -p
                p ^= l
                i = l.bit_length() - 1
                r ^= q << (1 + 2 * n + i * n)
        self.mm[k] = r
        if len(self.mm) > 200000:
            self.mm.clear()
        return r

    def name(self, t):
        """a fresh variable standing for t"""
        bits = self.bits(t)
        if all(x in (0, 1) for x in bits):
            return const(sum(x << i for i, x in enumerate(bits)), t.w)
        self.k += 1
        nm = '$b%d' % self.k
        self.defs[nm] = bits
        return tm.var(nm, t.w)

    def bits(self, t):
        m = self.memo
        if t in m:
            return m[t]
        st = [t]
        while st:
            x = st[-1]
            if x in m:
                st.pop()
                continue
            todo = [y for y in tm.children(x) if y not in m]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            m[x] = self.ev(x, [m[y] for y in tm.children(x)])
        return m[t]

    def ev(self, t, v):
        op, w = t.op, t.w
        if op == 'c':
            return [(t.a >> i) & 1 for i in range(w)]
        if op == 'v':
            d = self.defs.get(t.a)
            if d is None:
                raise Undecided('variable %s' % t.a)
            return d
        if op == 'cat':
            return [x for p in v for x in p]
        if op == 'ext':
            return v[0][t.a[2]:t.a[1] + 1]
        if op == 'xor':
            r = list(v[0])
            for y in v[1:]:
                r = [p ^ q for p, q in zip(r, y)]
            return r
        if op == 'and':
            return [self.mul(p, q) for p, q in zip(*v)]
        if op == 'or':
            return [p ^ q ^ self.mul(p, q) for p, q in zip(*v)]
        if op == 'ite':
            c = v[0][0]
            return [q ^ self.mul(c, p ^ q) for p, q in zip(v[1], v[2])]
        if op == 'eq':
            d = [p ^ q for p, q in zip(*v)]
            d = [x for x in d if x]
            r = 1
            for x in set(d):
                r = self.mul(r, x ^ 1)
            return [r]
        if op == 'sext':
            return list(v[0]) + [v[0][-1]] * (w - len(v[0]))
        if op == 'slt' and all(x == 0 for x in v[1]):
            return [v[0][-1]]
        if op == 'lin':
            r = None
            k = t.a[1]
            items = [(list(y), c) for y, (x, c) in zip(v, t.a[0])]
            if k:
                items.append(([(k >> i) & 1 for i in range(w)], 1))
            for y, c in items:
                r = self.addm(r, y, c, w)
            return r
        if op in ('shl', 'lshr') and t.a[1].op == 'c':
            k = t.a[1].a
            return ([0] * k + v[0])[:w] if op == 'shl' else v[0][k:] + [0] * min(k, w)
        raise Undecided('operation %s in the field form' % op)

    def addm(self, r, y, c, w):
        """r + c*y where no carries can arise"""
        c &= (1 << w) - 1
        if c == (1 << w) - 1 and not any(y[1:]):        # minus one bit: a mask
            y = [y[0]] * w
        elif c & (c - 1) == 0:
            k = c.bit_length() - 1
            y = ([0] * k + y)[:w]
        else:
            raise Undecided('multiplication in the field form')
        if r is None:
            return y
        if any(p and q for p, q in zip(r[:-1], y[:-1])):
            raise Undecided('carries in the field form')
        return [p ^ q for p, q in zip(r, y)]


class BilExec(Exec):
    space = None

    def short(self, v):
        if isinstance(v, T) and v.op not in ('c', 'v') and v.op != 'ext' or isinstance(v, T) and v.op == 'ext' and v.a[0].op != 'v':
            if any(n.startswith('$') for n in tm.vars_of(v)):
                return self.space.name(v)
        if isinstance(v, Agg):
            return Agg([self.short(x) for x in v.v])
        return v

    def abstract(self, s):
        for f in s.frames:
            f.regs = [self.short(v) for v in f.regs]
        s.pc = []
        for oid, o in list(s.mem.items()):
            if o.kind != 'fix':
                continue
            for k, v in list(o.data.items()):
                n = self.short(v)
                if n is not v:
                    s.w(oid).data[k] = n

    def goto(self, s, t, depth, stop):
        r = Exec.goto(self, s, t, depth, stop)
        if r is None and s.frames[-1].fn.loops.get(t) is not None:
            self.abstract(s)
        return r

    def branch(self, s, c, bt, bf, depth, stop, inst):
        x = self.space.bits(c)[0]
        if x in (0, 1):
            return bt if x else bf
        j = s.frames[-1].fn.ipdom[s.frames[-1].blk]
        if j is None:
            raise Undecided('data-dependent exit')
        return self.try_merge(s, c, tm.not_(c), bt, bf, j, depth, stop)

    def after_stop(self, x, depth, stop, j, single=False):
        self.abstract(x)
        return Exec.after_stop(self, x, depth, stop, j, single)


def product(sp, poly):
    """the bits of a*b modulo x^n + poly"""
    n = sp.n
    a = [sp.a(i) for i in range(n)]
    want = [0] * n
    for j in range(n):
        for i in range(n):
            want[i] ^= sp.mul(sp.b(j), a[i])
        top = a[-1]
        a = [0] + a[:-1]
        for i in range(8):
            if poly >> i & 1:
                a[i] ^= top
    return want
