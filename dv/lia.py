"""Control conditions (lengths, positions, counters) decided over the integers.

Exact translation: every bit-vector value is the integer in [0, 2^w) it denotes; wrap-around is an
integer variable, dropped where the bounds known from the conditions exclude it.
"""
import z3
from . import terms as tm

_names = {}


class No(Exception):
    pass


class Tr:
    def __init__(self, conds):
        self.side = []
        self.memo = {}
        self.rng = {}
        self.k = 0
        self.bnd = {}
        for c in conds:
            self.bound(c)

    def bound(self, c):
        """variable bounds stated by the conditions themselves"""
        neg = False
        if c.op == 'xor' and len(c.a) == 2 and any(x is tm.TRUE for x in c.a):
            c = c.a[0] if c.a[1] is tm.TRUE else c.a[1]
            neg = True
        if c.op == 'ult':
            a, b = c.a
            if a.op == 'c' and b.op != 'c':
                lo, hi = self.bnd.get(b, (0, (1 << b.w) - 1))
                if neg:
                    hi = min(hi, a.a)
                else:
                    lo = max(lo, a.a + 1)
                self.bnd[b] = (lo, hi)
            elif b.op == 'c' and a.op != 'c':
                lo, hi = self.bnd.get(a, (0, (1 << a.w) - 1))
                if neg:
                    lo = max(lo, b.a)
                else:
                    hi = min(hi, b.a - 1)
                self.bnd[a] = (lo, hi)
        elif c.op == 'and' and not neg:
            for x in c.a:
                self.bound(x)

    def new(self, lo, hi):
        self.k += 1
        v = z3.Int('i%d' % self.k)
        self.side.append(v >= lo)
        self.side.append(v <= hi)
        return v

    def val(self, t):
        """-> (z3 integer, lo, hi)"""
        r = self.memo.get(t)
        if r is None:
            r = self._val(t)
            b = self.bnd.get(t)
            if b is not None:
                r = (r[0], max(r[1], b[0]), min(r[2], b[1]))
            self.memo[t] = r
        return r

    def _val(self, t):
        w = t.w
        op = t.op
        if op == 'c':
            return z3.IntVal(t.a), t.a, t.a
        if op == 'v' or op in ('arr', 'uf', 'sel'):
            if op != 'v':
                raise No()
            lo, hi = self.bnd.get(t, (0, (1 << w) - 1))
            v = z3.Int('v.' + t.a)
            self.side.append(v >= 0)
            self.side.append(v < 1 << w)
            return v, lo, hi
        if op == 'lin':
            e = z3.IntVal(tm.sgn(t.a[1], w))
            lo = hi = tm.sgn(t.a[1], w)
            for x, c in t.a[0]:
                c = tm.sgn(c, w)
                v, l, h = self.val(x)
                e = e + c * v
                lo += c * (l if c > 0 else h)
                hi += c * (h if c > 0 else l)
            return self.wrap(e, lo, hi, w)
        if op == 'cat':
            e = z3.IntVal(0)
            lo = hi = 0
            pos = 0
            for p in t.a:
                v, l, h = self.val(p)
                e = e + (v * (1 << pos) if pos else v)
                lo += l << pos
                hi += h << pos
                pos += p.w
            return e, lo, hi
        if op == 'ext':
            b, h, l = t.a
            v, lo, hi = self.val(b)
            if hi < 1 << l:
                return z3.IntVal(0), 0, 0
            if l == 0 and hi < 1 << (h + 1):
                return v, lo, hi
            top = hi >> (h + 1)
            q = self.new(0, (1 << (h + 1 - l)) - 1)
            e = q * (1 << l) if l else q
            if l:
                e = e + self.new(0, (1 << l) - 1)
            if top:
                e = e + self.new(0, top) * (1 << (h + 1))
            self.side.append(v == e)
            if not top:
                return q, lo >> l, hi >> l
            return q, 0, (1 << (h + 1 - l)) - 1
        if op == 'ite':
            c = self.boo(t.a[0])
            a, l1, h1 = self.val(t.a[1])
            b, l2, h2 = self.val(t.a[2])
            return z3.If(c, a, b), min(l1, l2), max(h1, h2)
        if w == 1:
            return z3.If(self.boo(t), z3.IntVal(1), z3.IntVal(0)), 0, 1
        raise No()

    def wrap(self, e, lo, hi, w):
        M = 1 << w
        a, b = lo // M, hi // M
        if a == b:
            return (e - a * M if a else e), lo - a * M, hi - a * M
        m = self.new(a, b)
        v = z3.Int('w%d' % self.k)
        self.side += [v == e - m * M, v >= 0, v < M]
        return v, 0, M - 1

    def boo(self, c):
        op = c.op
        if op == 'c':
            return z3.BoolVal(bool(c.a))
        if c.w != 1:
            raise No()
        if op == 'ult':
            return self.val(c.a[0])[0] < self.val(c.a[1])[0]
        if op == 'slt':
            return self.sval(c.a[0]) < self.sval(c.a[1])
        if op == 'eq':
            return self.val(c.a[0])[0] == self.val(c.a[1])[0]
        if op == 'and':
            return z3.And(*[self.boo(x) for x in c.a])
        if op == 'or':
            return z3.Or(*[self.boo(x) for x in c.a])
        if op == 'xor':
            r = None
            for x in c.a:
                b = self.boo(x)
                r = b if r is None else z3.Xor(r, b)
            return r
        if op == 'ite':
            return z3.If(self.boo(c.a[0]), self.boo(c.a[1]), self.boo(c.a[2]))
        if op in ('v', 'ext'):
            return self.val(c)[0] == 1
        raise No()

    def sval(self, t):
        v, lo, hi = self.val(t)
        H = 1 << (t.w - 1)
        if hi < H:
            return v
        if lo >= H:
            return v - (H << 1)
        return z3.If(v >= H, v - (H << 1), v)


def values(conds, t, limit, timeout=2000):
    """all values of t under conds (None: not decided here)"""
    tr = Tr(conds)
    try:
        cs = [tr.boo(c) for c in conds]
        e = tr.val(t)[0]
    except No:
        return None
    s = z3.SolverFor('QF_LIA')
    s.set('timeout', timeout)
    s.add(*tr.side)
    s.add(*cs)
    out = []
    while len(out) <= limit:
        r = str(s.check())
        if r == 'unsat':
            return out
        if r != 'sat':
            return None
        v = s.model().eval(e, model_completion=True).as_long()
        out.append(v)
        s.add(e != v)
    return out


def check(conds, timeout=1500):
    """'sat' / 'unsat' / None"""
    tr = Tr(conds)
    try:
        cs = [tr.boo(c) for c in conds]
    except No:
        return None
    s = z3.SolverFor('QF_LIA')
    s.set('timeout', timeout)
    s.add(*tr.side)
    s.add(*cs)
    r = str(s.check())
    return r if r != 'unknown' else None
