"""z3 back end: terms -> z3, satisfiability and validity with time limits, counters."""
import time
import random
import z3
from . import terms as tm
from . import lia
from .terms import const

STAT = {'queries': 0, 'z3_s': 0.0, 'syntactic': 0, 'smt': 0}
_memo = {}
_ufs = {}
_keep = []


def _uf(name, argw, w):
    k = (name, tuple(argw), w)
    f = _ufs.get(k)
    if f is None:
        f = z3.Function('%s_%d' % (name, len(_ufs)), *([z3.BitVecSort(x) for x in argw] + [z3.BitVecSort(w)]))
        _ufs[k] = f
    return f


def b2bv(b):
    return z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))


def z(t):
    r = _memo.get(t)
    if r is not None:
        return r
    st = [t]
    while st:
        x = st[-1]
        if x in _memo:
            st.pop()
            continue
        todo = [y for y in tm.children(x) if y not in _memo]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        _memo[x] = _z1(x, [_memo[y] for y in tm.children(x)])
    return _memo[t]


def _z1(t, v):
    op, w = t.op, t.w
    if op == 'c':
        return z3.BitVecVal(t.a, w)
    if op == 'v':
        return z3.BitVec(t.a, w)
    if op == 'lin':
        r = None
        for (x, c), y in zip(t.a[0], v):
            if c == 1:
                e = y
            else:
                e = y * z3.BitVecVal(c, w)
            r = e if r is None else r + e
        if t.a[1]:
            r = r + z3.BitVecVal(t.a[1], w)
        return r
    if op == 'cat':
        return z3.Concat(*reversed(v))
    if op == 'ext':
        return z3.Extract(t.a[1], t.a[2], v[0])
    if op in ('xor', 'and', 'or'):
        r = v[0]
        for y in v[1:]:
            r = r ^ y if op == 'xor' else (r & y if op == 'and' else r | y)
        return r
    if op == 'ite':
        return z3.If(v[0] == z3.BitVecVal(1, 1), v[1], v[2])
    if op == 'eq':
        return b2bv(v[0] == v[1])
    if op == 'ult':
        return b2bv(z3.ULT(v[0], v[1]))
    if op == 'slt':
        return b2bv(v[0] < v[1])
    if op == 'sext':
        return z3.SignExt(w - t.a[0].w, v[0])
    if op == 'sel':
        return _uf('tab%d' % t.a[0][0], [t.a[1].w], w)(v[0])
    if op == 'uf':
        if not v:
            return z3.BitVec('uf0_' + t.a[0], w)
        return _uf(t.a[0], [x.w for x in t.a[1]], w)(*v)
    if op == 'arr':
        return _uf('arr_' + t.a[0], [64], 8)(v[0])
    if op == 'mul':
        return v[0] * v[1]
    if op == 'shl':
        return v[0] << v[1]
    if op == 'lshr':
        return z3.LShR(v[0], v[1])
    if op == 'ashr':
        return v[0] >> v[1]
    if op == 'udiv':
        return z3.UDiv(v[0], v[1])
    if op == 'urem':
        return z3.URem(v[0], v[1])
    if op == 'sdiv':
        return v[0] / v[1]
    if op == 'srem':
        return z3.SRem(v[0], v[1])
    raise AssertionError(op)


import os
DEBUG = os.environ.get('DV_DEBUG')
_cache = {}


def _relevant(pc, goal):
    """the conjuncts that share variables (transitively) with goal"""
    vs = set()
    for g in goal:
        vs |= tm.vars_of(g)
    rest = list(pc)
    out = []
    ch = True
    while ch:
        ch = False
        nr = []
        for c in rest:
            if tm.vars_of(c) & vs:
                vs |= tm.vars_of(c)
                out.append(c)
                ch = True
            else:
                nr.append(c)
        rest = nr
    return out


def squeeze(cs):
    """the conditions that bound one variable (possibly shifted by a constant) are replaced by one
    interval per variable; None: contradictory.  -> (intervals, other conditions)"""
    rng = {}
    simple = []
    out = []
    for c in cs:
        d, neg = c, False
        if d.op == 'xor' and len(d.a) == 2 and (d.a[0] is tm.TRUE or d.a[1] is tm.TRUE):
            d = d.a[0] if d.a[1] is tm.TRUE else d.a[1]
            neg = True
        if d.op in ('ult', 'eq') and (d.a[0].op == 'c') != (d.a[1].op == 'c'):
            a, b = d.a
            t = b if a.op == 'c' else a
            k = 0
            x = t
            if t.op == 'lin' and len(t.a[0]) == 1 and t.a[0][0][1] == 1:
                x, k = t.a[0][0][0], tm.sgn(t.a[1], t.w)
            if x.op == 'v' and x.a[0] == '#':
                M = (1 << x.w) - 1
                v = a.a if a.op == 'c' else b.a
                if d.op == 'ult':
                    if a.op == 'c':
                        iv = (0, v) if neg else (v + 1, M)
                    else:
                        iv = (v, M) if neg else (0, v - 1)
                    simple.append([x, k, iv, None, c])
                elif neg:
                    simple.append([x, k, None, v, c])
                else:
                    simple.append([x, k, (v, v), None, c])
                if x not in rng:
                    rng[x] = [0, M]
                continue
        out.append(c)
    if not simple:
        return {}, out
    ch = True
    while ch and simple:
        ch = False
        rest = []
        for e in simple:
            x, k, iv, ne, c = e
            lo, hi = rng[x]
            if lo > hi:
                return None
            M = 1 << x.w
            if lo + k < 0 or hi + k >= M:
                if ne is None:
                    if hi + k < 0 or lo + k >= M:
                        off = M if hi + k < 0 else -M
                        k = k + off
                    else:
                        rest.append(e)
                        continue
                else:
                    k0 = (ne - k) % M
                    if k0 < lo or k0 > hi:
                        ch = True
                        continue
                    if k0 == lo:
                        rng[x][0] = lo + 1
                        ch = True
                        continue
                    if k0 == hi:
                        rng[x][1] = hi - 1
                        ch = True
                        continue
                    rest.append(e)
                    continue
            if ne is not None:
                v = ne - k
                if v < lo or v > hi:
                    ch = True
                elif v == lo:
                    rng[x][0] = lo + 1
                    ch = True
                elif v == hi:
                    rng[x][1] = hi - 1
                    ch = True
                else:
                    rest.append(e)
                continue
            ch = True
            rng[x] = [max(lo, iv[0] - k), min(hi, iv[1] - k)]
        simple = rest
    for x, (lo, hi) in rng.items():
        if lo > hi:
            return None
    return rng, out + [e[4] for e in simple]


def interval_terms(rng):
    r = []
    for x, (lo, hi) in rng.items():
        if lo:
            r.append(tm.ult(const(lo - 1, x.w), x))
        if hi < (1 << x.w) - 1:
            r.append(tm.ult(x, const(hi + 1, x.w)))
    return r


def check(conds, timeout=10000, model=False, prune=None):
    """conds: 1-bit terms.  returns 'sat' / 'unsat' / 'unknown' (and the model)"""
    cs = []
    for c in conds:
        if c is tm.FALSE:
            return ('unsat', None) if model else 'unsat'
        if c is not tm.TRUE:
            cs.append(c)
    sq = squeeze(cs)
    if sq is None:
        return ('unsat', None) if model else 'unsat'
    if not sq[1] and not model:
        return 'sat'
    cs = interval_terms(sq[0]) + sq[1]
    k = frozenset(cs)
    if not model:
        r = _cache.get(k)
        if r is not None:
            return r
    t0 = time.time()
    if not model and all(n[0] == '#' for c in cs for n in tm.vars_of(c)):
        r = lia.check(cs)
        STAT['lia'] = STAT.get('lia', 0) + 1
        STAT['lia_s'] = STAT.get('lia_s', 0) + time.time() - t0
        if r is not None:
            _cache[k] = r
            return r
        STAT['lia_no'] = STAT.get('lia_no', 0) + 1
    s = z3.SolverFor('QF_UFBV') if False else z3.Solver()
    s.set('timeout', timeout)
    one = z3.BitVecVal(1, 1)
    for c in cs:
        s.add(z(c) == one)
    r = str(s.check())
    if r == 'sat':
        # tables were uninterpreted so far: decide again with their contents
        tabs = set()
        seen = set()
        st = list(cs)
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'sel':
                tabs.add((x.a[0], x.a[1].w, x.w))
            st.extend(tm.children(x))
        if tabs and len(tabs) <= 12 and all(iw <= 9 for _, iw, _ in tabs):
            for tb, iw, w in tabs:
                f = _uf('tab%d' % tb[0], [iw], w)
                for k, e in enumerate(tb[1]):
                    s.add(f(z3.BitVecVal(k, iw)) == z3.BitVecVal(e, w))
            r = str(s.check())
    STAT['queries'] += 1
    STAT['z3_s'] += time.time() - t0
    if DEBUG and time.time() - t0 > 0.05:
        print('SLOW', r, round(time.time() - t0, 3), [repr(c)[:400] for c in cs])
    if model:
        return r, (s.model() if r == 'sat' else None)
    if r != 'unknown':
        _cache[k] = r
    return r


_wit = {}


def witness(conds):
    """does a random interpretation satisfy all of conds? (a model, if so)"""
    for i in range(2):
        env, memo = _wit.setdefault(i, (RandEnv(i), {}))
        if len(memo) > 400000:
            memo.clear()
        if all(tm.evalt(c, env, memo) for c in conds):
            return True
    return False


def feasible(pc, c, timeout=10000):
    """may c hold under pc?  (unknown counts as yes)"""
    if c is tm.FALSE:
        return False
    if c is tm.TRUE:
        return True
    if c in pc:
        return True
    if tm.not_(c) in pc:
        return False
    rel = _relevant(pc, [c])
    if witness(rel + [c]):
        return True
    if timeout < 1000 and tm.size_exceeds([c] + rel, 300):
        return True
    return check(rel + [c], timeout) != 'unsat'


def valid(pc, c, timeout=20000):
    """True / False / None"""
    if c is tm.TRUE:
        return True
    if c in pc:
        return True
    rel = _relevant(pc, [c])
    r = check(rel + [tm.not_(c)], timeout)
    return {'unsat': True, 'sat': False, 'unknown': None}[r]


class RandEnv:
    """random but consistent interpretation"""

    def __init__(self, seed, fixed=None, funcs=None):
        self.seed = seed
        self.d = dict(fixed or {})
        self.funcs = funcs or {}
        self.u = {}

    def _h(self, *k):
        return random.Random(repr((self.seed,) + k)).getrandbits(1024)

    def var(self, n, w):
        if n not in self.d:
            self.d[n] = self._h('v', n)
        return self.d[n]

    def arr(self, n, i):
        k = ('@' + n, i)
        if k not in self.d:
            self.d[k] = self._h('a', n, i) & 255
        return self.d[k]

    def uf(self, n, v, aw, w):
        f = self.funcs.get(n)
        if f is not None:
            return f(*v)
        k = (n, tuple(v), w)
        r = self.u.get(k)
        if r is None:
            r = self.u[k] = self._h('u', *k)
        return r


def maybe_equal(a, b):
    """False: two data terms that differ under a random interpretation of everything"""
    if a.w != b.w:
        return False
    if all(n[0] == '#' for t in (a, b) for n in tm.vars_of(t)):
        return True
    env, memo = _wit.setdefault(0, (RandEnv(0), {}))
    if len(memo) > 400000:
        memo.clear()
    return tm.evalt(a, env, memo) == tm.evalt(b, env, memo)


def equal(a, b, pc=(), timeout=20000):
    """are a and b equal under pc?  'yes' | 'no' | 'unknown'; how"""
    if a is b:
        STAT['syntactic'] += 1
        return 'yes'
    if a.w != b.w:
        return 'no'
    # bytewise
    bad = []
    if a.w % 8 == 0 and a.w > 8:
        for x, y in zip(tm.bytes_of(a), tm.bytes_of(b)):
            if x is not y:
                bad.append((x, y))
        if not bad:
            STAT['syntactic'] += 1
            return 'yes'
    else:
        bad = [(a, b)]
    g = tm.eq(a, b)
    if g is tm.TRUE:
        return 'yes'
    if not pc:
        for i in range(3):
            env = RandEnv(i)
            m = {}
            if tm.evalt(a, env, m) != tm.evalt(b, env, m):
                return 'no'
    r = valid(list(pc), g, timeout)
    STAT['smt'] += 1
    if r is True:
        return 'yes'
    if r is False:
        return 'no'
    return 'unknown'
