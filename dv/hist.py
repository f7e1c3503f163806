"""Histories: any sequence of calls on one context, each on an input of any length.

The specification is a step machine over bytes (or blocks): step(G, unit) -> (G', output).  The
ghost state G runs along with the code.  Two kinds of program points carry invariants:

* the API point, between two calls: every cell of the context is related to the ghost state;
* headers of loops whose trip count depends on the length of the data.

The relations are inferred (a cell equal to a piece of the ghost state in every arrival, constant,
affine in the position, or otherwise arbitrary) and then have to be inductive: each later arrival
must be covered by the generalised state, or the offending relation is dropped and the point is
explored again.  Proved at every loop header and at every return: the bytes written since the last
point are the machine's outputs for exactly these positions; at the return everything has been
processed.  Since the API state is re-entered with an arbitrary ghost state, this covers every
split of the data into calls.
"""
from math import gcd
from . import terms as tm
from . import solver
from .terms import T, const
from .exec import Ptr, FPtr, PB, Agg, Undecided, NeedCut, State, is_ctl


import os
DEBUG = os.environ.get('DV_DEBUG')


class SpecFork(Exception):
    def __init__(self, c):
        self.c = c


class Decide:
    def __init__(self, pc):
        self.pc = pc

    def __call__(self, c):
        if isinstance(c, (bool, int)):
            return bool(c)
        if c.op == 'c':
            return bool(c.a)
        if not solver.feasible(self.pc, c):
            return False
        if not solver.feasible(self.pc, tm.not_(c)):
            return True
        raise SpecFork(c)


def cn(t):
    """control terms in their second normal form"""
    if t.op in ('lin', 'ext', 'cat') and is_ctl(t):
        return tm.canon(t)
    return t


class Machine:
    unit = 1

    def step(self, D, G, ins):
        raise NotImplementedError

    def fresh(self, G, tag):
        R = {}
        for k, v in G.items():
            if isinstance(v, (int, str, bool)) or v is None:
                R[k] = v
            elif isinstance(v, list):
                R[k] = [self.fresh_var('%s.%s[%d]' % (tag, k, i), x.w, k) for i, x in enumerate(v)]
            else:
                R[k] = self.fresh_var('%s.%s' % (tag, k), v.w, k)
        return R

    def fresh_var(self, name, w, k):
        return tm.var(('#' if k.startswith('#') else '') + name, w)

    def inv(self, G):
        return []

    def derived(self, G):
        return {}

    def dep(self, G):
        """parts of a generalised ghost state that are functions of others"""


class Arr:
    __slots__ = ('st', 'G', 'p', 'org')

    def __init__(self, st, G, p, org):
        self.st, self.G, self.p, self.org = st, G, p, org


def current(org):
    """made from invariants that still stand"""
    return all(pt.version == v for pt, v in org)


class Point:
    def __init__(self, key, api):
        self.key = key
        self.api = api
        self.arr = []
        self.gen = None
        self.banned = {}
        self.tries = 0
        self.version = 0


class Gen:
    pass


class Call:
    """one kind of API call: push(st) enters the function; describes its input and output"""

    def __init__(self, name, push, progress='out', inobj='in', outobj='out', n=None, ret=None, pre=None, final=None, total=None):
        self.name, self.push, self.progress = name, push, progress
        self.inobj, self.outobj, self.n = inobj, outobj, n
        self.ret = ret
        self.pre = pre
        self.final = final        # final(H, st, G, value): obligations of a call that ends the history
        self.enter = None         # enter(G) -> ghost state at the beginning of the call
        self.restart = None       # restart(st, G, value) -> new ghost state (calls without data)


def divisible(t, d):
    if d == 1:
        return t
    if t.op == 'c':
        v = t.a if t.a < 1 << 63 else t.a - (1 << 64)
        return const(v // d, 64) if v % d == 0 else None
    if t.op == 'lin':
        ps = []
        for x, c in t.a[0]:
            c = c if c < 1 << 63 else c - (1 << 64)
            if c % d:
                return None
            ps.append((x, c // d))
        k = t.a[1] if t.a[1] < 1 << 63 else t.a[1] - (1 << 64)
        if k % d:
            return None
        return tm.lin(ps, k // d, 64)
    return None


ZERO = const(0, 64)


class Holder:
    def __init__(self, res):
        self.res = res


def follow(prev, names):
    """the piece of the ghost state that continues a run of neighbouring cells"""
    if prev is None or prev[1] is None:
        return None
    nm = prev[1]
    if not isinstance(nm, tuple) or not isinstance(nm[-1], int):
        return None
    st = (1, -1)
    if prev[0] is not None and isinstance(prev[0][1], tuple) and len(prev[0][1]) == len(nm) and prev[0][1][:-1] == nm[:-1]:
        st = (nm[-1] - prev[0][1][-1],)
    for d in st:
        x = nm[:-1] + (nm[-1] + d,)
        if x in names:
            return x
    return None


class Hist:
    def __init__(self, R, ex, M, name, calls, persist=(), facts=(), keycells=None, budget=4000, ignore=()):
        self.R, self.ex, self.M, self.name = R, ex, M, name
        self.calls = calls
        self.persist = set(persist)
        self.facts = list(facts)
        self.keycells = keycells or (lambda st: ())
        self.pins = ()  # (object, offset, width): control cells that have one value at the end of a call; that value is written out
        self.budget = budget
        self.points = {}
        self.qn = 0
        self.segs = 0
        self.ignore = set(ignore)
        self.failed_once = set()
        self.strict = False       # relations of API points are fixed

    # ------------------------------------------------------------ driver
    def run(self, starts):
        """starts: function -> [(state, G)] (states without frames, after initialisation)"""
        ex = self.ex
        R = self.R
        for attempt in range(12):
            snap = (dict(ex.res.names), list(ex.res.failed), list(ex.res.unknown), ex.res.proved)
            rs = (dict(R.obl), dict(R.backend), list(R.refuted), list(R.undecided))
            try:
                self.points = {}
                self.todo = []
                self.obs = []
                for st, G in starts():
                    self.api_arrive(st, G, ())
                self.fix()
                self.settle()
                return
            except NeedCut as e:
                if e.key in ex.cuts:
                    raise Undecided('loop %s' % (e.key,))
                ex.cuts[e.key] = True
                ex.res.names, ex.res.failed, ex.res.unknown, ex.res.proved = dict(snap[0]), list(snap[1]), list(snap[2]), snap[3]
                R.obl, R.backend = rs[0], rs[1]
                R.refuted[:] = rs[2]
                R.undecided[:] = rs[3]
        raise Undecided('too many loops')

    def retry(self, f):
        """f with loops cut as needed"""
        ex = self.ex
        R = self.R
        for attempt in range(12):
            snap = (dict(ex.res.names), list(ex.res.failed), list(ex.res.unknown), ex.res.proved)
            rs = (dict(R.obl), dict(R.backend), list(R.refuted), list(R.undecided))
            try:
                return f()
            except NeedCut as e:
                if e.key in ex.cuts:
                    raise Undecided('loop %s' % (e.key,))
                ex.cuts[e.key] = True
                ex.res.names, ex.res.failed, ex.res.unknown, ex.res.proved = dict(snap[0]), list(snap[1]), list(snap[2]), snap[3]
                R.obl, R.backend = rs[0], rs[1]
                R.refuted[:] = rs[2]
                R.undecided[:] = rs[3]
        raise Undecided('too many loops')

    def seed(self, starts, calls, far=None):
        """the relation of every API point, read off histories of known length: the initial states and each of
        calls (with a fixed amount of data) made from them"""
        self.points, self.todo, self.obs = {}, [], []
        ss = list(starts())
        for st, G in ss:
            self.api_arrive(st, G, ())
        for c in calls:
            for st, G in ss:
                self.enter(st.fork(), G, c, ())
        if far:
            # and again from one of the states reached, in which every cell has been used
            g = [p for p in self.points.values() if far(p.gen.G)][0].gen
            for c in calls:
                self.enter(g.st.fork(), g.G, c, ())
        self.settle()
        return list(self.points.values())

    def inductive(self, pt):
        """every call from this point leads to a state covered by the relations found by seed()"""
        pts = dict(self.points)
        vs = {k: p.version for k, p in pts.items()}

        def f():
            self.points, self.todo, self.obs = dict(pts), [pt], []
            self.strict = True
            self.fix()
            self.settle()
            if any(p.version != vs[k] for k, p in pts.items()):
                raise Undecided('the relation at %s is not inductive' % (pt.key,))
        self.retry(f)

    def fix(self):
        while self.todo:
            pt = self.todo.pop(0)
            v = pt.version
            for call in self.calls:
                if pt.version != v:
                    break
                if call.pre and not call.pre(pt.gen.G):
                    continue
                self.one(pt, call)
        # every API point has been explored with its final invariant

    def settle(self):
        """discharge the obligations of the final invariants"""
        R = self.R
        for org, kind, args in self.obs:
            if not current(org):
                continue
            if kind == 'res':
                R.absorb(args[0], args[1])
            else:
                getattr(R, kind)(*args)
            if len(R.refuted) > 12:
                break

    def ob(self, org, kind, *args):
        if kind == 'eq' and len(args) == 4 and args[1] is args[2]:
            args = args[:3] + ((),)
        self.obs.append((org, kind, args))

    def one(self, pt, call):
        st = pt.gen.st.fork()
        self.enter(st, pt.gen.G, call, ((pt, pt.version),), (pt.key, pt.version, call.name))

    def enter(self, st, G, call, org, api=None):
        if call.enter:
            G = call.enter(dict(G))
        st.data = dict(st.data)
        st.data['p'] = ZERO
        st.data['rd'] = ()
        st.data['call'] = call
        st.data['n'] = call.n
        st.data['api'] = api
        call.push(self, st, G)
        if call.n is not None:
            self.mark(st, ZERO)
        self.explore(st, G, call, org)

    def explore(self, st, G, call, org):
        ex = self.ex
        work = [(st, G, org)]
        while work:
            s, G, org = work.pop()
            if not current(org):
                continue
            self.segs += 1
            if self.segs > self.budget:
                raise Undecided('too many segments')
            s.data['G'] = G
            save = ex.res
            ex.res = type(save)()
            ex.res.insns = save.insns
            cuts = ex.cuts
            if call.n is None:
                ex.cuts = {}
            try:
                outs = ex.run(s, 0)
            finally:
                ex.cuts = cuts
                seg = ex.res
                ex.res = save
                save.insns = seg.insns
                for f, k in seg.fns.items():
                    save.fns[f] = save.fns.get(f, 0) + k
                seg.fns = {}
            self.obs.append((org, 'res', (Holder(seg), self.name)))
            for kind, x, v in outs:
                if kind == 'end':
                    continue
                G = x.data.pop('G')
                if x.data.pop('failed', None):
                    # a function the call relies on failed (fallible contracts): that ends the history, with an error
                    if kind == 'ret':
                        self.ob(org, 'cond', '%s: %s: a failure is reported' % (self.name, call.name), tm.eq(v, const(0, v.w)), x.pc)
                    else:
                        self.ob(org, 'no', '%s: %s: goes on after a failure' % (self.name, call.name))
                    continue
                if kind == 'ret':
                    if call.final:
                        call.final(self, x, G, v, org)
                        continue
                    if call.restart:
                        G2 = call.restart(self, x, G, v, org)
                        if G2 is not None:
                            self.api_arrive(x, G2, org)
                        continue
                    for y, G2 in self.advance(x, G, call, org):
                        self.returned(y, G2, v, call, org)
                elif kind == 'cut':
                    if call.n is None:
                        raise Undecided('loop in a call without data')
                    for y, G2 in self.advance(x, G, call, org):
                        work.extend(self.arrive(y, G2, v, call, org))
                else:
                    raise Undecided('history: ' + kind)

    # ------------------------------------------------------------ segments
    def mark(self, st, p):
        st.data['p'] = p
        st.data['rd'] = ()
        c = st.data['call']
        if c.outobj:
            o = st.w(c.outobj)
            o.log = []
            o.old = self.old if c.outobj == c.inobj else self.old_out

    def old(self, st, o, off):
        p = st.data['p']
        if self.holds(st, tm.ule(p, off)):
            return tm.arr('in', off)
        raise Undecided('reads back processed data of %s' % o.name)

    def old_out(self, st, o, off):
        p = st.data['p']
        if self.holds(st, tm.ule(p, off)):
            return tm.arr('uninit', off)
        raise Undecided('reads back produced data of %s' % o.name)

    def holds(self, st, c):
        return c is tm.TRUE or solver.valid(st.pc, c) is True

    def offsets(self, st, call):
        p = st.data['p']
        outs = {}
        for a, b in st.mem[call.outobj].log:
            d = tm.sub(a, p)
            if d.op != 'c':
                vs = self.ex.values(st, d, 2)
                if len(vs) != 1:
                    raise Undecided('position of an output byte')
                d = const(vs[0], 64)
            if d.a >= 1 << 20:
                raise Undecided('output written below the processed position')
            outs[d.a] = b
        return outs

    def advance(self, st, G, call, org):
        p = st.data['p']
        if call.progress == 'out':
            outs = self.offsets(st, call)
            k = 0
            while k in outs:
                k += 1
            if any(j >= k for j in outs):
                raise Undecided('output bytes are not contiguous')
        else:
            k = 0
            known = {}
            for a in st.data['rd']:
                d = tm.sub(a, p)
                if d.op != 'c':
                    # neighbouring bytes differ by a constant
                    c = d.a[1] if d.op == 'lin' else 0
                    b = tm.addc(d, -c)
                    if b not in known:
                        vs = self.ex.values(st, b, 2)
                        if len(vs) != 1:
                            raise Undecided('position of an input byte')
                        known[b] = vs[0]
                    d = const(known[b] + c, 64)
                if d.a < 1 << 20:
                    k = max(k, d.a + 1)
        if call.outobj != call.inobj and call.inobj and st.mem[call.inobj].log:
            self.ob(org, 'no', '%s: input buffer written' % self.name)
        U = self.M.unit
        if k % U:
            raise Undecided('partial unit at a loop header')
        work = [(st, G, 0)]
        res = []
        while work:
            s, g, i = work.pop()
            if i == k:
                self.mark(s, tm.addc(s.data['p'], k))
                res.append((s, g))
                continue
            pp = s.data['p']
            ins = [tm.arr('in', tm.addc(pp, i + j)) for j in range(U)]
            try:
                g2, want = self.M.step(Decide(s.pc), g, ins)
            except SpecFork as e:
                for c in (e.c, tm.not_(e.c)):
                    y = s.fork()
                    y.assume(c)
                    work.append((y, g, i))
                continue
            if call.outobj and want is not None:
                om = self.offsets(s, call)
                for j in range(U):
                    self.ob(org, 'eq', '%s: output' % self.name, om[i + j], want[j], s.pc)
            work.append((s, g2, i + U))
        return res

    def returned(self, st, G, v, call, org):
        self.ob(org, 'cond', '%s: %s: everything is processed' % (self.name, call.name), tm.eq(st.data['p'], st.data['n']), st.pc)
        for c in self.M.inv(G):
            self.ob(org, 'cond', '%s: invariant of the state' % self.name, c, st.pc)
        if call.ret:
            nm, c = call.ret(st, G, v)
            self.ob(org, 'cond', '%s: %s: %s' % (self.name, call.name, nm), c, st.pc)
        for o, off, w in self.pins:
            t = st.val(Ptr(o, off), w)
            if t.op != 'c':
                vs = self.ex.values(st, t, 40)
                if len(vs) == 1:
                    st.wb(Ptr(o, off), tm.bytes_of(const(vs[0], 8 * w)))
        self.api_arrive(st, G, org)

    # ------------------------------------------------------------ points
    def conc(self, G):
        return tuple(sorted((k, v) for k, v in G.items() if isinstance(v, (int, str, bool)) or v is None))

    def api_arrive(self, st, G, org):
        st = st.fork()
        for o in ('in', 'out'):
            st.mem.pop(o, None)
        for k in ('p', 'n', 'rd', 'call', 'api', 'rand'):
            st.data.pop(k, None)
        st.frames = []
        st.events = []
        key = ('api', self.conc(G), tuple(self.keycells(st)), tuple(sorted((k, repr(v)) for k, v in st.data.items())))
        pt = self.points.get(key)
        if pt is None:
            pt = self.points[key] = Point(key, True)
            if len(self.points) > 3000:
                raise Undecided('too many points')
        a = Arr(st, G, ZERO, org)
        if pt.gen is not None and self.covers(pt, a):
            pt.arr.append(a)
            return
        if self.strict:
            raise Undecided('the relation at %s is not inductive: %r' % (key, pt.banned))
        pt.arr = [x for x in pt.arr if current(x.org)]
        pt.arr.append(a)
        pt.tries += 1
        if pt.tries > 60:
            raise Undecided('no inductive invariant at the API (%s)' % (key,))
        self.generalise(pt, 0)
        if pt not in self.todo:
            self.todo.append(pt)

    def arrive(self, st, G, hdr, call, org):
        p = st.data['p']
        d = tm.sub(st.data['n'], p)
        if d.op == 'c' and d.a < 512 and not st.data['n'].op == 'v':
            # a path on which (nearly) everything is done: followed to its end
            return [(st.fork(), G, org)]
        fr = tuple((f.fn.name, f.blk) for f in st.frames)
        key = (hdr, fr, st.data['api'], self.conc(G))
        c = self.points.get(key)
        if c is None:
            c = self.points[key] = Point(key, False)
        a = Arr(st, G, p, org)
        if c.gen is not None and self.covers(c, a):
            return []
        c.arr = [x for x in c.arr if current(x.org)]
        c.arr.append(a)
        if len(c.arr) == 1:
            return [(st.fork(), G, org)]
        d = 0
        base = c.arr[0].p
        for x in c.arr[1:]:
            t = tm.sub(x.p, base)
            if t.op == 'c':
                d = gcd(d, t.a if t.a < 1 << 63 else (1 << 64) - t.a)
            elif t.op == 'lin':
                d = gcd(d, t.a[1] if t.a[1] < 1 << 63 else (1 << 64) - t.a[1])
                for _, co in t.a[0]:
                    d = gcd(d, co if co < 1 << 63 else (1 << 64) - co)
            else:
                raise Undecided('progress')
        if d == 0:
            if len(c.arr) > 64:
                raise Undecided('a loop makes no progress')
            return [(st.fork(), G, org)]
        c.tries += 1
        if c.tries > 40:
            raise Undecided('no inductive invariant found at %s' % (hdr,))
        self.generalise(c, d)
        return [(c.gen.st.fork(), c.gen.G, org[:1] + ((c, c.version),))]

    # ------------------------------------------------------------ generalisation
    def persistent(self, v):
        for n in tm.vars_of(v):
            b = n.split('[')[0].split('.')[0]
            if b not in self.persist:
                return False
        return True

    def generalise(self, c, d):
        A = c.arr
        base = A[0]
        self.qn += 1
        c.version += 1
        tag = 'g%d' % self.qn
        Gs = self.M.fresh(base.G, tag)
        keep = set()
        for k, v in base.G.items():
            # control parts of the ghost state are generalised only where the arrivals differ
            if isinstance(v, T) and k.startswith('#') and ('G', k) not in c.banned and all(x.G[k] is v for x in A) and (not c.api or v.op == 'c'):
                Gs[k] = v
                keep.add(k)
        pre = dict(Gs)
        self.M.dep(Gs)
        keep = {k for k in keep if Gs[k] is pre[k]}
        S = base.st.fork()
        q = tm.var('#q%d' % self.qn, 64)
        qs = []
        strict = None
        if c.api:
            pstar = ZERO
            qs = [ZERO] * len(A)
            S.pc = []
            for x in self.facts:
                S.assume(x)
        else:
            for x in A:
                t = divisible(tm.sub(x.p, base.p), d)
                if t is None:
                    raise Undecided('stride')
                qs.append(t)
            pstar = tm.add(base.p, tm.lin(((q, d),), 0, 64))
            S.pc = [x for x in base.st.pc if x not in c.banned.get('pc', ()) and all(x in y.st.pc for y in A[1:])]
            S.assume(tm.ule(q, const(1 << 40, 64)))
            S.assume(tm.ule(pstar, S.data['n']))
            lt = tm.ult(pstar, S.data['n'])
            if 'strict' not in c.banned.get('pc', ()) and all(self.holds(x.st, tm.ult(x.p, x.st.data['n'])) for x in A):
                S.assume(lt)
                strict = lt
        for x in self.M.inv(Gs):
            S.assume(x)
        S.data = dict(S.data)
        plan = []
        pools = [self.pool(x.G) for x in A]
        index = self.index(pools[0])
        spool = self.pool(Gs)

        last = [None]
        # constant cells of the previous generalisation that are still the same in all arrivals
        csame = {} if c.gen is None else {cell: v for cell, k, v in c.gen.plan if k == 'same' and v.__class__ is T and v.op == 'c'}

        def cand(cell, vals, rep):
            v0 = vals[0]
            prev, last[0] = last[0], None
            bad = c.banned.get(cell, ())
            if any(v is None for v in vals):
                return 'dead', None
            if any(isinstance(v, (PB, FPtr, Agg)) for v in vals):
                if all(v == v0 for v in vals[1:]) and 'same' not in bad:
                    return 'same', v0
                return 'dead', None
            if all(isinstance(v, Ptr) for v in vals):
                if any(v.obj != v0.obj for v in vals):
                    return 'dead', None
                if all(v == v0 for v in vals[1:]) and 'same' not in bad:
                    return 'same', v0
                if not c.api and 'affine' not in bad:
                    r = self.affine([v.off for v in vals], qs, q)
                    if r is not None:
                        return 'affine', Ptr(v0.obj, r)
                k, o = cand(cell, [v.off for v in vals], rep)
                return (k, Ptr(v0.obj, o)) if k not in ('any', 'bytes', 'dead') else ('dead', None)
            if not all(isinstance(v, T) for v in vals):
                return 'dead', None
            names = [nm for nm in self.match(vals, pools, index) if nm not in bad]
            same = all(v is v0 for v in vals[1:]) and 'same' not in bad and (not c.api or self.persistent(v0))
            if names:
                nxt = follow(prev, names)
                if nxt is not None:
                    last[0] = (prev, nxt)
                    return nxt, spool[nxt]
                if not (same and v0.op == 'c'):
                    last[0] = (None, names[0])
                    return names[0], spool[names[0]]
            if same:
                return 'same', v0
            if not c.api and 'affine' not in bad and v0.w >= 8:
                r = self.affine(vals, qs, q)
                if r is not None:
                    return 'affine', r
            if v0.w % 8 == 0 and v0.w > 8:
                bs = []
                for i in range(v0.w // 8):
                    b = [tm.extract(v, 8 * i + 7, 8 * i) for v in vals]
                    nn = [x for x in self.match(b, pools, index) if ('b', i, x) not in bad]
                    if nn:
                        bs.append(spool[nn[0]])
                    elif all(x is b[0] for x in b) and (not c.api or self.persistent(b[0])):
                        bs.append(b[0])
                    else:
                        bs.append(tm.fresh('h', 8))
                if 'bytes' not in bad:
                    return 'bytes', tm.concat(bs)
            return 'any', tm.fresh('#h' if rep and is_ctl(v0) else 'h', v0.w)
        for fi in range(len(S.frames)):
            f = S.frames[fi]
            live = self.live(f)
            for r in range(len(f.regs)):
                if live is not None and r not in live:
                    f.regs[r] = None
                    continue
                vals = [x.st.frames[fi].regs[r] for x in A]
                if vals[0] is None and all(v is None for v in vals):
                    continue
                k, v = cand(('r', fi, r), vals, True)
                if v is None and DEBUG:
                    print('DEAD', f.fn.name, f.blk, r, [repr(y)[:200] for y in vals], c.banned.get(('r', fi, r)))
                f.regs[r] = v
                plan.append((('r', fi, r), k, v))
        oids = set(base.st.mem)
        for oid in list(S.mem):
            os_ = [x.st.mem.get(oid) for x in A]
            if any(o is None for o in os_):
                if c.api and not oid.startswith('g:'):
                    raise Undecided('object %s exists on some histories only' % oid)
                S.mem.pop(oid)
                continue
            o0 = os_[0]
            if any(o.freed != o0.freed or o.kind != o0.kind for o in os_):
                raise Undecided('object shape at a cut')
            if o0.kind in ('arr', 'opaque'):
                continue
            if not o0.written and all(o is o0 for o in os_):
                if c.api and not o0.const and o0.init is not None and not oid.startswith('g:'):
                    keys = range(o0.size)
                else:
                    plan.append((oid, 'obj', o0))
                    continue
            keys = set()
            for o in os_:
                keys |= set(o.data)
            if c.api and not oid.startswith('g:'):
                keys = range(o0.size)
            W = S.w(oid)
            for kk in keys:
                vals = [x.st.rb(oid, kk) for x in A]
                v = csame.get((oid, kk))
                if v is not None and last[0] is None and 'same' not in c.banned.get((oid, kk), ()):
                    for y in vals:
                        if y is not v:
                            break
                    else:
                        last[0] = None
                        W.data[kk] = v
                        plan.append(((oid, kk), 'same', v))
                        continue
                k, v = cand((oid, kk), vals, False)
                if DEBUG and k == 'affine' and oid[0] != 'p':
                    print('SEC', c.key, k, v, vals, c.banned.get((oid, kk)))
                if DEBUG and k == 'any' and c.api:
                    print('ANY', oid, kk, [repr(y)[:300] for y in vals], c.banned.get((oid, kk)), c.key)
                if k == 'dead':
                    v = tm.fresh('h', 8)
                    k = 'any'
                W.data[kk] = v
                plan.append(((oid, kk), k, v))
            W.written = True
        g = Gen()
        g.keep = keep
        g.strict = strict
        g.q, g.d, g.G, g.p, g.plan, g.base = q, d, Gs, pstar, plan, base
        if not c.api:
            self.mark(S, pstar)
        g.st = S
        c.gen = g
        for x in A:
            if not self.covers(c, x):
                # a relation chosen from these arrivals does not hold of them: it is banned now
                c.tries += 1
                if c.tries > 60:
                    raise Undecided('base case of an invariant at %s' % (c.key[0],))
                return self.generalise(c, d)

    def live(self, f):
        """registers that may be read from the current point on"""
        fn = f.fn
        L = getattr(fn, '_livein', None)
        if L is None:
            L = fn._livein = livein(fn)
        if f.idx != 0:
            # suspended in a call: live after it, plus what the block still reads
            b = fn.blocks[f.blk]
            out = set()
            for s in b.succs if hasattr(b, 'succs') else succs(b):
                out |= L[s][0]
                for ph in fn.blocks[s].phis:
                    o = ph.x.get(f.blk)
                    if o and o[0] == 'r':
                        out.add(o[1])
            for i in reversed(b.insts[f.idx:]):
                if i.dst is not None:
                    out.discard(i.dst)
                out |= uses(i)
            return out
        return L[f.blk][1]

    def coefs(self, t):
        if t.op == 'lin':
            return [tm.sgn(c, t.w) for _, c in t.a[0]]
        return [1]

    def affine(self, vals, qs, q):
        v0 = vals[0]
        w = v0.w
        co = None
        for v, k in zip(vals[1:], qs[1:]):
            dv = tm.sub(v, v0)
            if k.op == 'c' and dv.op == 'c':
                if k.a == 0:
                    if dv.a:
                        return None
                    continue
                kk = k.a if k.a < 1 << 63 else k.a - (1 << 64)
                dd = tm.sgn(dv.a, w)
                if dd % kk:
                    return None
                x = dd // kk
            elif k.op != 'c' and co is None:
                x = None
                for cc in self.coefs(k):
                    for dd in self.coefs(dv):
                        if dd % cc == 0 and tm.lin(((tm.trunc(k, w) if w < 64 else k, dd // cc),), 0, w) is dv:
                            x = dd // cc
                            break
                    if x is not None:
                        break
                if x is None:
                    return None
            elif co is None or tm.lin(((tm.trunc(k, w) if w < 64 else k, co),), 0, w) is not dv:
                return None
            else:
                x = co
            if co is None:
                co = x
            elif co != x:
                return None
        if co is None:
            return None
        qq = tm.trunc(q, w) if w < 64 else q
        return tm.add(v0, tm.lin(((qq, co),), 0, w))

    def pool(self, G):
        P = {}
        for k, v in list(G.items()) + list(self.M.derived(G).items()):
            if isinstance(v, list):
                for i, x in enumerate(v):
                    P[(k, i)] = x
                    if x.w > 8 and x.w % 8 == 0:
                        for j, b in enumerate(tm.bytes_of(x)):
                            P[(k, i, j)] = b
            elif isinstance(v, T):
                P[(k,)] = v
                if v.w > 8 and v.w % 8 == 0:
                    for j, b in enumerate(tm.bytes_of(v)):
                        P[(k, 'b', j)] = b
        return P

    def index(self, p0):
        m = {}
        for nm, x in p0.items():
            m.setdefault(cn(x), []).append(nm)
        return m

    def match(self, vals, pools, index):
        vals = [cn(v) for v in vals]
        for nm in index.get(vals[0], ()):
            if all(nm in p and cn(p[nm]) is v for p, v in zip(pools[1:], vals[1:])):
                yield nm

    # ------------------------------------------------------------ coverage
    def subst_for(self, c, x):
        g = c.gen
        m = {}
        chk = []
        if not c.api:
            t = divisible(tm.sub(x.p, g.base.p), g.d)
            if t is None:
                return None
            m[g.q] = t
        for k, v in g.G.items():
            if isinstance(v, list):
                for a, b in zip(v, x.G[k]):
                    if a.op == 'v':
                        m[a] = b
                    else:
                        chk.append((a, b))
            elif isinstance(v, T):
                if k in g.keep:
                    if x.G[k] is not v:
                        self.ban(c, ('G', k), 'same')
                        return None
                elif v.op == 'v':
                    m[v] = x.G[k]
                else:
                    chk.append((v, x.G[k]))
        sb = tm.Subst(m)
        for a, b in chk:
            if sb(a) is not b and solver.equal(sb(a), b, x.st.pc, 3000) != 'yes':
                raise Undecided('dependent part of the ghost state changed')
        return sb

    def ban(self, c, cell, k):
        c.banned.setdefault(cell, set()).add(k)

    def covers(self, c, x):
        g = c.gen
        sb = self.subst_for(c, x)
        if sb is None:
            return False
        ok = True
        pc = x.st.pc
        for cnd in g.st.pc:
            i = sb(cnd)
            if i is tm.TRUE or i in pc:
                continue
            if solver.valid(pc, i) is not True:
                if cnd is g.strict:
                    self.ban(c, 'pc', 'strict')
                    ok = False
                    continue
                if c.api or cnd not in g.base.st.pc:
                    if DEBUG:
                        print('ASSUME', repr(i)[:300], [repr(y)[:200] for y in pc])
                    raise Undecided('assumption %r of the invariant at %s is not maintained' % (cnd, c.key[0]))
                self.ban(c, 'pc', cnd)
                ok = False
        for cell, k, v in g.plan:
            if k in ('dead', 'any'):
                continue
            if k == 'obj':
                o = x.st.mem.get(cell)
                if o is v:
                    continue
                if o is None:
                    if cell.startswith('g:'):
                        continue
                    raise Undecided('object %s disappeared' % cell)
                for kk in set(o.data) | set(v.data):
                    a = x.st.rb(cell, kk)
                    b = v.data.get(kk)
                    if b is None:
                        b = v.init(kk) if v.init else None
                    if a is b or a == b:
                        continue
                    raise Undecided('global or constant object %s changed' % cell)
                continue
            if cell[0] == 'r':
                a = x.st.frames[cell[1]].regs[cell[2]]
            else:
                if cell[0] not in x.st.mem:
                    raise Undecided('object %s disappeared' % cell[0])
                a = x.st.rb(cell[0], cell[1])
            if a is v and v.__class__ is T and v.op == 'c':
                continue
            if isinstance(v, Ptr):
                if isinstance(a, Ptr) and a.obj == v.obj:
                    a, b = a.off, sb(v.off)
                else:
                    self.ban(c, cell, k)
                    ok = False
                    continue
            elif isinstance(v, T):
                if not isinstance(a, T):
                    self.ban(c, cell, k)
                    ok = False
                    continue
                b = sb(v)
            else:
                if a != v:
                    self.ban(c, cell, k)
                    ok = False
                continue
            if a is b or cn(a) is cn(b):
                continue
            if k == 'bytes':
                fine = True
                for i, y in enumerate(tm.bytes_of(v)):
                    xa = tm.extract(a, 8 * i + 7, 8 * i)
                    if y.op == 'v' and y.a.startswith('h!'):
                        continue
                    if sb(y) is not xa:
                        fine = False
                if fine:
                    continue
            elif solver.maybe_equal(a, b) and tm.size_exceeds([a, b], 4000) is False and solver.equal(a, b, pc, 3000) == 'yes':
                continue
            self.ban(c, cell, k)
            ok = False
        return ok


def succs(b):
    t = b.insts[-1]
    if t.op == 'br':
        return list(t.x[:2]) if t.ops else [t.x[0]]
    if t.op == 'switch':
        return [t.x[0]] + [bb for _, bb in t.x[1]]
    return []


def uses(i):
    out = set()
    st = [o for o in i.ops] if i.ops else []
    if i.op == 'gep':
        st += [v[0] for v in i.x[1]]
    if i.op == 'call' and i.x[0] == 'r':
        st.append(i.x)
    while st:
        o = st.pop()
        if not isinstance(o, tuple) or not o:
            continue
        if o[0] == 'r':
            out.add(o[1])
        elif o[0] == 'agg':
            st.extend(o[2])
    return out


def livein(fn):
    """block -> (live at entry before the phis, live after the phis)"""
    n = len(fn.blocks)
    gen, kill = [], []
    for b in fn.blocks:
        g, k = set(), set()
        for i in b.insts:
            g |= uses(i) - k
            if i.dst is not None:
                k.add(i.dst)
        gen.append(g)
        kill.append(k)
    L = [(set(), set()) for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for j in range(n - 1, -1, -1):
            b = fn.blocks[j]
            out = set()
            for s in succs(b):
                out |= L[s][0]
                for ph in fn.blocks[s].phis:
                    o = ph.x.get(j)
                    if o and o[0] == 'r':
                        out.add(o[1])
            after = gen[j] | (out - kill[j])
            before = after - {ph.dst for ph in b.phis}
            if after != L[j][1] or before != L[j][0]:
                L[j] = (before, after)
                ch = True
    return L
