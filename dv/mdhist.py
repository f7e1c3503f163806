"""Proof driver: one digest or MAC of the engine over all histories of updates, and its final value."""
from . import terms as tm
from . import model, evpmodel as em
from .terms import const
from .exec import Exec, State, Ptr, NULL, FPtr
from .hist import Hist, Call

NMAX = (1 << 40) - 1
N = tm.var('#n', 64)


class MSetup:
    def __init__(self, R, p, glob, contracts, limit=20, externs=None, size=None):
        self.R = R
        C = self.C = {'enc': 1}
        ext = dict(model.BASE)
        ext.update(em.evp_contracts(C))
        S = self

        def get_init(ex, s, a, i):
            return S.meth['init']
        ext['EVP_MD_meth_get_init'] = get_init
        ext['EVP_MD_CTX_get0_md'] = ext['EVP_MD_CTX_md'] = lambda ex, s, a, i: Ptr('mdmeth', 0)
        ext['EVP_MD_CTX_set_flags'] = model.nop
        ext.update(externs or {})
        self.ex = Exec(p, contracts, ext, limit=limit)
        st = State()
        st, m = em.methods(self.ex, st, glob, 'MD') if False else em.methods(self.ex, st, glob, 'MD', 'GOST_init_digest')
        self.meth = m
        self.ctx = st.new('CTX', 8, kind='opaque')
        st.new('mdmeth', 8, kind='opaque')
        st.new('cd', m['app_datasize'], init=lambda o: tm.var('cdata[%d]' % o, 8))
        st.data['md.CTX'] = 'cd'
        self.st = st

    def call(self, st, what, *args):
        out = []
        for kind, x, v in model.runall(self.ex, st.fork(), em.fname(self.meth[what]), [self.ctx] + list(args)):
            if kind == 'ret':
                out.append((x, v))
        return out

    def ctrl(self, st, cmd, arg, ptr=NULL):
        return self.call(st, 'ctrl', const(cmd, 32), arg, ptr)

    def update_call(self, n=N):
        fn = em.fname(self.meth['update'])

        def push(H, st, G):
            st.assume(tm.ule(n, const(NMAX, 64)))
            i = st.new('in', n, kind='arr')
            st.mem['in'].meta = {'rd': 1}
            self.ex.call_fn(st, fn, [self.ctx, i, n])

        def r(st, G, v):
            return 'reports success', tm.not_(tm.eq(v, const(0, v.w)))
        return Call('update', push, progress='in', outobj=None, inobj='in', n=n, ret=r)

    def final_call(self, M, size, mdlen):
        """size(G) -> list of (condition, number of bytes); the MAC or digest must be M.final(D, G)"""
        fn = em.fname(self.meth['final'])

        def push(H, st, G):
            st.new('md', mdlen, init=lambda o: tm.var('md0[%d]' % o, 8))
            self.ex.call_fn(st, fn, [self.ctx, Ptr('md', 0)])

        def final(H, st, G, v, org):
            H.ob(org, 'cond', '%s: final reports success' % H.name, tm.not_(tm.eq(v, const(0, v.w))), st.pc)
            H.spec_final(st, G, org, size)
        c = Call('final', push, n=None, outobj=None, inobj=None)
        c.final = final
        return c


def spec_final(H, st, G, org, size):
    from .hist import Decide, SpecFork
    work = [st]
    while work:
        s = work.pop()
        try:
            D = Decide(s.pc)
            want = H.M.final(D, G)
            k = size(D, G)
        except SpecFork as e:
            for c in (e.c, tm.not_(e.c)):
                y = s.fork()
                y.assume(c)
                work.append(y)
            continue
        H.ob(org, 'eq', '%s: final value' % H.name, s.bytes(Ptr('md', 0), k), want[:k], s.pc)
        rest = s.mem['md'].size - k
        if rest:
            H.ob(org, 'eq', '%s: nothing is written beyond the value' % H.name, s.bytes(Ptr('md', k), rest), [tm.var('md0[%d]' % (k + i), 8) for i in range(rest)], s.pc)


Hist.spec_final = spec_final


def prove_digest(R, p, glob, name, mk, contracts, begin, size, mdlen, persist=(), facts=(), extra=None, pins=(), wrap=lambda c: c, **kw):
    def task(R):
        S = MSetup(R, p, glob, contracts, **kw)
        M = mk()
        calls = [S.update_call(), wrap(S.final_call(M, size, mdlen))]
        if extra:
            calls += extra(S, M)
        H = Hist(R, S.ex, M, name, calls, persist=set(persist) | {'key', 'cdata', 'mask0'}, facts=facts, keycells=lambda st: ())
        H.pins = pins
        H.run(lambda: begin(R, S, M))
        R.absorb(S.ex, name)
    return [(name, task)]


def prove_blocks(R, p, glob, name, mk, contracts, begin, size, mdlen, block, persist=(), facts=(), pins=(), wrap=lambda c: c, **kw):
    """like prove_digest for a digest that buffers a block: one proof task per number of bytes buffered; the relations
    between context and ghost state are read off histories of known length first, then shown to be inductive"""
    S = MSetup(R, p, glob, contracts, **kw)
    M = mk()
    H = Hist(R, S.ex, M, name, [S.update_call(), wrap(S.final_call(M, size, mdlen))], persist=set(persist) | {'key', 'cdata', 'mask0'}, facts=facts, keycells=lambda st: ())
    H.pins = pins
    pts = []

    def seed(R):
        H.R = R
        pts.extend(H.seed(lambda: begin(R, S, M), [S.update_call(const(k, 64)) for k in list(range(block + 1)) + list(range(2 * block, 3 * block))], lambda G: G['pos'] == block - 1))
        R.absorb(S.ex, name)
    R.attempt(name + ' relations', seed, R)

    def task(pt):
        def f(R):
            H.R = R
            H.inductive(pt)
            R.absorb(S.ex, name)
        return f
    return [('%s %s' % (name, dict(pt.key[1])['pos']), task(pt)) for pt in pts]
