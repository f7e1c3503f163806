"""Proof driver: one cipher of the engine over all histories (init, updates of any length)."""
from . import terms as tm
from . import model, solver, evpmodel as em
from .terms import const, T
from .exec import Exec, State, Ptr, Undecided, NULL
from .hist import Hist, Call, Machine

NMAX = (1 << 31) - 1
N = tm.var('#n', 64)


class Setup:
    """one cipher, one direction: the engine's descriptor executed, a context with arbitrary contents"""

    def __init__(self, R, p, glob, enc, contracts, limit=20, zero=(), externs=None):
        self.R = R
        self.C = {'enc': enc}
        ext = dict(model.BASE)
        ext.update(em.evp_contracts(self.C))
        ext.update(externs or {})
        self.ex = Exec(p, contracts, ext, limit=limit)
        st = State()
        st, m = em.methods(self.ex, st, glob)
        self.meth = self.C['meth'] = m
        self.ctx = st.new('CTX', 8, kind='opaque')
        st.new('E.CTX', em.SIZE, init=lambda o: tm.var('evp[%d]' % o, 8))
        if m['impl_ctx_size']:
            st.new('cd', m['impl_ctx_size'], init=lambda o: tm.var('cdata[%d]' % o, 8))
            st.data['cd.CTX'] = 'cd'
        self.st = st
        self.enc = enc

    def init(self, st, key=True, iv=True, ivname='iv'):
        """init(ctx, key, iv, enc) -> [(state, value)]"""
        st = st.fork()
        n = self.meth['iv_length']
        k = model.sym(st, 'key', self.meth.get('klen', 32)) if key else NULL
        v = st.new('ivbuf', n, init=lambda o: tm.var('%s[%d]' % (ivname, o), 8)) if iv and n else NULL
        out = []
        for kind, x, val in model.runall(self.ex, st, em.fname(self.meth['init']), [self.ctx, k, v, const(self.enc, 32)]):
            if kind == 'ret':
                x.mem.pop('key', None)
                x.mem.pop('ivbuf', None)
                out.append((x, val))
        return out

    def ctrl(self, st, cmd, arg, ptr=NULL):
        out = []
        for kind, x, val in model.runall(self.ex, st.fork(), em.fname(self.meth['ctrl']), [self.ctx, const(cmd, 32), arg, ptr]):
            if kind == 'ret':
                out.append((x, val))
        return out

    def update_calls(self, block=1, ret=None, zero_ok=False):
        """the do_cipher calls: separate buffers and in place"""
        fn = em.fname(self.meth['do_cipher'])

        def mk(inplace):
            def push(H, st, G):
                n = N
                if block > 1:
                    n = tm.concat([const(0, block.bit_length() - 1), tm.var('#nb', 64 - (block.bit_length() - 1))])
                st.assume(tm.ule(const(1, 64), n))
                st.assume(tm.ule(n, const(NMAX, 64)))
                i = st.new('in', n, kind='arr')
                o = i if inplace else st.new('out', n, kind='arr')
                self.ex.call_fn(st, fn, [self.ctx, o, i, n])
            nn = N if block == 1 else tm.concat([const(0, block.bit_length() - 1), tm.var('#nb', 64 - (block.bit_length() - 1))])

            def r(st, G, v):
                if ret:
                    return ret(st, G, v, nn)
                return 'reports success', tm.not_(tm.eq(v, const(0, v.w)))
            return Call('update in place' if inplace else 'update', push, 'out', 'in', 'in' if inplace else 'out', nn, ret=r)
        return [mk(False), mk(True)]

    def num(self, st):
        v = st.val(Ptr('E.CTX', em.NUM), 4)
        return (v.a if v.op == 'c' else None,)

    def hist(self, M, name, calls=None, persist=(), facts=(), block=1, **kw):
        return Hist(self.R, self.ex, M, name, calls or self.update_calls(block), persist=set(persist) | {'key', 'iv', 'cdata', 'evp', 'mask0'}, facts=facts, keycells=self.num, **kw)

    def iv_restart(self, mk, pre=None):
        """init(ctx, NULL, iv2): the stream starts again under the same key"""
        def push(H, st, G):
            n = self.meth['iv_length']
            v = st.new('ivbuf', n, init=lambda o: tm.var('iv2[%d]' % o, 8))
            self.ex.call_fn(st, em.fname(self.meth['init']), [self.ctx, NULL, v, const(self.enc, 32)])

        def restart(H, st, G, v, org):
            st.mem.pop('ivbuf', None)
            H.ob(org, 'cond', '%s: init with a new IV succeeds' % H.name, tm.eq(v, const(1, 32)), st.pc)
            return mk(G, [tm.var('iv2[%d]' % o, 8) for o in range(self.meth['iv_length'])])
        c = Call('new IV', push, n=None, outobj=None, inobj=None, pre=pre)
        c.restart = restart
        return c


    def rekey(self, mk):
        """init(ctx, key2, iv3): a new message under a new key"""
        n = self.meth['iv_length']

        def push(H, st, G):
            k = model.sym(st, 'key2', 32)
            v = st.new('ivbuf', n, init=lambda o: tm.var('iv3[%d]' % o, 8))
            self.ex.call_fn(st, em.fname(self.meth['init']), [self.ctx, k, v, const(self.enc, 32)])

        def restart(H, st, G, v, org):
            st.mem.pop('ivbuf', None)
            st.mem.pop('key2', None)
            H.ob(org, 'cond', '%s: init with a new key succeeds' % H.name, tm.eq(v, const(1, 32)), st.pc)
            return mk(G, model.symbytes('key2', 32), [tm.var('iv3[%d]' % o, 8) for o in range(n)])
        c = Call('new key and IV', push, n=None, outobj=None, inobj=None)
        c.restart = restart
        return c


def be(bs):
    """big-endian number of a list of bytes"""
    return tm.concat(list(reversed(bs)))


def unbe(t):
    return list(reversed(tm.bytes_of(t)))


class CTR(Machine):
    """counter mode over bytes: G = key, counter (bs*8 bits), gamma, position"""
    unit = 1

    def __init__(self, E, bs, derived=None):
        self.E, self.bs = E, bs
        self.der = derived

    def start(self, key, iv):
        return {'K': list(key), 'ctr': be(list(iv) + [const(0, 8)] * (self.bs - len(iv))), 'gm': [const(0, 8)] * self.bs, 'pos': 0, '#blk': const(0, 32 - (self.bs.bit_length() - 1))}

    def step(self, D, G, ins):
        G = dict(G)
        if G['pos'] == 0:
            G['gm'] = self.E(G['K'], unbe(G['ctr']))
            G['ctr'] = tm.addc(G['ctr'], 1)
        o = tm.xor(ins[0], G['gm'][G['pos']])
        G['pos'] += 1
        if G['pos'] == self.bs:
            G['pos'] = 0
            G['#blk'] = tm.addc(G['#blk'], 1)
        return G, [o]

    def derived(self, G):
        d = {'bytes': tm.concat([const(G['pos'], self.bs.bit_length() - 1), G['#blk']])}
        if self.der:
            d.update(self.der(G))
        return d


def inverse_lemma(R, name, mk, bs, steps):
    """decryption machine undoes the encryption machine, given D(K, E(K, x)) = x"""
    inv = {}

    def E(k, x):
        o = tm.bytes_of(tm.uf('E', [tm.concat(list(k)), tm.concat(list(x))], 8 * bs))
        inv[tuple(o)] = list(x)
        return o

    def D(k, x):
        return inv[tuple(x)] if tuple(x) in inv else tm.bytes_of(tm.uf('D', [tm.concat(list(k)), tm.concat(list(x))], 8 * bs))
    a, b = mk(E, D)
    key, iv = model.symbytes('key', 32), model.symbytes('iv', bs)
    ga, gb = a.start(key, iv), b.start(key, iv)

    def same(tag):
        for k in ga:
            x, y = ga[k], gb[k]
            if isinstance(x, list):
                R.eq('%s: %s' % (name, tag), x, y)
            elif isinstance(x, tm.T):
                R.eq('%s: %s' % (name, tag), x, y)
            else:
                R.truth('%s: %s' % (name, tag), x == y)
    for i in range(steps):
        ins = [tm.var('m[%d]' % (i * a.unit + j), 8) for j in range(a.unit)]
        ga, o = a.step(None, ga, ins)
        gb, r = b.step(None, gb, o)
        R.eq('%s: decryption restores the plaintext' % name, r, ins)
        same('decryption follows the same states')


def prove_mode(R, p, glob, name, mk, contracts, block=1, encs=(1, 0), persist=(), facts=(), key=None, iv=True, extra=None, pre=None, begin=None, nokey=False, **kw):
    """tasks: every history of one cipher, for each direction. mk(enc) -> machine"""
    key = key or model.symbytes('key', 32)

    def task(enc):
        def f(R):
            S = Setup(R, p, glob, enc, contracts, **kw)
            M = mk(enc)
            n = S.meth['iv_length']
            ivb = model.symbytes('iv', n)
            if pre:
                pre(S)

            def starts():
                out = []
                for x, v in S.init(S.st):
                    R.cond('%s: init succeeds' % name, tm.eq(v, const(1, 32)), x.pc)
                    if begin:
                        out.extend(begin(R, S, M, x, key, ivb))
                    else:
                        out.append((x, M.start(key, ivb)))
                return out
            calls = S.update_calls(block)
            if n and iv:
                calls.append(S.iv_restart(lambda G, v: M.restart(G, v) if hasattr(M, 'restart') else M.start(G['K'], v)))
                calls.append(S.rekey(lambda G, k, v: M.rekey(G, k, v) if hasattr(M, 'rekey') else M.start(k, v)))
            if extra:
                calls += extra(S, M)
            H = S.hist(M, '%s %s' % (name, 'encryption' if enc else 'decryption'), calls=calls, persist=persist, facts=facts)
            if nokey:
                H.keycells = lambda st: ()
            H.run(starts)
            R.absorb(S.ex, name)
        return f
    return [('%s (%s)' % (name, 'enc' if e else 'dec'), task(e)) for e in encs]
