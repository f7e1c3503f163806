"""GOST 28147-89 / Magma block transform."""
import ctypes as C
from dv import terms as tm, model
from dv.exec import Exec, State, Ptr
from dv.ir import probe
from spec import ciphers as sp

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 8, 60, 60
ASSUMPTIONS = [model.NOTES['RAND'] + ' (key masks)', model.NOTES['cleanse'],
               'S-box constants of the standards are frozen in /verif/spec/tables.json and validated by published test vectors']
RULE = 'random key, block, S-box set; every public block function of gost89.c called on the compiled code'
SETS = sp.SBOX_NAMES


def words(k, big):
    r = []
    for i in range(8):
        b = k[4 * i:4 * i + 4]
        r.append(tm.concat(list(reversed(b)) if big else b))
    return r


# function, key setter, spec
API = [('gostcrypt', 'gost_key', False, 'enc'), ('gostdecrypt', 'gost_key', False, 'dec'),
       ('magmacrypt', 'magma_key', True, 'menc'), ('magmadecrypt', 'magma_key', True, 'mdec')]


def prove(R):
    p = model.prog(['gost89.c'], R.tmp)
    sz = probe(['gost89.h'], ['sizeof(gost_ctx)', 'sizeof(gost_subst_block)'], workdir=R.tmp)
    CTX = sz['sizeof(gost_ctx)']
    ct = {}
    R.contracts = {'RAND_priv_bytes': 'assumed', 'OPENSSL_cleanse': 'assumed'}

    def setup(name):
        ex = Exec(p, {}, model.BASE)
        st = State()
        ctx = model.sym(st, 'ctx', CTX)
        st, _ = model.run1(ex, st, 'gost_init', [ctx, ex.gptr(st, name, 0, None)])
        return ex, st, ctx

    def one(name):
        g = sp.G89(sp.TermOps, name)
        ex, st0, ctx = setup(name)
        kb = model.symbytes('key', 32)
        ib = model.symbytes('in', 8)
        for fn, setkey, big, what in API:
            st = st0.fork()
            k = model.sym(st, 'key', 32)
            i = model.sym(st, 'in', 8)
            o = model.sym(st, 'out', 8)
            st, _ = model.run1(ex, st, setkey, [ctx, k])
            st1, _ = model.run1(ex, st.fork(), fn, [ctx, i, o])
            want = getattr(g, what)(words(kb, big), ib)
            R.eq('%s: %s after %s' % (fn, what, setkey), st1.bytes(o, 8), want)
            R.eq('%s: input unchanged' % fn, st1.bytes(i, 8), ib)
            # in place
            st2, _ = model.run1(ex, st.fork(), fn, [ctx, i, i])
            R.eq('%s: in place' % fn, st2.bytes(i, 8), want)
        # key read-back
        for setkey, getkey in (('gost_key', 'gost_get_key'), ('magma_key', 'magma_get_key'), ('gost_key_nomask', 'gost_get_key')):
            st = st0.fork()
            k = model.sym(st, 'key', 32)
            o = model.sym(st, 'out', 32)
            st, _ = model.run1(ex, st, setkey, [ctx, k])
            st, _ = model.run1(ex, st, getkey, [ctx, o])
            R.eq('%s/%s: read-back' % (setkey, getkey), st.bytes(o, 32), kb)
        # several blocks, one-shot key, MAC block
        st = st0.fork()
        k = model.sym(st, 'key', 32)
        i = model.sym(st, 'in', 24)
        o = model.sym(st, 'out', 24)
        st, _ = model.run1(ex, st, 'gost_key_nomask', [ctx, k])
        ib3 = model.symbytes('in', 24)
        for fn, what in (('gost_enc', 'enc'), ('gost_dec', 'dec')):
            s2, _ = model.run1(ex, st.fork(), fn, [ctx, i, o, tm.const(3, 32)])
            for b in range(3):
                R.eq('%s: block' % fn, s2.bytes(o.add(8 * b), 8), getattr(g, what)(words(kb, False), ib3[8 * b:8 * b + 8]))
        st = st0.fork()
        k = model.sym(st, 'key', 32)
        i = model.sym(st, 'in', 8)
        o = model.sym(st, 'out', 8)
        s2, _ = model.run1(ex, st.fork(), 'gost_enc_with_key', [ctx, k, i, o])
        R.eq('gost_enc_with_key', s2.bytes(o, 8), g.enc(words(kb, False), ib))
        st, _ = model.run1(ex, st, 'gost_key', [ctx, k])
        b = model.sym(st, 'buf', 8)
        bb = model.symbytes('buf', 8)
        s2, _ = model.run1(ex, st, 'mac_block', [ctx, b, i])
        R.eq('mac_block: 16 rounds', s2.bytes(b, 8), g.mac(words(kb, False), [tm.xor(x, y) for x, y in zip(bb, ib)]))
        R.absorb(ex, 'gost89')

    for name in SETS:
        R.attempt('S-box set %s' % name, one, name)
    R.attempt('inverse lemma', lemma, R)
    R.bounded.append('gost_enc/gost_dec block count: executed for 3 blocks (callers use 1 and 4); all other obligations hold for all inputs')
    if not R.quick:
        for name in SETS:
            g = sp.G89(sp.IntOps, name)
            R.truth('spec S-box rows are permutations', all(sorted(r) == list(range(16)) for r in sp.SBOX[name]))


def lemma(R):
    """dec(enc(x)) = x and enc(dec(x)) = x for the specification, for every round function"""
    class F(sp.G89):
        def __init__(self):
            self.o = sp.TermOps

        def f(self, x):
            return tm.uf('roundf', [x], 32)
    g = F()
    k = words(model.symbytes('key', 32), False)
    b = model.symbytes('in', 8)
    R.eq('lemma: dec(enc(x)) = x', g.dec(k, g.enc(k, b)), b)
    R.eq('lemma: enc(dec(x)) = x', g.enc(k, g.dec(k, b)), b)
    R.eq('lemma: mdec(menc(x)) = x', g.mdec(k, g.menc(k, b)), b)


def search(S):
    L = S.lib
    P = C.c_void_p
    I = C.c_int
    vec = [('Gost28147_TC26ParamSetZ', 'ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff', 'fedcba9876543210', '4ee901e5c2d8ca3d')]
    from dv.real import Buf
    CT = 64 * 1024
    n = 0
    fl = {}

    def fn(name, *t):
        if name not in fl:
            fl[name] = L.fn(name, None, *t) if L.has(name) else None
        return fl[name]
    while S.more():
        name = SETS[n % len(SETS)]
        n += 1
        g = sp.G89(sp.IntOps, name)
        ctx = Buf(S.bytes(CT))
        k = S.bytes(32) if n % 3 else bytes([S.rng.choice((0, 255)) for _ in range(32)])
        b = S.bytes(8) if n % 5 else bytes([S.rng.choice((0, 255)) for _ in range(8)])
        fn('gost_init', P, P)(ctx.p, L.addr(name))
        for f, setkey, big, what in API:
            S.case(kind=f, sbox=name, key=k, block=b)
            kw = (sp.key_words_be if big else sp.key_words_le)(k)
            want = bytes(getattr(g, what)(kw, list(b)))
            kb, i, o = Buf(k), Buf(b), Buf(8)
            fn(setkey, P, P)(ctx.p, kb.p)
            fn(f, P, P, P)(ctx.p, i.p, o.p)
            S.expect(o.get(), want, '%s disagrees with GOST 28147-89' % f)
            fn(f, P, P, P)(ctx.p, i.p, i.p)
            S.expect(i.get(), want, '%s in place disagrees' % f)
            r = Buf(32)
            fn('magma_get_key' if big else 'gost_get_key', P, P)(ctx.p, r.p)
            S.expect(r.get(), k, 'key read-back')
        S.case(kind='mac_block', sbox=name, key=k, block=b)
        kb, i, o = Buf(k), Buf(b), Buf(S.bytes(8))
        st = o.get()
        fn('gost_key', P, P)(ctx.p, kb.p)
        fn('mac_block', P, P, P)(ctx.p, o.p, i.p)
        S.expect(o.get(), bytes(g.mac(sp.key_words_le(k), [x ^ y for x, y in zip(st, b)])), 'mac_block disagrees with the 16-round transform')
        for f, what in (('gost_enc', 'enc'), ('gost_dec', 'dec')):
            nb = S.rng.randrange(0, 6)
            d = S.bytes(8 * nb)
            S.case(kind=f, sbox=name, key=k, data=d)
            i, o = Buf(d), Buf(8 * nb)
            fn(f, P, P, P, I)(ctx.p, i.p, o.p, nb)
            want = b''.join(bytes(getattr(g, what)(sp.key_words_le(k), list(d[8 * j:8 * j + 8]))) for j in range(nb))
            S.expect(o.get(), want, '%s of several blocks' % f)
        S.case(kind='gost_enc_with_key', sbox=name, key=k, block=b)
        i, o = Buf(b), Buf(8)
        fn('gost_enc_with_key', P, P, P, P)(ctx.p, kb.p, i.p, o.p)
        S.expect(o.get(), bytes(g.enc(sp.key_words_le(k), list(b))), 'gost_enc_with_key')
