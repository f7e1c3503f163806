"""CryptoPro key wrap (RFC 4357)."""
import ctypes as C
from dv import model, g89, terms as tm
from dv.exec import Exec, State, Ptr
from dv.ir import probe
from dv.terms import const
from spec import modes as m
from spec.ciphers import SBOX_NAMES

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 10, 60, 60
ASSUMPTIONS = [model.NOTES['RAND'] + ' (key masks; the mask is modelled as an arbitrary fixed value, B01 proves it has no effect)']
RULE = 'random and corner-valued KEK, UKM, session key and S-box set; wrap, unwrap, altered blobs, diversification alone'
NEG = 'the wrapped blob is refused exactly when the 4-byte MAC differs'


def cfb32(K, iv, data):
    o, s = [], iv
    for i in range(0, len(data), 8):
        s = g89.xorl(g89.blk(K, s), data[i:i + 8])
        o += s
    return o


def norm(bs):
    """case normal form: if the value depends on the bits of a single UKM byte through its branches, it is
    written as select(byte; the value for 0, ..., the value for 255)"""
    t = tm.concat(bs)
    us = set()
    seen = set()

    def walk(t):
        if t in seen or not isinstance(t, tm.T):
            return
        seen.add(t)
        if t.op == 'ext' and t.a[0].op == 'v' and t.a[0].a.startswith('ukm['):
            us.add(t.a[0])
            return
        if t.op == 'uf':
            return
        if t.op == 'v':
            if t.a.startswith('ukm['):
                us.add(t)
            return
        for x in (t.a if isinstance(t.a, tuple) else ()):
            for y in (x if isinstance(x, tuple) else (x,)):
                for z in (y if isinstance(y, tuple) else (y,)):
                    if isinstance(z, tm.T):
                        walk(z)
    walk(t)
    if len(us) != 1:
        return bs
    u = next(iter(us))
    # the value's other parts (outputs of the block cipher) become atoms first: they may contain UKM bytes
    m, back = {}, {}
    for x in seen:
        if x.op == 'uf':
            v = tm.var('atom%d' % len(m), x.w)
            m[x] = v
            back[v] = x
    t = replace(t, m)
    leaves = [tm.Subst({u: const(k, 8)})(t) for k in range(256)]
    B = tm.Subst(back)
    return tm.bytes_of(tm.uf('select', [u] + [B(x) for x in leaves], t.w))


def replace(t, m):
    return tm.Subst(m)(t)


def diversify(kek, ukm, sbt):
    """RFC 4357 6.5"""
    k = list(kek)
    for i in range(8):
        s1, s2 = const(0, 32), const(0, 32)
        for j in range(8):
            w = tm.concat(k[4 * j:4 * j + 4])
            b = tm.extract(ukm[i], j, j)
            s1 = tm.add(s1, tm.ite(b, w, const(0, 32)))
            s2 = tm.add(s2, tm.ite(b, const(0, 32), w))
        k = cfb32(k + [sbt], norm(tm.bytes_of(s1) + tm.bytes_of(s2)), k)
    return k


def mac4(K, iv, data):
    """RFC 4357 6.3: the first 4 bytes of the MAC with the UKM as starting value"""
    s = iv
    for i in range(0, len(data), 8):
        s = g89.blk(K, g89.xorl(s, data[i:i + 8]), 'g89m')
    return s[:4]


def dblock(K, b):
    return g89.blk(K, b, 'g89d')


def prove(R):
    p = model.prog(['gost_keywrap.c', 'gost89.c'], R.tmp)
    CT = g89.contracts(R)
    CTX = probe(['gost89.h'], ['sizeof(gost_ctx)'], workdir=R.tmp)['sizeof(gost_ctx)']
    tag = tm.var('#sbox', 8)
    R.parallel([(n, lambda R, f=f: f(R, p, CT, CTX, tag)) for n, f in (('diversify', pstep), ('wrap', pwrap), ('unwrap', punwrap))])


def start(CT, CTX, tag, R):
    st = State()
    ctx = model.sym(st, 'ctx', CTX)
    ex = Exec
    # an initialised context: all four tables belong to one (arbitrary) S-box set
    o = probe(['gost89.h'], ['__builtin_offsetof(gost_ctx, %s)' % f for f in ('k87', 'k65', 'k43', 'k21')], workdir=R.tmp)
    for v in o.values():
        st.wb(ctx.add(v), [tag])
    return st, ctx


def pstep(R, p, CT, CTX, tag):
    """the whole diversification, for every UKM, all eight rounds"""
    st, ctx = start(CT, CTX, tag, R)
    ex = Exec(p, lifting(CT), model.BASE)
    ik, uk = model.sym(st, 'kek', 32), model.sym(st, 'ukm', 8)
    o = model.sym(st, 'outk', 32)
    want = diversify(model.symbytes('kek', 32), model.symbytes('ukm', 8), tag)
    n = 0
    for k, x, v in model.runall(ex, st, 'keyDiversifyCryptoPro', [ctx, ik, uk, o]):
        if k == 'ret':
            n += 1
            R.eq('diversification follows RFC 4357 6.5', x.bytes(o, 32), want, x.pc)
            R.eq('diversification leaves the KEK', x.bytes(ik, 32), model.symbytes('kek', 32), x.pc)
            R.eq('diversification leaves the UKM', x.bytes(uk, 8), model.symbytes('ukm', 8), x.pc)
    R.truth('diversification terminates', n > 0)
    R.absorb(ex, 'keyDiversifyCryptoPro')


def lifting(CT):
    """the block cipher's contract, its argument first brought into the normal form of lift()"""
    C2 = dict(CT)

    def enc(ex, s, a, i):
        b = norm(ex.read_bytes(s, a[1], 8, i.line))
        t = s.new('blockarg', 8)
        s.wb(t, b)
        return CT['gostcrypt'](ex, s, [a[0], t, a[2]], i)
    C2['gostcrypt'] = enc
    return C2


def cdiv(CT):
    """contract of keyDiversifyCryptoPro (proved by pstep)"""
    def h(ex, s, a, i):
        k = ex.read_bytes(s, a[1], 32, i.line)
        u = ex.read_bytes(s, a[2], 8, i.line)
        t = tag_of(ex, s, a[0])
        ex.write_bytes(s, a[3], div_uf(k, u, t), i.line)
        # the context's key afterwards is unspecified
        CT['gost_key'](ex, s, [a[0], s.new('anykey%d' % i.line, 32, init=lambda o: tm.var('anykey[%d]' % o, 8))], i)
        return None
    return h


def div_uf(k, u, t):
    return tm.bytes_of(tm.uf('cpdiv', [tm.concat(k), tm.concat(u), t], 256))


def tag_of(ex, s, c):
    return tm.var('#sbox', 8)


def pwrap(R, p, CT, CTX, tag):
    st, ctx = start(CT, CTX, tag, R)
    C2 = dict(CT)
    C2['keyDiversifyCryptoPro'] = cdiv(CT)
    R.contracts['keyDiversifyCryptoPro'] = 'proved here'
    ex = Exec(p, C2, model.BASE)
    kek, ukm, cek = [model.sym(st, n, k) for n, k in (('kek', 32), ('ukm', 8), ('cek', 32))]
    o = model.sym(st, 'out', 44)
    K = div_uf(model.symbytes('kek', 32), model.symbytes('ukm', 8), tag) + [tag]
    c = model.symbytes('cek', 32)
    want = model.symbytes('ukm', 8) + sum((g89.blk(K, c[i:i + 8]) for i in range(0, 32, 8)), []) + mac4(K, model.symbytes('ukm', 8), c)
    n = 0
    for k, x, v in model.runall(ex, st, 'keyWrapCryptoPro', [ctx, kek, ukm, cek, o]):
        if k == 'ret':
            n += 1
            R.eq('wrap output is RFC 4357 6.3', x.bytes(o, 44), want, x.pc)
            R.cond('wrap reports success', tm.eq(v, const(1, 32)), x.pc)
    R.truth('wrap terminates', n > 0)
    R.absorb(ex, 'keyWrapCryptoPro')


def punwrap(R, p, CT, CTX, tag):
    st, ctx = start(CT, CTX, tag, R)
    C2 = dict(CT)
    C2['keyDiversifyCryptoPro'] = cdiv(CT)
    kek, w = model.sym(st, 'kek', 32), model.sym(st, 'wrapped', 44)
    o = model.sym(st, 'out', 32)
    wb = model.symbytes('wrapped', 44)
    K = div_uf(model.symbytes('kek', 32), wb[:8], tag) + [tag]
    cek = sum((dblock(K, wb[8 + i:16 + i]) for i in range(0, 32, 8)), [])
    good = tm.eq(tm.concat(mac4(K, wb[:8], cek)), tm.concat(wb[40:]))
    ex = Exec(p, C2, model.BASE)
    n = 0
    for k, x, v in model.runall(ex, st, 'keyUnwrapCryptoPro', [ctx, kek, w, o]):
        if k == 'ret':
            n += 1
            R.cond(NEG, tm.eq(good, tm.not_(tm.eq(v, const(0, 32)))), x.pc)
            R.eq('unwrap decrypts the key', x.bytes(o, 32), cek, x.pc)
    R.truth('unwrap terminates', n > 0)
    R.absorb(ex, 'keyUnwrapCryptoPro')
    # unwrap(wrap(k)) = k: dec(enc(b)) = b is the lemma of B01; the MAC is over the decrypted key
    from props.B01 import lemma
    lemma(R)
    c, u = model.symbytes('cek', 32), model.symbytes('ukm', 8)
    K = div_uf(model.symbytes('kek', 32), u, tag) + [tag]
    w = u + sum((g89.blk(K, c[i:i + 8]) for i in range(0, 32, 8)), []) + mac4(K, u, c)

    def inv(b):
        """g89d(K, g89e(K, x)) = x, by the lemma"""
        t = tm.concat(b)
        e = t.op == 'uf' and [x for x in range(0, 32, 8) if tm.concat(g89.blk(K, c[x:x + 8])) is t]
        return c[e[0]:e[0] + 8] if e else g89.blk(K, b, 'g89d')
    back = sum((inv(w[i:i + 8]) for i in range(8, 40, 8)), [])
    R.eq('unwrapping a wrapped key restores the session key', back, c)
    R.eq('the MAC of the restored key is the stored one', mac4(K, u, back), w[40:])


def search(S):
    L = S.lib
    P = C.c_void_p
    from dv.real import Buf
    f = lambda n, r, *t: L.fn(n, r, *t)
    init, free = f('gost_init', None, P, P), None
    div = f('keyDiversifyCryptoPro', None, P, P, P, P)
    wrap, unwrap = f('keyWrapCryptoPro', C.c_int, P, P, P, P, P), f('keyUnwrapCryptoPro', C.c_int, P, P, P, P)
    n = 0
    r = S.rng
    while S.more():
        n += 1
        nm = SBOX_NAMES[n % len(SBOX_NAMES)]
        ctx = Buf(64 * 1024)
        init(ctx.p, L.addr(nm))
        pick = lambda k: S.bytes(k) if r.random() < .6 else bytes([r.choice((0, 255, 0x80, 1)) for _ in range(k)])
        kek, ukm, cek = pick(32), pick(8), pick(32)
        S.case(kind='key wrap', sbox=nm, kek=kek, ukm=ukm, cek=cek)
        a, b, c, o, d = Buf(kek), Buf(ukm), Buf(cek), Buf(44), Buf(32)
        div(ctx.p, a.p, b.p, d.p)
        S.expect(d.get(), m.cp_diversify(nm, ukm, kek), 'diversified key differs from RFC 4357')
        if wrap(ctx.p, a.p, b.p, c.p, o.p) != 1:
            S.fail('wrap fails')
        want = m.cp_wrap(nm, kek, ukm, cek)
        S.expect(o.get(), want, 'wrapped key differs from RFC 4357')
        z = Buf(32)
        if unwrap(ctx.p, a.p, o.p, z.p) == 0:
            S.fail('unwrap refuses what wrap produced')
        S.expect(z.get(), cek, 'unwrapped key differs')
        if not all(x.ok() for x in (a, b, c, o, d, z)):
            S.fail('write outside a buffer')
        for _ in range(4):
            pos = r.choice((40, 41, 42, 43, r.randrange(8, 40), r.randrange(8)))
            bad = bytearray(want)
            bad[pos] ^= 1 << r.randrange(8)
            S.case(kind='altered blob', sbox=nm, kek=kek, blob=bytes(bad))
            dk = m.cp_diversify(nm, bytes(bad[:8]), kek)
            k2 = m.ecb(m.FastG89(nm, dk), bytes(bad[8:40]), False)
            ok = m.mac_iv(dk, bytes(bad[:8]), k2, nm)[:4] == bytes(bad[40:])
            w = Buf(bytes(bad))
            if (unwrap(ctx.p, a.p, w.p, z.p) != 0) != ok:
                S.fail('an altered blob is accepted' if not ok else 'a valid blob is refused')
        # difference in one byte only at each MAC position
