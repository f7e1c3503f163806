"""GOST R 34.11-2012 (Streebog) digests."""
import ctypes
from dv import evp, xcheck, model, mdhist as mh, terms as tm, evpmodel as em
from dv.exec import Exec, State, Ptr, Undecided
from dv.hist import Machine
from dv.ir import probe
from dv.real import Buf
from dv.terms import const
from spec import ciphers as sp
from props.C05 import SRC as BASE

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 15, 200, 100
RULE = 'random messages, splits, re-initialised and copied contexts; blocks of all ones and long carries through the checksum; addition of 512-bit numbers with directed carries'
ASSUMPTIONS = ['the lookup tables, constants and test vectors of GOST R 34.11-2012 are frozen in /verif/spec/tables.json; the tables of the code are compared with tables computed from the S-box and the matrix of the standard']
SRC = BASE + ['gosthash2012.c', 'gost_md2012.c']
Z = const(0, 8)


def G512(h, N, m):
    return tm.bytes_of(tm.uf('streebog-g', [tm.concat(h), tm.concat(N), tm.concat(m)], 512))


def add(a, b):
    return tm.bytes_of(tm.add(tm.concat(a), b if isinstance(b, tm.T) else tm.concat(b)))


class Streebog(Machine):
    unit = 1

    def start(self, bits):
        z = [Z] * 64
        return {'h': [const(1 if bits == 256 else 0, 8)] * 64, 'N': z, 'S': z, 'part': z, 'pos': 0, '#bits': const(bits, 32)}

    def step(self, D, G, ins):
        G = dict(G)
        part = list(G['part'])
        part[G['pos']] = ins[0]
        G['part'] = part
        G['pos'] += 1
        if G['pos'] == 64:
            G['pos'] = 0
            G['h'] = G512(G['h'], G['N'], part)
            G['N'] = add(G['N'], const(512, 512))
            G['S'] = add(G['S'], part)
        self.dep(G)
        return G, None

    def dep(self, G):
        G['N'] = [Z] + G['N'][1:]       # a multiple of 512
        G['part'] = G['part'][:G['pos']] + [Z] * (64 - G['pos'])

    def inv(self, G):
        b = G['#bits']
        return [tm.or_(tm.eq(b, const(256, 32)), tm.eq(b, const(512, 32)))]

    def derived(self, G):
        return {'left': const(G['pos'], 64)}

    def final(self, D, G):
        z = [Z] * 64
        n = G['pos']
        m = G['part'][:n] + [const(1, 8)] + [Z] * (63 - n)
        h = G512(G['h'], G['N'], m)
        N = add(G['N'], const(8 * n, 512))
        S = add(G['S'], m)
        h = G512(h, z, N)
        h = G512(h, z, S)
        return h[32:] if D(tm.eq(G['#bits'], const(256, 32))) else h

    def size(self, D, G):
        return 32 if D(tm.eq(G['#bits'], const(256, 32))) else 64


def g(ex, s, a, i):
    h = ex.read_bytes(s, a[0], 64, i.line)
    N = ex.read_bytes(s, a[1], 64, i.line)
    m = ex.read_bytes(s, a[2], 64, i.line)
    ex.write_bytes(s, a[0], G512(h, N, m), i.line)


def add512(ex, s, a, i):
    x = ex.read_bytes(s, a[0], 64, i.line)
    y = ex.read_bytes(s, a[1], 64, i.line)
    ex.write_bytes(s, a[0], add(x, y), i.line)


def helpers(p):
    def gg(R):
        S = sp.Streebog(sp.TermOps)
        ex = Exec(p, {}, model.BASE, limit=200)
        st = State()
        a = [model.sym(st, n, 64) for n in 'hNm']
        h, N, m = (model.symbytes(n, 64) for n in 'hNm')
        st, _ = model.run1(ex, st, 'g', a)
        W = lambda b: [tm.concat(b[8 * i:8 * i + 8]) for i in range(8)]
        R.eq('g: compression function', st.bytes(a[0], 64), sum((tm.bytes_of(w) for w in S.g(W(h), W(N), W(m))), []), st.pc)
        R.eq('g: message unchanged', st.bytes(a[2], 64), m, st.pc)
        R.eq('g: counter unchanged', st.bytes(a[1], 64), N, st.pc)
        R.absorb(ex, 'g')

    def addt(R):
        ex = Exec(p, {}, model.BASE, limit=200)
        st = State()
        x, y = model.sym(st, 'x', 64), model.sym(st, 'y', 64)
        X, Y = model.symbytes('x', 64), model.symbytes('y', 64)
        st, _ = model.run1(ex, st, 'add512', [x, y])
        R.eq('add512: sum modulo 2^512', st.bytes(x, 64), add(X, Y), st.pc)
        R.eq('add512: right operand unchanged', st.bytes(y, 64), Y, st.pc)
        R.absorb(ex, 'add512')
    return [('g', gg), ('add512', addt)]


GLOB = {256: 'GostR3411_2012_256_digest', 512: 'GostR3411_2012_512_digest'}


def prove(R):
    p = model.prog(SRC, R.tmp)
    C = {'g': g, 'add512': add512}
    n = probe(['stddef.h', 'gosthash2012.h'], ['offsetof(gost2012_hash_ctx, bufsize)'], workdir=R.tmp)
    pins = [('cd', list(n.values())[0], 8)]
    Ss = {b: mh.MSetup(R, p, GLOB[b], C) for b in GLOB}

    def begin(bits):
        def f(R, S, M):
            out = []
            for b in bits:
                for x, v in Ss[b].call(Ss[b].st.fork(), 'init'):
                    R.cond('init succeeds', tm.eq(v, const(1, 32)), x.pc)
                    out.append((x, M.start(b)))
            return out
        return f
    same = all(em.fname(Ss[256].meth[k]) == em.fname(Ss[512].meth[k]) for k in ('update', 'final'))
    T = helpers(p)
    for bits in ([(256, 512)] if same else [(256,), (512,)]):
        T += mh.prove_blocks(R, p, GLOB[bits[0]], 'streebog', Streebog, C, begin(bits), lambda D, G: Streebog().size(D, G), 64, 64, pins=pins)
    R.contracts.update({'g': 'proved', 'add512': 'proved'})
    R.parallel(T)


def msg(S):
    rng = S.rng
    n = xcheck.rnd_len(S, 1000, 1, (64, 128, 192, 256, 512, 8192))
    r = rng.random()
    if r < 0.4:
        return rng.randbytes(n)
    if r < 0.6:
        return b'\xff' * n
    if r < 0.8:
        # carries through the checksum
        return b''.join(rng.choice((b'\xff' * 64, b'\1' + bytes(63), bytes(63) + b'\x80', b'\xff' * (8 * rng.randrange(8)) + rng.randbytes(64))) for _ in range(n // 64 + 1))[:n]
    return bytes(rng.choice((0, 1, 127, 128, 254, 255)) for _ in range(n))


def addcase(S):
    rng = S.rng
    V = ctypes.c_void_p
    w = lambda: rng.choice((0, 1, 2**64 - 1, 2**63, 2**32, rng.getrandbits(64)))
    a, b = [w() for _ in range(8)], [w() for _ in range(8)]
    for i in range(8):
        if rng.random() < 0.4:
            b[i] = 2**64 - 1 - a[i] + rng.choice((0, 0, 1))
            b[i] &= 2**64 - 1
    x = sum(v << 64 * i for i, v in enumerate(a))
    y = sum(v << 64 * i for i, v in enumerate(b))
    # 16-byte alignment as in the context
    o = Buf(bytes(x.to_bytes(64, 'little')))
    q = Buf(bytes(y.to_bytes(64, 'little')))
    S.case(kind='add512', x=hex(x), y=hex(y))
    S.lib.fn('add512', None, V, V)(o.p, q.p)
    S.expect(o.get(), ((x + y) % 2**512).to_bytes(64, 'little'), 'add512 is not the sum modulo 2^512')


def search(S):
    E = evp.Engine(S.lib)
    k = 0
    while S.more():
        k += 1
        if k % 8 == 0 and S.lib.has('add512'):
            for _ in range(20):
                addcase(S)
            continue
        bits = (256, 512)[k % 2]
        xcheck.mac_case(S, E, 'md_gost12_%d' % bits, lambda k, d, p: sp.streebog(d, bits), (None,), marks=(64, 128, 8192), big=9000, keyed=False, data=msg(S) if k % 3 else None)
