"""Primitives of the standards, written from their definitions, over an abstract set of word
operations: IntOps gives an executable oracle, TermOps gives the verification terms."""
import json
import os
from dv import terms as tm

D = json.load(open(os.path.join(os.path.dirname(__file__), 'tables.json')))


class IntOps:
    @staticmethod
    def xor(a, b, w):
        return a ^ b

    @staticmethod
    def add(a, b, w):
        return (a + b) & ((1 << w) - 1)

    @staticmethod
    def tab(values, w):
        return values

    @staticmethod
    def sel(t, i):
        return t[i]

    @staticmethod
    def byte(x, i):
        return (x >> (8 * i)) & 255

    @staticmethod
    def cat(bs):
        r = 0
        for i, b in enumerate(bs):
            r |= b << (8 * i)
        return r

    @staticmethod
    def c(v, w):
        return v


class TermOps:
    @staticmethod
    def xor(a, b, w):
        return tm.xor(a, b)

    @staticmethod
    def add(a, b, w):
        return tm.add(a, b)

    @staticmethod
    def tab(values, w):
        return tm.table(values, w)

    @staticmethod
    def sel(t, i):
        return tm.sel(t, i)

    @staticmethod
    def byte(x, i):
        return tm.extract(x, 8 * i + 7, 8 * i)

    @staticmethod
    def cat(bs):
        return tm.concat(bs)

    @staticmethod
    def c(v, w):
        return tm.const(v, w)


# ------------------------------------------------------------------ GOST 28147-89
SBOX = D['sbox']
SBOX_NAMES = list(SBOX)


def rotl32(v, n):
    return ((v << n) | (v >> (32 - n))) & 0xffffffff


_ftab = {}


def f_tables(name):
    """byte-wise tables of x -> (S(x) <<< 11); the S layer acts on nibbles, K1 on the lowest"""
    r = _ftab.get(name)
    if r is None:
        k8, k7, k6, k5, k4, k3, k2, k1 = SBOX[name]
        r = []
        for i, (hi, lo) in enumerate(((k2, k1), (k4, k3), (k6, k5), (k8, k7))):
            r.append([rotl32((hi[b >> 4] << 4 | lo[b & 15]) << (8 * i), 11) for b in range(256)])
        _ftab[name] = r
    return r


class G89:
    """order of the round keys per the standard"""
    ENC = list(range(8)) * 3 + list(range(7, -1, -1))
    DEC = list(range(8)) + list(range(7, -1, -1)) * 3
    MAC = list(range(8)) * 2

    def __init__(self, ops, sbox):
        self.o = ops
        self.t = [ops.tab(t, 32) for t in f_tables(sbox)]

    def f(self, x):
        o = self.o
        r = o.sel(self.t[0], o.byte(x, 0))
        for i in (1, 2, 3):
            r = o.xor(r, o.sel(self.t[i], o.byte(x, i)), 32)
        return r

    def rounds(self, n1, n2, keys, order):
        o = self.o
        a, b = n1, n2
        for k in order:
            a, b = o.xor(b, self.f(o.add(a, keys[k], 32)), 32), a
        return a, b

    def crypt(self, keys, block, order):
        """keys: eight 32-bit words; block: 8 bytes little endian halves"""
        o = self.o
        n1, n2 = o.cat(block[:4]), o.cat(block[4:])
        a, b = self.rounds(n1, n2, keys, order)
        # no swap after the last round: N1 and N2 change places
        return [o.byte(b, i) for i in range(4)] + [o.byte(a, i) for i in range(4)]

    def enc(self, keys, block):
        return self.crypt(keys, block, self.ENC)

    def dec(self, keys, block):
        return self.crypt(keys, block, self.DEC)

    def mac(self, keys, block):
        o = self.o
        n1, n2 = o.cat(block[:4]), o.cat(block[4:])
        a, b = self.rounds(n1, n2, keys, self.MAC)
        return [o.byte(a, i) for i in range(4)] + [o.byte(b, i) for i in range(4)]

    def menc(self, keys, block):
        """Magma (GOST R 34.12-2015): the same network in big-endian byte order"""
        return list(reversed(self.crypt(keys, list(reversed(block)), self.ENC)))

    def mdec(self, keys, block):
        return list(reversed(self.crypt(keys, list(reversed(block)), self.DEC)))


def key_words_le(k):
    return [int.from_bytes(bytes(k[4 * i:4 * i + 4]), 'little') for i in range(8)]


def key_words_be(k):
    return [int.from_bytes(bytes(k[4 * i:4 * i + 4]), 'big') for i in range(8)]


# ------------------------------------------------------------------ Kuznyechik
PI = D['pi']
PI_INV = [PI.index(i) for i in range(256)]
LVEC = [148, 32, 133, 16, 194, 192, 1, 251, 1, 192, 194, 16, 133, 32, 148, 1]


def gf8(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= 0x1c3
        b >>= 1
    return r


GF8 = {c: [gf8(x, c) for x in range(256)] for c in set(LVEC)}


def R_(a):
    """a: 16 bytes, most significant first"""
    x = 0
    for i in range(16):
        x ^= GF8[LVEC[i]][a[i]]
    return [x] + a[:15]


def Rinv_(a):
    b = a[1:] + [a[0]]
    x = 0
    for i in range(16):
        x ^= GF8[LVEC[i]][b[i]]
    b[15] = x
    return b


def L_(a):
    for _ in range(16):
        a = R_(a)
    return a


def Linv_(a):
    for _ in range(16):
        a = Rinv_(a)
    return a


def le(bs):
    return int.from_bytes(bytes(bs), 'little')


def _unit(i, b):
    v = [0] * 16
    v[i] = b
    return v


# tables on 128-bit values: byte i of the memory image is bits 8i..8i+7
T_L = [[le(L_(_unit(i, b))) for b in range(256)] for i in range(16)]
T_LI = [[le(Linv_(_unit(i, b))) for b in range(256)] for i in range(16)]
T_LS = [[T_L[i][PI[b]] for b in range(256)] for i in range(16)]
KC = [L_([0] * 15 + [i]) for i in range(1, 33)]


class Kuz:
    def __init__(self, ops):
        self.o = ops
        self.ls = [ops.tab(t, 128) for t in T_LS]
        self.l = [ops.tab(t, 128) for t in T_L]
        self.li = [ops.tab(t, 128) for t in T_LI]
        self.pi = ops.tab(PI, 8)
        self.pii = ops.tab(PI_INV, 8)

    def lin(self, t, x):
        o = self.o
        r = o.sel(t[0], o.byte(x, 0))
        for i in range(1, 16):
            r = o.xor(r, o.sel(t[i], o.byte(x, i)), 128)
        return r

    def sub(self, t, x):
        o = self.o
        return o.cat([o.sel(t, o.byte(x, i)) for i in range(16)])

    def schedule(self, key):
        """key: 32 bytes -> ten 128-bit round keys"""
        o = self.o
        a, b = o.cat(key[:16]), o.cat(key[16:])
        ks = [a, b]
        for i in range(32):
            t = self.lin(self.ls, o.xor(a, o.c(le(KC[i]), 128), 128))
            a, b = o.xor(t, b, 128), a
            if i % 8 == 7:
                ks += [a, b]
        return ks

    def enc(self, ks, block):
        o = self.o
        x = o.cat(block)
        for i in range(9):
            x = self.lin(self.ls, o.xor(x, ks[i], 128))
        x = o.xor(x, ks[9], 128)
        return [o.byte(x, i) for i in range(16)]

    def dec(self, ks, block):
        o = self.o
        x = o.cat(block)
        for i in range(9, 0, -1):
            x = self.sub(self.pii, self.lin(self.li, o.xor(x, ks[i], 128)))
        x = o.xor(x, ks[0], 128)
        return [o.byte(x, i) for i in range(16)]


# ------------------------------------------------------------------ Streebog
SB_C = [[int.from_bytes(bytes.fromhex(c)[8 * j:8 * j + 8], 'little') for j in range(8)] for c in D['streebog_C']]
SB_A = [[int(x, 16) for x in r] for r in D['streebog_A']]


def _sb_tables():
    # the linear map l: bit 63-j (from the top) of a 64-bit word selects row j of A
    rows = []          # rows[k] for bit k
    for j in range(8):
        rows += SB_A[j]
    out = []
    for j in range(8):
        t = []
        for b in range(256):
            v = 0
            s = PI[b]
            for k in range(8):
                if s >> k & 1:
                    v ^= rows[8 * j + k]
            t.append(v)
        out.append(t)
    return out


SB_T = _sb_tables()


class Streebog:
    """the 512-bit values are lists of eight 64-bit words, least significant first"""

    def __init__(self, ops):
        self.o = ops
        self.t = [ops.tab(t, 64) for t in SB_T]

    def x(self, a, b):
        return [self.o.xor(p, q, 64) for p, q in zip(a, b)]

    def lps(self, a):
        # P transposes the 8x8 byte matrix: byte j of output word i is byte i of word j
        o = self.o
        out = []
        for i in range(8):
            r = o.sel(self.t[0], o.byte(a[0], i))
            for j in range(1, 8):
                r = o.xor(r, o.sel(self.t[j], o.byte(a[j], i)), 64)
            out.append(r)
        return out

    def g(self, h, n, m):
        o = self.o
        k = self.lps(self.x(h, n))
        s = m
        for i in range(12):
            s = self.lps(self.x(k, s))
            k = self.lps(self.x(k, [o.c(v, 64) for v in SB_C[i]]))
        return self.x(self.x(self.x(s, k), h), m)


def streebog(msg, bits):
    S = Streebog(IntOps)
    W = lambda v: [(v >> (64 * i)) & (2**64 - 1) for i in range(8)]
    V = lambda w: sum(x << (64 * i) for i, x in enumerate(w))
    M = (1 << 512) - 1
    h = W(0 if bits == 512 else int.from_bytes(b'\1' * 64, 'little'))
    n = sg = 0
    msg = bytes(msg)
    i = 0
    while len(msg) - i >= 64:
        m = int.from_bytes(msg[i:i + 64], 'little')
        h = S.g(h, W(n), W(m))
        n = (n + 512) & M
        sg = (sg + m) & M
        i += 64
    rest = msg[i:]
    m = int.from_bytes(rest + b'\1' + bytes(63 - len(rest)), 'little')
    h = S.g(h, W(n), W(m))
    n = (n + 8 * len(rest)) & M
    sg = (sg + m) & M
    h = S.g(h, W(0), W(n))
    h = S.g(h, W(0), W(sg))
    r = V(h).to_bytes(64, 'little')
    return r if bits == 512 else r[32:]


def hmac_streebog256(key, msg):
    key = bytes(key)
    if len(key) > 64:
        key = streebog(key, 256)
    key = key + bytes(64 - len(key))
    return streebog(bytes(x ^ 0x5c for x in key) + streebog(bytes(x ^ 0x36 for x in key) + bytes(msg), 256), 256)


# ------------------------------------------------------------------ GOST R 34.11-94
def g94_step(H, M, enc, xor):
    """H, M: 32 bytes little endian; enc(key32, block8) the GOST 28147-89 encryption; xor on bytes.
    RFC 5831 section 5: key generation, enciphering, mixing."""
    def A(Y):
        # Y = y4||y3||y2||y1 (y1 lowest) -> (y1 xor y2)||y4||y3||y2
        return Y[8:] + [xor(p, q) for p, q in zip(Y[0:8], Y[8:16])]

    def P(Y):
        # phi(i + 1 + 4(k-1)) = 8i + k
        out = [None] * 32
        for i in range(4):
            for k in range(1, 9):
                out[i + 1 + 4 * (k - 1) - 1] = Y[8 * i + k - 1]
        return out
    C3 = bytes.fromhex('ff00ffff000000ffff0000ff00ffff00ff00ff00ff00ff00ffff00ff00ffff00'[:0] + 'ff00ffff000000ffff0000ff00ffff0000ff00ff00ff00ffff00ff00ff00ff00')
    C3 = list(reversed(C3))
    X = lambda a, b: [xor(p, q) for p, q in zip(a, b)]
    U, V = list(H), list(M)
    S = enc(P(X(U, V)), H[0:8])
    for i in (2, 3, 4):
        U = A(U)
        if i == 3:
            U = X(U, C3)
        V = A(A(V))
        S = S + enc(P(X(U, V)), H[8 * (i - 1):8 * i])

    def psi(Y, n):
        Y = list(Y)
        for _ in range(n):
            t = []
            for b in (0, 1):
                v = Y[b]
                for q in (2, 4, 6, 24, 30):
                    v = xor(v, Y[q + b])
                t.append(v)
            Y = Y[2:] + t
        return Y
    return psi(X(H, psi(X(M, psi(S, 12)), 1)), 61)


def gost94(msg, sbox='GostR3411_94_CryptoProParamSet'):
    g = G89(IntOps, sbox)
    enc = lambda k, b: g.enc(key_words_le(k), b)
    x = lambda a, b: a ^ b
    msg = bytes(msg)
    H = [0] * 32
    S = 0
    i = 0
    while len(msg) - i > 32:
        H = g94_step(H, list(msg[i:i + 32]), enc, x)
        S += int.from_bytes(msg[i:i + 32], 'little')
        i += 32
    m = msg[i:] + bytes(32 - len(msg[i:]))
    S = (S + int.from_bytes(m, 'little')) & ((1 << 256) - 1)
    H = g94_step(H, list(m), enc, x)
    H = g94_step(H, list((8 * len(msg)).to_bytes(32, 'little')), enc, x)
    H = g94_step(H, list(S.to_bytes(32, 'little')), enc, x)
    return bytes(H)
