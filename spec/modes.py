"""Executable oracles of the modes, written from the standards (RFC 4357, GOST R 34.13-2015,
R 1323565.1.017, RFC 9058, R 1323565.1.022); one-shot functions on whole messages."""
from .ciphers import (IntOps, G89, Kuz, key_words_le, key_words_be, T_LS, T_LI, T_L, KC, PI, PI_INV, le, f_tables, hmac_streebog256)

X = lambda a, b: bytes(p ^ q for p, q in zip(a, b))
MASK32 = 0xffffffff


# ---------------------------------------------------------------- fast block ciphers (from the same tables)
class FastG89:
    bl = 8

    def __init__(self, sbox, key, big=False):
        self.t = f_tables(sbox)
        self.sbox = sbox
        self.big = big
        self.setkey(key)

    def setkey(self, key):
        self.key = bytes(key)
        self.k = key_words_be(key) if self.big else key_words_le(key)

    def _run(self, a, b, order):
        t0, t1, t2, t3 = self.t
        k = self.k
        for i in order:
            x = (a + k[i]) & MASK32
            a, b = b ^ t0[x & 255] ^ t1[x >> 8 & 255] ^ t2[x >> 16 & 255] ^ t3[x >> 24], a
        return a, b

    def enc(self, blk, order=G89.ENC):
        if self.big:
            b = int.from_bytes(blk, 'big')
            x, y = self._run(b & MASK32, b >> 32, order)
            return (y | x << 32).to_bytes(8, 'big')
        b = int.from_bytes(blk, 'little')
        x, y = self._run(b & MASK32, b >> 32, order)
        return (y | x << 32).to_bytes(8, 'little')

    def dec(self, blk):
        return self.enc(blk, G89.DEC)

    def mac(self, blk):
        b = int.from_bytes(blk, 'little')
        x, y = self._run(b & MASK32, b >> 32, G89.MAC)
        return (x | y << 32).to_bytes(8, 'little')


_kz = None


class FastKuz:
    bl = 16

    def __init__(self, key):
        self.setkey(key)

    def setkey(self, key):
        global _kz
        if _kz is None:
            _kz = Kuz(IntOps)
        self.key = bytes(key)
        self.ks = _kz.schedule(list(key))

    def enc(self, blk):
        x = int.from_bytes(blk, 'little')
        for i in range(9):
            b = (x ^ self.ks[i]).to_bytes(16, 'little')
            x = 0
            for t, v in zip(T_LS, b):
                x ^= t[v]
        return (x ^ self.ks[9]).to_bytes(16, 'little')

    def dec(self, blk):
        return bytes(_kz.dec(self.ks, list(blk)))


# ---------------------------------------------------------------- RFC 4357
MESH_C = bytes.fromhex('6900722264C904238D3ADB9646E92AC418FEAC9400ED0712C086DCC2EF4CA92B')


def cp_mesh(c, iv):
    k = b''.join(c.dec(MESH_C[i:i + 8]) for i in range(0, 32, 8))
    c.setkey(k)
    return c.enc(iv) if iv is not None else None


def g89_cfb(key, iv, data, sbox, enc, mesh=True):
    c = FastG89(sbox, key)
    out = b''
    for i in range(0, len(data), 8):
        if mesh and i and i % 1024 == 0:
            iv = cp_mesh(c, iv)
        g = c.enc(iv)
        p = data[i:i + 8]
        o = X(p, g)
        out += o
        iv = o if enc else p
    return out


def g89_cnt(key, iv, data, sbox, mesh=True):
    c = FastG89(sbox, key)
    out = b''
    s = c.enc(iv)
    for i in range(0, len(data), 8):
        if mesh and i and i % 1024 == 0:
            s = cp_mesh(c, s)
        a = int.from_bytes(s[:4], 'little')
        b = int.from_bytes(s[4:], 'little')
        a = (a + 0x01010101) & MASK32
        b = b + 0x01010104
        if b >= 1 << 32:
            b = b - (1 << 32) + 1       # addition modulo 2^32-1 (carry is added back)
        s = a.to_bytes(4, 'little') + (b & MASK32).to_bytes(4, 'little')
        out += X(data[i:i + 8], c.enc(s))
    return out


def imit(key, data, sbox, size=4, mesh=True):
    """8-byte state; `size` bytes of it are the MAC"""
    c = FastG89(sbox, key)
    d = bytes(data)
    blocks = [d[i:i + 8].ljust(8, b'\0') for i in range(0, len(d), 8)]
    if len(blocks) == 1:
        blocks = [blocks[0], bytes(8)] if True else blocks
    s = bytes(8)
    for i, b in enumerate(blocks):
        if mesh and i and (8 * i) % 1024 == 0:
            cp_mesh(c, None)
        s = c.mac(X(s, b))
    return s


# ---------------------------------------------------------------- GOST R 34.13
def ecb(c, data, enc):
    f = c.enc if enc else c.dec
    return b''.join(f(data[i:i + c.bl]) for i in range(0, len(data), c.bl))


def cbc(c, iv, data, enc):
    out = b''
    for i in range(0, len(data), c.bl):
        b = data[i:i + c.bl]
        if enc:
            iv = c.enc(X(b, iv))
            out += iv
        else:
            out += X(c.dec(b), iv)
            iv = b
    return out


def ofb(c, iv, data):
    out = b''
    for i in range(0, len(data), c.bl):
        iv = c.enc(iv)
        out += X(data[i:i + c.bl], iv)
    return out


def cfb(c, iv, data, enc):
    out = b''
    for i in range(0, len(data), c.bl):
        p = data[i:i + c.bl]
        o = X(p, c.enc(iv))
        out += o
        iv = o if enc else p
    return out


ACPKM_D = bytes(range(0x80, 0xa0))


def acpkm(c):
    c.setkey(b''.join(c.enc(ACPKM_D[i:i + c.bl]) for i in range(0, 32, c.bl)))


def ctr(c, ctr0, data, section=0):
    """ctr0: the whole initial counter block"""
    out = []
    n = int.from_bytes(ctr0, 'big')
    m = (1 << (8 * c.bl)) - 1
    for i in range(0, len(data), c.bl):
        if section and i and i % section == 0:
            acpkm(c)
        out.append(X(data[i:i + c.bl], c.enc(n.to_bytes(c.bl, 'big'))))
        n = (n + 1) & m
    return b''.join(out)


def dbl(b):
    n = 8 * len(b)
    v = int.from_bytes(b, 'big') << 1
    if v >> n:
        v = (v ^ (0x87 if n == 128 else 0x1b)) & ((1 << n) - 1)
    return v.to_bytes(len(b), 'big')


def omac(c, data):
    bl = c.bl
    k1 = dbl(c.enc(bytes(bl)))
    k2 = dbl(k1)
    s = bytes(bl)
    n = max(1, (len(data) + bl - 1) // bl)
    for i in range(n - 1):
        s = c.enc(X(s, data[bl * i:bl * i + bl]))
    last = data[bl * (n - 1):]
    last = X(last, k1) if len(last) == bl else X((last + b'\x80').ljust(bl, b'\0'), k2)
    return c.enc(X(s, last))


def omac_acpkm(mk, key, data, section, tstar):
    """R 1323565.1.017 OMAC-ACPKM; mk(key) makes the cipher"""
    bl = mk(key).bl
    n = max(1, (len(data) + bl - 1) // bl)
    per = section // bl
    nsec = (n + per - 1) // per
    ks = ctr(mk(key), b'\xff' * (bl // 2) + bytes(bl - bl // 2), bytes((32 + bl) * nsec), tstar)
    s = bytes(bl)
    for i in range(n):
        m = ks[(32 + bl) * (i // per):][:32 + bl]
        if i % per == 0:
            c = mk(m[:32])
        k1 = m[32:]
        b = data[bl * i:bl * i + bl]
        if i == n - 1:
            b = X(b, k1) if len(b) == bl else X((b + b'\x80').ljust(bl, b'\0'), dbl(k1))
        s = c.enc(X(s, b))
    return s


# ---------------------------------------------------------------- MGM
def gfmul(a, b, bl):
    n = 8 * bl
    p = 0x87 if bl == 16 else 0x1b
    x = int.from_bytes(a, 'big')
    y = int.from_bytes(b, 'big')
    r = 0
    while y:
        if y & 1:
            r ^= x
        x <<= 1
        if x >> n:
            x = (x ^ p) & ((1 << n) - 1)
        y >>= 1
    return r.to_bytes(bl, 'big')


def mgm(c, nonce, aad, data, enc=True):
    """-> output, tag (of full block length)"""
    bl = c.bl
    h = bl // 2
    m = (1 << (8 * h)) - 1
    y = c.enc(bytes([nonce[0] & 0x7f]) + nonce[1:])
    z = c.enc(bytes([nonce[0] | 0x80]) + nonce[1:])
    out = b''
    for i in range(0, len(data), bl):
        out += X(data[i:i + bl], c.enc(y))
        y = y[:h] + ((int.from_bytes(y[h:], 'big') + 1) & m).to_bytes(h, 'big')
    ct = out if enc else data
    blocks = [aad[i:i + bl].ljust(bl, b'\0') for i in range(0, len(aad), bl)]
    blocks += [ct[i:i + bl].ljust(bl, b'\0') for i in range(0, len(ct), bl)]
    blocks.append((8 * len(aad)).to_bytes(h, 'big') + (8 * len(ct)).to_bytes(h, 'big'))
    s = bytes(bl)
    for b in blocks:
        s = X(s, gfmul(c.enc(z), b, bl))
        z = ((int.from_bytes(z[:h], 'big') + 1) & m).to_bytes(h, 'big') + z[h:]
    return out, c.enc(s)


# ---------------------------------------------------------------- KDF
def be_min(n):
    return n.to_bytes(max(1, (n.bit_length() + 7) // 8), 'big')


def kdftree(key, label, seed, length, R):
    """R 1323565.1.022 KDF_TREE_GOSTR3411_2012_256; length in bytes"""
    out = b''
    L = be_min(8 * length)
    i = 1
    while len(out) < length:
        out += hmac_streebog256(key, i.to_bytes(R, 'big') + label + b'\0' + seed + L)
        i += 1
    return out[:length]


def kdf(key, label, seed):
    return kdftree(key, label, seed, 32, 1)


TLSTREE_C = {
    'magma': (0xFFFFFFC000000000, 0xFFFFFFFFFE000000, 0xFFFFFFFFFFFFF000),
    'kuznyechik': (0xFFFFFFFF00000000, 0xFFFFFFFFFFF80000, 0xFFFFFFFFFFFFFFC0),
}


def tlstree(which, key, seq):
    n = int.from_bytes(seq, 'big')
    for i, c in enumerate(TLSTREE_C[which]):
        key = kdf(key, b'level%d' % (i + 1), (n & c).to_bytes(8, 'big'))
    return key


# ---------------------------------------------------------------- CTR-ACPKM-OMAC
def ctr_acpkm_omac(which, key, iv, data, seed, section):
    """-> ciphertext, encrypted tag"""
    ks = kdftree(key, b'kdf tree', seed, 64, 1)
    mk = (lambda k: FastKuz(k)) if which == 'kuznyechik' else (lambda k: FastG89('Gost28147_TC26ParamSetZ', k, True))
    c = mk(ks[:32])
    bl = c.bl
    tag = omac(mk(ks[32:]), data)
    out = ctr(c, iv.ljust(bl, b'\0'), data + tag, section)
    return out[:len(data)], out[len(data):]


# ---------------------------------------------------------------- key wrap
def cp_diversify(sbox, ukm, kek):
    k = bytes(kek)
    for i in range(8):
        w = key_words_le(k)
        s = [0, 0]
        for j in range(8):
            s[0 if ukm[i] >> j & 1 else 1] += w[j]
        iv = (s[0] & MASK32).to_bytes(4, 'little') + (s[1] & MASK32).to_bytes(4, 'little')
        k = g89_cfb(k, iv, k, sbox, True, mesh=False)
    return k


def mac_iv(key, iv, data, sbox):
    c = FastG89(sbox, key)
    s = iv
    for i in range(0, len(data), 8):
        s = c.mac(X(s, data[i:i + 8]))
    return s


def cp_wrap(sbox, kek, ukm, cek):
    k = cp_diversify(sbox, ukm, kek)
    c = FastG89(sbox, k)
    return ukm + ecb(c, cek, True) + mac_iv(k, ukm, cek, sbox)[:4]


def kexp15(which, shared, kenc, kmac, iv):
    mk = (lambda k: FastKuz(k)) if which == 'kuznyechik' else (lambda k: FastG89('Gost28147_TC26ParamSetZ', k, True))
    m = omac(mk(kmac), iv + shared)
    c = mk(kenc)
    return ctr(c, iv.ljust(c.bl, b'\0'), shared + m)
