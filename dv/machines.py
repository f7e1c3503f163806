"""Step machines: the stream specifications of GOST R 34.13-2015 / RFC 4357 over an abstract block cipher."""
from . import terms as tm
from .terms import const
from .hist import Machine
from .cphist import CTR, be, unbe

Z = const(0, 8)


def xorl(a, b):
    return [tm.xor(x, y) for x, y in zip(a, b)]


class ECB(Machine):
    def __init__(self, E, bs, derived=None, part=False):
        self.E, self.bs, self.unit = E, bs, bs
        self.der = derived

    def start(self, key, iv=()):
        return {'K': list(key)}

    def step(self, D, G, ins):
        return G, self.E(G['K'], ins)

    def derived(self, G):
        return self.der(G) if self.der else {}


class CBC(ECB):
    """E: encryption or decryption of one block, dec: direction"""

    def __init__(self, E, bs, dec, derived=None):
        ECB.__init__(self, E, bs, derived)
        self.dec = dec

    def start(self, key, iv):
        return {'K': list(key), 'c': list(iv)}

    def step(self, D, G, ins):
        if self.dec:
            o = xorl(self.E(G['K'], ins), G['c'])
            c = list(ins)
        else:
            o = self.E(G['K'], xorl(ins, G['c']))
            c = o
        return dict(G, c=c), o


class OFB(Machine):
    def __init__(self, E, bs, derived=None):
        self.E, self.bs, self.der = E, bs, derived

    def start(self, key, iv):
        return {'K': list(key), 'gm': list(iv), 'pos': 0}

    def step(self, D, G, ins):
        G = dict(G)
        if G['pos'] == 0:
            G['gm'] = self.E(G['K'], G['gm'])
        o = tm.xor(ins[0], G['gm'][G['pos']])
        G['pos'] = (G['pos'] + 1) % self.bs
        return G, [o]

    def derived(self, G):
        return self.der(G) if self.der else {}


class CFB(OFB):
    def __init__(self, E, bs, dec, derived=None):
        OFB.__init__(self, E, bs, derived)
        self.dec = dec

    def start(self, key, iv):
        return {'K': list(key), 'iv': list(iv), 'gm': [Z] * self.bs, 'pos': 0}

    def step(self, D, G, ins):
        G = dict(G)
        if G['pos'] == 0:
            G['gm'] = self.E(G['K'], G['iv'])
        p = G['pos']
        o = tm.xor(ins[0], G['gm'][p])
        iv = list(G['iv'])
        iv[p] = ins[0] if self.dec else o
        G['iv'] = iv
        G['pos'] = (p + 1) % self.bs
        return G, [o]


ACPKM_D = [const(0x80 + i, 8) for i in range(32)]


class ACPKM(CTR):
    """counter mode with the ACPKM transform after every full section; '#s' = section size in blocks (0: never)"""

    def __init__(self, E, bs, derived=None, D=ACPKM_D):
        CTR.__init__(self, E, bs, derived)
        self.D = D
        self.lg = bs.bit_length() - 1

    def start(self, key, iv, s=None):
        G = CTR.start(self, key, iv)
        G['#s'] = s
        return G

    def restart(self, G, iv):
        return self.start(G['K'], iv, G['#s'])

    def rekey(self, G, key, iv):
        return self.start(key, iv, G['#s'])

    def acpkm(self, K):
        o = []
        for i in range(0, 32, self.bs):
            o += self.E(K, self.D[i:i + self.bs])
        return o

    def step(self, D, G, ins):
        if G['pos'] == 0:
            s, n = G['#s'], G['#blk']
            if D(tm.and_(tm.not_(tm.eq(s, const(0, s.w))), tm.ule(s, n))):
                G = dict(G, K=self.acpkm(G['K']))
                G['#blk'] = const(0, n.w)
        return CTR.step(self, D, G, ins)

    def inv(self, G):
        s, n = G['#s'], G['#blk']
        if G['pos']:
            return [tm.or_(tm.eq(s, const(0, s.w)), tm.ult(n, s))]
        return [tm.or_(tm.eq(s, const(0, s.w)), tm.ule(n, s))]

    def derived(self, G):
        d = CTR.derived(self, G)
        d['section'] = tm.concat([const(0, self.lg), G['#s']])
        return d
