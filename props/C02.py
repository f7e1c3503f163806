"""GOST 28147-89 counter mode (CNT)."""
import ctypes as C
from dv import evp, xcheck, model, g89, cphist as ch
from spec import modes as m, tasks as t
from spec.ciphers import SBOX_NAMES
from props.C05 import SRC
from props.C01 import OPEN

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 15, 200, 100
SETS = [s for s in SBOX_NAMES if s in t.OID]


def prove(R):
    p = model.prog(SRC, R.tmp)
    C = g89.contracts(R)
    g89.nid_probe(R)
    T = []
    for glob, name, df in (('Gost28147_89_cnt_cipher', 'gost89-cnt', t.A), ('Gost28147_89_cnt_12_cipher', 'gost89-cnt-12', t.Z)):
        st = {'nid': None, 'default': df, 'param': False}
        D = dict(C)
        D.update(g89.param_contracts(st))
        T += ch.prove_mode(R, p, glob, name, lambda enc, df=df: g89.CNT89(df), D, persist=('#mesh',), begin=g89.sboxes(st, cms=False))
    R.contracts['OBJ_*, get_gost_engine_param'] = OPEN
    R.parallel(T)


def params(default):
    def f(S):
        sb = S.rng.choice(SETS) if S.rng.random() < 0.4 else None
        mesh = S.rng.random() < 0.85

        def apply(c, S):
            if sb and c.ctrl(evp.EVP_CTRL_SET_SBOX, 0, C.c_char_p(t.OID[sb])) <= 0:
                return False
            if not mesh and c.ctrl(evp.EVP_CTRL_KEY_MESH, 0) <= 0:
                return False
        return (sb or default, mesh), apply
    return f


def search(S):
    E = evp.Engine(S.lib)
    o = lambda k, iv, d, e, p: m.g89_cnt(k, iv, d, p[0], p[1])
    n = 0
    while S.more():
        n += 1
        sn, df = (('gost89-cnt', t.A), ('gost89-cnt-12', t.Z))[n % 2]
        xcheck.cipher_case(S, E, sn, 8, o, marks=(1024, 2048, 3072), big=4500, ctrls=params(df))
        if n % 7 == 0:
            wrap(S, E)


def wrap(S, E):
    """the counter addition next to its wrap-around: S = E_K(IV) is chosen by decrypting it"""
    rng = S.rng
    key = S.bytes(32)
    g = m.FastG89(t.A, key)
    a = (0x100000000 - 0x01010101 * rng.randrange(1, 4) + rng.randrange(-1, 2)) & 0xffffffff
    b = (0x100000000 - 0x01010104 * rng.randrange(1, 4) + rng.randrange(-2, 3)) & 0xffffffff
    iv = g.dec(a.to_bytes(4, 'little') + b.to_bytes(4, 'little'))
    d = bytes(40)
    S.case(kind='gost89-cnt near wrap', key=key, iv=iv)
    c = evp.Cipher(E, 'gost89-cnt')
    c.init(key, iv, 1)
    got = c.update(d)
    c.free()
    S.expect(got, m.g89_cnt(key, iv, d, t.A), 'gost89-cnt disagrees with the standard near a counter wrap')
