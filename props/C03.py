"""GOST 28147-89 CBC, Magma ECB and CBC."""
import ctypes as C
from dv import evp, xcheck, model, g89, cphist as ch, machines as mc
from spec import modes as m, tasks as t
from spec.ciphers import SBOX_NAMES
from props.C05 import SRC
from props.C01 import OPEN

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 15, 200, 100
SETS = [s for s in SBOX_NAMES if s in t.OID]


def prove(R):
    p = model.prog(SRC, R.tmp)
    C = g89.contracts(R)
    g89.nid_probe(R)
    R.contracts['OBJ_*, get_gost_engine_param, d2i_GOST_CIPHER_PARAMS'] = OPEN
    st = {'nid': None}
    C.update(g89.param_contracts(st))
    T = ch.prove_mode(R, p, 'Gost28147_89_cbc_cipher', 'gost89-cbc', lambda enc: g89.CBC89(not enc), C, block=8, persist=('cmsiv',), begin=g89.sboxes(st, mesh=False))
    T += ch.prove_mode(R, p, 'magma_ecb_cipher', 'magma-ecb', lambda enc: mc.ECB(lambda K, b: g89.magma(K, b, not enc), 8, g89.magder), C, block=8)
    T += ch.prove_mode(R, p, 'magma_cbc_cipher', 'magma-cbc', lambda enc: mc.CBC(lambda K, b: g89.magma(K, b, not enc), 8, not enc, g89.magder), C, block=8)
    R.parallel(T)
    ch.inverse_lemma(R, 'ECB', lambda E, D: (mc.ECB(E, 8), mc.ECB(D, 8)), 8, 2)
    ch.inverse_lemma(R, 'CBC', lambda E, D: (mc.CBC(E, 8, False), mc.CBC(D, 8, True)), 8, 3)


def params(S):
    sb = S.rng.choice(SETS) if S.rng.random() < 0.6 else None

    def apply(c, S):
        if sb and c.ctrl(evp.EVP_CTRL_SET_SBOX, 0, C.c_char_p(t.OID[sb])) <= 0:
            return False
    return (sb or t.Z,), apply


def search(S):
    E = evp.Engine(S.lib)
    n = 0
    while S.more():
        n += 1
        if n % 3 == 0:
            xcheck.cipher_case(S, E, 'gost89-cbc', 8, lambda k, iv, d, e, p: m.cbc(m.FastG89(p[0], k), iv, d, e), unit=8, ctrls=params, inplace=True, marks=(1024,))
        elif n % 3 == 1:
            xcheck.cipher_case(S, E, 'magma-ecb', 0, lambda k, iv, d, e, p: m.ecb(t.mg(k), d, e), unit=8)
        else:
            xcheck.cipher_case(S, E, 'magma-cbc', 8, lambda k, iv, d, e, p: m.cbc(t.mg(k), iv, d, e), unit=8)
