"""GOST 28147-89 CFB."""
import ctypes as C
from dv import evp, xcheck, model, g89, cphist as ch
from dv.real import Buf
from spec import modes as m, tasks as t
from spec.ciphers import SBOX_NAMES
from props.C05 import SRC

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 15, 200, 100
SETS = [s for s in SBOX_NAMES if s in t.OID]


OPEN = 'assumed: object database and engine parameter store (gost_params.c); ASN.1 decoder of the CMS parameters (any IV, any set, or a failure)'


def prove(R):
    p = model.prog(SRC, R.tmp)
    C = g89.contracts(R)
    g89.nid_probe(R)
    st = {'nid': None}
    C.update(g89.param_contracts(st))
    R.contracts['OBJ_*, get_gost_engine_param, d2i_GOST_CIPHER_PARAMS'] = OPEN
    R.parallel(ch.prove_mode(R, p, 'Gost28147_89_cipher', 'gost89 (CFB)', lambda enc: g89.CFB89(not enc), C,
                             persist=('cmsiv', '#mesh'), begin=g89.sboxes(st)))


def params(S):
    """S-box set by control (fixed at the first initialisation), meshing switched off by control"""
    sb = S.rng.choice(SETS) if S.rng.random() < 0.6 else None
    mesh = S.rng.random() < 0.8

    def apply(c, S):
        if sb and c.ctrl(evp.EVP_CTRL_SET_SBOX, 0, C.c_char_p(t.OID[sb])) <= 0:
            return False
        if not mesh and c.ctrl(evp.EVP_CTRL_KEY_MESH, 0) <= 0:
            return False
    return (sb or t.Z, mesh), apply


def search(S):
    E = evp.Engine(S.lib)
    o = lambda k, iv, d, e, p: m.g89_cfb(k, iv, d, p[0], e, p[1])
    while S.more():
        xcheck.cipher_case(S, E, 'gost89', 8, o, marks=(1024, 2048, 3072), big=4500, ctrls=params, what='gost89 (CFB)')
