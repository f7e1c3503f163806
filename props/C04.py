"""Magma CTR and CTR-ACPKM."""
from dv import evp, xcheck, model, g89, cphist as ch, machines as mc, evpmodel as em
from spec import modes as m, tasks as t

from props.C05 import SRC
from props.C01 import OPEN
from props.C06 import sections, cms_contracts

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 15, 200, 100


def prove(R):
    p = model.prog(SRC, R.tmp)
    C = g89.contracts(R)
    C.update(g89.param_contracts({'nid': None}))
    C['inc_counter'] = em.inc_counter
    C.update(cms_contracts(8))
    R.attempt('inc_counter', em.prove_inc, R, p)
    R.contracts['OBJ_*, get_gost_engine_param'] = OPEN
    R.contracts['gost2015_set_asn1_params, gost2015_get_asn1_params'] = 'assumed: codec of the CMS parameters; a failure may be reported'
    T = ch.prove_mode(R, p, 'magma_ctr_cipher', 'magma-ctr', lambda enc: mc.CTR(g89.magma, 8, g89.magder), C, nokey=True)
    T += ch.prove_mode(R, p, 'magma_ctr_acpkm_cipher', 'magma-ctr-acpkm', lambda enc: mc.ACPKM(g89.magma, 8, g89.magder), C, nokey=True,
                       begin=sections(3, 1024, refuse=False), persist=('cmsiv', '#sec'))
    R.parallel(T)


def section(S):
    r = S.rng.random()
    if r < 0.3:
        return (1024,), None
    n = S.rng.choice((8, 16, 24, 32, 64, 120, 512, 1024, 2048, 0))

    def apply(c, S):
        return c.ctrl(evp.EVP_CTRL_KEY_MESH, n) > 0
    return (n,), apply


def search(S):
    E = evp.Engine(S.lib)
    n = 0
    while S.more():
        n += 1
        if n % 2:
            xcheck.cipher_case(S, E, 'magma-ctr', 4, lambda k, iv, d, e, p: m.ctr(t.mg(k), t.pad(iv, 8), d), marks=(2048,))
        else:
            xcheck.cipher_case(S, E, 'magma-ctr-acpkm', 4, lambda k, iv, d, e, p: m.ctr(t.mg(k), t.pad(iv, 8), d, p[0]), ctrls=section, marks=(8, 16, 64, 1024, 2048))
        if n % 5 == 0:
            carry(S, E)


def carry(S, E):
    """counter carries that a message of practical length never reaches: the counter block of a
    used context is set through EVP's own IV buffer"""
    rng = S.rng
    key = S.bytes(32)
    k = rng.randrange(0, 9)
    ctr0 = S.bytes(8 - k) + b'\xff' * k
    ctr0 = ctr0[:7] + bytes([max(0, ctr0[7] - rng.randrange(0, 3))])
    sn = rng.choice(('magma-ctr', 'magma-ctr-acpkm'))
    d = S.bytes(60)
    S.case(kind=sn + ' counter carry', key=key, counter=ctr0)
    c = evp.Cipher(E, sn)
    c.init(key, ctr0[:4], 1)
    f = E.f('EVP_CIPHER_CTX_iv_noconst', evp.P, evp.P)
    import ctypes
    ctypes.memmove(f(c.x), ctr0, 8)
    got = c.update(d[:20]) + c.update(d[20:])
    c.free()
    S.expect(got, m.ctr(t.mg(key), ctr0, d), sn + ' disagrees with the standard at a counter carry')
