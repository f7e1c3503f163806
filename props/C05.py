"""Kuznyechik ECB/CBC/OFB/CFB/CTR."""
import ctypes
from dv import evp, xcheck, model, evpmodel as em, cphist as ch, machines as mc
from spec import modes as m, tasks as t

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 20, 200, 120


SRC = ['gost_md.c', 'gost_grasshopper_cipher.c', 'gost_gost2015.c', 'gost_crypt.c', 'gost89.c', 'gost_params.c', 'gost_grasshopper_defines.c', 'gost_grasshopper_core.c']


def kuz(dec=False):
    """block function of one key, as contracts of B02 give it, and the cells it explains"""
    return (lambda K, b: em.kuz_block(K, b, dec)), (lambda G: {'sched': em.kuz_sched(G['K'], dec)})


def prove(R):
    p = model.prog(SRC, R.tmp)
    R.contracts.update(em.KUZ_NOTE)
    C = em.kuz_contracts()
    C['inc_counter'] = em.inc_counter
    R.attempt('inc_counter', em.prove_inc, R, p)
    R.contracts['inc_counter'] = 'proved here'
    T = []

    def two(cls, *a):
        def mk(enc):
            E, der = kuz(not enc)
            return cls(E, 16, *(a + ((not enc,) if cls is mc.CBC else ())), derived=der)
        return mk

    def one(cls, dirs=False):
        def mk(enc):
            E, der = kuz()
            return cls(E, 16, *((not enc,) if dirs else ()), derived=der)
        return mk
    T += ch.prove_mode(R, p, 'grasshopper_ecb_cipher', 'kuznyechik-ecb', two(mc.ECB), C, block=16)
    T += ch.prove_mode(R, p, 'grasshopper_cbc_cipher', 'kuznyechik-cbc', two(mc.CBC), C, block=16)
    T += ch.prove_mode(R, p, 'grasshopper_ofb_cipher', 'kuznyechik-ofb', one(mc.OFB), C)
    T += ch.prove_mode(R, p, 'grasshopper_cfb_cipher', 'kuznyechik-cfb', one(mc.CFB, True), C)
    T += ch.prove_mode(R, p, 'grasshopper_ctr_cipher', 'kuznyechik-ctr', one(mc.CTR), C)
    R.parallel(T)
    ch.inverse_lemma(R, 'ECB', lambda E, D: (mc.ECB(E, 16), mc.ECB(D, 16)), 16, 2)
    ch.inverse_lemma(R, 'CBC', lambda E, D: (mc.CBC(E, 16, False), mc.CBC(D, 16, True)), 16, 3)
    ch.inverse_lemma(R, 'OFB', lambda E, D: (mc.OFB(E, 16), mc.OFB(E, 16)), 16, 33)
    ch.inverse_lemma(R, 'CFB', lambda E, D: (mc.CFB(E, 16, False), mc.CFB(E, 16, True)), 16, 33)
    ch.inverse_lemma(R, 'CTR', lambda E, D: (mc.CTR(E, 16), mc.CTR(E, 16)), 16, 33)


def search(S):
    E = evp.Engine(S.lib)
    n = 0
    kz = t.kz
    while S.more():
        n += 1
        if n % 5 == 0:
            xcheck.cipher_case(S, E, 'kuznyechik-ecb', 0, lambda k, iv, d, e, p: m.ecb(kz(k), d, e), unit=16, big=600)
        elif n % 5 == 1:
            xcheck.cipher_case(S, E, 'kuznyechik-cbc', 16, lambda k, iv, d, e, p: m.cbc(kz(k), iv, d, e), unit=16, big=600)
        elif n % 5 == 2:
            xcheck.cipher_case(S, E, 'kuznyechik-ofb', 16, lambda k, iv, d, e, p: m.ofb(kz(k), iv, d), big=600)
        elif n % 5 == 3:
            xcheck.cipher_case(S, E, 'kuznyechik-cfb', 16, lambda k, iv, d, e, p: m.cfb(kz(k), iv, d, e), big=600)
        else:
            xcheck.cipher_case(S, E, 'kuznyechik-ctr', 8, lambda k, iv, d, e, p: m.ctr(kz(k), t.pad(iv, 16), d), big=600)
            carry(S, E, 'kuznyechik-ctr')


def carry(S, E, sn):
    rng = S.rng
    key = S.bytes(32)
    k = rng.randrange(0, 17)
    ctr0 = S.bytes(16 - k) + b'\xff' * k
    ctr0 = ctr0[:15] + bytes([max(0, ctr0[15] - rng.randrange(0, 3))])
    d = S.bytes(100)
    S.case(kind=sn + ' counter carry', key=key, counter=ctr0)
    c = evp.Cipher(E, sn)
    c.init(key, ctr0[:8], 1)
    ctypes.memmove(E.f('EVP_CIPHER_CTX_iv_noconst', evp.P, evp.P)(c.x), ctr0, 16)
    got = c.update(d[:20]) + c.update(d[20:])
    c.free()
    S.expect(got, m.ctr(t.kz(key), ctr0, d), sn + ' disagrees with the standard at a counter carry')
