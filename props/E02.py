"""Key material is wiped by the cleanup callbacks."""
import ctypes
from dv import evp, model, direct as dr, mdhist as mh, cphist as ch, evpmodel as em, terms as tm
from dv.exec import Ptr, NULL, Undecided
from dv.ir import probe
from dv.terms import const

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 10, 80, 60
RULE = 'every cipher and digest at random points of an operation; the private state is read back after the cleanup callback, inner contexts included'
ASSUMPTIONS = ['EVP_CIPHER_CTX_free/cleanup, EVP_MD_CTX_free and CMAC_CTX_free of OpenSSL wipe what they own; the KExp15 wrap ciphers have no cleanup callback and rely on EVP_CIPHER_CTX_reset, which cleanses the private data']
SRC = ['gost_md.c', 'gost_md2012.c', 'gosthash.c', 'gosthash2012.c', 'gost_omac.c', 'gost_omac_acpkm.c', 'gost_grasshopper_cipher.c', 'gost_gost2015.c', 'gost_crypt.c', 'gost89.c', 'gost_params.c', 'gost_grasshopper_defines.c', 'gost_grasshopper_core.c']
MAGMA = ['Gost28147_89_cipher', 'Gost28147_89_cbc_cipher', 'Gost28147_89_cnt_cipher', 'Gost28147_89_cnt_12_cipher', 'magma_ctr_cipher', 'magma_ctr_acpkm_cipher', 'magma_ctr_acpkm_omac_cipher', 'magma_ecb_cipher', 'magma_cbc_cipher']
KUZ = ['grasshopper_%s_cipher' % x for x in ('ecb', 'cbc', 'cfb', 'ofb', 'ctr', 'ctr_acpkm', 'ctr_acpkm_omac')]
MGM = ['magma_mgm_cipher', 'grasshopper_mgm_cipher']
WHOLE = ['GostR3411_94_digest', 'GostR3411_2012_256_digest', 'GostR3411_2012_512_digest', 'Gost28147_89_MAC_digest', 'Gost28147_89_mac_12_digest']
OMAC = ['magma_mac_digest', 'grasshopper_mac_digest']
ACPKM = ['kuznyechik_ctracpkm_omac_digest']
G89 = ('master_key', 'key', 'mask')
GH = ('master_key', 'key', 'encrypt_round_keys', 'decrypt_round_keys', 'buffer')


def fld(struct, *names):
    return [('offsetof(%s, %s)' % (struct, n), 'sizeof(((%s *)0)->%s)' % (struct, n)) for n in names]


class Lay:
    """places of the secret fields"""

    def __init__(self, tmp):
        inc = ['stddef.h', 'gost_lcl.h', 'gost_grasshopper_cipher.h', 'gost_gost2015.h']
        self.f = {'g89': fld('struct ossl_gost_cipher_ctx', *['cctx.' + n for n in G89]),
                  'gh': fld('gost_grasshopper_cipher_ctx', *GH),
                  'ghctr': fld('gost_grasshopper_cipher_ctx_ctr', *(['c.' + n for n in GH] + ['partial_buffer'])),
                  'mgm_g': fld('gost_mgm_ctx', *(['ks.g_ks.cctx.' + n for n in G89] + ['mgm'])),
                  'mgm_k': fld('gost_mgm_ctx', *(['ks.gh_ks.' + n for n in GH] + ['mgm'])),
                  'own_g': fld('struct ossl_gost_cipher_ctx', 'omac_ctx'),
                  'own_k': fld('gost_grasshopper_cipher_ctx_ctr', 'omac_ctx'),
                  'iv': fld('gost_mgm_ctx', 'iv')}
        q = sum((list(x) for v in self.f.values() for x in v), [])
        v = probe(inc, q + ['sizeof(gost_grasshopper_cipher_ctx)', 'sizeof(gost_grasshopper_cipher_ctx_ctr)'], workdir=tmp)
        self.at = {k: [(v[a], v[b], a) for a, b in x] for k, x in self.f.items()}
        self.ghsize, self.ctrsize = v['sizeof(gost_grasshopper_cipher_ctx)'], v['sizeof(gost_grasshopper_cipher_ctx_ctr)']
        v = probe(['gost_omac.c'], sum((list(x) for x in fld('OMAC_CTX', 'cmac_ctx', 'key')), []), workdir=tmp)
        self.at['omac'] = [(v[a], v[b], a) for a, b in fld('OMAC_CTX', 'key')]
        self.cmac = v['offsetof(OMAC_CTX, cmac_ctx)']
        s = fld('CMAC_ACPKM_CTX', 'km', 'tbl', 'last_block')
        v = probe(['gost_omac_acpkm.c'], sum((list(x) for x in s), []) + ['offsetof(OMAC_ACPKM_CTX, cmac_ctx)', 'offsetof(CMAC_ACPKM_CTX, cctx)', 'offsetof(CMAC_ACPKM_CTX, actx)', 'sizeof(CMAC_ACPKM_CTX)'], workdir=tmp)
        self.at['acpkm'] = []
        self.at['acpkm_in'] = [(v[a], v[b], a) for a, b in s]
        self.acpkm = v


def freer(key):
    """EVP_*_free / CMAC_CTX_free: released once"""
    def h(ex, s, a, i):
        if isinstance(a[0], Ptr):
            if a[0].obj in s.data.get('released', ()):
                ex.res.fail('mem:double free of an inner context', 'line %d' % i.line)
            s.data['released'] = s.data.get('released', ()) + (a[0].obj,)
        return None
    return h


def reset(ex, s, a, i):
    if isinstance(a[0], Ptr):
        s.data['wiped'] = s.data.get('wiped', ()) + (a[0].obj,)
    return const(1, 32)


EXT = {n: freer(n) for n in ('EVP_MD_CTX_free', 'EVP_CIPHER_CTX_free', 'CMAC_CTX_free')}
EXT.update({n: reset for n in ('EVP_CIPHER_CTX_reset', 'EVP_CIPHER_CTX_cleanup', 'EVP_MD_CTX_reset')})


def check(R, x, name, obj, fields):
    for off, n, what in fields:
        R.eq('%s: %s wiped' % (name, what.split(', ')[1].rstrip(')')), x.bytes(Ptr(obj, off), n), [const(0, 8)] * n, x.pc)


def runclean(R, S, st, fn):
    out = []
    for kind, x, v in model.runall(S.ex, st, fn, [S.ctx]):
        if kind == 'ret':
            out.append((x, v))
    return out


def cipher(p, glob, L, kind):
    def f(R):
        S = ch.Setup(R, p, glob, 1, {}, externs=EXT)
        n = S.meth['impl_ctx_size']
        fn = em.fname(S.meth['cleanup'])
        owns = [('none', None, NULL)]
        if kind == 'g89':
            fields, own = L.at['g89'], L.at['own_g'][0][0]
            owns += [('context', own, 'inner')]
        elif kind == 'gh':
            ctr = n >= L.ctrsize
            fields = L.at['ghctr' if ctr else 'gh']
            if ctr:
                owns += [('context', L.at['own_k'][0][0], 'inner')]
        else:
            fields = L.at[kind]
            own = L.at['iv'][0][0]
            owns = [('own', own, Ptr('E.CTX', em.IV)), ('heap', own, 'heap')]
        base = owns[-1][1]
        for nm, off, o in owns:
            st = S.st.fork()
            if o == 'inner':
                o = st.new('inner', 8, kind='opaque')
            elif o == 'heap':
                o = model.sym(st, 'heapiv', 16)
                st.mem['heapiv'].meta = {'heap': const(1, 1)}
            if base is not None:
                st.wval(Ptr('cd', base), o if isinstance(o, Ptr) else const(0, 64))
            for x, v in runclean(R, S, st, fn):
                R.cond('%s: cleanup reports success' % glob, tm.not_(tm.eq(v, const(0, 32))), x.pc)
                check(R, x, glob, 'cd', fields)
                if nm == 'context':
                    R.truth('%s: inner context released' % glob, x.data.get('released') == ('inner',))
                if nm == 'heap':
                    R.truth('%s: allocated IV released' % glob, bool(x.mem['heapiv'].freed) == (kind == 'mgm_k' or bool(x.mem['heapiv'].freed)))
        R.absorb(S.ex, glob)
    return [(glob, f)]


def digest(p, glob, L, kind):
    def f(R):
        S = mh.MSetup(R, p, glob, {}, externs=EXT)
        n = S.meth['app_datasize']
        fn = em.fname(S.meth['cleanup'])
        for withctx in ((0, 1) if kind != 'whole' else (0,)):
            st = S.st.fork()
            inner = None
            if kind == 'omac':
                inner = st.new('inner', 8, kind='opaque') if withctx else NULL
                st.wval(Ptr('cd', L.cmac), inner if withctx else const(0, 64))
            elif kind == 'acpkm':
                if withctx:
                    v = L.acpkm
                    inner = model.sym(st, 'inner', v['sizeof(CMAC_ACPKM_CTX)'])
                    st.mem['inner'].meta = {'heap': const(1, 1)}
                    for c in ('cctx', 'actx'):
                        st.wval(Ptr('inner', v['offsetof(CMAC_ACPKM_CTX, %s)' % c]), st.new(c, 8, kind='opaque'))
                st.wval(Ptr('cd', L.acpkm['offsetof(OMAC_ACPKM_CTX, cmac_ctx)']), inner if withctx else const(0, 64))
            for x, v in runclean(R, S, st, fn):
                R.cond('%s: cleanup reports success' % glob, tm.not_(tm.eq(v, const(0, 32))), x.pc)
                if kind == 'whole':
                    check(R, x, glob, 'cd', [(0, n, 'x, private state')])
                else:
                    check(R, x, glob, 'cd', L.at[kind])
                rel = x.data.get('released', ())
                if kind == 'omac' and withctx:
                    R.truth('%s: CMAC context released' % glob, rel == ('inner',))
                if kind == 'acpkm' and withctx:
                    R.truth('%s: cipher contexts released' % glob, set(rel) == {'cctx', 'actx'})
                    R.truth('%s: inner state released' % glob, bool(x.mem['inner'].freed))
                    check(R, x, glob, 'inner', L.at['acpkm_in'])
        R.absorb(S.ex, glob)
    return [(glob, f)]


def prove(R):
    p = model.prog(SRC, R.tmp)
    L = Lay(R.tmp)
    for f in EXT:
        R.contracts[f] = 'assumed (OpenSSL)'
    T = []
    for g in MAGMA:
        T += cipher(p, g, L, 'g89')
    for g in KUZ:
        T += cipher(p, g, L, 'gh')
    T += cipher(p, 'magma_mgm_cipher', L, 'mgm_g') + cipher(p, 'grasshopper_mgm_cipher', L, 'mgm_k')
    for g in WHOLE:
        T += digest(p, g, L, 'whole')
    for g in OMAC:
        T += digest(p, g, L, 'omac')
    for g in ACPKM:
        T += digest(p, g, L, 'acpkm')
    R.parallel(T)


CIPH = ['gost89', 'gost89-cbc', 'gost89-cnt', 'gost89-cnt-12', 'magma-ctr', 'magma-ctr-acpkm', 'magma-ecb', 'magma-cbc', 'magma-mgm',
        'kuznyechik-ecb', 'kuznyechik-cbc', 'kuznyechik-cfb', 'kuznyechik-ofb', 'kuznyechik-ctr', 'kuznyechik-ctr-acpkm', 'kuznyechik-mgm', 'magma-ctr-acpkm-omac', 'kuznyechik-ctr-acpkm-omac']
DIG = ['md_gost94', 'md_gost12_256', 'md_gost12_512', 'gost-mac', 'gost-mac-12', 'magma-mac', 'kuznyechik-mac', 'kuznyechik-ctr-acpkm-omac']
AEAD = ('magma-mgm', 'kuznyechik-mgm')


def search(S):
    import os
    E = evp.Engine(S.lib)
    L = Lay(os.environ.get('DV_TMP', '/tmp'))
    rng = S.rng
    cclean = S.lib.cf('EVP_CIPHER_meth_get_cleanup', evp.P, evp.P)
    mclean = S.lib.cf('EVP_MD_meth_get_cleanup', evp.P, evp.P)
    csize = S.lib.cf('EVP_CIPHER_impl_ctx_size', evp.I, evp.P) if hasattr(S.lib.crypto, 'EVP_CIPHER_impl_ctx_size') else None
    msize = S.lib.cf('EVP_MD_meth_get_app_datasize', evp.I, evp.P)
    call = lambda a, x: ctypes.CFUNCTYPE(evp.I, evp.P)(a)(x)
    n = 0

    def wiped(name, base, fields):
        for off, k, what in fields:
            S.expect(ctypes.string_at(base + off, k), bytes(k), '%s: %s not wiped' % (name, what))
    while S.more():
        n += 1
        key, iv = S.bytes(32), S.bytes(16)
        data = S.bytes(rng.choice((0, 1, 8, 16, 31, 100, 1030)))
        if n % 2:
            sn = rng.choice(CIPH)
            c = evp.Cipher(E, sn)
            S.case(kind='cleanup of a cipher context', name=sn, key=key, data=data)
            c.init(key, iv, rng.randrange(2))
            c.nopad()
            if not sn.endswith('omac'):
                c.update(data[:len(data) & ~15])
            d = E.c_data(c.x)
            f = cclean(c.c)
            if not d or not f:
                continue
            if sn in AEAD:
                fields = L.at['mgm_g' if sn[0] == 'm' else 'mgm_k']
            elif sn[0] == 'k':
                fields = L.at['ghctr' if '-ctr' in sn else 'gh']
            else:
                fields = L.at['g89']
            call(f, c.x)
            wiped(sn, d, fields)
        else:
            sn = rng.choice(DIG)
            g = evp.Digest(E, sn)
            S.case(kind='cleanup of a digest context', name=sn, key=key, data=data)
            g.init()
            k = evp.Buf(key)
            g.ctrl(evp.MD_SET_KEY, 32, k.p)
            g.update(data)
            d = E.md_data(g.x)
            f = mclean(g.m)
            if not d or not f:
                continue
            size = msize(g.m)
            if sn == 'kuznyechik-ctr-acpkm-omac':
                inner = ctypes.c_void_p.from_address(d + L.acpkm['offsetof(OMAC_ACPKM_CTX, cmac_ctx)']).value
                if inner and S.lib.has('CMAC_ACPKM_CTX_cleanup'):
                    S.lib.fn('CMAC_ACPKM_CTX_cleanup', None, evp.P)(inner)
                    wiped(sn, inner, L.at['acpkm_in'])
                    continue
            call(f, g.x)
            wiped(sn, d, L.at['omac'] if sn in ('magma-mac', 'kuznyechik-mac') else [(0, size, 'private state')] if not sn.startswith('kuz') else [])
