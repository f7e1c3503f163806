"""Kuznyechik CTR-ACPKM."""
from dv import evp, xcheck, model, terms as tm, evpmodel as em, cphist as ch, machines as mc
from dv.exec import NULL, Ptr
from spec import modes as m, tasks as t
from props.C05 import carry, SRC, kuz

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 15, 200, 100


def sections(lg, default, refuse=True):
    """the ways a section size is chosen: default, control call with any legal size, CMS parameters"""
    def begin(R, S, M, x, key, iv):
        w = 32 - lg
        out = [(x, M.start(key, iv, tm.const(default >> lg, w)))]
        a = tm.var('#sec', w - 1)
        y = x.fork()
        if refuse:
            y.assume(tm.not_(tm.eq(a, tm.const(0, w - 1))))
        for z, v in S.ctrl(y, evp.EVP_CTRL_KEY_MESH, tm.concat([tm.const(0, lg), a, tm.const(0, 1)])):
            R.cond('section size set through the control call', tm.eq(v, tm.const(1, 32)), z.pc)
            out.append((z, M.start(key, iv, tm.concat([a, tm.const(0, 1)]))))
        b = tm.var('#any', 32)
        y = x.fork()
        y.assume(tm.or_(tm.eq(b, tm.const(0, 32)), tm.not_(tm.eq(tm.extract(b, lg - 1, 0), tm.const(0, lg)))))
        for z, v in () if not refuse else S.ctrl(y, evp.EVP_CTRL_KEY_MESH, b):
            R.cond('a section size that is no whole number of blocks is refused', tm.not_(tm.eq(v, tm.const(1, 32))), z.pc)
        for which in ('set_asn1_params', 'get_asn1_params'):
            f = S.meth.get(which)
            if f is None or not hasattr(f, 'name'):
                continue
            for kind, z, v in model.runall(S.ex, x.fork(), f.name, [S.ctx, S.ctx]):
                if kind != 'ret':
                    continue
                iv2 = iv if which == 'set_asn1_params' else model.symbytes('cmsiv', len(iv))
                if z.data.pop('asn1', None) == 'fail':
                    R.cond('failure of the CMS parameters is reported', tm.not_(tm.eq(v, tm.const(1, 32))), z.pc)
                    continue
                R.cond('CMS parameters accepted', tm.eq(v, tm.const(1, 32)), z.pc)
                out.append((z, M.start(key, iv2, tm.const(CMS[lg] >> lg, w))))
        return out
    return begin


CMS = {4: 256 * 1024, 3: 8 * 1024}


def cms_contracts(bs):
    """assumed: the CMS parameter codecs of the engine (checked by the concrete runs)"""
    def set_(ex, s, a, i):
        y = s.fork()
        y.data['asn1'] = 'fail'
        return [(s, tm.const(1, 32)), (y, tm.const(0, 32))]

    def get_(ex, s, a, i):
        y = s.fork()
        y.data['asn1'] = 'fail'
        n = a[1].a
        h = a[3].a
        ex.write_bytes(s, a[2], [tm.var('cmsiv[%d]' % j, 8) if j < h else tm.const(0, 8) for j in range(n)], i.line)
        return [(s, tm.const(1, 32)), (y, tm.const(0, 32))]
    return {'gost2015_set_asn1_params': set_, 'gost2015_get_asn1_params': get_}


def prove(R):
    p = model.prog(SRC, R.tmp)
    R.contracts.update(em.KUZ_NOTE)
    C = em.kuz_contracts()
    C['inc_counter'] = em.inc_counter
    C.update(cms_contracts(16))
    R.contracts['gost2015_set_asn1_params, gost2015_get_asn1_params'] = 'assumed: codec of the CMS parameters; a failure may be reported'
    R.attempt('inc_counter', em.prove_inc, R, p)
    R.contracts['inc_counter'] = 'proved here'

    def mk(enc):
        E, der = kuz()
        return mc.ACPKM(E, 16, derived=der)
    R.parallel(ch.prove_mode(R, p, 'grasshopper_ctr_acpkm_cipher', 'kuznyechik-ctr-acpkm', mk, C, begin=sections(4, 4096), nokey=True, persist=('cmsiv', '#sec')))


def section(S):
    if S.rng.random() < 0.2:
        return (4096,), None
    n = S.rng.choice((16, 32, 48, 64, 256, 512, 1024))

    def apply(c, S):
        return c.ctrl(evp.EVP_CTRL_KEY_MESH, n) > 0
    return (n,), apply


def search(S):
    E = evp.Engine(S.lib)
    while S.more():
        xcheck.cipher_case(S, E, 'kuznyechik-ctr-acpkm', 8, lambda k, iv, d, e, p: m.ctr(t.kz(k), t.pad(iv, 16), d, p[0]), ctrls=section, big=1500, marks=(16, 32, 64, 256, 1024, 4096))
        if S.rng.random() < 0.2:
            carry(S, E, 'kuznyechik-ctr-acpkm')
