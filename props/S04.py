"""VKO key agreement."""
import ctypes
from dv import model, bnx, direct as dr, terms as tm
from dv.bnx import A, K
from dv.exec import Exec, Ptr, NULL, T, Undecided, State
from dv.ir import probe
from dv.terms import const

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 30, 240, 120
RULE = 'random key pairs on every curve, UKMs of 1 to 64 bytes (small, zero-padded, above the order), peers computed on both sides; through the function and through EVP_PKEY_derive'
ASSUMPTIONS = ['BN_*, EC_* as documented (ghost contracts of dv/bnx.py); EVP_Digest* computes the digest of the concatenated updates',
               'gost_ec_point_mul(m*Q) computes (cofactor*m)*Q or fails (property S07)', 'the lengths of the field are 32 and 64 bytes',
               'gost_kdftree2012_256 is the KDF tree (property K03)']
SRC = ['gost_ec_keyx.c', 'gost_pmeth.c', 'gost_ameth.c']
ONE, ZERO = const(1, 32), const(0, 32)
NIDS = ['NID_id_GostR3411_94', 'NID_id_GostR3411_2012_256', 'NID_id_GostR3411_2012_512', 'NID_id_GostR3410_2001', 'NID_id_GostR3410_2001DH', 'NID_id_GostR3410_2012_256', 'NID_id_GostR3410_2012_512']


def base(v):
    C = bnx.contracts()

    def malloc(ex, s, a, i):
        r = model.malloc()(ex, s, a, i)
        for st, p in r:
            if not isinstance(p, Ptr):
                st.data['failed'] = True
        return r
    C['CRYPTO_malloc'] = malloc
    return C


def vko_contracts(v, half):
    C = base(v)
    sizes = {v['NID_id_GostR3411_94']: 32, v['NID_id_GostR3411_2012_256']: 32, v['NID_id_GostR3411_2012_512']: 64}

    def ukm(ex, s, a, i):
        f = bnx.fail(s)
        dr.note(s, 'ukm', a[0], a[1])
        p = a[2] if isinstance(a[2], Ptr) else bnx.new(s)
        bnx.put(s, p, (A('ukm'), 'exact'))
        return [(s, p), (f, NULL)]
    C['BN_lebin2bn'] = ukm

    def be(ex, s, a, i):
        p = a[2] if isinstance(a[2], Ptr) else bnx.new(s)
        bnx.put(s, p, (A('be_ukm'), 'exact'))
        return p
    C['BN_bin2bn'] = be
    C['EC_GROUP_get0_field'] = lambda ex, s, a, i: field(s)

    def field(s):
        if 'field' not in s.data:
            s.data['field'] = bnx.new(s, (A('p'), 'exact'), borrowed=True)
        return s.data['field']

    def bits(ex, s, a, i):
        x = bnx.get(s, a[0])
        if x[0].atom() not in ('p', 'q'):
            raise Undecided('length of a number')
        # between one bit of the top byte and all of them
        b = tm.var('bits_' + x[0].atom(), 32)
        s.assume(tm.ule(b, const(8 * half, 32)))
        s.assume(tm.ule(const(8 * half - 7, 32), b))
        return b
    C['BN_num_bits'] = bits
    C['EC_GROUP_get_degree'] = lambda ex, s, a, i: bits(ex, s, [field(s)], i)

    def pad(little):
        def h(ex, s, a, i):
            n = a[2]
            if n.op != 'c':
                o = ex.values(s, n, 3)
                if len(o) != 1:
                    raise Undecided('padded length')
                n = const(o[0], 32)
            x = bnx.get(s, a[0])
            f = bnx.fail(s)
            nm = x[0].atom() or repr(x[0])
            bs = [tm.var('%s.%d' % (nm, j), 8) if j < half else const(0, 8) for j in range(n.a)]
            ex.write_bytes(s, at(ex, s, a[1]), bs if little else bs[::-1], i.line)
            r = [(s, const(n.a, 32)), (f, const(0xffffffff, 32))]
            return r if n.a >= half else r[1:]
        return h
    C['BN_bn2lebinpad'], C['BN_bn2binpad'] = pad(1), pad(0)

    def sn(ex, s, a, i):
        n = a[0]
        if n.op != 'c':
            raise Undecided('digest identifier')
        p = dr.opaque(s, 'sn')
        s.data['nid.' + p.obj] = n.a
        return p
    C['OBJ_nid2sn'] = sn

    def byname(ex, s, a, i):
        n = s.data['nid.' + a[0].obj]
        f = bnx.fail(s)
        if n not in sizes:
            return NULL
        p = dr.opaque(s, 'md')
        s.data['md.' + p.obj] = n
        return [(s, p), (f, NULL)]
    C['EVP_get_digestbyname'] = byname
    C['EVP_MD_get_size'] = C['EVP_MD_size'] = lambda ex, s, a, i: const(sizes[s.data['md.' + a[0].obj]], 32)
    C['EVP_MD_CTX_new'] = lambda ex, s, a, i: [(s, mdnew(s)), (bnx.fail(s), NULL)]

    def mdnew(s):
        p = dr.opaque(s, 'mdctx')
        s.mem[p.obj].meta = {}
        return p

    def mdfree(ex, s, a, i):
        if isinstance(a[0], Ptr):
            if s.mem[a[0].obj].freed:
                ex.res.fail('mem:a context is released once', 'line %d' % i.line)
            s.w(a[0].obj).freed = True
    C['EVP_MD_CTX_free'] = mdfree
    C['EVP_MD_CTX_reset'] = C['EVP_MD_CTX_init'] = lambda ex, s, a, i: ONE

    def init(ex, s, a, i):
        f = bnx.fail(s)
        s.data['hash.' + a[0].obj] = (s.data['md.' + a[1].obj], ())
        return [(s, ONE), (f, ZERO)]
    C['EVP_DigestInit_ex'] = C['EVP_DigestInit'] = init

    def upd(ex, s, a, i):
        f = bnx.fail(s)
        n = a[2]
        if n.op != 'c':
            o = ex.values(s, n, 3)
            if len(o) != 1:
                raise Undecided('length of the data')
            n = const(o[0], 64)
        md, x = s.data['hash.' + a[0].obj]
        s.data['hash.' + a[0].obj] = (md, x + tuple(ex.read_bytes(s, at(ex, s, a[1]), n.a, i.line)))
        return [(s, ONE), (f, ZERO)]
    C['EVP_DigestUpdate'] = upd

    def fin(ex, s, a, i):
        f = bnx.fail(s)
        md, x = s.data.pop('hash.' + a[0].obj)
        dr.note(s, 'hash', md, x, a[1])
        ex.write_bytes(s, a[1], [tm.var('H%d' % j, 8) for j in range(sizes[md])], i.line)
        if isinstance(a[2], Ptr):
            s.wval(a[2], const(sizes[md], 32))
        return [(s, ONE), (f, ZERO)]
    C['EVP_DigestFinal_ex'] = C['EVP_DigestFinal'] = fin
    return C, sizes


def at(ex, s, p):
    if p.off.op == 'c':
        return p
    o = ex.values(s, p.off, 3)
    if len(o) != 1:
        raise Undecided('place of the bytes')
    return Ptr(p.obj, const(o[0], 64))


def start(p, C):
    ex = Exec(p, contracts=C, externs=dict(model.BASE, CRYPTO_malloc=C['CRYPTO_malloc']))
    ex.externs['OPENSSL_die'] = C['OPENSSL_die']
    return ex, State()


def with_vko(v):
    """contracts of VKO_compute_key for its callers"""
    C = base(v)
    sizes = {v['NID_id_GostR3411_94']: 32, v['NID_id_GostR3411_2012_256']: 32, v['NID_id_GostR3411_2012_512']: 64}

    def vko(ex, s, a, i):
        f = bnx.fail(s)
        n, nid = a[4], a[5]
        if n.op != 'c' or nid.op != 'c':
            for t, k in ((n, 4), (nid, 5)):
                if t.op != 'c':
                    ex.reconc(s, t)
        if nid.a not in sizes:
            return ZERO
        dr.note(s, 'vko', a[1], a[2], tuple(ex.read_bytes(s, a[3], n.a, i.line)), nid.a)
        ex.write_bytes(s, a[0], [tm.var('vko[%d]' % j, 8) for j in range(sizes[nid.a])], i.line)
        return [(s, const(sizes[nid.a], 32)), (f, ZERO)]
    C['VKO_compute_key'] = vko

    def kdf(ex, s, a, i):
        f = bnx.fail(s)
        if any(a[k].op != 'c' for k in (1, 3, 5, 7, 8)):
            raise Undecided('lengths of the KDF')
        rd = lambda k: tuple(ex.read_bytes(s, a[k], a[k + 1].a, i.line)) if a[k + 1].a else ()
        dr.note(s, 'kdf', a[1].a, rd(2), rd(4), rd(6), a[8].a)
        ex.write_bytes(s, a[0], [tm.var('kdf[%d]' % j, 8) for j in range(a[1].a)], i.line)
        return [(s, ONE), (f, ZERO)]
    C['gost_kdftree2012_256'] = kdf
    return C


def layout(R):
    F = ['sign_param_nid', 'md', 'shared_ukm', 'shared_ukm_size', 'peer_key_used', 'cipher_nid', 'vko_dgst_nid']
    d = probe(['openssl/evp.h', 'gost_lcl.h'], ['offsetof(struct gost_pmeth_data, %s)' % f for f in F] + ['sizeof(struct gost_pmeth_data)'], workdir=R.tmp)
    return {f: d['offsetof(struct gost_pmeth_data, %s)' % f] for f in F}, d['sizeof(struct gost_pmeth_data)']


def prove(R):
    p = model.prog(SRC, R.tmp)
    v = probe(['openssl/objects.h'], NIDS, workdir=R.tmp)
    L, size = layout(R)
    R.contracts['BN_*, EC_*, EVP_Digest*'] = 'assumed (OpenSSL)'
    R.contracts['gost_ec_point_mul'] = 'assumed here (property S07)'
    R.contracts['gost_kdftree2012_256'] = 'proved in K03'
    hs = [v['NID_id_GostR3411_94'], v['NID_id_GostR3411_2012_256'], v['NID_id_GostR3411_2012_512']]

    def key(st):
        g, pub = dr.opaque(st, 'group'), dr.opaque(st, 'pub')
        st.data['pt.' + pub.obj] = (('Q', K(1)),)
        st.mem[pub.obj].meta = {'borrowed': True}
        st.data['key'] = {'group': g, 'priv': bnx.new(st, (A('d'), 'exact'), borrowed=True), 'pub': NULL}
        return dr.opaque(st, 'eckey'), pub

    def vko(nid, half):
        def f(R):
            C, sizes = vko_contracts(v, half)
            ex, st = start(p, C)
            ec, pub = key(st)
            nm = 'VKO_compute_key(%d,%d)' % (nid, half)
            n = tm.var('ukm_size', 64)
            st.assume(tm.ule(n, const(1 << 20, 64)))
            st.assume(tm.ule(const(1, 64), n))
            u = st.new('ukm', n, kind='arr')
            d = sizes.get(nid, 64)
            st.new('out', d, init=lambda o: tm.var('old[%d]' % o, 8))
            good = 0
            for kind, s, r in model.runall(ex, st, 'VKO_compute_key', [Ptr('out', 0), pub, ec, u, n, const(nid, 32)]):
                if kind != 'ret':
                    continue
                if s.data.get('failed') or nid not in sizes:
                    R.cond('%s: a failure is reported' % nm, tm.eq(r, ZERO), s.pc)
                    continue
                good += 1
                R.cond('%s: returns the length of the digest' % nm, tm.eq(r, const(d, 32)), s.pc)
                ev = dr.events(s)
                uk = [e for e in ev if e[0] == 'ukm']
                R.truth('%s: the UKM is read once, as a little-endian number' % nm, len(uk) == 1 and uk[0][1].obj == 'ukm')
                if len(uk) == 1:
                    R.eq('%s: the UKM from its start' % nm, uk[0][1].off, const(0, 64), s.pc)
                    R.eq('%s: the UKM of its whole length' % nm, tm.zext(uk[0][2], 64), n, s.pc)
                h = [e for e in ev if e[0] == 'hash']
                R.truth('%s: one digest' % nm, len(h) == 1)
                if len(h) != 1:
                    continue
                pt = bnx.norm({'Q': A('h') * A('ukm') * A('d')})
                want = [tm.var('%s.%d' % (bnx.coord(c, pt), j), 8) for c in 'xy' for j in range(half)]
                R.truth('%s: the digest chosen' % nm, h[0][1] == nid)
                R.truth('%s: of the little-endian coordinates of cofactor*UKM*d*Q' % nm, list(h[0][2]) == want)
                R.eq('%s: the digest is the result' % nm, dr.cells(s, 'out'), [tm.var('H%d' % j, 8) for j in range(d)], s.pc)
            R.truth('%s: keys are computed' % nm, good > 0 or nid not in sizes)
            R.absorb(ex, nm)
        return ('vko %d %d' % (nid, half), f)

    def keg(nid):
        def f(R):
            C = with_vko(v)
            ex, st = start(p, C)
            ec, pub = key(st)
            nm = 'gost_keg(%d)' % nid
            u = model.sym(st, 'ukm', 32)
            U = model.symbytes('ukm', 32)
            st.new('out', 64, init=lambda o: tm.var('old[%d]' % o, 8))
            zero = tm.eq(tm.concat(U[:16]), const(0, 128))
            n = 0
            for kind, s, r in model.runall(ex, st, 'gost_keg', [u, const(nid, 32), pub, ec, Ptr('out', 0)]):
                if kind != 'ret':
                    continue
                if s.data.get('failed') or nid not in (v['NID_id_GostR3410_2012_256'], v['NID_id_GostR3410_2012_512']):
                    R.cond('%s: a failure is reported' % nm, tm.sle(r, ZERO), s.pc)
                    continue
                n += 1
                R.cond('%s: 64 bytes' % nm, tm.eq(r, const(64, 32)), s.pc)
                ev = dr.events(s)
                vk = [e for e in ev if e[0] == 'vko']
                R.truth('%s: one VKO with the keys' % nm, len(vk) == 1 and vk[0][1] == pub and vk[0][2] == ec)
                if len(vk) != 1:
                    continue
                big = nid == v['NID_id_GostR3410_2012_512']
                R.truth('%s: the digest' % nm, vk[0][4] == v['NID_id_GostR3411_2012_512' if big else 'NID_id_GostR3411_2012_256'])
                if len(vk[0][3]) == 16:
                    want = [tm.ite(zero, const(int(j == 0), 8), U[15 - j]) for j in range(16)]
                    R.eq('%s: UKM is the big-endian number of its first half, one for zero' % nm, list(vk[0][3]), want, s.pc)
                else:
                    R.truth('%s: 16 bytes of UKM' % nm, False)
                if big:
                    R.eq('%s: the VKO key' % nm, dr.cells(s, 'out'), [tm.var('vko[%d]' % j, 8) for j in range(64)], s.pc)
                else:
                    R.eq('%s: the KDF tree' % nm, dr.cells(s, 'out'), [tm.var('kdf[%d]' % j, 8) for j in range(64)], s.pc)
                    k = [e for e in ev if e[0] == 'kdf']
                    R.truth('%s: of the VKO key' % nm, len(k) == 1 and k[0][1] == 64 and list(k[0][2]) == [tm.var('vko[%d]' % j, 8) for j in range(32)] and k[0][5] == 1)
                    if len(k) == 1:
                        R.truth('%s: label' % nm, list(k[0][3]) == [const(b, 8) for b in b'kdf tree'])
                        R.truth('%s: seed is bytes 16 to 23 of the UKM' % nm, list(k[0][4]) == U[16:24])
            R.truth('%s: keys are computed' % nm, n > 0 or nid not in (v['NID_id_GostR3410_2012_256'], v['NID_id_GostR3410_2012_512']))
            R.absorb(ex, nm)
        return ('keg %d' % nid, f)

    def env(C, st, kid, defmd=None):
        """the EVP_PKEY_CTX"""
        ctx = dr.opaque(st, 'pctx')
        C['EVP_PKEY_CTX_get0_pkey'] = lambda ex, s, a, i: s.data['my']
        C['EVP_PKEY_CTX_get0_peerkey'] = lambda ex, s, a, i: s.data['peer']
        C['EVP_PKEY_CTX_get_data'] = lambda ex, s, a, i: Ptr('data', 0)
        C['EVP_PKEY_get0'] = lambda ex, s, a, i: s.data['ec.' + a[0].obj]
        C['EC_KEY_get0_public_key'] = lambda ex, s, a, i: s.data['pubof.' + a[0].obj]
        C['EVP_PKEY_get_id'] = C['EVP_PKEY_get_base_id'] = lambda ex, s, a, i: const(kid, 32)
        for w in ('my', 'peer'):
            st.data[w] = dr.opaque(st, w)
            e = st.data['ec.' + st.data[w].obj] = dr.opaque(st, 'ec' + w)
            st.data['pubof.' + e.obj] = dr.opaque(st, 'pub' + w)

        def defmdf(ex, s, a, i):
            s.wval(a[1], const(defmd, 32))
            return const(2, 32)
        C['EVP_PKEY_get_default_digest_nid'] = defmdf
        return ctx

    def derive(usize, nid, defmd, kid, null):
        def f(R):
            C = with_vko(v)
            ex, st = start(p, C)
            ctx = env(C, st, kid, defmd)
            nm = 'derive(ukm %d, vko %d, key %d%s)' % (usize, nid, kid, ', size' if null else '')

            def kegc(ex, s, a, i):
                g = bnx.fail(s)
                dr.note(s, 'keg', tuple(ex.read_bytes(s, a[0], 24, i.line)), a[1], a[2], a[3])
                ex.write_bytes(s, a[4], [tm.var('keg[%d]' % j, 8) for j in range(64)], i.line)
                return [(s, const(64, 32)), (g, ZERO)]
            C['gost_keg'] = kegc
            model.sym(st, 'data', size)
            st.wval(Ptr('data', L['shared_ukm_size']), const(usize, 64))
            st.wval(Ptr('data', L['vko_dgst_nid']), const(nid, 32))
            U = [st.rb('data', L['shared_ukm'] + j) for j in range(32)]
            n = 64
            st.new('out', n, init=lambda o: tm.var('old[%d]' % o, 8))
            st.new('len', 8, init=lambda o: tm.var('oldlen[%d]' % o, 8))
            want = {0: 0, v['NID_id_GostR3411_2012_256']: 32, v['NID_id_GostR3411_2012_512']: 64}[nid] if usize else 0
            if usize and not nid:
                want = {8: 32, 32: 64}.get(usize, 0)
            good = 0
            for kind, s, r in model.runall(ex, st, 'pkey_gost_ec_derive', [ctx, NULL if null else Ptr('out', 0), Ptr('len', 0)]):
                if kind != 'ret':
                    continue
                ev = dr.events(s)
                if s.data.get('failed') or not want:
                    R.cond('%s: a failure is reported' % nm, tm.sle(r, ZERO), s.pc)
                    continue
                good += 1
                R.cond('%s: success' % nm, tm.eq(r, ONE), s.pc)
                R.eq('%s: length' % nm, s.val(Ptr('len', 0), 8), const(want, 64), s.pc)
                if null:
                    R.truth('%s: nothing is computed' % nm, not ev)
                    continue
                my, pub = s.data['ec.' + s.data['my'].obj], s.data['pubof.' + s.data['ec.' + s.data['peer'].obj].obj]
                if nid or usize == 8:
                    md = nid or (v['NID_id_GostR3411_2012_256'] if defmd == v['NID_id_GostR3411_2012_512'] else defmd)
                    R.truth('%s: VKO of the own key, the peer\'s point, the whole UKM' % nm, len(ev) == 1 and ev[0] == ('vko', pub, my, tuple(U[:usize]), md))
                    w = ['vko[%d]' % j for j in range(want)]
                else:
                    R.truth('%s: KEG of the own key, the peer\'s point, the UKM' % nm, len(ev) == 1 and ev[0][0] == 'keg' and list(ev[0][1]) == U[:24] and ev[0][2:] == (const(kid, 32), pub, my))
                    w = ['keg[%d]' % j for j in range(64)]
                R.eq('%s: the key' % nm, dr.cells(s, 'out')[:want], [tm.var(x, 8) for x in w], s.pc)
            R.truth('%s: keys are computed' % nm, good > 0 or not want)
            R.absorb(ex, nm)
        return ('derive %d %d %d %d %s' % (usize, nid, defmd, kid, null), f)

    ctl = probe(['openssl/evp.h', 'gost_lcl.h'], ['EVP_PKEY_CTRL_SET_IV', 'EVP_PKEY_CTRL_SET_VKO'], workdir=R.tmp)

    def ctrl(R):
        for n in [0, 1, 7, 8, 16, 31, 32, 33, 64, 0x7fffffff, 0xffffffff, 0x80000000]:
            C = with_vko(v)
            ex, st = start(p, C)
            ctx = env(C, st, v['NID_id_GostR3410_2012_256'], 0)
            model.sym(st, 'data', size)
            m = min(n, 64)
            model.sym(st, 'ukm', max(m, 1))
            old = dr.cells(st, 'data')
            nm = 'set UKM(%d)' % n
            for kind, s, r in model.runall(ex, st, 'pkey_gost_ctrl', [ctx, const(ctl['EVP_PKEY_CTRL_SET_IV'], 32), const(n, 32), Ptr('ukm', 0)]):
                if kind != 'ret':
                    continue
                new = dr.cells(s, 'data')
                if n > 32:
                    R.cond('%s: refused' % nm, tm.sle(r, ZERO), s.pc)
                    R.eq('%s: nothing changes' % nm, new, old, s.pc)
                    continue
                R.cond('%s: success' % nm, tm.eq(r, ONE), s.pc)
                R.eq('%s: length kept' % nm, s.val(Ptr('data', L['shared_ukm_size']), 8), const(n, 64), s.pc)
                o = L['shared_ukm']
                R.eq('%s: bytes kept, padded with zeros' % nm, new[o:o + 32], model.symbytes('ukm', n) + [const(0, 8)] * (32 - n), s.pc)
            R.absorb(ex, nm)
        for n in [0, v['NID_id_GostR3411_2012_256'], v['NID_id_GostR3411_2012_512'], 1, v['NID_id_GostR3411_94']]:
            C = with_vko(v)
            ex, st = start(p, C)
            ctx = env(C, st, v['NID_id_GostR3410_2012_256'], 0)
            model.sym(st, 'data', size)
            nm = 'set VKO(%d)' % n
            old = dr.cells(st, 'data')
            for kind, s, r in model.runall(ex, st, 'pkey_gost_ctrl', [ctx, const(ctl['EVP_PKEY_CTRL_SET_VKO'], 32), const(n, 32), NULL]):
                if kind != 'ret':
                    continue
                if n in (1, v['NID_id_GostR3411_94']):
                    R.cond('%s: refused' % nm, tm.sle(r, ZERO), s.pc)
                    R.eq('%s: nothing changes' % nm, dr.cells(s, 'data'), old, s.pc)
                else:
                    R.cond('%s: success' % nm, tm.eq(r, ONE), s.pc)
                    R.eq('%s: kept' % nm, s.val(Ptr('data', L['vko_dgst_nid']), 4), const(n, 32), s.pc)
            R.absorb(ex, nm)
    ks = [v[k] for k in NIDS[3:]]
    jobs = [vko(n, h) for n in hs + [0, 4] for h in (32, 64)] + [keg(k) for k in ks]
    for null in (False, True):
        jobs += [derive(u, n, hs[1], ks[2], null) for u in (0, 1, 8, 20, 32) for n in (0, hs[1], hs[2])]
        jobs += [derive(u, 0, d, k, null) for u in (8, 32) for d, k in ((hs[0], ks[0]), (hs[2], ks[3]))]
    R.parallel(jobs + [('ctrl', ctrl)])


def search(S):
    from dv import ecx
    from dv.evp import Engine
    from dv.real import Buf
    from spec import modes, ciphers as sp
    ctl = {'EVP_PKEY_CTRL_SET_IV': 8, 'EVP_PKEY_CTRL_SET_VKO': 0x100b}
    E = Engine(S.lib)
    X = ecx.EC(S.lib)
    rng = S.rng
    P, I, SZ = ecx.P, ecx.I, ctypes.c_size_t
    f_vko = S.lib.fn('VKO_compute_key', I, P, P, P, P, SZ, I)
    assign = S.lib.cf('EVP_PKEY_assign', I, P, I, P)
    cnew, cfree = S.lib.cf('EVP_PKEY_CTX_new', P, P, P), S.lib.cf('EVP_PKEY_CTX_free', None, P)
    dinit, setpeer = S.lib.cf('EVP_PKEY_derive_init', I, P), S.lib.cf('EVP_PKEY_derive_set_peer', I, P, P)
    der = S.lib.cf('EVP_PKEY_derive', I, P, P, ctypes.POINTER(SZ))
    ctrl = S.lib.cf('EVP_PKEY_CTX_ctrl', I, P, I, I, I, I, P)
    mds = {'md_gost94': 32, 'md_gost12_256': 32, 'md_gost12_512': 64}
    names = list(X.curves)
    nids = {m: E.nid(m.encode()) for m in mds}

    def digest(md, data):
        return sp.gost94(data) if md == 'md_gost94' else sp.streebog(data, 512 if md.endswith('512') else 256)

    def vko(c, k, Q, ukm, md):
        m = int.from_bytes(ukm, 'little') * k % c.q
        R = c.mul(c.h * m, Q)
        if R is None:
            return None
        return digest(md, R[0].to_bytes(c.n, 'little') + R[1].to_bytes(c.n, 'little'))
    n = 0
    while S.more():
        name = names[n % len(names)]
        n += 1
        c = X.curves[name]
        nid = X.nid(name)
        d1, d2 = rng.randrange(1, c.q), rng.randrange(1, c.q) if rng.random() < 0.8 else rng.choice((1, 2, c.q - 1))
        Q1, Q2 = c.mul(d1, c.G), c.mul(d2, c.G)
        S.case(kind='keys', curve=name, d1=hex(d1), d2=hex(d2))
        k1, k2 = X.key(nid, d1, Q1), X.key(nid, d2, Q2)
        if k1 is None or k2 is None:
            S.fail('no such curve')
        for _ in range(4):
            t = rng.random()
            ul = rng.choice((1, 7, 8, 8, 16, 20, 31, 32, 33, 64))
            ukm = S.bytes(ul)
            if t < 0.15:
                ukm = bytes(ul - 1) + b'\x01'
            elif t < 0.3:
                ukm = S.bytes(1) + bytes(ul - 1)
            elif t < 0.45:
                ukm = (c.q + rng.choice((-1, 0, 1, 2))).to_bytes(64, 'little')
            elif t < 0.5:
                ukm = b'\xff' * ul
            md = rng.choice(list(mds))
            want = vko(c, d1, Q2, ukm, md)
            for k, Q, side in ((k1, Q2, 'first'), (k2, Q1, 'second')):
                S.case(kind='VKO', curve=name, d1=hex(d1), d2=hex(d2), ukm=ukm, md=md, side=side)
                p = X.point(X.get0_group(k), Q)
                u, o = Buf(ukm), Buf(mds[md])
                r = f_vko(o.p, p, k, u.p, len(ukm), nids[md])
                X.pfree(p)
                X.err()
                if not o.ok():
                    S.fail('writes outside of the buffer')
                if want is None:
                    S.expect(r, 0, 'the point at infinity gives no key')
                else:
                    S.expect(r, mds[md], 'length of the key')
                    S.expect(o.get(), want, 'wrong key')
        # through EVP
        big = c.q.bit_length() > 300
        alg = rng.choice(['gost2012_512'] if big else ['gost2012_256', 'gost2001'])
        own, peer = X.pk_new(), X.pk_new()
        assign(own, E.nid(alg.encode()), k1)
        assign(peer, E.nid(alg.encode()), k2)
        cx = cnew(own, None)
        if dinit(cx) != 1 or setpeer(cx, peer) != 1:
            S.fail('key agreement does not start')
        for _ in range(3):
            md = rng.choice([0, 'md_gost12_256', 'md_gost12_512'])
            ul = rng.choice((8, 32) if md == 0 else (1, 5, 8, 16, 31, 32))
            ukm = rng.choice((S.bytes(ul), bytes(ul - 1) + b'\1', bytes(16) + S.bytes(16) if ul == 32 else S.bytes(ul)))
            ukm = ukm[:ul]
            S.case(kind='EVP', curve=name, alg=alg, d1=hex(d1), d2=hex(d2), ukm=ukm, md=md)
            u = Buf(ukm)
            if ctrl(cx, -1, -1, ctl['EVP_PKEY_CTRL_SET_IV'], ul, u.p) != 1 or ctrl(cx, -1, -1, ctl['EVP_PKEY_CTRL_SET_VKO'], nids[md] if md else 0, None) != 1:
                S.fail('the UKM is not taken')
            if md:
                want = vko(c, d1, Q2, ukm, md)
            elif ul == 8:
                want = vko(c, d1, Q2, ukm, 'md_gost94' if alg == 'gost2001' else 'md_gost12_256')
            else:
                um = ukm[:16][::-1] if any(ukm[:16]) else b'\1' + bytes(15)
                if big:
                    want = vko(c, d1, Q2, um, 'md_gost12_512')
                elif alg == 'gost2012_256':
                    k = vko(c, d1, Q2, um, 'md_gost12_256')
                    want = k and modes.kdftree(k, b'kdf tree', ukm[16:24], 64, 1)
                else:
                    want = None
            ln = SZ(64)
            o = Buf(64)
            r = der(cx, o.p, ctypes.byref(ln))
            X.err()
            if want is None:
                if r > 0:
                    S.fail('a key is derived')
                continue
            S.expect(r, 1, 'the key is not derived')
            S.expect(ln.value, len(want), 'length of the key')
            S.expect(o.get()[:len(want)], want, 'wrong key')
        cfree(cx)
        X.pk_free(own)
        X.pk_free(peer)

