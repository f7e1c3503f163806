"""Key transport."""
import ctypes
from dv import model, bnx, direct as dr, terms as tm
from dv.exec import Exec, Ptr, NULL, T, Undecided, State
from dv.ir import probe
from dv.terms import const
from props import S04, C05

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 30, 240, 120
RULE = 'session keys encrypted and decrypted on every curve and transport, contexts used again; truncated, bit-flipped, re-encoded and recombined structures (odd field lengths, missing parts, keys of other algorithms and curves)'
ASSUMPTIONS = ['OpenSSL\'s ASN.1 decoder returns every mandatory part of a structure, or fails; encoder and decoder are inverse', 'X509_PUBKEY_get returns any key or none',
               'VKO_compute_key, gost_keg: property S04; keyWrapCryptoPro, keyUnwrapCryptoPro: property K01; gost_kexp15, gost_kimp15: property K02',
               'EVP_PKEY_derive_set_peer accepts only keys of the same type and parameters', 'an alteration is noticed when the MAC of the wrapped key does not match']
SRC = ['gost_ec_keyx.c', 'gost_pmeth.c']
ONE, ZERO = const(1, 32), const(0, 32)
NIDS = S04.NIDS + ['NID_magma_ctr', 'NID_grasshopper_ctr', 'NID_magma_mac', 'NID_grasshopper_mac', 'NID_undef', 'NID_id_Gost28147_89', 'NID_rsaEncryption',
                   'NID_id_Gost28147_89_CryptoPro_A_ParamSet', 'NID_id_tc26_gost_28147_param_Z']


def layout(R):
    O = {'asn1_string_st': ['length', 'data'], 'GOST_KEY_TRANSPORT': ['key_info', 'key_agreement_info'], 'GOST_KEY_INFO': ['encrypted_key', 'imit'],
         'GOST_KEY_AGREEMENT_INFO': ['cipher', 'ephem_key', 'eph_iv'], 'PSKeyTransport_gost': ['psexp', 'ephem_key', 'ukm'],
         'struct gost_pmeth_data': ['shared_ukm', 'shared_ukm_size', 'cipher_nid'], 'struct gost_cipher_info': ['nid', 'sblock']}
    q = []
    for t, fs in O.items():
        t = 'struct ' + t if t.startswith('asn1') else t
        q += ['offsetof(%s, %s)' % (t, f) for f in fs] + ['sizeof(%s)' % t]
    d = probe(['openssl/asn1.h', 'gost_lcl.h'], q, workdir=R.tmp)
    out = {}
    for t, fs in O.items():
        u = 'struct ' + t if t.startswith('asn1') else t
        for f in fs:
            out[t.split()[-1], f] = d['offsetof(%s, %s)' % (u, f)]
        out[t.split()[-1]] = d['sizeof(%s)' % u]
    return out


def ptr(s, p, off=0):
    q = dr.ptr_at(s, Ptr(p.obj, p.off.a + off))
    return NULL if q is None else q


class World:
    """contracts around the four functions; parsed structures are arbitrary"""

    def __init__(self, v, L):
        self.v, self.L = v, L
        C = self.C = S04.with_vko(v)
        C['EVP_PKEY_CTX_get0_pkey'] = lambda ex, s, a, i: s.data['my']
        C['EVP_PKEY_CTX_get_data'] = lambda ex, s, a, i: Ptr('data', 0)
        C['EVP_PKEY_get0'] = lambda ex, s, a, i: s.data['ec.' + a[0].obj]
        C['EC_KEY_get0_public_key'] = lambda ex, s, a, i: s.data['pubof.' + a[0].obj]
        C['EVP_PKEY_get_id'] = C['EVP_PKEY_get_base_id'] = lambda ex, s, a, i: const(s.data['type.' + a[0].obj], 32)
        C['EVP_PKEY_parameters_eq'] = lambda ex, s, a, i: self.two(s, ('same', a[0], a[1]))

        def defmd(ex, s, a, i):
            s.wval(a[1], const(s.data['defmd.%d' % s.data['type.' + a[0].obj]], 32))
            return const(2, 32)
        C['EVP_PKEY_get_default_digest_nid'] = defmd
        C['EVP_PKEY_CTX_ctrl'] = lambda ex, s, a, i: self.two(s, ('ctrl',))
        C['ASN1_STRING_length'] = lambda ex, s, a, i: s.val(Ptr(a[0].obj, L['asn1_string_st', 'length']), 4)
        C['ASN1_STRING_get0_data'] = lambda ex, s, a, i: ptr(s, a[0], L['asn1_string_st', 'data'])

        def pkfree(ex, s, a, i):
            if isinstance(a[0], Ptr):
                o = s.mem[a[0].obj]
                if o.freed or not (o.meta or {}).get('own'):
                    ex.res.fail('mem:a key is released once and only by its owner', 'line %d' % i.line)
                s.w(a[0].obj).freed = True
        C['EVP_PKEY_free'] = pkfree

        def structfree(ex, s, a, i):
            if isinstance(a[0], Ptr):
                if s.mem[a[0].obj].freed:
                    ex.res.fail('mem:a structure is released once', 'line %d' % i.line)
                s.w(a[0].obj).freed = True
        C['GOST_KEY_TRANSPORT_free'] = C['PSKeyTransport_gost_free'] = structfree

        def rand(ex, s, a, i):
            f = bnx.fail(s)
            ex.write_bytes(s, a[0], [tm.var('rnd[%d]' % j, 8) for j in range(a[1].a)], i.line)
            return [(s, ONE), (f, ZERO)]
        C['RAND_bytes'] = rand

        def params(ex, s, a, i):
            # the two parameter sets of the engine are always there (proved by the job 'params')
            known = s.data.get('objnid.' + a[0].obj) in (v['NID_id_Gost28147_89_CryptoPro_A_ParamSet'], v['NID_id_tc26_gost_28147_param_Z'])
            f = bnx.fail(s)
            p = s.new('param', L['gost_cipher_info'], init=lambda o: tm.var('param[%d]' % o, 8))
            n = s.data.get('objnid.' + a[0].obj)
            s.wval(Ptr(p.obj, L['gost_cipher_info', 'nid']), const(n, 32) if n is not None else tm.var('cipher_nid_parsed', 32))
            sb = dr.opaque(s, 'sblock')
            s.data['sblock'] = (sb, a[0])
            s.wval(Ptr(p.obj, L['gost_cipher_info', 'sblock']), sb)
            return p if known else [(s, p), (f, NULL)]
        C['get_encryption_params'] = params

        def nid2obj(ex, s, a, i):
            if a[0].op != 'c':
                raise Undecided('object identifier')
            k = 'OBJ%d' % a[0].a
            if k not in s.mem:
                s.new(k, 1, init=lambda o: tm.var('?', 8))
            s.data['objnid.' + k] = a[0].a
            return Ptr(k, 0)
        C['OBJ_nid2obj'] = nid2obj
        C['ASN1_OBJECT_free'] = model.nop

        def ginit(ex, s, a, i):
            s.data['gctx.' + a[0].obj] = a[1]
            ex.write_bytes(s, a[0], [tm.var('g[%d]' % j, 8) for j in range(8)], i.line)
        C['gost_init'] = ginit

        def wrap(ex, s, a, i):
            rd = lambda k, n: tuple(ex.read_bytes(s, a[k], n, i.line))
            u = rd(2, 8)
            dr.note(s, 'wrap', s.data.get('gctx.' + a[0].obj), rd(1, 32), u, rd(3, 32))
            ex.write_bytes(s, a[4], list(u) + [tm.var('wrapped[%d]' % j, 8) for j in range(36)], i.line)
            return ONE
        C['keyWrapCryptoPro'] = wrap

        def unwrap(ex, s, a, i):
            rd = lambda k, n: tuple(ex.read_bytes(s, a[k], n, i.line))
            dr.note(s, 'unwrap', s.data.get('gctx.' + a[0].obj), rd(1, 32), rd(2, 44))
            f = bnx.fail(s)
            ex.write_bytes(s, a[3], [tm.var('session[%d]' % j, 8) for j in range(32)], i.line)
            ex.write_bytes(f, a[3], [tm.var('bad[%d]' % j, 8) for j in range(32)], i.line)
            return [(s, ONE), (f, ZERO)]
        C['keyUnwrapCryptoPro'] = unwrap

        def keg(ex, s, a, i):
            g = bnx.fail(s)
            dr.note(s, 'keg', tuple(ex.read_bytes(s, a[0], 24, i.line)), a[1], a[2], a[3])
            ex.write_bytes(s, a[4], [tm.var('keg[%d]' % j, 8) for j in range(64)], i.line)
            return [(s, const(64, 32)), (g, ZERO)]
        C['gost_keg'] = keg

        def kexp(ex, s, a, i):
            g = bnx.fail(s)
            if a[1].op != 'c' or a[7].op != 'c':
                raise Undecided('lengths for KExp15')
            rd = lambda k, n: tuple(ex.read_bytes(s, a[k], n, i.line))
            dr.note(s, 'kexp15', rd(0, a[1].a), a[2], rd(3, 32), a[4], rd(5, 32), rd(6, a[7].a))
            n = a[1].a + {v['NID_magma_ctr']: 8, v['NID_grasshopper_ctr']: 16}[a[2].a]
            ex.write_bytes(s, a[8], [tm.var('exp[%d]' % j, 8) for j in range(n)], i.line)
            s.wval(a[9], const(n, 32))
            return [(s, ONE), (g, ZERO)]
        C['gost_kexp15'] = kexp

        def kimp(ex, s, a, i):
            g = bnx.fail(s)
            n = a[1]
            want = 32 + {v['NID_magma_ctr']: 8, v['NID_grasshopper_ctr']: 16}.get(a[2].a, 0)
            ok = s.fork()
            c = tm.eq(n, const(want, n.w))
            if c is tm.FALSE:
                return [(g, ZERO)]
            ok.assume(c)
            rd = lambda k, m: tuple(ex.read_bytes(ok, a[k], m, i.line))
            if a[7].op != 'c':
                raise Undecided('length for KImp15')
            dr.note(ok, 'kimp15', rd(0, want), a[2], rd(3, 32), a[4], rd(5, 32), rd(6, a[7].a))
            ex.write_bytes(ok, a[8], [tm.var('session[%d]' % j, 8) for j in range(32)], i.line)
            return [(ok, ONE), (g, ZERO)]
        C['gost_kimp15'] = kimp

        # structures
        def oset(ex, s, a, i):
            f = bnx.fail(s)
            n = a[2]
            if n.op != 'c':
                o = ex.values(s, n, 3)
                if len(o) != 1:
                    raise Undecided('length of a string')
                n = const(o[0], 32)
            s.data['str.' + a[0].obj] = tuple(ex.read_bytes(s, a[1], n.a, i.line))
            return [(s, ONE), (f, ZERO)]
        C['ASN1_OCTET_STRING_set'] = oset
        C['ASN1_OCTET_STRING_new'] = lambda ex, s, a, i: [(s, dr.opaque(s, 'str')), (bnx.fail(s), NULL)]

        def pkset(ex, s, a, i):
            f = bnx.fail(s)
            x = dr.opaque(s, 'x509pk')
            s.data['pk.' + x.obj] = a[1]
            s.wval(a[0], x)
            return [(s, ONE), (f, ZERO)]
        C['X509_PUBKEY_set'] = pkset

        def i2d(kind):
            def h(ex, s, a, i):
                f = bnx.fail(s)
                n = tm.var('derlen', 32)
                s.assume(tm.slt(ZERO, n))
                if isinstance(a[1], Ptr):
                    dr.note(s, 'i2d', self.snapshot(s, kind, a[0]), ptr(s, a[1]))
                return [(s, n), (f, const(0xffffffff, 32))]
            return h
        C['i2d_GOST_KEY_TRANSPORT'], C['i2d_PSKeyTransport_gost'] = i2d('gkt'), i2d('pst')

        def blank(kind):
            def h(ex, s, a, i):
                f = bnx.fail(s)
                return [(s, self.structure(s, kind, False)), (f, NULL)]
            return h
        C['GOST_KEY_TRANSPORT_new'], C['PSKeyTransport_gost_new'] = blank('gkt'), blank('pst')

        def d2i(kind):
            def h(ex, s, a, i):
                f = bnx.fail(s)
                dr.note(s, 'd2i', ptr(s, a[1]), a[2])
                r = [(f, NULL)]
                for u in ((True, False) if kind == 'pst' else (True,)):
                    t = s.fork()
                    r.append((t, self.structure(t, kind, True, u)))
                return r
            return h
        C['d2i_GOST_KEY_TRANSPORT'], C['d2i_PSKeyTransport_gost'] = d2i('gkt'), d2i('pst')

        def pkget(ex, s, a, i):
            r = [(s.fork(), NULL)]
            for t, nm in ((s.data['type.my'], 'same'), (v['NID_rsaEncryption'], 'rsa')):
                u = s.fork()
                u.data['eph'] = k = self.pkey(u, 'eph', t, own=True, foreign=nm == 'rsa')
                r.append((u, k))
            return r
        C['X509_PUBKEY_get'] = pkget

        def setpeer(ex, s, a, i):
            f = bnx.fail(s)
            # keys of another type or curve are refused
            if s.data['type.' + a[1].obj] != s.data['type.my']:
                return [(f, const(0xffffffff, 32))]
            s.data['peer'] = a[1]
            dr.note(s, 'peer', a[1])
            return [(s, ONE), (f, ZERO)]
        C['EVP_PKEY_derive_set_peer'] = setpeer
        C['EVP_PKEY_CTX_get0_peerkey'] = lambda ex, s, a, i: s.data['peer']

        # ephemeral keys
        def pknew(ex, s, a, i):
            f = bnx.fail(s)
            k = self.pkey(s, 'fresh', None, own=True)
            s.data['ec.' + k.obj] = NULL
            return [(s, k), (f, NULL)]
        C['EVP_PKEY_new'] = pknew
        C['EC_KEY_new'] = lambda ex, s, a, i: [(s, self.eckey(s)), (bnx.fail(s), NULL)]

        def assign(ex, s, a, i):
            if not isinstance(a[0], Ptr) or not isinstance(a[2], Ptr):
                s.data['failed'] = True
                return ZERO
            f = bnx.fail(s)
            s.data['ec.' + a[0].obj] = a[2]
            s.data['type.' + a[0].obj] = a[1].a
            return [(s, ONE), (f, ZERO)]
        C['EVP_PKEY_assign'] = assign
        C['EVP_PKEY_copy_parameters'] = lambda ex, s, a, i: self.two(s, ('copyparam', a[0], a[1]))
        C['gost_ec_keygen'] = lambda ex, s, a, i: self.two(s, ('keygen', a[0]))
        C['gost_get0_priv_key'] = lambda ex, s, a, i: [(s, dr.opaque(s, 'priv')), (bnx.fail(s), NULL)]

    def two(self, s, e):
        f = bnx.fail(s)
        dr.note(s, *e)
        return [(s, ONE), (f, ZERO)]

    def eckey(self, s):
        e = dr.opaque(s, 'eckey')
        s.data['pubof.' + e.obj] = dr.opaque(s, 'pub')
        return e

    def pkey(self, s, nm, typ, own=False, foreign=False):
        k = s.new(nm, 1, init=lambda o: tm.var('?', 8))
        s.mem[k.obj].meta = {'own': own}
        s.data['type.' + k.obj] = typ
        # the key of another algorithm has no EC_KEY: an object no contract knows
        s.data['ec.' + k.obj] = dr.opaque(s, 'notec') if foreign else self.eckey(s)
        return k

    def string(self, s, nm, parsed):
        L = self.L
        p = s.new(nm, L['asn1_string_st'], init=lambda o: const(0, 8))
        if parsed:
            n = tm.var(nm + '.len', 32)
            s.assume(tm.sle(ZERO, n))
            d = s.new(nm + '.data', tm.zext(n, 64), kind='arr')
            s.wval(Ptr(p.obj, L['asn1_string_st', 'length']), n)
            s.wval(Ptr(p.obj, L['asn1_string_st', 'data']), d)
        return p

    def structure(self, s, kind, parsed, ukm=False):
        L = self.L
        nw = lambda t: s.new(t, L[t], init=lambda o: const(0, 8))
        put = lambda p, t, f, x: s.wval(Ptr(p.obj, L[t, f]), x)
        if kind == 'gkt':
            g, ki, ka = nw('GOST_KEY_TRANSPORT'), nw('GOST_KEY_INFO'), nw('GOST_KEY_AGREEMENT_INFO')
            put(g, 'GOST_KEY_TRANSPORT', 'key_info', ki)
            put(g, 'GOST_KEY_TRANSPORT', 'key_agreement_info', ka)
            put(ki, 'GOST_KEY_INFO', 'encrypted_key', self.string(s, 'encrypted_key', parsed))
            put(ki, 'GOST_KEY_INFO', 'imit', self.string(s, 'imit', parsed))
            put(ka, 'GOST_KEY_AGREEMENT_INFO', 'eph_iv', self.string(s, 'eph_iv', parsed))
            put(ka, 'GOST_KEY_AGREEMENT_INFO', 'cipher', dr.opaque(s, 'cipher'))
            s.data['cipherobj'] = ptr(s, ka, L['GOST_KEY_AGREEMENT_INFO', 'cipher'])
            if parsed:
                put(ka, 'GOST_KEY_AGREEMENT_INFO', 'ephem_key', dr.opaque(s, 'x509pk'))
            return g
        g = nw('PSKeyTransport_gost')
        put(g, 'PSKeyTransport_gost', 'psexp', self.string(s, 'psexp', parsed))
        if parsed:
            put(g, 'PSKeyTransport_gost', 'ephem_key', dr.opaque(s, 'x509pk'))
            if ukm:
                put(g, 'PSKeyTransport_gost', 'ukm', self.string(s, 'pukm', parsed))
            s.data['pukm'] = ukm
        return g

    def snapshot(self, s, kind, p):
        L = self.L
        get = lambda q, t, f: ptr(s, q, L[t, f])
        st = lambda q: s.data.get('str.' + q.obj) if isinstance(q, Ptr) else None
        pk = lambda q: s.data.get('pk.' + q.obj) if isinstance(q, Ptr) else None
        if kind == 'gkt':
            ki, ka = get(p, 'GOST_KEY_TRANSPORT', 'key_info'), get(p, 'GOST_KEY_TRANSPORT', 'key_agreement_info')
            c = get(ka, 'GOST_KEY_AGREEMENT_INFO', 'cipher')
            return {'enc': st(get(ki, 'GOST_KEY_INFO', 'encrypted_key')), 'imit': st(get(ki, 'GOST_KEY_INFO', 'imit')), 'iv': st(get(ka, 'GOST_KEY_AGREEMENT_INFO', 'eph_iv')),
                    'pk': pk(get(ka, 'GOST_KEY_AGREEMENT_INFO', 'ephem_key')), 'cipher': s.data.get('objnid.' + c.obj)}
        return {'psexp': st(get(p, 'PSKeyTransport_gost', 'psexp')), 'ukm': st(get(p, 'PSKeyTransport_gost', 'ukm')), 'pk': pk(get(p, 'PSKeyTransport_gost', 'ephem_key'))}

    def begin(self, p, typ, cipher, ukm):
        ex, st = S04.start(p, self.C)
        v, L = self.v, self.L
        ex.externs['RAND_bytes'] = self.C['RAND_bytes']
        st.data['defmd.%d' % typ] = {v['NID_id_GostR3410_2012_256']: v['NID_id_GostR3411_2012_256'], v['NID_id_GostR3410_2012_512']: v['NID_id_GostR3411_2012_512']}.get(typ, v['NID_id_GostR3411_94'])
        st.data['my'] = self.pkey(st, 'my', typ)
        st.data['peer'] = NULL
        model.sym(st, 'data', L['gost_pmeth_data'])
        st.wval(Ptr('data', L['gost_pmeth_data', 'cipher_nid']), const(cipher, 32))
        st.wval(Ptr('data', L['gost_pmeth_data', 'shared_ukm_size']), const(ukm, 64))
        self.U = [st.rb('data', L['gost_pmeth_data', 'shared_ukm'] + j) for j in range(32)]
        st.new('out', 4096, init=lambda o: tm.var('old[%d]' % o, 8))
        st.new('len', 8, init=lambda o: tm.var('oldlen[%d]' % o, 8))
        model.sym(st, 'key', 32)
        return ex, st


def prove(R):
    p = model.prog(SRC, R.tmp)
    v = probe(['openssl/objects.h'], NIDS, workdir=R.tmp)
    L = layout(R)
    W = lambda: World(v, L)
    V = lambda n, k: tuple(tm.var('%s[%d]' % (n, j), 8) for j in k)
    R.contracts['ASN.1 encoding and decoding, EVP_PKEY_*, X509_PUBKEY_*'] = 'assumed (OpenSSL)'
    R.contracts['VKO_compute_key, gost_keg'] = 'proved in S04'
    R.contracts['keyWrapCryptoPro, keyUnwrapCryptoPro'] = 'proved in K01'
    R.contracts['gost_kexp15, gost_kimp15'] = 'proved in K02'
    types = [v[k] for k in NIDS[3:7]]
    md256 = lambda m: v['NID_id_GostR3411_2012_256'] if m == v['NID_id_GostR3411_2012_512'] else m
    secret = list(V('key', range(32)))

    def decrypt(typ):
        def f(R):
            w = W()
            ex, st = w.begin(p, typ, v['NID_undef'], 0)
            nm = 'decrypt(%d)' % typ
            st.new('in', tm.var('inlen', 64), kind='arr')
            st.wval(Ptr('len', 0), const(32, 64))
            good = 0
            for kind, s, r in model.runall(ex, st, 'pkey_GOST_ECcp_decrypt', [dr.opaque(st, 'pctx'), Ptr('out', 0), Ptr('len', 0), Ptr('in', 0), tm.var('inlen', 64)]):
                if kind != 'ret':
                    R.truth('%s: the process goes on' % nm, False, kind)
                    continue
                ev = dr.events(s)
                un = [e for e in ev if e[0] == 'unwrap']
                lens = [tm.eq(tm.var(n + '.len', 32), const(k, 32)) for n, k in (('eph_iv', 8), ('encrypted_key', 32), ('imit', 4))]
                if s.data.get('failed') or not un:
                    R.cond('%s: a failure is reported' % nm, tm.sle(r, ZERO), s.pc)
                    continue
                good += 1
                R.cond('%s: success' % nm, tm.eq(r, ONE), s.pc)
                for c, n in zip(lens, ('UKM', 'key', 'MAC')):
                    R.cond('%s: only with a %s of its length' % (nm, n), c, s.pc)
                R.truth('%s: parses the input' % nm, [e[0] for e in ev][0] == 'd2i' and ev[0][1] == Ptr('in', 0) and ev[0][2] == tm.var('inlen', 64))
                iv, enc, im = [tuple(tm.arr(n + '.data', const(j, 64)) for j in range(k)) for n, k in (('eph_iv', 8), ('encrypted_key', 32), ('imit', 4))]
                sb, obj = s.data['sblock']
                R.truth('%s: the S-box named in the structure' % nm, len(un) == 1 and un[0][1] == sb and obj == s.data['cipherobj'])
                R.eq('%s: unwraps UKM, key and MAC of the structure' % nm, list(un[0][3]), list(iv + enc + im), s.pc)
                R.eq('%s: with the shared key' % nm, list(un[0][2]), list(V('vko', range(32))), s.pc)
                vk = [e for e in ev if e[0] == 'vko']
                peer = s.data['peer']
                R.truth('%s: VKO of the own key and the peer\'s' % nm, len(vk) == 1 and isinstance(peer, Ptr) and vk[0][1] == s.data['pubof.' + s.data['ec.' + peer.obj].obj] and vk[0][2] == s.data['ec.my'] and vk[0][4] == md256(st.data['defmd.%d' % typ]))
                R.eq('%s: over the UKM' % nm, list(vk[0][3]), list(iv), s.pc)
                R.eq('%s: the session key' % nm, dr.cells(s, 'out')[:32], list(V('session', range(32))), s.pc)
                R.eq('%s: 32 bytes' % nm, s.val(Ptr('len', 0), 8), const(32, 64), s.pc)
            R.truth('%s: keys are decrypted' % nm, good > 0)
            R.absorb(ex, nm)
        return ('decrypt %d' % typ, f)

    def decrypt18(typ, cipher, ukm):
        def f(R):
            w = W()
            c, mac, ivl, ml = (v['NID_magma_ctr'], v['NID_magma_mac'], 4, 8) if cipher == 'magma' else (v['NID_grasshopper_ctr'], v['NID_grasshopper_mac'], 8, 16)
            ex, st = w.begin(p, typ, c, ukm)
            nm = 'decrypt2018(%d,%s,%d)' % (typ, cipher, ukm)
            st.new('in', tm.var('inlen', 64), kind='arr')
            st.wval(Ptr('len', 0), const(32, 64))
            old = dr.cells(st, 'data')
            good = 0
            for kind, s, r in model.runall(ex, st, 'pkey_gost2018_decrypt', [dr.opaque(st, 'pctx'), Ptr('out', 0), Ptr('len', 0), Ptr('in', 0), tm.var('inlen', 64)]):
                if kind != 'ret':
                    R.truth('%s: the process goes on' % nm, False, kind)
                    continue
                R.eq('%s: the context stays as it is' % nm, dr.cells(s, 'data'), old, s.pc)
                ev = dr.events(s)
                ki = [e for e in ev if e[0] == 'kimp15']
                if s.data.get('failed') or not ki:
                    R.cond('%s: a failure is reported' % nm, tm.sle(r, ZERO), s.pc)
                    continue
                good += 1
                R.cond('%s: success' % nm, tm.eq(r, ONE), s.pc)
                eph = s.data['eph']
                R.truth('%s: only with an ephemeral key of the same algorithm and curve' % nm, s.data['type.' + eph.obj] == typ and any(e[0] == 'same' and {e[1], e[2]} == {eph, s.data['my']} for e in ev))
                kg = [e for e in ev if e[0] == 'keg']
                if ukm:
                    U = list(w.U)
                else:
                    n = tm.var('pukm.len', 32)
                    R.cond('%s: only with a UKM' % nm, tm.slt(ZERO, n) if s.data['pukm'] else tm.FALSE, s.pc)
                    R.cond('%s: of at most 32 bytes' % nm, tm.sle(n, const(32, 32)), s.pc)
                    U = [tm.ite(tm.slt(const(j, 32), n), tm.arr('pukm.data', const(j, 64)), const(0, 8)) for j in range(32)]
                R.truth('%s: KEG of the own key and the ephemeral point' % nm, len(kg) == 1 and kg[0][2:] == (const(typ, 32), s.data['pubof.' + s.data['ec.' + eph.obj].obj], s.data['ec.my']))
                R.eq('%s: over the UKM' % nm, list(kg[0][1]), U[:24], s.pc)
                k = ki[0]
                R.truth('%s: KImp15 once' % nm, len(ki) == 1 and k[2] == const(c, 32) and k[4] == const(mac, 32))
                R.eq('%s: of the exported key' % nm, list(k[1]), [tm.arr('psexp.data', const(j, 64)) for j in range(32 + ml)], s.pc)
                R.eq('%s: MAC key' % nm, list(k[5]), list(V('keg', range(32))), s.pc)
                R.eq('%s: cipher key' % nm, list(k[3]), list(V('keg', range(32, 64))), s.pc)
                R.truth('%s: IV length' % nm, len(k[6]) == ivl)
                R.eq('%s: IV' % nm, list(k[6]), U[24:24 + len(k[6])], s.pc)
                R.eq('%s: the session key' % nm, dr.cells(s, 'out')[:32], list(V('session', range(32))), s.pc)
                R.eq('%s: 32 bytes' % nm, s.val(Ptr('len', 0), 8), const(32, 64), s.pc)
            R.truth('%s: keys are decrypted' % nm, good > 0)
            R.absorb(ex, nm)
        return ('decrypt18 %d %s %d' % (typ, cipher, ukm), f)

    def encrypt(typ, ukm, peer, null, keylen=32):
        def f(R):
            w = W()
            ex, st = w.begin(p, typ, v['NID_undef'], ukm)
            nm = 'encrypt(%d, ukm %d%s%s%s)' % (typ, ukm, ', own key' if peer else '', ', size' if null else '', '' if keylen == 32 else ', %d bytes' % keylen)
            if peer:
                st.data['peer'] = w.pkey(st, 'peer', typ)
            good = 0
            oldlen = tm.var('room', 64)
            st.wval(Ptr('len', 0), oldlen)
            for kind, s, r in model.runall(ex, st, 'pkey_GOST_ECcp_encrypt', [dr.opaque(st, 'pctx'), NULL if null else Ptr('out', 0), Ptr('len', 0), Ptr('key', 0), const(keylen, 64)]):
                if kind != 'ret':
                    R.truth('%s: the process goes on' % nm, False, kind)
                    continue
                ev = dr.events(s)
                for o in s.mem:
                    if o.startswith('fresh') and not s.mem[o].freed:
                        R.truth('%s: the ephemeral key is released' % nm, False, o)
                e = [x for x in ev if x[0] == 'i2d']
                if s.data.get('failed') or (not e and not null) or keylen != 32:
                    R.cond('%s: a failure is reported' % nm, tm.sle(r, ZERO), s.pc)
                    continue
                good += 1
                R.cond('%s: success' % nm, tm.eq(r, ONE), s.pc)
                R.eq('%s: length' % nm, s.val(Ptr('len', 0), 8), tm.zext(tm.var('derlen', 32), 64), s.pc)
                if null:
                    continue
                R.cond('%s: in the room given' % nm, tm.ule(tm.zext(tm.var('derlen', 32), 64), oldlen), s.pc)
                R.truth('%s: one structure at the start of the output' % nm, len(e) == 1 and e[0][2] == Ptr('out', 0))
                x = e[0][1]
                U = w.U[:8] if ukm else list(V('rnd', range(8)))
                box = v['NID_id_Gost28147_89_CryptoPro_A_ParamSet' if typ in (v['NID_id_GostR3410_2001'], v['NID_id_GostR3410_2001DH']) else 'NID_id_tc26_gost_28147_param_Z']
                R.truth('%s: parts' % nm, None not in (x['iv'], x['enc'], x['imit']) and [len(x[k]) for k in ('iv', 'enc', 'imit')] == [8, 32, 4])
                R.eq('%s: UKM in the structure' % nm, list(x['iv']), U, s.pc)
                R.eq('%s: wrapped key and MAC in the structure' % nm, list(x['enc']) + list(x['imit']), list(V('wrapped', range(36))), s.pc)
                R.truth('%s: cipher in the structure' % nm, x['cipher'] == box)
                sec = s.data['peer'] if peer else Ptr('fresh', 0)
                R.truth('%s: ephemeral key in the structure' % nm, x['pk'] is None if peer else x['pk'] == sec)
                if not peer:
                    R.truth('%s: a fresh key with the recipient\'s parameters' % nm, ('copyparam', sec, s.data['my']) in ev and ('keygen', s.data['ec.fresh']) in ev)
                vk = [x for x in ev if x[0] == 'vko']
                R.truth('%s: VKO of the ephemeral key and the recipient' % nm, len(vk) == 1 and vk[0][1] == s.data['pubof.' + s.data['ec.my'].obj] and vk[0][2] == s.data['ec.' + sec.obj] and vk[0][4] == md256(st.data['defmd.%d' % typ]))
                R.eq('%s: over the UKM' % nm, list(vk[0][3]), U, s.pc)
                wr = [x for x in ev if x[0] == 'wrap']
                R.truth('%s: one wrap with the S-box' % nm, len(wr) == 1 and wr[0][1] == s.data['sblock'][0] and s.data['objnid.' + s.data['sblock'][1].obj] == box)
                R.eq('%s: of the session key under the shared key' % nm, list(wr[0][2] + wr[0][3] + wr[0][4]), list(V('vko', range(32))) + U + secret, s.pc)
            R.truth('%s: keys are encrypted' % nm, good > 0 or keylen != 32)
            R.absorb(ex, nm)
        return ('encrypt %d %d %s %s %d' % (typ, ukm, peer, null, keylen), f)

    def encrypt18(typ, cipher, ukm, peer, null):
        def f(R):
            w = W()
            c, mac, ivl, ml = (v['NID_magma_ctr'], v['NID_magma_mac'], 4, 8) if cipher == 'magma' else (v['NID_grasshopper_ctr'], v['NID_grasshopper_mac'], 8, 16)
            ex, st = w.begin(p, typ, c, ukm)
            nm = 'encrypt2018(%d,%s,%d%s%s)' % (typ, cipher, ukm, ', own key' if peer else '', ', size' if null else '')
            if peer:
                st.data['peer'] = w.pkey(st, 'peer', typ)
            good = 0
            oldlen = tm.var('room', 64)
            st.wval(Ptr('len', 0), oldlen)
            for kind, s, r in model.runall(ex, st, 'pkey_gost2018_encrypt', [dr.opaque(st, 'pctx'), NULL if null else Ptr('out', 0), Ptr('len', 0), Ptr('key', 0), const(32, 64)]):
                if kind != 'ret':
                    R.truth('%s: the process goes on' % nm, False, kind)
                    continue
                ev = dr.events(s)
                e = [x for x in ev if x[0] == 'i2d']
                if s.data.get('failed') or (not e and not null):
                    R.cond('%s: a failure is reported' % nm, tm.sle(r, ZERO), s.pc)
                    continue
                good += 1
                R.cond('%s: success' % nm, tm.eq(r, ONE), s.pc)
                R.eq('%s: length' % nm, s.val(Ptr('len', 0), 8), tm.zext(tm.var('derlen', 32), 64), s.pc)
                if null:
                    continue
                R.cond('%s: in the room given' % nm, tm.ule(tm.zext(tm.var('derlen', 32), 64), oldlen), s.pc)
                R.truth('%s: one structure at the start of the output' % nm, len(e) == 1 and e[0][2] == Ptr('out', 0))
                x = e[0][1]
                U = list(w.U) if ukm else list(V('rnd', range(32)))
                # the receiver reads a shorter UKM as padded with zeros; contexts hold it so (S04)
                n = ukm or 32
                R.truth('%s: parts' % nm, x['ukm'] is not None and x['psexp'] is not None and len(x['ukm']) == n and len(x['psexp']) == 32 + ml)
                R.eq('%s: UKM in the structure' % nm, list(x['ukm']), U[:n], s.pc)
                R.eq('%s: exported key in the structure' % nm, list(x['psexp']), list(V('exp', range(32 + ml))), s.pc)
                sec = s.data['peer'] if peer else Ptr('fresh', 0)
                R.truth('%s: ephemeral key in the structure' % nm, x['pk'] == sec)
                if not peer:
                    R.truth('%s: a fresh key with the recipient\'s parameters' % nm, ('copyparam', sec, s.data['my']) in ev and ('keygen', s.data['ec.fresh']) in ev)
                kg = [x for x in ev if x[0] == 'keg']
                R.truth('%s: KEG of the ephemeral key and the recipient' % nm, len(kg) == 1 and kg[0][2:] == (const(typ, 32), s.data['pubof.' + s.data['ec.my'].obj], s.data['ec.' + sec.obj]))
                R.eq('%s: over the UKM' % nm, list(kg[0][1]), U[:24], s.pc)
                k = [x for x in ev if x[0] == 'kexp15']
                R.truth('%s: KExp15 once' % nm, len(k) == 1 and k[0][2] == const(c, 32) and k[0][4] == const(mac, 32) and len(k[0][6]) == ivl)
                k = k[0]
                R.eq('%s: of the session key' % nm, list(k[1]), secret, s.pc)
                R.eq('%s: keys' % nm, list(k[5] + k[3]), list(V('keg', range(64))), s.pc)
                R.eq('%s: IV' % nm, list(k[6]), U[24:24 + ivl], s.pc)
            R.truth('%s: keys are encrypted' % nm, good > 0)
            R.absorb(ex, nm)
        return ('encrypt18 %d %s %d %s %s' % (typ, cipher, ukm, peer, null), f)

    def dispatch(R):
        for fn in ('pkey_gost_encrypt', 'pkey_gost_decrypt'):
            for c in (v['NID_undef'], v['NID_id_Gost28147_89'], v['NID_magma_ctr'], v['NID_grasshopper_ctr'], 1, 2):
                w = W()
                for n in ('pkey_GOST_ECcp', 'pkey_gost2018'):
                    def mk(n):
                        def h(ex, s, a, i):
                            dr.note(s, n, tuple(a))
                            return tm.var('result', 32)
                        return h
                    w.C[n + fn[9:]] = mk(n)
                ex, st = w.begin(p, types[0], c, 0)
                room = tm.var('room', 64)
                st.wval(Ptr('len', 0), room)
                st.new('in', tm.var('inlen', 64), kind='arr')
                args = [dr.opaque(st, 'pctx'), Ptr('out', 0), Ptr('len', 0), Ptr('in', 0), tm.var('inlen', 64)]
                for kind, s, r in model.runall(ex, st, fn, args):
                    ev = dr.events(s)
                    nm = '%s(%d)' % (fn, c)
                    small = fn.endswith('decrypt') and not ev
                    if c in (1, 2) or small:
                        R.truth('%s: nothing is done' % nm, not ev)
                        R.cond('%s: refused' % nm, tm.sle(r, ZERO), s.pc)
                        if small and c not in (1, 2):
                            R.cond('%s: refused only without room' % nm, tm.ult(room, const(32, 64)), s.pc)
                        continue
                    if fn.endswith('decrypt'):
                        R.cond('%s: room for the key' % nm, tm.ule(const(32, 64), room), s.pc)
                    want = 'pkey_gost2018' if c in (v['NID_magma_ctr'], v['NID_grasshopper_ctr']) else 'pkey_GOST_ECcp'
                    R.truth('%s: the transport of the cipher' % nm, len(ev) == 1 and ev[0][0] == want and list(ev[0][1]) == args)
                    R.eq('%s: its result' % nm, r, tm.var('result', 32), s.pc)
                R.absorb(ex, fn)
    def params(R):
        q = model.prog(C05.SRC, R.tmp)
        A, Z = v['NID_id_Gost28147_89_CryptoPro_A_ParamSet'], v['NID_id_tc26_gost_28147_param_Z']
        for k in (A, Z):
            ex = Exec(q, contracts={'OBJ_obj2nid': lambda ex, s, a, i: const(k, 32)}, externs=dict(model.BASE))
            st = State()
            for kind, s, r in model.runall(ex, st, 'get_encryption_params', [dr.opaque(st, 'obj')]):
                ok = kind == 'ret' and isinstance(r, Ptr) and r.off.op == 'c' and s.mem[r.obj].kind == 'fix'
                R.truth('get_encryption_params(%d): found' % k, ok)
                if ok:
                    R.eq('get_encryption_params(%d): the parameter set asked for' % k, s.val(Ptr(r.obj, r.off.a + L['gost_cipher_info', 'nid']), 4), const(k, 32), s.pc)
            R.absorb(ex, 'get_encryption_params')
    jobs = [('params', params)] + [decrypt(t) for t in types] + [('dispatch', dispatch)]
    for t in types[2:]:
        for c in ('magma', 'kuz'):
            jobs += [decrypt18(t, c, u) for u in (0, 32)] + [encrypt18(t, c, u, pr, nl) for u in (0, 8, 32) for pr in (False, True) for nl in (False, True)]
    for t in types:
        jobs += [encrypt(t, u, pr, nl) for u in (0, 8, 32) for pr in (False, True) for nl in (False, True)]
    jobs += [encrypt(types[2], 0, False, False, k) for k in (0, 31, 33, 64)]
    R.parallel(jobs)


def search(S):
    from dv import ecx, der
    from dv.evp import Engine
    from dv.real import Buf
    from spec import modes, ciphers as sp
    E = Engine(S.lib)
    X = ecx.EC(S.lib)
    rng = S.rng
    P, I, SZ = ecx.P, ecx.I, ctypes.c_size_t
    cf = S.lib.cf
    assign = cf('EVP_PKEY_assign', I, P, I, P)
    cnew, cfree = cf('EVP_PKEY_CTX_new', P, P, P), cf('EVP_PKEY_CTX_free', None, P)
    einit, dinit, setpeer = cf('EVP_PKEY_encrypt_init', I, P), cf('EVP_PKEY_decrypt_init', I, P), cf('EVP_PKEY_derive_set_peer', I, P, P)
    f_enc, f_dec = [cf('EVP_PKEY_%scrypt' % w, I, P, P, ctypes.POINTER(SZ), P, SZ) for w in ('en', 'de')]
    ctrl = cf('EVP_PKEY_CTX_ctrl', I, P, I, I, I, I, P)
    i2d = cf('i2d_PUBKEY', I, P, P)
    sz = {'magma': (8, 4), 'kuznyechik': (16, 8)}
    boxes = {'gost2001': ('Gost28147_CryptoProParamSetA', bytes.fromhex('06072a850302021f01')), 'gost2012_256': ('Gost28147_TC26ParamSetZ', bytes.fromhex('06092a850307010205010 1'.replace(' ', '')))}
    boxes['gost2012_512'] = boxes['gost2012_256']
    allbox = [bytes.fromhex('06072a8503020 21f0%d'.replace(' ', '') % k) for k in (1, 2, 3, 4)] + [boxes['gost2012_256'][1], bytes.fromhex('06032a0304')]

    def pk(alg, name, d=None, Q=None):
        k = X.pk_new()
        assign(k, E.nid(alg.encode()), X.key(X.nid(name), d, Q or X.curves[name].mul(d, X.curves[name].G)))
        return k

    def spki(k):
        n = i2d(k, None)
        o = Buf(n)
        q = P(o.p)
        i2d(k, ctypes.byref(q))
        return o.get()

    def digest(md, data):
        return sp.gost94(data) if md == 'md_gost94' else sp.streebog(data, md)

    def vko(c, k, Q, ukm, md):
        R = c.mul(c.h * (int.from_bytes(ukm, 'little') * k % c.q), Q)
        return R and digest(md, R[0].to_bytes(c.n, 'little') + R[1].to_bytes(c.n, 'little'))

    def keg(c, k, Q, ukm, alg):
        u = ukm[:16][::-1] if any(ukm[:16]) else b'\1' + bytes(15)
        if alg == 'gost2012_512':
            return vko(c, k, Q, u, 512)
        r = vko(c, k, Q, u, 256)
        return r and modes.kdftree(r, b'kdf tree', ukm[16:24], 64, 1)

    def oldmd(alg):
        return 'md_gost94' if alg == 'gost2001' else 256

    def build(tr, F):
        """a structure out of its parts"""
        if tr == 'old':
            eph = b'' if F['eph'] is None else der.enc(0xa0, der.parts(F['eph'])[0][1])
            return der.seq(der.seq(der.octets(F['enc']), der.octets(F['imit'])), der.enc(0xa0, F['box'] + eph + der.octets(F['iv'])))
        return der.seq(der.octets(F['psexp']), F['eph'] or b'', b'' if F['ukm'] is None else der.octets(F['ukm']))

    def split(tr, blob):
        t, b, e = der.one(blob)
        assert e == len(blob)
        x = der.parts(b)
        if tr == 'old':
            k, a = der.parts(x[0][1]), der.parts(x[1][1])
            F = {'enc': k[0][1], 'imit': k[1][1], 'box': der.enc(*a[0]), 'iv': a[-1][1], 'eph': der.enc(0x30, a[1][1]) if len(a) == 3 else None}
        else:
            F = {'psexp': x[0][1], 'eph': der.enc(*x[1]), 'ukm': x[2][1] if len(x) > 2 else None}
        assert build(tr, F) == blob
        return F

    def pubof(c, sp_):
        x = der.parts(der.one(sp_)[1])
        b = der.one(x[1][1][1:])[1]
        n = len(b) // 2
        return (int.from_bytes(b[:n], 'little'), int.from_bytes(b[n:], 'little'))
    algs = ['gost2001', 'gost2012_256', 'gost2012_512']
    n = rng.randrange(100)
    rsa = der.seq(der.seq(bytes.fromhex('06092a864886f70d010101'), b'\5\0'), der.bits(der.seq(der.integer((1 << 511) + 12345), der.integer(65537))))
    while S.more():
        n += 1
        tr = ('old', 'magma', 'kuznyechik')[n % 3]
        names = list(X.curves)
        name = names[(n // 3) % len(names)]
        c = X.curves[name]
        alg = 'gost2012_512' if c.q.bit_length() > 300 else rng.choice(algs[:2] if tr == 'old' else algs[1:2])
        d, de = rng.randrange(1, c.q), rng.randrange(1, c.q)
        Q = c.mul(d, c.G)
        S.case(kind=tr, curve=name, alg=alg, d=hex(d))
        rk = pk(alg, name, d, Q)
        own = pk(alg, name, de) if rng.random() < 0.3 else None
        ex, dx = cnew(rk, None), cnew(rk, None)
        if einit(ex) != 1 or dinit(dx) != 1:
            S.fail('key transport does not start')
        if tr != 'old':
            for z in (ex, dx):
                if ctrl(z, -1, -1, 12, E.nid(b'magma-ctr' if tr == 'magma' else b'kuznyechik-ctr' if E.nid(b'kuznyechik-ctr') else b'grasshopper-ctr'), None) != 1:
                    S.fail('the cipher is not taken')
        if own and setpeer(ex, own) != 1:
            S.fail('the own key is not taken')
        for rnd in range(2):
            ukm = None
            if rng.random() < 0.4:
                ukm = S.bytes(8) if tr == 'old' else rng.choice((S.bytes(32), bytes(16) + S.bytes(16)))
                if ctrl(ex, -1, -1, 8, len(ukm), Buf(ukm).p) != 1:
                    S.fail('the UKM is not taken')
            key = S.bytes(32)
            S.case(kind=tr, curve=name, alg=alg, d=hex(d), de=hex(de) if own else None, ukm=ukm, key=key)
            kb, ln = Buf(key), SZ(0)
            if f_enc(ex, None, ctypes.byref(ln), kb.p, 32) != 1:
                S.fail('size is not reported')
            size = ln.value
            if rng.random() < 0.3:
                o = Buf(S.bytes(20))
                before = o.get()
                ln.value = 20
                if f_enc(ex, o.p, ctypes.byref(ln), kb.p, 32) == 1 or not o.ok():
                    S.fail('encrypts into a buffer that is too small')
                X.err()
            o = Buf(size)
            ln.value = size
            if f_enc(ex, o.p, ctypes.byref(ln), kb.p, 32) != 1:
                S.fail('encryption fails')
            if not o.ok() or ln.value > size:
                S.fail('writes outside of the buffer')
            blob = o.get()[:ln.value]
            S.last['blob'] = blob.hex()
            try:
                F = split(tr, blob)
            except (ValueError, IndexError, AssertionError) as e:
                S.fail('not a key transport structure: %r' % e)
            # an independent receiver
            if tr == 'old':
                eq = pubof(c, F['eph']) if F['eph'] else c.mul(de, c.G)
                if ukm and F['iv'] != ukm:
                    S.fail('another UKM in the structure')
                if (F['eph'] is None) != bool(own):
                    S.fail('ephemeral key in the structure')
                sh = vko(c, d, eq, F['iv'], oldmd(alg))
                w = modes.cp_wrap(boxes[alg][0], sh, F['iv'], key)
                S.expect(F['box'], boxes[alg][1], 'cipher in the structure')
                S.expect(F['iv'] + F['enc'] + F['imit'], w, 'wrapped key')
            else:
                eq = pubof(c, F['eph'])
                u = F['ukm']
                if ukm and u != ukm:
                    S.fail('another UKM in the structure')
                if own and eq != c.mul(de, c.G):
                    S.fail('ephemeral key in the structure')
                ks = keg(c, d, eq, u, alg)
                S.expect(F['psexp'], modes.kexp15(tr, key, ks[32:], ks[:32], u[24:24 + sz[tr][1]]), 'exported key')
            # an independent sender
            k2, e2 = S.bytes(32), rng.randrange(1, c.q)
            Q2 = c.mul(e2, c.G)
            eph = pk(alg, name, e2, Q2)
            S2 = spki(eph)
            X.pk_free(eph)
            if tr == 'old':
                iv = S.bytes(8)
                sh = vko(c, e2, Q, iv, oldmd(alg))
                if sh is None:
                    continue
                w = modes.cp_wrap(boxes[alg][0], sh, iv, k2)
                F2 = {'enc': w[8:40], 'imit': w[40:], 'box': boxes[alg][1], 'iv': iv, 'eph': S2}
            else:
                u = rng.choice((S.bytes(32), bytes(16) + S.bytes(16)))
                ks = keg(c, e2, Q, u, alg)
                if ks is None:
                    continue
                F2 = {'psexp': modes.kexp15(tr, k2, ks[32:], ks[:32], u[24:24 + sz[tr][1]]), 'eph': S2, 'ukm': u}

            def offer(b, want, what, must=False):
                """want: the key, or None when it has to fail; must: only the key is right"""
                S.last.update(offered=b.hex(), what=what)
                z, o, ln = Buf(b), Buf(32), SZ(32)
                if own and tr == 'old':
                    setpeer(dx, own)
                r = f_dec(dx, o.p, ctypes.byref(ln), z.p, len(b))
                X.err()
                if not o.ok():
                    S.fail('writes outside of the buffer: %s' % what)
                if r == 1:
                    if want is None:
                        S.fail('a key is returned: %s' % what)
                    if ln.value != 32 or o.get() != want:
                        S.fail('another key is returned: %s' % what)
                elif must:
                    S.fail('decryption fails: %s' % what)
            offer(blob, key, 'the structure of the engine', True)
            offer(build(tr, F2), k2, 'the structure of another sender', True)
            offer(blob, key, 'the structure of the engine again', True)
            for G, k in ((F, key), (F2, k2)):
                if rng.random() < 0.5:
                    continue
                b0 = build(tr, G)
                offer(b0[:rng.randrange(len(b0))], None, 'truncated')
                offer(b0[:-1], None, 'truncated by a byte')
                offer(S.bytes(rng.randrange(1, 200)), None, 'noise')
                for _ in range(6):
                    i = rng.randrange(len(b0))
                    offer(b0[:i] + bytes([b0[i] ^ 1 << rng.randrange(8)]) + b0[i + 1:], k, 'a changed bit at %d' % i)

                def ch(what, **kw):
                    H = dict(G)
                    H.update(kw)
                    if H != G:
                        offer(build(tr, H), None, what)
                flip = lambda x, m=None: (lambda i: x[:i] + bytes([x[i] ^ 1 << rng.randrange(8)]) + x[i + 1:])(rng.randrange(m or len(x)))
                longer = lambda x: (b'', x[:-1], x + b'\0', x + S.bytes(rng.choice((1, 2, 8, 40, 1000))), x[1:])
                fields = ('enc', 'imit', 'iv') if tr == 'old' else ('psexp',)
                for f in fields:
                    ch('changed %s' % f, **{f: flip(G[f])})
                    for x in longer(G[f]):
                        ch('%s of %d bytes' % (f, len(x)), **{f: x})
                if tr == 'old':
                    ch('swapped halves', enc=G['enc'][16:] + G['enc'][:16])
                    for b in allbox:
                        if b != G['box']:
                            ch('another cipher', box=b)
                else:
                    x = flip(G['ukm'], 24 + sz[tr][1])
                    if alg == 'gost2012_256' or x[16:24] == G['ukm'][16:24]:
                        ch('changed UKM', ukm=x)
                    for x in (None, b'', G['ukm'][:24], G['ukm'] + b'\0', S.bytes(64), S.bytes(1000), G['ukm'][:8]):
                        ch('another UKM', ukm=x)
                    ch('no ephemeral key', eph=b'')
                # ephemeral keys
                ch('RSA key', eph=rsa)
                other = rng.choice([m for m in names if m != name])
                oc = X.curves[other]
                oalg = 'gost2012_512' if oc.q.bit_length() > 300 else rng.choice(algs[:2])
                t = pk(oalg, other, rng.randrange(1, oc.q))
                osp = spki(t)
                X.pk_free(t)
                if (oc.p, oc.a, oc.b) != (c.p, c.a, c.b):
                    ch('a key of another curve', eph=osp)
                t = pk(alg, name, rng.randrange(1, c.q))
                ch('another ephemeral key', eph=spki(t))
                X.pk_free(t)
                if G['eph']:
                    x = der.parts(der.one(G['eph'])[1])
                    head = der.enc(*x[0])
                    pt = der.one(x[1][1][1:])[1]
                    for bad in (b'', pt[:-1], pt + b'\0', pt[:len(pt) // 2], bytes(len(pt)), b'\xff' * len(pt), flip(pt), pt[len(pt) // 2:] + pt[:len(pt) // 2]):
                        if bad != pt:
                            ch('a point that is none', eph=der.seq(head, der.bits(der.octets(bad))))
        for z in (ex, dx):
            cfree(z)
        X.pk_free(rk)
        if own:
            X.pk_free(own)
