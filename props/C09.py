"""CTR-ACPKM-OMAC ciphers."""
import ctypes
from dv import evp, xcheck, model, g89, direct as dr, cphist as ch, machines as mc, evpmodel as em, terms as tm
from dv.exec import Ptr, NULL, T, Undecided
from dv.ir import probe
from dv.real import Buf
from dv.terms import const
from spec import modes as m, tasks as t
from props.C05 import SRC, kuz
from props.C01 import OPEN
from props.C06 import cms_contracts, sections

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 15, 150, 100
RULE = 'random keys, seeds, messages and splits; the tag read back through the unprotected attribute; every single-byte change of the tag, truncated tags, missing attribute'
ASSUMPTIONS = ['EVP_DigestSignInit/Update/Final on the MAC context compute the MAC of M03 of the concatenated updates under the key given; each may fail',
               'gost_kdftree2012_256: contract of K03; X509at_* store and return the attribute value',
               'one message per keying: a new IV alone does not restart the MAC']
ONE, ZERO = const(1, 32), const(0, 32)
CK, MK = model.symbytes('ckey', 32), model.symbytes('mackey', 32)


def layout(tmp):
    w = 'struct ossl_gost_cipher_ctx'
    k = 'gost_grasshopper_cipher_ctx_ctr'
    q = ['offsetof(%s, %s)' % (s, f) for s in (w, k) for f in ('omac_ctx', 'tag', 'kdf_seed')]
    v = probe(['stddef.h', 'gost_lcl.h', 'gost_grasshopper_cipher.h'], q + ['NID_magma_mac', 'NID_kuznyechik_mac', 'EVP_CTRL_PROCESS_UNPROTECTED', 'EVP_CTRL_COPY', 'offsetof(ASN1_OCTET_STRING, length)', 'offsetof(ASN1_OCTET_STRING, data)', 'sizeof(ASN1_OCTET_STRING)'], workdir=tmp)
    f = lambda s: {n: v['offsetof(%s, %s)' % (s, n)] for n in ('omac_ctx', 'tag', 'kdf_seed')}
    return {'magma': f(w), 'kuz': f(k), 'v': v}


def opq(s, name):
    if name not in s.mem:
        s.new(name, 8, kind='opaque')
    return Ptr(name, 0)


def is_text(ex, s, p, txt, line):
    b = ex.read_bytes(s, p, len(txt), line)
    return all(x.op == 'c' and x.a == c for x, c in zip(b, txt))


def keying(L, kind, nids, fallible, seeds):
    """contracts used by the key setup"""
    C = {}

    def bad(s, v=ZERO):
        y = s.fork()
        y.data['failed'] = True
        return [(y, v)] if fallible else []

    def mdnew(ex, s, a, i):
        return [(s, opq(s, 'omac'))] + bad(s, NULL)
    C['EVP_MD_CTX_new'] = mdnew

    def sn(ex, s, a, i):
        return opq(s, 'sn:%r' % a[0])
    C['OBJ_nid2sn'] = sn

    def byname(ex, s, a, i):
        return [(s, opq(s, 'md:' + a[0].obj))] + bad(s, NULL)
    C['EVP_get_digestbyname'] = byname

    def kdf(ex, s, a, i):
        out, n, key, klen, label, llen, seed, slen, R = a
        k = ex.read_bytes(s, key, 32, i.line)
        sd = ex.read_bytes(s, seed, 8, i.line)
        want = {tuple(model.symbytes(x, 32)): y for x, y in (('key', ''), ('key2', '2'))}.get(tuple(k))
        ok = want is not None and n is const(64, n.w) and klen is const(32, klen.w) and llen is const(8, llen.w) and slen is const(8, slen.w) and R is const(1, R.w) and is_text(ex, s, label, b'kdf tree', i.line)
        (ex.res.ok if ok else lambda w: ex.res.fail(w, repr(a)))('key derivation is called as the standard says')
        s.data['kdfseed'] = tuple(sd)
        o = bad(s)
        ex.write_bytes(s, out, model.symbytes('ckey' + (want or ''), 32) + model.symbytes('mackey' + (want or ''), 32), i.line)
        return [(s, ONE)] + o
    C['gost_kdftree2012_256'] = kdf

    def mackey(ex, s, a, i):
        s.data['mk'] = (a[0], tuple(ex.read_bytes(s, a[2], 32, i.line)), a[3])
        return [(s, opq(s, 'pkey'))] + bad(s, NULL)
    C['EVP_PKEY_new_mac_key'] = mackey
    C['EVP_PKEY_free'] = model.nop

    def dinit(ex, s, a, i):
        s.data['di'] = (a[0], a[1])
        return [(s, ONE)] + bad(s)
    C['EVP_DigestInit_ex'] = dinit

    def sinit(ex, s, a, i):
        s.data['si'] = (a[0], a[2], a[4])
        return [(s, ONE)] + bad(s)
    C['EVP_DigestSignInit'] = sinit

    def mfree(ex, s, a, i):
        s.data['mfree'] = s.data.get('mfree', 0) + 1
    C['EVP_MD_CTX_free'] = mfree
    if fallible:
        C['RAND_bytes'] = C['RAND_priv_bytes'] = lambda ex, s, a, i: [(y.data.__setitem__('failed', True) or (y, v)) if v is ZERO else (y, v) for y, v in model.rand_bytes(fail=0)(ex, s, a, i)]
    return C


def keyed(R, p, glob, base, kind, L, C):
    """after the key setup: MAC keyed with the second half, stream with the first half, of the keys derived from key and seed"""
    lay = L[kind]

    def f(R):
        for enc in (1, 0):
            S = ch.Setup(R, p, glob, enc, C, externs=keying(L, kind, L['v'], True, None))
            seed0 = S.st.bytes(Ptr('cd', lay['kdf_seed']), 8)
            n = 0
            for x, v in S.init(S.st):
                ok = tm.eq(v, ONE)
                if x.data.pop('failed', None):
                    R.cond('%s: a failure while setting the key is reported' % glob, tm.not_(tm.slt(ZERO, v)), x.pc)
                    b = x.rb('cd', lay['omac_ctx'])
                    fr = x.data.get('mfree', 0)
                    R.truth('%s: a released MAC context is forgotten' % glob, not fr or (fr == 1 and isinstance(b, T) and b.op == 'c' and not b.a))
                    continue
                n += 1
                R.cond('%s: key setup succeeds' % glob, ok, x.pc)
                R.truth('%s: MAC context created' % glob, dr.ptr_at(x, Ptr('cd', lay['omac_ctx'])) == Ptr('omac', 0))
                sd = x.bytes(Ptr('cd', lay['kdf_seed']), 8)
                R.eq('%s: keys derived with the stored seed' % glob, list(x.data['kdfseed']), sd, x.pc)
                R.eq('%s: %s seed' % (glob, 'fresh random' if enc else 'given'), sd, model.symbytes('rnd0', 8) if enc else seed0, x.pc)
                mk = x.data['mk']
                nid = const(L['v']['NID_magma_mac' if kind == 'magma' else 'NID_kuznyechik_mac'], 32)
                R.eq('%s: MAC key' % glob, list(mk[1]), MK, x.pc)
                R.truth('%s: MAC algorithm' % glob, mk[0] is nid and mk[2].op == 'c' and mk[2].a == 32)
                R.truth('%s: MAC context keyed' % glob, x.data['si'][0] == Ptr('omac', 0) and x.data['si'][1] == Ptr('md:sn:%r' % nid, 0) and x.data['si'][2] == Ptr('pkey', 0))
            R.truth('%s: a key can be set' % glob, n > 0)
            R.absorb(S.ex, glob)
    return [('%s key setup' % glob, f)]


def updates(p, glob, base, kind, L):
    """one update: the plaintext goes once to the MAC, the data once through the stream cipher"""
    lay = L[kind]

    def f(R):
        q = ch.Setup(R, p, base, 1, {})
        do = q.meth['do_cipher'].name
        for enc in (1, 0):
            for inplace in (0, 1):
                for keyset in (1, 0):
                    def stream(ex, s, a, i):
                        y = s.fork()
                        y.data['failed'] = True
                        c = dict(s.data['content'])
                        was = c.get(a[2].obj) if isinstance(a[2], Ptr) and a[2].off is const(0, 64) and a[3] is s.data['n'] else None
                        if not isinstance(a[1], Ptr) or a[1].off is not const(0, 64):
                            raise Undecided('place of the output')
                        c[a[1].obj] = {'P': 'C', 'C': 'P'}.get(was, '?')
                        s.data['content'] = c
                        s.data['streams'] = s.data.get('streams', 0) + 1
                        return [(s, tm.trunc(a[3], 32)), (y, const(0xffffffff, 32))]

                    def mac(ex, s, a, i):
                        y = s.fork()
                        y.data['failed'] = True
                        if not isinstance(a[0], Ptr):
                            ex.res.fail('mem:MAC context is valid', 'line %d' % i.line)
                        ok = isinstance(a[1], Ptr) and a[1].off is const(0, 64) and a[2] is s.data['n']
                        s.data['text'] = s.data.get('text', ()) + ((s.data['content'].get(a[1].obj) if ok else '?'),)
                        return [(s, ONE), (y, ZERO)]
                    S = ch.Setup(R, p, glob, enc, {do: stream}, externs={'EVP_DigestSignUpdate': mac, 'EVP_DigestUpdate': mac})
                    st = S.st.fork()
                    n = tm.var('#n', 64)
                    st.assume(tm.ule(const(1, 64), n))
                    st.assume(tm.ule(n, const(ch.NMAX, 64)))
                    st.data['n'] = n
                    i = st.new('in', n, kind='arr')
                    o = i if inplace else st.new('out', n, kind='arr')
                    st.data['content'] = {'in': 'P' if enc else 'C'}
                    st.wval(Ptr('cd', lay['omac_ctx']), opq(st, 'omac') if keyset else const(0, 64))
                    good = 0
                    for k, x, v in model.runall(S.ex, st, em.fname(S.meth['do_cipher']), [S.ctx, o, i, n]):
                        if k != 'ret':
                            continue
                        if x.data.get('failed') or not keyset:
                            R.cond('%s: a failed update is reported' % glob, tm.slt(v, ZERO), x.pc)
                            continue
                        good += 1
                        R.eq('%s: update reports the length' % glob, [v], [tm.trunc(n, 32)], x.pc)
                        R.truth('%s: the plaintext of the update goes to the MAC once' % glob, x.data.get('text') == ('P',))
                        R.truth('%s: the data go through the stream once' % glob, x.data.get('streams') == 1 and x.data['content'][o.obj] == ('C' if enc else 'P'))
                    R.truth('%s: updates succeed' % glob, good > 0 or not keyset)
                    R.absorb(S.ex, glob)
    return [('%s update' % glob, f)]


def finals(p, glob, base, kind, L):
    lay = L[kind]
    n = 8 if kind == 'magma' else 16

    def f(R):
        q = ch.Setup(R, p, base, 1, {})
        do = q.meth['do_cipher'].name
        ks = model.symbytes('gamma', n)
        mac = model.symbytes('mac', n)
        for enc in (1, 0):
            for keyset in (1, 0):
                def stream(ex, s, a, i):
                    if a[3].op != 'c':
                        raise Undecided('length')
                    y = s.fork()
                    y.data['failed'] = True
                    b = ex.read_bytes(s, a[2], a[3].a, i.line)
                    ex.write_bytes(s, a[1], [tm.xor(x, k) for x, k in zip(b, ks)] + [tm.var('past', 8)] * max(0, a[3].a - n), i.line)
                    s.data['streams'] = s.data.get('streams', 0) + 1
                    return [(s, tm.trunc(a[3], 32)), (y, const(0xffffffff, 32))]

                def final(ex, s, a, i):
                    y = s.fork()
                    y.data['failed'] = True
                    if not isinstance(a[0], Ptr):
                        ex.res.fail('mem:MAC context is valid', 'line %d' % i.line)
                        return [(y, ZERO)]
                    cap = s.val(a[2], 8)
                    R.truth('%s: room for the whole MAC' % glob, cap.op == 'c' and cap.a >= n)
                    ex.write_bytes(s, a[1], mac, i.line)
                    s.wval(a[2], const(n, 64))
                    return [(s, ONE), (y, ZERO)]
                S = ch.Setup(R, p, glob, enc, {do: stream}, externs={'EVP_DigestSignFinal': final})
                st = S.st.fork()
                st.wval(Ptr('cd', lay['omac_ctx']), opq(st, 'omac') if keyset else const(0, 64))
                tag0 = st.bytes(Ptr('cd', lay['tag']), n)
                good = 0
                for k, x, v in model.runall(S.ex, st, em.fname(S.meth['do_cipher']), [S.ctx, NULL, NULL, const(0, 64)]):
                    if k != 'ret':
                        continue
                    accepted = tm.not_(tm.slt(v, ZERO))
                    if x.data.get('failed') or not keyset:
                        R.cond('%s: a failed finalisation is reported' % glob, tm.not_(accepted), x.pc)
                        continue
                    good += 1
                    if enc:
                        R.cond('%s: finalisation succeeds' % glob, accepted, x.pc)
                        R.eq('%s: tag is the MAC encrypted with the following gamma' % glob, x.bytes(Ptr('cd', lay['tag']), n), [tm.xor(a, b) for a, b in zip(mac, ks)], x.pc)
                    else:
                        same = tm.eq(tm.concat([tm.xor(a, b) for a, b in zip(tag0, ks)]), tm.concat(mac))
                        R.cond('%s: decryption accepts exactly the right tag' % glob, tm.eq(accepted, same), x.pc)
                R.truth('%s: finalisation can succeed' % glob, good > 0 or not keyset)
                R.absorb(S.ex, glob)
    return [('%s final' % glob, f)]


def attrs(p, glob, kind, L):
    """the tag is carried by the unprotected attribute"""
    lay, v = L[kind], L['v']
    n = 8 if kind == 'magma' else 16

    def f(R):
        def get(ex, s, a, i):
            y = s.fork()
            y.data['none'] = True
            ln = s.data['alen'] = tm.var('#alen', 32)
            d = s.new('adata', tm.zext(ln, 64), kind='arr')
            o = s.new('aos', v['sizeof(ASN1_OCTET_STRING)'], init=lambda o: const(0, 8))
            s.wval(Ptr('aos', v['offsetof(ASN1_OCTET_STRING, length)']), ln)
            s.wval(Ptr('aos', v['offsetof(ASN1_OCTET_STRING, data)']), d)
            s.assume(tm.sle(ZERO, ln))
            return [(s, o), (y, NULL)]

        def put(ex, s, a, i):
            y = s.fork()
            y.data['failed'] = True
            s.data['put'] = (a[3], a[4])
            return [(s, opq(s, 'stack')), (y, NULL)]
        S = ch.Setup(R, p, glob, 1, {}, externs={'X509at_get0_data_by_OBJ': get, 'X509at_add1_attr_by_OBJ': put, 'OBJ_txt2obj': lambda ex, s, a, i: opq(s, 'oid')})
        st = S.st.fork()
        if kind == 'kuz':
            # the type byte is set by init
            st.wb(Ptr('cd', 0), [const(kuz_type(R, p, glob, L), 8)])
        tag0 = st.bytes(Ptr('cd', lay['tag']), n)
        cmd = v['EVP_CTRL_PROCESS_UNPROTECTED']
        for x, r in S.ctrl(st, cmd, ZERO, opq(st, 'stack')):
            ok = tm.slt(ZERO, r)
            if x.data.get('none'):
                R.cond('%s: a missing tag is refused' % glob, tm.not_(ok), x.pc)
                continue
            R.cond('%s: exactly tags of full length are taken' % glob, tm.eq(ok, tm.eq(x.data['alen'], const(n, 32))), x.pc)
            y = x.fork()
            y.assume(ok)
            if ok is tm.FALSE:
                continue
            R.eq('%s: the received tag is kept' % glob, y.bytes(Ptr('cd', lay['tag']), n), [tm.arr('adata', const(j, 64)) for j in range(n)], y.pc)
        good = 0
        for x, r in S.ctrl(st, cmd, ONE, opq(st, 'stack')):
            ok = tm.slt(ZERO, r)
            if x.data.get('failed'):
                R.cond('%s: a failure to store the tag is reported' % glob, tm.not_(ok), x.pc)
                continue
            good += 1
            R.cond('%s: the tag is handed over' % glob, ok, x.pc)
            q = x.data.get('put')
            R.truth('%s: the whole tag is handed over' % glob, q is not None and q[0] == Ptr('cd', lay['tag']) and q[1].op == 'c' and q[1].a == n)
        R.truth('%s: a tag can be handed over' % glob, good > 0)
        R.absorb(S.ex, glob)
    return [('%s attribute' % glob, f)]


def kuz_type(R, p, glob, L):
    S = ch.Setup(R, p, glob, 1, em.kuz_contracts(), externs=keying(L, 'kuz', L['v'], False, None))
    for x, v in S.init(S.st):
        b = x.rb('cd', 0)
        if isinstance(b, T) and b.op == 'c':
            return b.a
    raise Undecided('cipher type')


class Omac(mc.ACPKM):
    """the stream of the derived key"""

    def rekey(self, G, key, iv):
        return self.start(model.symbytes('ckey2', 32), iv, G['#s'])


def prove(R):
    p = model.prog(SRC, R.tmp)
    L = layout(R.tmp)
    CM = g89.contracts(R)
    CM.update(g89.param_contracts({'nid': None}))
    CK_ = em.kuz_contracts()
    for C, b in ((CM, 8), (CK_, 16)):
        C['inc_counter'] = em.inc_counter
        C.update(cms_contracts(b))
    R.contracts.update(em.KUZ_NOTE)
    R.attempt('inc_counter', em.prove_inc, R, p)
    R.contracts['OBJ_*, get_gost_engine_param'] = OPEN
    R.contracts['gost_kdftree2012_256'] = 'proved in K03'
    R.contracts['EVP_DigestSign*, EVP_MD_CTX_*, EVP_PKEY_new_mac_key, X509at_*'] = 'assumed (OpenSSL)'
    T = []
    for glob, base, kind, C in (('magma_ctr_acpkm_omac_cipher', 'magma_ctr_acpkm_cipher', 'magma', CM), ('grasshopper_ctr_acpkm_omac_cipher', 'grasshopper_ctr_acpkm_cipher', 'kuz', CK_)):
        T += finals(p, glob, base, kind, L)
        T += updates(p, glob, base, kind, L)
        T += keyed(R, p, glob, base, kind, L, C)
        T += attrs(p, glob, kind, L)

        def mk(enc, kind=kind):
            if kind == 'magma':
                return Omac(g89.magma, 8, g89.magder)
            E, der = kuz()
            return Omac(E, 16, derived=der)
        lg, default = (3, 1024) if kind == 'magma' else (4, 4096)

        begin = sections(lg, default, refuse=kind == 'kuz')
        ext = keying(L, kind, L['v'], False, None)
        ext['EVP_DigestSignUpdate'] = lambda ex, s, a, i: ONE
        T += ch.prove_mode(R, p, glob, glob[:-7] + ' stream', mk, C, nokey=True, key=CK, begin=begin, persist=('cmsiv', '#sec', 'ckey', 'ckey2', 'mackey', 'mackey2', 'rnd0', 'rnd1'), externs=ext)
    R.parallel(T)


def search(S):
    E = evp.Engine(S.lib)
    rng = S.rng
    P, I, SZ = evp.P, evp.I, evp.SZ
    cr = S.lib.cf
    at_new = cr('OPENSSL_sk_new_null', P)
    at_by = cr('X509at_get_attr_by_NID', I, P, I, I)
    get0 = cr('X509at_get0_data_by_OBJ', P, P, P, I, I)
    add = cr('X509at_add1_attr_by_OBJ', P, P, P, I, P, I)
    obj = cr('OBJ_txt2obj', P, evp.STR, I)
    oid = obj(b'1.2.643.7.1.0.6.1.1', 1)
    osdata, oslen = cr('ASN1_STRING_get0_data', P, P), cr('ASN1_STRING_length', I, P)
    free = cr('OPENSSL_sk_free', None, P)
    import os
    L = layout(os.environ.get('DV_TMP', '/tmp'))
    CMD = L['v']['EVP_CTRL_PROCESS_UNPROTECTED']
    while S.more():
        kind = rng.choice(('magma', 'kuznyechik'))
        sn, ivl, bl = (('magma-ctr-acpkm-omac', 4, 8) if kind == 'magma' else ('kuznyechik-ctr-acpkm-omac', 8, 16))
        lay = L['magma' if kind == 'magma' else 'kuz']
        key, iv = S.bytes(32), S.bytes(ivl)
        n = xcheck.rnd_len(S, 600, 1, (bl, 2 * bl, 1024))
        d = S.bytes(n)
        parts = evp.splits(rng, n)
        sec = rng.choice((None, bl, 2 * bl, 8 * bl, 1024))
        S.case(kind=sn, key=key, iv=iv, data=d, parts=parts, section=sec)
        c = evp.Cipher(E, sn)
        if c.init(key, iv, 1) != 1:
            S.fail('%s: key setup fails' % sn)
        cd = E.c_data(c.x)
        seed = ctypes.string_at(cd + lay['kdf_seed'], 8)
        if sec:
            c.ctrl(evp.EVP_CTRL_KEY_MESH, sec)
        inplace = rng.random() < 0.4
        out = b''
        q = 0
        for k in parts:
            if k:
                r = c.update(d[q:q + k], inplace=inplace)
                if r is None:
                    S.fail('%s: update fails' % sn)
                out += r
            q += k
        want, wtag = m.ctr_acpkm_omac(kind, key, iv, d, seed, sec or (1024 if kind == 'magma' else 4096))
        S.expect(out, want, '%s: ciphertext is not CTR-ACPKM under the derived key' % sn, seed=seed)
        if c.final() is None:
            S.fail('%s: finalisation fails' % sn)
        # the attribute stack needs one element for a stack of its own
        at = at_new()
        slot = ctypes.c_void_p(at)
        r = c.ctrl(CMD, 1, at)
        v = get0(at, oid, -3, 4)
        tag = ctypes.string_at(osdata(v), oslen(v)) if v else None
        S.expect(tag, wtag, '%s: tag is not the encrypted MAC of the plaintext' % sn, seed=seed)
        c.free()
        # decryption
        bad = rng.random()
        t2 = bytearray(tag)
        accept = True
        if bad < 0.5:
            j = rng.randrange(len(t2))
            t2[j] ^= 1 << rng.randrange(8)
            accept = False
        elif bad < 0.6:
            t2 = t2[:rng.randrange(0, len(t2))]
            accept = None
        elif bad < 0.65:
            t2 += b'\0'
            accept = None
        o2 = bytearray(out)
        if bad > 0.8 and n:
            o2[rng.randrange(n)] ^= 1 << rng.randrange(8)
            accept = False
        c = evp.Cipher(E, sn)
        # the seed arrives with the CMS parameters, before the key
        c.init(None, None, 0)
        cd = E.c_data(c.x)
        ctypes.memmove(cd + lay['kdf_seed'], seed, 8)
        if c.init(key, iv, 0, first=False) != 1:
            S.fail('%s: key setup fails for decryption' % sn)
        if sec:
            c.ctrl(evp.EVP_CTRL_KEY_MESH, sec)
        at2 = at_new()
        stk = ctypes.c_void_p(at2)
        b = Buf(bytes(t2))
        add(ctypes.addressof(stk), oid, 4, b.p, len(t2))
        r = c.ctrl(CMD, 0, stk.value)
        S.last['tag'], S.last['seed'] = bytes(t2).hex(), seed.hex()
        if accept is None:
            if r > 0:
                S.fail('%s: a tag of %d bytes is taken' % (sn, len(t2)))
            c.free()
            continue
        if r <= 0:
            S.fail('%s: the tag is refused' % sn)
        got = b''
        q = 0
        for k in evp.splits(rng, n):
            if k:
                g = c.update(bytes(o2[q:q + k]), inplace=inplace)
                if g is None:
                    S.fail('%s: update fails' % sn)
                got += g
            q += k
        if bytes(o2) == out:
            S.expect(got, d, '%s: decryption does not restore the plaintext' % sn)
        ok = c.final() is not None
        if ok != accept:
            S.fail('%s: %s' % (sn, 'an altered message is accepted' if ok else 'the right tag is refused'))
        c.free()
