"""KDF_TREE_GOSTR3411_2012_256 and TLSTREE."""
import ctypes as C
from dv import evp, model, direct as dr, evpx, evpmodel as em, g89, cphist as ch, terms as tm, solver
from dv.exec import Exec, State, Ptr, NULL
from dv.ir import probe
from dv.terms import const
from spec import modes as m
from props.C05 import SRC

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 10, 60, 60
ASSUMPTIONS = ['HMAC_Init_ex/Update/Final of OpenSSL compute HMAC with the named digest (Streebog-256, B03) over the concatenated data; each may fail',
               'domain: representation 1 to 4 bytes, block counter within it, output shorter than 2^29 bytes']
RULE = 'random keys, labels, seeds, lengths and representations; sequence numbers with corner values around every mask boundary'
ONE, ZERO = const(1, 32), const(0, 32)


def externs():
    X = evpx.contracts()

    def region(s, p, n):
        return (p.obj, p.off, n)

    def data(ex, s, p, n, line):
        if n.op == 'c':
            return evpx.rd(ex, s, p, n, line)
        return region(s, p, n)

    def hinit(ex, s, a, i):
        evpx.alive(ex, s, a[0], i.line)
        n = evpx.ident(s, a[3])
        if n is None:
            s.data['failed'] = True
            return ZERO
        k = data(ex, s, a[1], a[2], i.line)
        f = evpx.fails(s)
        evpx.put(s, a[0], ('hm', n, k, ()))
        return [(s, ONE), f]
    X['HMAC_Init_ex'] = hinit

    def hupdate(ex, s, a, i):
        evpx.alive(ex, s, a[0], i.line)
        x = evpx.g(s, a[0])
        b = data(ex, s, a[1], a[2], i.line)
        f = evpx.fails(s)
        evpx.put(s, a[0], x[:3] + (x[3] + (b,),))
        return [(s, ONE), f]
    X['HMAC_Update'] = hupdate

    def hfinal(ex, s, a, i):
        evpx.alive(ex, s, a[0], i.line)
        x = evpx.g(s, a[0])
        f = evpx.fails(s)
        k = s.data.get('blocks', ())
        s.data['blocks'] = k + (x,)
        ex.write_bytes(s, a[1], [tm.var('block%d[%d]' % (len(k), j), 8) for j in range(32)], i.line)
        evpx.put(s, a[0], None)
        return [(s, ONE), f]
    X['HMAC_Final'] = hfinal
    X.update({'ERR_GOST_error': model.nop})

    def sn(ex, s, a, i):
        nm = 'sn:%r' % a[0]
        if nm not in s.mem:
            s.new(nm, 8, kind='opaque')
            s.data['obj.' + nm] = a[0]
        return Ptr(nm, 0)
    X['OBJ_nid2sn'] = sn

    def byname(ex, s, a, i):
        s.data['obj.md:n'] = s.data['obj.' + a[0].obj]
        if 'md:n' not in s.mem:
            s.new('md:n', 8, kind='opaque')
        f = s.fork()
        f.data['failed'] = True
        return [(s, Ptr('md:n', 0)), (f, NULL)]
    X['EVP_get_digestbyname'] = byname
    return X


def flat(pieces):
    """data as bytes and regions, adjacent bytes joined"""
    o = []
    for p in pieces:
        if len(p) == 3 and isinstance(p[0], str):
            o.append((p[0], p[1], p[2]))
        else:
            o.extend(p)
    return o


def kdf(R, p, lens):
    nid = probe(['openssl/objects.h'], ['NID_id_GostR3411_2012_256'], workdir=R.tmp)['NID_id_GostR3411_2012_256']
    for L, reps in lens:
        for rep in reps:
            n = 'KDF tree, %d bytes, representation %d' % (L, rep)
            ext = dict(model.BASE)
            ext.update(externs())
            ex = Exec(p, {}, ext, limit=2000)
            st = State()
            kl, ll, sl = (tm.var('#%slen' % q, 64) for q in ('key', 'label', 'seed'))
            for v in (kl, ll, sl):
                st.assume(tm.ult(v, const(1 << 31, 64)))
            key, lab, seed = st.new('key', kl, kind='arr'), st.new('label', ll, kind='arr'), st.new('seed', sl, kind='arr')
            out = st.new('out', L, init=lambda o: tm.var('out0[%d]' % o, 8))
            good = 0
            for k, x, v in model.runall(ex, st, 'gost_kdftree2012_256', [out, const(L, 64), key, kl, lab, ll, seed, sl, const(rep, 64)]):
                if k != 'ret':
                    continue
                if x.data.get('failed'):
                    R.cond('KDF tree: a failing HMAC makes it fail', tm.eq(v, ZERO), x.pc)
                    continue
                bl = x.data.get('blocks', ())
                if len(bl) != L // 32:
                    # creating the HMAC context failed, or nothing was computed
                    R.cond('KDF tree: without computing every block it fails', tm.eq(v, ZERO), x.pc)
                    continue
                good += 1
                R.cond('KDF tree: success', tm.eq(v, ONE), x.pc)
                bits = m.be_min(8 * L)
                for j, b in enumerate(bl):
                    R.truth('KDF tree: HMAC-Streebog-256', b[1] is const(nid, 32), repr(b[1]))
                    R.truth('KDF tree: under the key, whole', b[2] in (('key', const(0, 64), kl), ('key', const(0, 64), tm.trunc(kl, 32))), repr(b[2])[:200])
                    want = [const(c, 8) for c in (j + 1).to_bytes(rep, 'big')] + [('label', const(0, 64), ll), const(0, 8), ('seed', const(0, 64), sl)] + [const(c, 8) for c in bits]
                    R.truth('KDF tree: i || label || 0 || seed || L', flat(b[3]) == want, '%s: block %d: %r' % (n, j, flat(b[3])))
                    R.eq('KDF tree: the blocks are concatenated', x.bytes(out.add(32 * j), 32), model.symbytes('block%d' % j, 32))
            R.truth(n + ': succeeds', good >= 1)
            R.absorb(ex, 'gost_kdftree2012_256')


def badlen(R, p):
    ext = dict(model.BASE)
    ext.update(externs())
    for how, t, extra in (('0', const(0, 64), []), ('not a multiple of 32', tm.var('#len', 64), [tm.not_(tm.eq(tm.extract(tm.var('#len', 64), 4, 0), const(0, 5)))])):
        ex = Exec(p, {}, ext)
        st = State()
        for c in extra:
            st.assume(c)
        a = [model.sym(st, q, 32) for q in ('key', 'label', 'seed')]
        out = model.sym(st, 'out0', 32)
        for k, x, v in model.runall(ex, st, 'gost_kdftree2012_256', [out, t, a[0], const(32, 64), a[1], const(6, 64), a[2], const(8, 64), const(1, 64)]):
            if k == 'ret':
                R.cond('KDF tree: length %s refused' % how, tm.eq(v, ZERO), x.pc)
                R.eq('KDF tree: length %s: nothing written' % how, x.bytes(out, 32), model.symbytes('out0', 32), x.pc)
        R.absorb(ex, 'gost_kdftree2012_256')


def kdf_uf(key, label, seed):
    return tm.bytes_of(tm.uf('kdf256.%s' % label, [tm.concat(key), tm.concat(seed)], 256))


def kdf_contract(ex, s, a, i):
    if any(a[j].op != 'c' for j in (1, 3, 5, 7, 8)) or a[1].a != 32 or a[3].a != 32:
        raise dr.Undecided('key derivation of another shape')
    k = ex.read_bytes(s, a[2], 32, i.line)
    l = ex.read_bytes(s, a[4], a[5].a, i.line)
    z = ex.read_bytes(s, a[6], a[7].a, i.line)
    f = evpx.fails(s)
    ex.write_bytes(s, a[0], kdf_uf(k, bytes(b.a for b in l).decode('latin1') + '/%d' % a[8].a, z), i.line)
    return [(s, ONE), f]


def tree(which, key, seq):
    for j, c in enumerate(m.TLSTREE_C[which]):
        key = kdf_uf(key, 'level%d/1' % (j + 1), [tm.and_(q, const(b, 8)) for q, b in zip(seq, c.to_bytes(8, 'big'))])
    return key


def tls(R, p):
    nids = probe(['openssl/objects.h'], ['NID_magma_cbc', 'NID_grasshopper_cbc'], workdir=R.tmp)
    R.contracts['gost_kdftree2012_256'] = 'proved here'
    ids = {'magma': nids['NID_magma_cbc'], 'kuznyechik': nids['NID_grasshopper_cbc']}
    for which in list(ids) + [None]:
        ex = Exec(p, {'gost_kdftree2012_256': kdf_contract}, model.BASE)
        st = State()
        k, o, q = model.sym(st, 'key', 32), model.sym(st, 'out0', 32), model.sym(st, 'seq', 8)
        nid = const(ids[which], 32) if which else tm.var('#nid', 32)
        if not which:
            for v in ids.values():
                st.assume(tm.not_(tm.eq(nid, const(v, 32))))
        good = 0
        for kind, x, v in model.runall(ex, st, 'gost_tlstree', [nid, k, o, q]):
            if kind != 'ret':
                continue
            if x.data.get('failed'):
                R.cond('TLSTREE: a failing derivation makes it fail', tm.not_(tm.slt(ZERO, v)), x.pc)
            elif not which:
                R.cond('TLSTREE: other ciphers refused', tm.eq(v, ZERO), x.pc)
                R.eq('TLSTREE: other ciphers: nothing written', x.bytes(o, 32), model.symbytes('out0', 32))
            else:
                good += 1
                R.cond('TLSTREE: success', tm.slt(ZERO, v), x.pc)
                R.eq('TLSTREE: %s: three levels, masked sequence numbers' % which, x.bytes(o, 32), tree(which, model.symbytes('key', 32), model.symbytes('seq', 8)), x.pc)
        R.truth('TLSTREE succeeds', good == 1 or not which)
        R.absorb(ex, 'gost_tlstree')


def ciphers(R, p, glob, which, meshing):
    """EVP_CTRL_TLSTREE on a used context leaves the state that initialisation with the derived key and the
    IV plus the sequence number would give"""
    v = probe(['gost_lcl.h', 'openssl/evp.h'], ['EVP_CTRL_TLSTREE'], workdir=R.tmp)
    n = 4 if which == 'magma' else 8

    def tlstree(ex, s, a, i):
        if a[0].op != 'c':
            raise dr.Undecided('cipher identifier')
        k, q = ex.read_bytes(s, a[1], 32, i.line), ex.read_bytes(s, a[3], 8, i.line)
        f = evpx.fails(s)
        ex.write_bytes(s, a[2], tm.bytes_of(tm.uf('tlstree', [a[0], tm.concat(k), tm.concat(q)], 256)), i.line)
        return [(s, ONE), f]
    nids = probe(['openssl/objects.h'], ['NID_magma_cbc', 'NID_grasshopper_cbc'], workdir=R.tmp)
    nid = const(nids['NID_magma_cbc' if which == 'magma' else 'NID_grasshopper_cbc'], 32)
    if which == 'magma':
        CT = g89.contracts(R)
        CT.update(g89.param_contracts({'nid': None}))
    else:
        CT = em.kuz_contracts()
        R.contracts.update(em.KUZ_NOTE)
    CT = dict(CT)
    CT['gost_tlstree'] = tlstree
    CT['decrement_sequence'] = dec_contract
    R.contracts['decrement_sequence'] = 'proved here'
    R.contracts['gost_tlstree'] = 'proved here'
    for enc in (1, 0):
        S = ch.Setup(R, p, glob, enc, CT)
        bl = 8 if which == 'magma' else 16

        def oiv(st, name, k=n):
            """EVP keeps the IV it was given"""
            for j in range(k):
                st.wb(Ptr('E.CTX', em.OIV + j), [tm.var('%s[%d]' % (name, j), 8)])
            return st
        for st, r in S.init(oiv(S.st.fork(), 'iv')):
            R.cond('%s: init succeeds' % glob, tm.eq(r, ONE), st.pc)
            base = st.fork()
            # used: position, counter and buffers are arbitrary
            st.wval(Ptr('E.CTX', em.NUM), tm.var('#num', 32))
            for o in list(range(em.IV, em.IV + bl)) + list(range(em.BUF, em.BUF + bl)):
                st.wb(Ptr('E.CTX', o), [tm.var('used[%d]' % o, 8)])
            if which == 'magma':
                o = probe(['gost_lcl.h'], ['__builtin_offsetof(struct ossl_gost_cipher_ctx, count)'], workdir=R.tmp)
                st.wval(Ptr('cd', list(o.values())[0]), tm.var('#count', 32))
            q = model.sym(st, 'seq', 8)
            a = tm.var('#arg', 32)
            bad = st.fork()
            bad.assume(tm.ult(const(1, 32), a))
            for x, r2 in S.ctrl(bad, v['EVP_CTRL_TLSTREE'], a, q):
                R.cond('%s: other arguments refused' % glob, tm.not_(tm.slt(ZERO, r2)), x.pc)
            for dec, x, r2 in [(d, x, r2) for d in (0, 1) for x, r2 in S.ctrl(st, v['EVP_CTRL_TLSTREE'], const(d, 32), q)]:
                if x.data.get('failed'):
                    R.cond('%s: a failed derivation is reported' % glob, tm.not_(tm.slt(ZERO, r2)), x.pc)
                    continue
                R.eq('%s: the caller\'s sequence number is left alone' % glob, x.bytes(q, 8), model.symbytes('seq', 8), x.pc)
                if 1:
                    y = x
                    R.cond('%s: TLSTREE succeeds' % glob, tm.slt(ZERO, r2), y.pc)
                    sv = tm.concat(list(reversed(model.symbytes('seq', 8))))
                    sv = tm.sub(sv, const(dec, 64))
                    seq = list(reversed(tm.bytes_of(sv)))
                    nk = tm.bytes_of(tm.uf('tlstree', [nid, tm.concat(model.symbytes('key', 32)), tm.concat(seq)], 256))
                    part = tm.trunc(sv, 32) if which == 'magma' else sv
                    ivw = tm.add(tm.concat(list(reversed(model.symbytes('iv', n)))), part)
                    iv = list(reversed(tm.bytes_of(ivw)))
                    R.eq('%s: counter restarts from IV + sequence number' % glob, y.bytes(Ptr('E.CTX', em.IV), bl), iv + [const(0, 8)] * (bl - n), y.pc)
                    R.eq('%s: no gamma left over' % glob, y.val(Ptr('E.CTX', em.NUM), 4), ZERO, y.pc)
                    if which == 'magma':
                        R.eq('%s: the section starts anew' % glob, y.val(Ptr('cd', list(o.values())[0]), 4), ZERO, y.pc)
                        K = y.fork()
                        b = model.sym(K, 'got', 32)
                        K, _ = model.run1(S.ex, K, 'magma_get_key', [Ptr('cd', off_cctx(R)), b])
                        R.eq('%s: the derived key' % glob, K.bytes(b, 32), nk, y.pc)
                    else:
                        # the schedule is the one a fresh initialisation with the derived key makes
                        f = base.fork()
                        kk = f.new('nk', 32)
                        f.wb(kk, nk)
                        f, _ = model.run1(S.ex, f, 'gost_grasshopper_cipher_key', [Ptr('cd', 0), kk])
                        a, b = skip(dr.cells(y, 'cd'), base), skip(dr.cells(f, 'cd'), base)
                        R.eq('%s: the derived key' % glob, [c for c in a if isinstance(c, tm.T)], [c for c in b if isinstance(c, tm.T)], y.pc)
        R.absorb(S.ex, glob)


def dec_contract(ex, s, a, i):
    if a[1].op != 'c' and solver.valid(s.pc, tm.ult(ONE, a[1])):
        return ZERO
    if a[1].op != 'c':
        ex.reconc(s, a[1])
    if a[1].a not in (0, 1):
        return ZERO
    b = ex.read_bytes(s, a[0], 8, i.line)
    if a[1].a:
        ex.write_bytes(s, a[0], list(reversed(tm.bytes_of(tm.sub(tm.concat(list(reversed(b))), const(1, 64))))), i.line)
    return ONE


def decrement(R, p):
    ex = Exec(p, {}, model.BASE)
    a = tm.var('#arg', 32)
    for d, arg in ((0, ZERO), (1, ONE), (2, a)):
        st = State()
        if d == 2:
            st.assume(tm.ult(ONE, a))
        q = model.sym(st, 'seq', 8)
        sv = model.symbytes('seq', 8)
        for k, x, v in model.runall(ex, st, 'decrement_sequence', [q, arg]):
            if k != 'ret':
                continue
            R.cond('decrement_sequence: refuses arguments other than 0 and 1', tm.eq(v, ZERO if d == 2 else ONE), x.pc)
            w = tm.concat(list(reversed(sv)))
            want = tm.sub(w, const(1, 64)) if d == 1 else w
            R.eq('decrement_sequence: the previous sequence number', tm.concat(list(reversed(x.bytes(q, 8)))), want, x.pc)
    R.absorb(ex, 'decrement_sequence')


def skip(cells, base):
    return cells


_off = {}


def off_cctx(R):
    if not _off:
        _off.update(probe(['gost_lcl.h'], ['__builtin_offsetof(struct ossl_gost_cipher_ctx, cctx)'], workdir=R.tmp))
    return list(_off.values())[0]


def prove(R):
    p = model.prog(['gost_keyexpimp.c'], R.tmp)
    R.contracts['HMAC_*'] = 'assumed (OpenSSL)'
    q = model.prog(SRC, R.tmp)
    lens = [(32 * k, (1, 2, 3, 4)) for k in range(1, 9)]
    T = [('KDF tree', lambda R: kdf(R, p, lens)), ('KDF tree, long', lambda R: kdf(R, p, [(32 * 258, (2, 3, 4)), (32 * 255, (1,))])),
         ('KDF tree lengths', lambda R: badlen(R, p)), ('TLSTREE', lambda R: tls(R, p)), ('decrement', lambda R: decrement(R, q))]
    for g, w, ms in (('magma_ctr_cipher', 'magma', 0), ('magma_ctr_acpkm_cipher', 'magma', 1), ('grasshopper_ctr_cipher', 'kuznyechik', 0), ('grasshopper_ctr_acpkm_cipher', 'kuznyechik', 1)):
        T.append((g, lambda R, g=g, w=w, ms=ms: ciphers(R, q, g, w, ms)))
    R.parallel(T)
    R.bounded.append('gost_kdftree2012_256: output lengths 32 to 256 bytes, 8160 and 8256 bytes (the engine itself uses 32 and 64); key, label and seed of any length')


def search(S):
    L = S.lib
    P, Z = C.c_void_p, C.c_size_t
    from dv.real import Buf
    E = evp.Engine(S.lib)
    kt = L.fn('gost_kdftree2012_256', C.c_int, P, Z, P, Z, P, Z, P, Z, Z)
    tt = L.fn('gost_tlstree', C.c_int, C.c_int, P, P, P)
    nid = {}
    for w, sn in (('magma', b'magma-cbc'), ('kuznyechik', b'kuznyechik-cbc')):
        nid[w] = L.cf('OBJ_txt2nid', C.c_int, C.c_char_p)(sn)
    r = S.rng
    n = 0
    while S.more():
        n += 1
        ln = 32 * r.choice((1, 1, 2, 2, 3, 8, 9)) if n % 40 else 32 * 257
        rep = r.choice((1, 2, 3, 4)) if ln < 8000 else r.choice((2, 3, 4))
        key, lab, seed = S.bytes(r.choice((32, 32, 1, 64, 65, 100))), S.bytes(r.randrange(0, 40)), S.bytes(r.randrange(0, 40))
        S.case(kind='KDF tree', key=key, label=lab, seed=seed, length=ln, representation=rep)
        a, b, c, o = Buf(key), Buf(lab), Buf(seed), Buf(ln)
        if kt(o.p, ln, a.p, len(key), b.p, len(lab), c.p, len(seed), rep) <= 0:
            S.fail('KDF tree fails')
        S.expect(o.get(), m.kdftree(key, lab, seed, ln, rep), 'KDF tree differs')
        if not o.ok():
            S.fail('KDF tree writes outside its output')
        w = r.choice(('magma', 'kuznyechik'))
        k32 = S.bytes(32)
        seq = r.choice((0, 1, 62, 63, 64, 4095, 4096, 1 << 19, (1 << 19) - 1, (1 << 25) - 1, 1 << 25, 1 << 32, (1 << 32) - 1, (1 << 38) - 1, 1 << 38, (1 << 64) - 1, r.getrandbits(64), r.getrandbits(64) & -4096, 1 << r.randrange(64), (1 << 64) - (1 << r.randrange(64))))
        sb = seq.to_bytes(8, 'big')
        S.case(kind='TLSTREE', cipher=w, key=k32, seq=sb)
        a, q, o = Buf(k32), Buf(sb), Buf(32)
        if tt(nid[w], a.p, o.p, q.p) <= 0:
            S.fail('TLSTREE fails')
        S.expect(o.get(), m.tlstree(w, k32, sb), 'TLSTREE key differs')
        S.case(kind='TLSTREE, other cipher')
        if tt(r.choice((0, 1, 814, nid['magma'] + 1000)), a.p, o.p, q.p) > 0:
            S.fail('TLSTREE accepts an unknown cipher')
        if n % 3 == 0:
            ctl(S, E, w, k32, seq)


def ctl(S, E, w, key, seq):
    from spec import tasks as t
    from dv.real import Buf
    r = S.rng
    sec = r.choice((0, 0, 1))
    sn = ('magma-ctr' if w == 'magma' else 'kuznyechik-ctr') + ('-acpkm' if sec else '')
    nb = 4 if w == 'magma' else 8
    bl = 2 * nb
    iv = r.choice((S.bytes(nb), b'\xff' * nb))
    pre, data = S.bytes(r.randrange(0, 70)), S.bytes(r.randrange(1, 90))
    arg = r.choice((0, 0, 1))
    ks = 32 if sec else 0
    S.case(kind='cipher TLSTREE', cipher=sn, key=key, iv=iv, before=pre, data=data, seq=seq, arg=arg)
    c = evp.Cipher(E, sn)
    c.init(key, iv, True)
    if sec:
        c.ctrl(evp.EVP_CTRL_KEY_MESH, ks)
    if pre:
        c.update(pre)
    b = Buf(seq.to_bytes(8, 'big'))
    if c.ctrl(evp.EVP_CTRL_TLSTREE, arg, b.p) <= 0:
        S.fail('EVP_CTRL_TLSTREE fails')
    if b.get() != seq.to_bytes(8, 'big'):
        S.fail('EVP_CTRL_TLSTREE changes the sequence number of the caller')
    q = (seq - arg) % (1 << 64)
    nk = m.tlstree(w, key, q.to_bytes(8, 'big'))
    iv2 = ((int.from_bytes(iv, 'big') + q) % (1 << (8 * nb))).to_bytes(nb, 'big')
    mk = t.mg if w == 'magma' else t.kz
    S.expect(c.update(data), m.ctr(mk(nk), t.pad(iv2, bl), data, ks) if sec else m.ctr(mk(nk), t.pad(iv2, bl), data), 'encryption after TLSTREE differs')
    c.free()
