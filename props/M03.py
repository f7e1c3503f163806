"""magma-mac and kuznyechik-mac."""
import ctypes
from dv import evp, xcheck, model, direct as dr, mdhist as mh, evpmodel as em, terms as tm
from dv.exec import Ptr, NULL
from dv.ir import probe
from dv.real import Buf
from dv.terms import const
from spec import modes as m, tasks as t

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 15, 150, 100
ASSUMPTIONS = ['CMAC_Init/Update/Final of OpenSSL compute the CMAC (OMAC of GOST R 34.13) of the concatenated updates through the named CBC cipher (whose blocks are C03/C05); each may fail',
               'EVP_get_cipherbyname, EVP_CIPHER_fetch, CMAC_CTX_new: may fail; otherwise return a valid object',
               'key export by gost_tlstree: contract of K03']
ONE, ZERO = const(1, 32), const(0, 32)


def externs(nids):
    C = {}

    def txt2nid(ex, s, a, i):
        return const(nids.get(dr.cstr(ex, s, a[0], i.line), 0), 32)
    C['OBJ_txt2nid'] = txt2nid

    def byname(ex, s, a, i):
        n = dr.cstr(ex, s, a[0], i.line)
        if 'cipher:' + n not in s.mem:
            s.new('cipher:' + n, 8, kind='opaque')
        return dr.outcome(ex, s, Ptr('cipher:' + n, 0), NULL)
    C['EVP_get_cipherbyname'] = byname
    C['EVP_CIPHER_fetch'] = lambda ex, s, a, i: byname(ex, s, a[1:], i)
    C['EVP_CIPHER_free'] = model.nop

    def new(ex, s, a, i):
        f = s.fork()
        p = dr.opaque(s, 'cmac')
        s.data['cm.' + p.obj] = None
        return [(s, p), (f, NULL)]
    C['CMAC_CTX_new'] = new

    def free(ex, s, a, i):
        if isinstance(a[0], Ptr):
            if s.mem[a[0].obj].freed:
                ex.res.fail('mem:double free of a CMAC context', 'line %d' % i.line)
            s.w(a[0].obj).freed = True
        return None
    C['CMAC_CTX_free'] = free

    def live(ex, s, p, i):
        if not isinstance(p, Ptr) or s.mem[p.obj].freed:
            ex.res.fail('mem:CMAC context is valid', 'line %d: %r' % (i.line, p))
        else:
            ex.res.ok('mem:CMAC context is valid')

    def init(ex, s, a, i):
        live(ex, s, a[0], i)
        k = tuple(ex.read_bytes(s, a[1], a[2].a, i.line))
        ob = 'cm.' + a[0].obj

        def good(s):
            s.data[ob] = (k, a[3].obj if isinstance(a[3], Ptr) else None)
        s.data[ob] = None
        return dr.outcome(ex, s, ONE, ZERO, good)
    C['CMAC_Init'] = init

    def update(ex, s, a, i):
        live(ex, s, a[0], i)
        dr.note(s, 'update', a[0], s.data.get('cm.' + a[0].obj), a[1], a[2])
        return dr.outcome(ex, s, ONE, ZERO)
    C['CMAC_Update'] = update

    def final(ex, s, a, i):
        live(ex, s, a[0], i)
        st = s.data.get('cm.' + a[0].obj)
        n = 8 if st and 'magma' in st[1] else 16
        f = s.fork()
        ex.write_bytes(s, a[1], [tm.var('mac[%d]' % j, 8) for j in range(n)], i.line)
        s.wval(a[2], const(n, 64))
        dr.note(s, 'final', a[0], st)
        return [(s, ONE), (f, ZERO)]
    C['CMAC_Final'] = final

    def tree(ex, s, a, i):
        f = s.fork()
        k = ex.read_bytes(s, a[1], 32, i.line)
        q = ex.read_bytes(s, a[3], 8, i.line)
        ex.write_bytes(s, a[2], tm.bytes_of(tm.uf('tlstree', [a[0], tm.concat(k), tm.concat(q)], 256)), i.line)
        return [(s, ONE), (f, ZERO)]
    C['gost_tlstree'] = tree
    return C


def prove(R):
    p = model.prog(['gost_omac.c', 'gost_md.c'], R.tmp)
    names = {'NID_magma_cbc': 'magma-cbc', 'NID_grasshopper_cbc': 'kuznyechik-cbc'}
    v = probe(['openssl/objects.h', 'openssl/evp.h', 'gost_lcl.h'], list(names) + ['EVP_MD_CTRL_TLSTREE', 'EVP_MD_CTRL_SET_KEY', 'EVP_MD_CTRL_XOF_LEN', 'EVP_MD_CTRL_KEY_LEN'], workdir=R.tmp)
    nids = {n: v[k] for k, n in names.items()}
    for f in ('CMAC_Init', 'CMAC_Update', 'CMAC_Final'):
        R.contracts[f] = 'assumed (OpenSSL)'
    R.contracts['gost_tlstree'] = 'K03'
    R.parallel([(n, lambda R, g=g, n=n, c=c, bl=bl: one(R, p, g, n, c, bl, nids, v)) for g, n, c, bl in
                (('magma_mac_digest', 'magma-mac', 'magma-cbc', 8), ('grasshopper_mac_digest', 'kuznyechik-mac', 'kuznyechik-cbc', 16))])


def one(R, p, glob, name, cipher, bl, nids, v):
    ext = externs(nids)
    ext['EVP_MD_is_a'] = lambda ex, s, a, i: const(1 if dr.cstr(ex, s, a[1], i.line) == name else 0, 32)
    S = mh.MSetup(R, p, glob, {}, externs=ext)
    st = S.st
    R.truth('%s: tag length of the descriptor' % name, S.meth['result_size'] == bl, by='ground evaluation')
    n64 = tm.var('#n', 64)

    def data(x):
        return x.new('in', n64, kind='arr')

    def refuses(x, why):
        """a context without a key computes nothing"""
        y = dr.clear(x.fork())
        d = data(y)
        for z, r in S.call(y, 'update', d, n64):
            R.cond('%s: update %s is refused' % (name, why), tm.eq(r, ZERO), z.pc)
            R.truth('%s: update %s computes nothing' % (name, why), not dr.events(z))
        y = dr.clear(x.fork())
        o = y.new('md', 32, init=lambda o: tm.var('md0[%d]' % o, 8))
        for z, r in S.call(y, 'final', o):
            R.cond('%s: final %s is refused' % (name, why), tm.eq(r, ZERO), z.pc)
            R.eq('%s: final %s writes nothing' % (name, why), z.bytes(o, 32), model.symbytes('md0', 32), z.pc)

    def keyed(x, r, key, why, old=None):
        """after SET_KEY: success means the CMAC runs under exactly this key; failure leaves no key"""
        for c, ok in ((tm.slt(ZERO, r), True), (tm.not_(tm.slt(ZERO, r)), False)):
            if c is tm.FALSE:
                continue
            y = x.fork()
            y.assume(c)
            if not mh_feasible(y):
                continue
            if not ok:
                if old:
                    old_or_none(y, old, 'a failed ' + why)
                else:
                    refuses(y, 'after a failed ' + why)
                continue
            yield y

    def old_or_none(b, key, why):
        """either still the old key, or none; never a MAC of something else"""
        y2 = dr.clear(b.fork())
        o = y2.new('md', 32, init=lambda o: tm.var('md0[%d]' % o, 8))
        for f, g in S.call(y2, 'final', o):
            e = dr.events(f)
            if e:
                R.truth('%s: after %s: the old key or none' % (name, why), bool(e[0][2]), repr(e))
                if e[0][2]:
                    R.eq('%s: after %s: the old key' % (name, why), list(e[0][2][0]), key, f.pc)
            else:
                R.cond('%s: after %s no MAC is output' % (name, why), tm.not_(tm.slt(ZERO, g)), f.pc)

    def check_key(y, key, why, size):
        z = dr.clear(y.fork())
        d = data(z)
        for q, r in S.call(z, 'update', d, n64):
            e = dr.events(q)
            R.truth('%s: update after %s feeds the CMAC once' % (name, why), len(e) == 1, repr(e))
            if len(e) == 1:
                R.truth('%s: update after %s: CMAC of the right cipher' % (name, why), bool(e[0][2]) and e[0][2][1] == 'cipher:' + cipher, repr(e[0]))
                if e[0][2]:
                    R.eq('%s: update after %s: the key' % (name, why), list(e[0][2][0]), key, q.pc)
                R.truth('%s: update after %s: exactly the data' % (name, why), isinstance(e[0][3], Ptr) and e[0][3].obj == d.obj and e[0][3].off is const(0, 64) and e[0][4] is n64, repr(e[0]))
        z = dr.clear(y.fork())
        z.data['size'] = size
        o = z.new('md', 32, init=lambda o: tm.var('md0[%d]' % o, 8))
        for q, r in S.call(z, 'final', o):
            e = dr.events(q)
            if not e:
                R.cond('%s: a failed CMAC is reported' % name, tm.not_(tm.slt(ZERO, r)), q.pc)
                R.eq('%s: a failed CMAC writes nothing' % name, q.bytes(o, 32), model.symbytes('md0', 32), q.pc)
                continue
            R.cond('%s: final reports success' % name, tm.slt(ZERO, r), q.pc)
            R.truth('%s: one CMAC final' % name, len(e) == 1 and bool(e[0][2]) and e[0][2][1] == 'cipher:' + cipher, repr(e))
            if e[0][2]:
                R.eq('%s: final after %s: the key' % (name, why), list(e[0][2][0]), key, q.pc)
            for k in range(1, bl + 1):
                c = tm.eq(q.data['size'], const(k, 32))
                if c is tm.FALSE:
                    continue
                w = q.fork()
                w.assume(c)
                if not mh_feasible(w):
                    continue
                R.eq('%s: the leading bytes of the CMAC' % name, w.bytes(o, k), model.symbytes('mac', bl)[:k], w.pc)
                R.eq('%s: nothing beyond them' % name, w.bytes(Ptr('md', k), 32 - k), model.symbytes('md0', 32)[k:], w.pc)

    fresh = dr.zeroed(st.fork(), 'cd')
    a32 = tm.var('#arg', 32)
    legal = tm.and_(tm.sle(ONE, a32), tm.sle(a32, const(bl, 32)))
    for junk, start in (('fresh', fresh), ('used', st.fork())):
        for x, r in S.call(start, 'init'):
            R.cond('%s: init succeeds' % name, tm.slt(ZERO, r), x.pc)
            refuses(x, 'without a key')
            x = dr.clear(x)
            keys = []
            y = x.fork()
            keys += [('a 32-byte key', z, q, model.symbytes('key', 32)) for z, q in S.ctrl(y, v['EVP_MD_CTRL_SET_KEY'], const(32, 32), model.sym(y, 'key', 32))]
            y = x.fork()
            keys += [('a key object', z, q, model.symbytes('key', 36)[4:]) for z, q in S.ctrl(y, v['EVP_MD_CTRL_SET_KEY'], ZERO, model.sym(y, 'key', 40))]
            y = x.fork()
            y.assume(tm.not_(tm.eq(a32, ZERO)))
            y.assume(tm.not_(tm.eq(a32, const(32, 32))))
            for z, q in S.ctrl(y, v['EVP_MD_CTRL_SET_KEY'], a32, model.sym(y, 'key', 32)):
                R.cond('%s: a key of another length is refused' % name, tm.not_(tm.slt(ZERO, q)), z.pc)
                refuses(z, 'after a key of another length')
            if junk == 'used':
                continue
            nk = 0
            for why, z, q, key in keys:
                for w in keyed(z, q, key, why):
                    nk += 1
                    w.mem.pop('key', None)
                    check_key(w, key, why, const(bl, 32))
                    # MAC length
                    for u, g in S.ctrl(w.fork(), v['EVP_MD_CTRL_XOF_LEN'], a32):
                        for c, ok in ((tm.slt(ZERO, g), True), (tm.not_(tm.slt(ZERO, g)), False)):
                            b = u.fork()
                            b.assume(c)
                            if c is tm.FALSE or not mh_feasible(b):
                                continue
                            R.cond('%s: MAC lengths 1..%d are accepted, others refused' % (name, bl), legal if ok else tm.not_(legal), b.pc)
                            if ok:
                                check_key(b, key, 'setting the length', a32)
                            else:
                                R.truth('%s: a refused length changes nothing' % name, dr.cells(b, 'cd') == dr.cells(w, 'cd'))
                    # refused key on a context that has one
                    y = w.fork()
                    y.assume(tm.not_(tm.eq(a32, ZERO)))
                    y.assume(tm.not_(tm.eq(a32, const(32, 32))))
                    for z2, q2 in S.ctrl(y, v['EVP_MD_CTRL_SET_KEY'], a32, model.sym(y, 'key2', 32)):
                        R.cond('%s: a key of another length is refused' % name, tm.not_(tm.slt(ZERO, q2)), z2.pc)
                        old_or_none(z2, key, 'a refused key')
                    # another key replaces it
                    y = w.fork()
                    for z2, q2 in S.ctrl(y, v['EVP_MD_CTRL_SET_KEY'], const(32, 32), model.sym(y, 'key2', 32)):
                        for w2 in keyed(z2, q2, model.symbytes('key2', 32), 'a second key', key):
                            check_key(w2, model.symbytes('key2', 32), 'a second key', const(bl, 32))
                    # TLSTREE
                    y = w.fork()
                    for z2, q2 in S.ctrl(y, v['EVP_MD_CTRL_TLSTREE'], ZERO, model.sym(y, 'seq', 8)):
                        tk = tm.bytes_of(tm.uf('tlstree', [const(nids[cipher], 32), tm.concat(key), tm.concat(model.symbytes('seq', 8))], 256))
                        for c, ok in ((tm.slt(ZERO, q2), True), (tm.not_(tm.slt(ZERO, q2)), False)):
                            b = z2.fork()
                            b.assume(c)
                            if c is tm.FALSE or not mh_feasible(b):
                                continue
                            if ok:
                                check_key(b, tk, 'TLSTREE', const(bl, 32))
                            else:
                                old_or_none(b, key, 'a failed TLSTREE')
            R.truth('%s: a key can be set' % name, nk >= 2)
    R.absorb(S.ex, name)


def mh_feasible(y):
    from dv import solver
    return all(solver.feasible(y.pc[:k], y.pc[k]) for k in range(len(y.pc))) if y.pc else True


def search(S):
    E = evp.Engine(S.lib)
    n = 0
    while S.more():
        n += 1
        sn, mk, bl = (('magma-mac', t.mg, 8), ('kuznyechik-mac', t.kz, 16))[n % 2]
        xcheck.mac_case(S, E, sn, lambda k, d, p: m.omac(mk(k), d), (None,) + tuple(range(1, bl + 1)), big=800)
        if n % 5 == 0:
            refuse(S, E, sn, mk, bl)


def refuse(S, E, sn, mk, bl):
    """no key, bad key lengths, bad sizes"""
    S.case(kind=sn + ' refusals')
    d = evp.Digest(E, sn)
    d.init()
    b = Buf(64)
    if d.update(b'abc') == 1:
        S.fail(sn + ': update without a key succeeds')
    o = Buf(64)
    import ctypes as C
    l = C.c_uint(0)
    if E.md_fin(d.x, o.p, C.byref(l)) == 1:
        S.fail(sn + ': a MAC without a key is output')
    E.err_clear()
    d.free()
    d = evp.Digest(E, sn)
    d.init()
    for kl in (1, 16, 31, 33, 64):
        if d.ctrl(evp.MD_SET_KEY, kl, b.p) > 0:
            S.fail(sn + ': key of length %d accepted' % kl)
    if d.update(b'abc') == 1:
        S.fail(sn + ': a refused key allows updates')
    key, data = S.bytes(32), S.bytes(S.rng.randrange(0, 60))
    kb = Buf(key)
    d.free()
    d = evp.Digest(E, sn)
    d.init()
    if d.ctrl(evp.MD_SET_KEY, 32, kb.p) <= 0:
        S.fail(sn + ': key refused')
    size = S.rng.randrange(1, bl + 1)
    if d.ctrl(evp.MD_XOF_LEN, size) <= 0:
        S.fail(sn + ': size refused')
    for sz in (0, -1, bl + 1, 64, 1 << 20):
        if d.ctrl(evp.MD_XOF_LEN, sz) > 0:
            S.fail(sn + ': MAC size %d accepted' % sz)
    d.update(data)
    # final writes exactly size bytes
    o = Buf(b'\xee' * 64)
    E.md_fin(d.x, o.p, C.byref(l))
    E.err_clear()
    S.expect(o.get(bl)[:size], m.omac(mk(key), data)[:size], sn + ': truncated MAC differs', size=size)
    d.free()
