"""KExp15 / KImp15 and the wrap ciphers."""
import ctypes as C
from dv import evp, model, direct as dr, evpx, evpmodel as em, cphist as ch, terms as tm, solver
from dv.exec import Exec, State, Ptr, NULL
from dv.ir import probe
from dv.terms import const
from spec import modes as m, tasks as t
from props.C05 import SRC

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 10, 60, 80
ASSUMPTIONS = evpx.NOTES + ['the MAC contexts and CTR ciphers fetched by identifier are those of M03, C04 and C05']
RULE = 'random keys, IVs and secrets; export, import, altered, truncated and extended blobs; wrap ciphers over any split'
ONE, ZERO = const(1, 32), const(0, 32)
NM = ['NID_magma_ctr', 'NID_grasshopper_ctr', 'NID_magma_mac', 'NID_grasshopper_mac', 'EVP_MD_CTRL_SET_KEY', 'EVP_MD_CTRL_XOF_LEN']


def sb(n, k):
    return model.symbytes(n, k)


def setup(R, p, V):
    ext = dict(model.BASE)
    ext.update(evpx.contracts(cmds=V, ivlen=lambda n: 8 if n is const(V['NID_magma_ctr'], 32) else 16))
    ex = Exec(p, {'omac_imit_ctrl': ext['omac_imit_ctrl']}, ext)
    return ex


def spec(nid, mnid, ck, mk, iv, secret, bl):
    mac = evpx.macfn(mnid, mk, [iv, secret], bl)
    g = evpx.stream(nid, ck, list(iv) + [const(0, 8)] * (bl - len(iv)), 0, len(secret) + bl)
    return [tm.xor(a, b) for a, b in zip(list(secret) + mac, g)]


def cases(V):
    return (('magma', const(V['NID_magma_ctr'], 32), 8, 4), ('kuznyechik', const(V['NID_grasshopper_ctr'], 32), 16, 8))


def kexp(R, p, V):
    mnid = tm.var('#mac', 32)
    for which, nid, bl, il in cases(V):
        for n in (32, 0, 1, 31, 33, 64):
            ex = setup(R, p, V)
            st = State()
            a = [model.sym(st, q, k) for q, k in (('ck', 32), ('mk', 32), ('iv', il))]
            sec = model.sym(st, 'secret', n)
            out = st.new('out', n + bl, init=lambda o: tm.var('out0[%d]' % o, 8))
            ol = st.new('outlen', 4)
            room = tm.var('#room', 32)
            st.assume(tm.sle(ZERO, room))
            st.wval(ol, room)
            good = 0
            for k, x, v in model.runall(ex, st, 'gost_kexp15', [sec, const(n, 32), nid, a[0], mnid, a[1], a[2], const(il, 64), out, ol]):
                if k != 'ret':
                    continue
                bad = tm.or_(tm.slt(room, const(n + bl, 32)), tm.TRUE if x.data.get('failed') else tm.FALSE)
                if v is ONE:
                    good += 1
                    R.cond('kexp15: success only if everything succeeded and the output fits', tm.not_(bad), x.pc)
                    R.eq('kexp15: %s: encrypted secret and OMAC of IV and secret' % which, x.bytes(out, n + bl), spec(nid, mnid, sb('ck', 32), sb('mk', 32), sb('iv', il), sb('secret', n), bl), x.pc)
                    R.eq('kexp15: output length', x.val(ol, 4), const(n + bl, 32), x.pc)
                else:
                    R.cond('kexp15: failure is reported as 0', tm.eq(v, ZERO), x.pc)
            R.truth('kexp15: succeeds', good >= 1)
            R.absorb(ex, 'gost_kexp15')
    refused(R, p, V, 'gost_kexp15', lambda st, nid: [model.sym(st, 'secret', 32), const(32, 32), nid, model.sym(st, 'ck', 32), mnid, model.sym(st, 'mk', 32), model.sym(st, 'iv', 16), const(8, 64), model.sym(st, 'out0', 48), lenptr(st)])


def lenptr(st):
    p = st.new('outlen', 4)
    st.wval(p, const(48, 32))
    return p


def refused(R, p, V, fn, args):
    """ciphers other than the two are refused and nothing is output"""
    ex = setup(R, p, V)
    st = State()
    nid = tm.var('#nid', 32)
    for which, c, bl, il in cases(V):
        st.assume(tm.not_(tm.eq(nid, c)))
    a = args(st, nid)
    for k, x, v in model.runall(ex, st, fn, a):
        if k == 'ret':
            R.cond('%s: other ciphers refused' % fn, tm.eq(v, ZERO), x.pc)
            R.eq('%s: nothing output then' % fn, x.bytes(Ptr('out0', 0), 32), sb('out0', 32), x.pc)
    R.absorb(ex, fn)


def kimp(R, p, V):
    mnid = tm.var('#mac', 32)
    ln = tm.var('#len', 64)
    for which, nid, bl, il in cases(V):
        ex = setup(R, p, V)
        st = State()
        a = [model.sym(st, q, k) for q, k in (('ck', 32), ('mk', 32), ('iv', il))]
        blob = st.new('blob', ln, kind='arr')
        out = model.sym(st, 'out0', 32)
        good = 0
        b = [tm.arr('blob', const(j, 64)) if False else st_byte(st, 'blob', j) for j in range(48)]
        g = evpx.stream(nid, sb('ck', 32), sb('iv', il) + [const(0, 8)] * (bl - il), 0, 32 + bl)
        dec = [tm.xor(x, y) for x, y in zip(b, g)]
        tag = tm.eq(tm.concat(evpx.macfn(mnid, sb('mk', 32), [sb('iv', il), dec[:32]], bl)), tm.concat(dec[32:]))
        legal = tm.eq(ln, const(32 + bl, 64))
        for k, x, v in model.runall(ex, st, 'gost_kimp15', [blob, ln, nid, a[0], mnid, a[1], a[2], const(il, 64), out]):
            if k != 'ret':
                continue
            if x.data.get('failed'):
                R.cond('kimp15: a failing primitive makes it fail', tm.eq(v, ZERO), x.pc)
            # accepted exactly when the length and the tag match
            ok = tm.eq(v, ONE)
            R.cond('kimp15: reports 0 or 1', tm.or_(ok, tm.eq(v, ZERO)), x.pc)
            y = x.fork()
            y.assume(ok)
            if ok is not tm.FALSE and feasible(y):
                R.cond('kimp15: %s: accepts only a blob of the right length' % which, pinned(x, legal), y.pc)
                R.cond('kimp15: %s: accepts only a matching tag' % which, tag, y.pc)
                R.eq('kimp15: %s: the secret is restored' % which, y.bytes(out, 32), dec[:32], y.pc)
                good += 1
            y = x.fork()
            y.assume(tm.not_(ok))
            if ok is not tm.TRUE and feasible(y):
                R.eq('kimp15: nothing is output on refusal', y.bytes(out, 32), sb('out0', 32), y.pc)
                if x.data.get('full') and not x.data.get('failed'):
                    R.cond('kimp15: %s: a matching blob is accepted' % which, tm.not_(tag), y.pc)
        R.truth('kimp15: succeeds', good >= 1)
        R.absorb(ex, 'gost_kimp15')
    refused(R, p, V, 'gost_kimp15', lambda st, nid: [model.sym(st, 'blob', 48), const(48, 64), nid, model.sym(st, 'ck', 32), mnid, model.sym(st, 'mk', 32), model.sym(st, 'iv', 16), const(8, 64), model.sym(st, 'out0', 32)])


def st_byte(st, o, j):
    return tm.arr(o, const(j, 64))


def pinned(x, legal):
    # the length is a variable of the path condition, or was replaced by its value in this state
    n = [o.size for k, o in x.mem.items() if k == 'blob'][0]
    n = n if isinstance(n, tm.T) else const(n, 64)
    return tm.eq(n, legal.a[0] if legal.a[0].op == 'c' else legal.a[1])


def feasible(y):
    return all(solver.feasible(y.pc[:k], y.pc[k]) for k in range(len(y.pc))) if y.pc else True


def wraps(R, q, V, glob, which, nid, mac, bl, il):
    """the unwrapping cipher: any split of the blob"""
    L = 32 + bl
    log = {}

    def imp(ex, s, a, i):
        """gost_kimp15 (contract proved here)"""
        if a[1].op != 'c':
            ex.reconc(s, a[1])
        b = ex.read_bytes(s, a[0], a[1].a, i.line)
        k = ex.read_bytes(s, a[3], 32, i.line)
        mk = ex.read_bytes(s, a[5], 32, i.line)
        iv = ex.read_bytes(s, a[6], a[7].a, i.line)
        dr.note(s, 'imp', b, a[2], k, a[4], mk, iv)
        f = s.fork()
        f.data['failed'] = True
        ex.write_bytes(s, a[8], [tm.var('secret[%d]' % j, 8) for j in range(32)], i.line)
        return [(s, ONE), (f, ZERO)]
    R.contracts['gost_kimp15'] = 'proved here'
    for enc in (0, 1):
        S = ch.Setup(R, q, glob, enc, {'gost_kimp15': imp})
        R.truth('%s: key length' % glob, S.meth['key_len'] == 64)
        fn = em.fname(S.meth['do_cipher'])
        st = S.st.fork()
        k, iv = model.sym(st, 'key', 64), model.sym(st, 'ivbuf', S.meth['iv_length'])
        R.truth('%s: IV length' % glob, S.meth['iv_length'] == il)
        for kind, x, v in model.runall(S.ex, st, em.fname(S.meth['init']), [S.ctx, k, iv, const(enc, 32)]):
            R.cond('%s: init' % glob, tm.eq(v, ONE), x.pc)
            pos = off_count(R)
            # invariant: wrapped[0..c) = the first c bytes given, c = wrap_count <= L.  One update of any n
            # from any such state.
            for c in range(0, L + 1):
                if enc and c not in (0, 7, L):
                    continue
                y = dr.clear(x.fork())
                w = Ptr('cd', pos['wrapped'])
                y.wb(w, [tm.var('given[%d]' % j, 8) for j in range(c)])
                y.wval(Ptr('cd', pos['wrap_count']), const(c, 64))
                n = tm.var('#n', 64)
                y.assume(tm.ule(n, const((1 << 31) - 1, 64)))
                d = y.new('in', n, kind='arr')
                o = y.new('out', 32, init=lambda o: tm.var('out0[%d]' % o, 8))
                for kk, z, r in model.runall(S.ex, y, fn, [S.ctx, o, d, n]):
                    if kk != 'ret':
                        continue
                    nn = z.mem['in'].size
                    e = dr.events(z)
                    fits = tm.ule(nn, const(L - c, 64))
                    full = tm.eq(nn, const(L - c, 64))
                    if not e:
                        R.eq('%s: nothing is output before the blob is complete' % glob, z.bytes(o, 32), sb('out0', 32), z.pc)
                        ok = tm.eq(r, ZERO)
                        if not enc:
                            R.cond('%s: incomplete: waits; too long: refused' % glob, tm.eq(ok, tm.and_(fits, tm.not_(full))), z.pc)
                            R.cond('%s: too long: an error' % glob, tm.or_(ok, tm.slt(r, ZERO)), z.pc)
                        z2 = z.fork()
                        z2.assume(ok)
                        if ok is not tm.FALSE and feasible(z2) and nn.op == 'c':
                            R.eq('%s: the part is kept' % glob, z2.bytes(w, c + nn.a), [tm.var('given[%d]' % j, 8) for j in range(c)] + [st_byte(z, 'in', j) for j in range(nn.a)], z2.pc)
                            R.eq('%s: and counted' % glob, z2.val(Ptr('cd', pos['wrap_count']), 8), const(c + nn.a, 64), z2.pc)
                        continue
                    R.truth('%s: never unwraps when encrypting' % glob, not enc)
                    R.cond('%s: unwraps exactly the complete blob' % glob, full, z.pc)
                    if nn.op != 'c':
                        continue
                    want = [tm.var('given[%d]' % j, 8) for j in range(c)] + [st_byte(z, 'in', j) for j in range(nn.a)]
                    R.eq('%s: the blob' % glob, e[0][1], want, z.pc)
                    R.truth('%s: the cipher and MAC' % glob, e[0][2] is nid and e[0][4] is mac)
                    R.eq('%s: MAC key, then cipher key' % glob, e[0][5] + e[0][3], sb('key', 64), z.pc)
                    R.eq('%s: the IV' % glob, e[0][6], sb('ivbuf', il), z.pc)
                    if z.data.get('failed'):
                        R.cond('%s: a refused import is an error' % glob, tm.slt(r, ZERO), z.pc)
                        R.eq('%s: a refused import outputs nothing' % glob, z.bytes(o, 32), sb('out0', 32), z.pc)
                    else:
                        R.eq('%s: 32 bytes' % glob, r, const(32, 32), z.pc)
                        R.eq('%s: the secret' % glob, z.bytes(o, 32), sb('secret', 32), z.pc)
                # the final call: no output; an incomplete blob is an error
                y2 = y.fork()
                for kk, z, r in model.runall(S.ex, y2, fn, [S.ctx, o, NULL, const(0, 64)]):
                    if kk == 'ret' and not enc:
                        R.cond('%s: finalisation of an incomplete blob fails' % glob, tm.eq(r, ZERO) if c == L else tm.slt(r, ZERO), z.pc)
                        R.eq('%s: finalisation outputs nothing' % glob, z.bytes(o, 32), sb('out0', 32), z.pc)
                y2 = y.fork()
                for kk, z, r in model.runall(S.ex, y2, fn, [S.ctx, NULL, d, n]):
                    if kk == 'ret':
                        R.cond('%s: size query' % glob, tm.eq(r, const(32, 32)), z.pc)
                        R.eq('%s: a size query consumes nothing' % glob, z.val(Ptr('cd', pos['wrap_count']), 8), const(c, 64), z.pc)
        R.absorb(S.ex, glob)


def off_count(R):
    # GOST_WRAP_CTX is private to the file: { iv[8]; key[64]; wrapped[48]; wrap_count }
    return {'wrapped': 72, 'wrap_count': 120}


def prove(R):
    p = model.prog(['gost_keyexpimp.c'], R.tmp)
    q = model.prog(SRC + ['gost_keyexpimp.c'], R.tmp)
    V = probe(['openssl/objects.h', 'openssl/evp.h', 'gost_lcl.h'], NM, workdir=R.tmp)
    R.contracts['EVP_*'] = 'assumed (OpenSSL)'
    R.contracts['omac_imit_ctrl'] = 'M03'
    T = [('export', lambda R: kexp(R, p, V)), ('import', lambda R: kimp(R, p, V))]
    for g, w, a, b, bl, il in (('magma_kexp15_cipher', 'magma', 'NID_magma_ctr', 'NID_magma_mac', 8, 4), ('kuznyechik_kexp15_cipher', 'kuznyechik', 'NID_grasshopper_ctr', 'NID_grasshopper_mac', 16, 8)):
        T.append((g, lambda R, g=g, w=w, a=a, b=b, bl=bl, il=il: wraps(R, q, V, g, w, const(V[a], 32), const(V[b], 32), bl, il)))
    R.parallel(T)
    R.bounded.append('gost_kexp15: secrets of 0, 1, 31, 32, 33 and 64 bytes (the engine exports 32-byte secrets)')


def search(S):
    L = S.lib
    P, Z, I = C.c_void_p, C.c_size_t, C.c_int
    from dv.real import Buf
    E = evp.Engine(S.lib)
    ke = L.fn('gost_kexp15', I, P, I, I, P, I, P, P, Z, P, P)
    ki = L.fn('gost_kimp15', I, P, Z, I, P, I, P, P, Z, P)
    nid = lambda s: L.cf('OBJ_txt2nid', C.c_int, C.c_char_p)(s.encode())
    r = S.rng
    n = 0
    while S.more():
        n += 1
        w, il, bl = (('magma', 4, 8), ('kuznyechik', 8, 16))[n % 2]
        cn, mn = nid(w + '-ctr'), nid(w + '-mac')
        ck, mk, iv, sec = S.bytes(32), S.bytes(32), r.choice((S.bytes(il), b'\xff' * il, bytes(il))), S.bytes(32)
        S.case(kind='export', cipher=w, ck=ck, mk=mk, iv=iv, secret=sec)
        a, b, c, d, o, l = Buf(ck), Buf(mk), Buf(iv), Buf(sec), Buf(32 + bl), C.c_int(32 + bl)
        if ke(d.p, 32, cn, a.p, mn, b.p, c.p, il, o.p, C.byref(l)) != 1:
            S.fail('export fails')
        want = m.kexp15(w, sec, ck, mk, iv)
        S.expect(o.get(), want, 'export differs')
        if l.value != 32 + bl or not o.ok():
            S.fail('wrong output length')
        l = C.c_int(r.choice((31 + bl, 32, 0)))
        S.case(kind='export, short buffer', room=l.value)
        if ke(d.p, 32, cn, a.p, mn, b.p, c.p, il, o.p, C.byref(l)) == 1:
            S.fail('export into a short buffer succeeds')
        S.case(kind='import', cipher=w, ck=ck, mk=mk, iv=iv, blob=want)
        e, z = Buf(want), Buf(32)
        if ki(e.p, len(want), cn, a.p, mn, b.p, c.p, il, z.p) != 1:
            S.fail('import refuses a valid blob')
        S.expect(z.get(), sec, 'imported secret differs')
        for how in range(4):
            bad = bytearray(want)
            if how < 2:
                bad[r.choice((len(bad) - 1, 32, 33, r.randrange(len(bad))))] ^= 1 << r.randrange(8)
            elif how == 2:
                bad = bad[:r.choice((0, 1, 31, 32, 33, len(bad) - 1))]
            else:
                bad += S.bytes(r.choice((1, 8, 9, 64)))
            S.case(kind='import of an altered blob', cipher=w, ck=ck, mk=mk, iv=iv, blob=bytes(bad))
            e, z = Buf(bytes(bad)), Buf(32)
            if ki(e.p, len(bad), cn, a.p, mn, b.p, c.p, il, z.p) > 0:
                S.fail('import accepts an altered blob')
            if not z.ok():
                S.fail('write outside the output')
        wrapper(S, E, w, il, bl, ck, mk, iv, sec, want)


def wrapper(S, E, w, il, bl, ck, mk, iv, sec, blob):
    r = S.rng
    how = r.choice(('good', 'good', 'flip', 'short', 'long'))
    b = bytearray(blob)
    if how == 'flip':
        b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    elif how == 'short':
        b = b[:-r.randrange(1, len(b))]
    elif how == 'long':
        b += S.bytes(r.choice((1, 8, 30, 64)))
    cuts = sorted(r.randrange(0, len(b) + 1) for _ in range(r.choice((0, 0, 1, 2))))
    parts = [bytes(b[i:j]) for i, j in zip([0] + cuts, cuts + [len(b)])]
    parts = [q for q in parts if q]
    S.case(kind='unwrap cipher', cipher=w, how=how, ck=ck, mk=mk, iv=iv, parts=[q.hex() for q in parts])
    c = evp.Cipher(E, w + '-kexp15')
    if c.init(mk + ck, iv, False) != 1:
        S.fail('the unwrap cipher cannot be initialised')
    out, bad = b'', False
    for q in parts:
        o = c.update(q)
        if o is None:
            bad = True
            break
        out += o
    if not bad:
        o = c.final()
        if o is None:
            bad = True
        else:
            out += o
    c.free()
    if how == 'good':
        if bad:
            S.fail('the unwrap cipher refuses a valid blob')
        S.expect(out, sec, 'the unwrap cipher outputs something else')
    elif not bad:
        S.fail('the unwrap cipher reports success for an altered blob')
