"""Encoding of signatures."""
import ctypes
from dv import model, bnx, direct as dr, terms as tm
from dv.exec import Exec, Ptr, NULL, T, Undecided, State
from dv.ir import probe
from dv.terms import const

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 25, 200, 120
RULE = 'random pairs (small, full, too long) encoded and decoded; signatures through EVP_PKEY_sign / EVP_PKEY_verify with damaged lengths'
ASSUMPTIONS = ['BN_num_bits, BN_bn2bin(pad) and BN_bin2bn convert between numbers and big-endian bytes as documented', 'EVP_PKEY_*, ECDSA_SIG_* as documented',
               'signatures are handed to the buffer size reported (twice the field length)']
SRC = ['gost_pmeth.c', 'gost_ameth.c']
MAXB = 66


def byte(o, i):
    return tm.var('v.%s[%d]' % (o, i), 8)


def contracts(v, kid, modular=True):
    C = bnx.contracts()

    def need(s, p):
        """forks into the possible lengths of the number; the last one is longer than any field"""
        k = 'nb.' + p.obj
        if k in s.data:
            return [s]
        out = []
        for n in range(MAXB + 1):
            f = s.fork() if n < MAXB else s
            f.data[k] = n
            out.append(f)
        return out

    def bits(ex, s, a, i):
        r = []
        for f in need(s, a[0]):
            n = f.data['nb.' + a[0].obj]
            b = tm.var('bits.' + a[0].obj, 32)
            f.assume(tm.ule(b, const(8 * n if n < MAXB else 1 << 20, 32)))
            if n:
                f.assume(tm.ule(const(8 * n - 7, 32), b))
            r.append((f, b))
        return r
    C['BN_num_bits'] = bits

    def at(s, p, n, i):
        """byte i of a number of n bytes"""
        return byte(p.obj, i) if i < n else const(0, 8)

    def to(pad, little):
        def h(ex, s, a, i):
            r = []
            for f in need(s, a[0]):
                n = f.data['nb.' + a[0].obj]
                if pad:
                    if a[2].op != 'c':
                        raise Undecided('padded length')
                    ln = a[2].a
                    if n > ln or n == MAXB:
                        r.append((f, const(0xffffffff, 32)))
                        continue
                else:
                    if n == MAXB:
                        raise Undecided('a long number')
                    ln = n
                bs = [at(f, a[0], n, j) for j in range(ln)]
                p = a[1]
                if p.off.op != 'c':
                    o = ex.values(f, p.off, 3)
                    if not o:
                        continue
                    if len(o) != 1:
                        raise Undecided('place of the bytes')
                    p = Ptr(p.obj, const(o[0], 64))
                ex.write_bytes(f, p, bs if little else bs[::-1], i.line)
                r.append((f, const(ln, 32)))
            return r
        return h
    C['BN_bn2bin'], C['BN_bn2binpad'], C['BN_bn2lebinpad'] = to(0, 0), to(1, 0), to(1, 1)

    def store(ex, s, a, i):
        if a[2].op != 'c':
            raise Undecided('length of a half')
        L = a[2].a
        k = 'fits.' + a[0].obj
        if k not in s.data:
            f = s.fork()
            s.data[k], f.data[k] = L, L + 1
        elif s.data[k] <= L:
            f = None
        else:
            return const(0, 32)
        out = []
        ex.write_bytes(s, a[1], [byte(a[0].obj, j) for j in range(L)][::-1], i.line)
        out.append((s, const(1, 32)))
        if f is not None:
            out.append((f, const(0, 32)))
        return out
    if modular:
        C['store_bignum'] = store

    def frm(little):
        def h(ex, s, a, i):
            p = a[2] if isinstance(a[2], Ptr) else bnx.new(s)
            f = bnx.fail(s)
            n = a[1]
            if n.op != 'c':
                o = one(ex, s, n)
                n = n if o is None else const(o, 32)
            if n.op != 'c':
                # the length is not known: remember where the bytes are
                s.data['from.' + p.obj] = ('range', a[0].off, n)
            else:
                bs = ex.read_bytes(s, a[0], n.a, i.line)
                s.data['from.' + p.obj] = ('bytes', tuple(bs if not little else bs[::-1]))
            return [(s, p), (f, NULL)]
        return h
    C['BN_bin2bn'], C['BN_lebin2bn'] = frm(0), frm(1)
    C['EVP_PKEY_CTX_get0_pkey'] = lambda ex, s, a, i: s.data['pkey']
    C['EVP_PKEY_get0'] = C['EVP_PKEY_get0_EC_KEY'] = lambda ex, s, a, i: s.data['eckey']
    C['EVP_PKEY_get_base_id'] = C['EVP_PKEY_base_id'] = lambda ex, s, a, i: kid
    C['EVP_PKEY_get_id'] = lambda ex, s, a, i: kid

    def sign(ex, s, a, i):
        f = bnx.fail(s)
        p = C['ECDSA_SIG_new'](ex, s, a, i)[0][1]
        r, z = bnx.new(s, borrowed=True), bnx.new(s, borrowed=True)
        s.data['sig.' + p.obj] = (r, z)
        s.data['made'] = (r.obj, z.obj)
        dr.note(s, 'sign', a[0], a[1], a[2])
        return [(s, p), (f, NULL)]
    C['gost_ec_sign'] = sign

    def verify(ex, s, a, i):
        dr.note(s, 'verify', a[0], a[1], s.data['sig.' + a[2].obj], a[3], s.mem[a[2].obj].freed)
        return tm.var('verdict', 32)
    C['gost_ec_verify'] = verify
    return C


def one(ex, s, t):
    try:
        o = ex.values(s, t, 1)
    except Undecided:
        return None
    return o[0] if len(o) == 1 else None


def half(v, nid):
    return 64 if nid == v['NID_id_GostR3410_2012_512'] else 32


def expected(s, o, L):
    n = s.data.get('nb.' + o, s.data.get('fits.' + o))
    return [byte(o, i) if i < n else const(0, 8) for i in range(L)][::-1]


def start(p, C):
    ex = Exec(p, contracts=C, externs=dict(model.BASE))
    ex.externs['OPENSSL_die'] = C['OPENSSL_die']
    st = State()
    ctx = dr.opaque(st, 'pctx')
    st.data['pkey'] = dr.opaque(st, 'pkey')
    st.data['eckey'] = dr.opaque(st, 'eckey')
    return ex, st, ctx




def prove(R):
    p = model.prog(SRC, R.tmp)
    names = ['NID_id_GostR3410_2001', 'NID_id_GostR3410_2001DH', 'NID_id_GostR3410_2012_256', 'NID_id_GostR3410_2012_512']
    v = probe(['openssl/objects.h'], names, workdir=R.tmp)
    kid = tm.var('kid', 32)
    C = contracts(v, kid, False)
    R.contracts['BN_*, ECDSA_SIG_*, EVP_PKEY_*'] = 'assumed (OpenSSL)'
    R.contracts['gost_ec_sign, gost_ec_verify'] = 'proved in S01'

    def store(L):
        def f(R):
            ex, st, ctx = start(p, C)
            nm = 'store_bignum(%d)' % L
            b = bnx.new(st)
            st.new('buf', L, init=lambda o: tm.var('old[%d]' % o, 8))
            n = 0
            for kind, s, r in model.runall(ex, st, 'store_bignum', [b, Ptr('buf', 0), const(L, 32)]):
                if kind != 'ret':
                    continue
                nb = s.data['nb.' + b.obj]
                if nb > L:
                    R.cond('%s: a number that is too long is refused' % nm, tm.eq(r, const(0, 32)), s.pc)
                else:
                    n += 1
                    R.cond('%s: success' % nm, tm.eq(r, const(1, 32)), s.pc)
                    R.eq('%s: big-endian, padded with zeros' % nm, dr.cells(s, 'buf'), expected(s, b.obj, L), s.pc)
            R.truth('%s: all lengths' % nm, n == L + 1)
            R.absorb(ex, nm)
        return ('store%d' % L, f)

    def sign(nid, null):
        def f(R):
            L = half(v, v[nid]) if nid else 32
            ex, st, ctx = start(p, contracts(v, const(v[nid] if nid else 0, 32)))
            nm = 'sign(%s)' % (nid or 'other key')
            st.new('sig', 2 * L, init=lambda o: tm.var('old[%d]' % o, 8))
            st.new('len', 8, init=lambda o: tm.var('oldlen[%d]' % o, 8))
            d = model.sym(st, 'dgst', 32)
            n = 0
            for kind, s, r in model.runall(ex, st, 'pkey_gost_ec_cp_sign', [ctx, NULL if null else Ptr('sig', 0), Ptr('len', 0), d, const(32, 64)]):
                if kind != 'ret':
                    continue
                made = s.data.get('made')
                if not nid or s.data.get('failed') or (made and max(s.data.get('nb.' + o, s.data.get('fits.' + o, 0)) for o in made) > L):
                    R.cond('%s: a failure is reported' % nm, tm.sle(r, const(0, 32)), s.pc)
                    continue
                n += 1
                R.cond('%s: success' % nm, tm.eq(r, const(1, 32)), s.pc)
                R.eq('%s: twice the field length' % nm, s.val(Ptr('len', 0), 8), const(2 * L, 64), s.pc)
                if null:
                    R.truth('%s: asking for the size signs nothing' % nm, not dr.events(s))
                    continue
                R.truth('%s: the digest is signed with the key' % nm, dr.events(s) == (('sign', d, const(32, 32), s.data['eckey']),))
                if made is None or any('nb.' + o not in s.data and 'fits.' + o not in s.data for o in made):
                    R.truth('%s: both parts are encoded' % nm, False)
                    continue
                R.eq('%s: s first, then r, big-endian, padded' % nm, dr.cells(s, 'sig'), expected(s, made[1], L) + expected(s, made[0], L), s.pc)
            R.truth('%s: signatures are encoded' % nm, n > 0 or not nid)
            R.absorb(ex, nm)
        return ('sign %s %s' % (nid, null), f)

    def verify(nid):
        def f(R):
            L = half(v, v[nid]) if nid else 32
            ex, st, ctx = start(p, contracts(v, const(v[nid] if nid else 0, 32)))
            nm = 'verify(%s)' % (nid or 'other key')
            ln = tm.var('siglen', 64)
            st.assume(tm.ule(ln, const(1 << 20, 64)))
            st.new('sig', ln, kind='arr')
            d = model.sym(st, 'dgst', 32)
            good = 0
            want = tm.eq(ln, const(2 * L, 64))
            bs = [tm.arr('sig', const(j, 64)) for j in range(2 * L)]
            for kind, s, r in model.runall(ex, st, 'pkey_gost_ec_cp_verify', [ctx, Ptr('sig', 0), ln, d, const(32, 64)]):
                if kind != 'ret':
                    continue
                evs = [e for e in dr.events(s) if e[0] == 'verify']
                if not nid or not evs:
                    R.cond('%s: nothing is accepted unverified' % nm, tm.sle(r, const(0, 32)), s.pc)
                    if nid and not s.data.get('failed'):
                        R.cond('%s: a signature of the right length is verified' % nm, tm.not_(want), s.pc)
                    continue
                # positive verdicts only for the right length
                R.cond('%s: any other length is rejected' % nm, tm.or_(want, tm.sle(r, const(0, 32))), s.pc)
                R.cond('%s: the verdict of the equations is returned' % nm, tm.eq(r, tm.var('verdict', 32)), s.pc)
                e = evs[-1]
                R.truth('%s: the digest and the key are the given ones' % nm, e[1] == d and e[2] is const(32, 32) and e[4] == s.data['eckey'] and not e[5])
                rr, ss = e[3]
                if rr is None or ss is None:
                    R.truth('%s: both parts are decoded' % nm, False)
                    continue
                a, b = s.data.get('from.' + rr.obj), s.data.get('from.' + ss.obj)
                if not a or not b:
                    R.truth('%s: both parts are decoded' % nm, False)
                    continue
                if a[0] == 'range' or b[0] == 'range':
                    continue
                good += 1
                R.truth('%s: parts of the field length' % nm, len(a[1]) == L and len(b[1]) == L)
                if len(a[1]) == L and len(b[1]) == L:
                    R.eq('%s: s from the first half, r from the second, big-endian' % nm, list(b[1]) + list(a[1]), bs, s.pc)
            R.truth('%s: signatures are decoded' % nm, good > 0 or not nid)
            R.absorb(ex, nm)
        return ('verify %s' % nid, f)
    R.parallel([store(L) for L in (32, 64)] + [sign(n, z) for n in names + [None] for z in (False, True)] + [verify(n) for n in names + [None]])


def search(S):
    from dv import ecx
    from dv.evp import Engine
    from dv.real import Buf
    from spec import ec
    E = Engine(S.lib)
    X = ecx.EC(S.lib)
    rng = S.rng
    P, I, SZ = ecx.P, ecx.I, ctypes.c_size_t
    f_store = S.lib.fn('store_bignum', I, P, P, I)
    f_pack = S.lib.fn('pack_sign_cp', I, P, I, P, P)
    f_unpack = S.lib.fn('unpack_cp_signature', P, P, SZ)
    f_sign = S.lib.fn('gost_ec_sign', P, P, I, P)
    assign = S.lib.cf('EVP_PKEY_assign', I, P, I, P)
    cnew = S.lib.cf('EVP_PKEY_CTX_new', P, P, P)
    cfree = S.lib.cf('EVP_PKEY_CTX_free', None, P)
    sinit, vinit = S.lib.cf('EVP_PKEY_sign_init', I, P), S.lib.cf('EVP_PKEY_verify_init', I, P)
    esign = S.lib.cf('EVP_PKEY_sign', I, P, P, ctypes.POINTER(SZ), P, SZ)
    ever = S.lib.cf('EVP_PKEY_verify', I, P, P, SZ, P, SZ)
    algs = [('NID_id_GostR3410_2001', 'gost2001', 32), ('NID_id_GostR3410_2001DH', 'id-GostR3410-2001DH', 32), ('NID_id_GostR3410_2012_256', 'gost2012_256', 32),
            ('NID_id_GostR3410_2012_512', 'gost2012_512', 64)]

    def number(L):
        t = rng.random()
        n = L if t < 0.4 else rng.randrange(0, L + 3)
        v = int.from_bytes(S.bytes(n), 'big') if n else 0
        if t > 0.8:
            v = rng.choice((0, 1, 255, 256, 256 ** L - 1, 256 ** L, 256 ** (L - 1), 256 ** (L - 1) - 1))
        return v
    n = 0
    rand = ecx.Rand(S.lib, rng)
    while S.more():
        n += 1
        t = n % 4
        L = rng.choice((32, 64))
        if t == 0:
            v = number(L)
            S.case(kind='store_bignum', len=L, value=hex(v))
            b, o = X.bn(v), Buf(S.bytes(L))
            r = f_store(b, o.p, L)
            S.expect(r, int(v < 256 ** L), 'result')
            if r == 1:
                S.expect(o.get(), v.to_bytes(L, 'big'), 'encoding')
            if not o.ok():
                S.fail('writes outside of the buffer')
            X.bnfree(b)
        elif t == 1:
            v, w = number(L), number(L)
            S.case(kind='pack', len=L, r=hex(v), s=hex(w))
            o, ln = Buf(S.bytes(2 * L)), Buf(8)
            r = f_pack(X.sig(v, w), L, o.p, ln.p)
            fits = max(v, w) < 256 ** L
            S.expect(r, int(fits), 'result')
            if fits:
                S.expect(int.from_bytes(ln.get(), 'little'), 2 * L, 'length')
                S.expect(o.get(), w.to_bytes(L, 'big') + v.to_bytes(L, 'big'), 'encoding')
                x = f_unpack(o.p, 2 * L)
                if not x:
                    S.fail('does not decode')
                S.expect((X.val(X.get_r(x)), X.val(X.get_s(x))), (v, w), 'decoded numbers')
                X.sigfree(x)
            if not o.ok():
                S.fail('writes outside of the buffer')
        else:
            a, sn, L = algs[rng.randrange(4)]
            if a.endswith('2001DH') and E.nid(sn.encode()) == 0:
                continue
            names = [c for c in X.curves if (X.curves[c].q.bit_length() > 300) == (L == 64)]
            name = rng.choice(names)
            c = X.curves[name]
            d = rng.randrange(1, c.q)
            Q = c.mul(d, c.G)
            dg = S.bytes(L)
            S.case(kind='EVP', alg=a, curve=name, d=hex(d), digest=dg)
            pk = X.pk_new()
            if assign(pk, E.nid(sn.encode()), X.key(X.nid(name), d, Q)) != 1:
                S.fail('the key is not taken')
            b = Buf(dg)
            cx = cnew(pk, None)
            if sinit(cx) != 1:
                S.fail('signing does not start')
            ln = SZ(0)
            if esign(cx, None, ctypes.byref(ln), b.p, L) != 1:
                S.fail('size is not reported')
            S.expect(ln.value, 2 * L, 'size reported')
            o = Buf(S.bytes(2 * L))
            # nonces for which a part of the signature is short
            e = ec.e_of(c, dg)
            q = rng.random()
            for _ in range(0 if q > 0.5 else 2000):
                # s = r*d + k*e is short: choose s and k, the key follows
                k = rng.randrange(1, c.q)
                r0 = c.mul(k, c.G)[0] % c.q
                s0 = rng.randrange(1, 1 << (8 * rng.choice((1, L // 2, L - 1))))
                d2 = (s0 - k * e) * pow(r0, -1, c.q) % c.q
                if not d2:
                    continue
                cfree(cx)
                X.pk_free(pk)
                pk = X.pk_new()
                Q = c.mul(d2, c.G)
                d = d2
                assign(pk, E.nid(sn.encode()), X.key(X.nid(name), d2, Q))
                cx = cnew(pk, None)
                sinit(cx)
                rand.queue = [k]
                S.last.update(d=hex(d2), nonce=hex(k), s=hex(s0))
                break
            ln.value = 2 * L
            if esign(cx, o.p, ctypes.byref(ln), b.p, L) != 1:
                S.fail('signing fails')
            rand.queue = []
            if not o.ok():
                S.fail('writes outside of the buffer')
            S.expect(ln.value, 2 * L, 'length of the signature')
            sg = o.get()
            s1, r1 = int.from_bytes(sg[:L], 'big'), int.from_bytes(sg[L:], 'big')
            if not ec.verify(c, dg, Q, r1, s1):
                S.fail('the encoded signature does not satisfy the equations', sig=sg)
            vinit(cx)

            def offer(sg2, want, what):
                S.last.update(offered=sg2.hex())
                X.err()
                z = Buf(sg2)
                v = ever(cx, z.p, len(sg2), b.p, L)
                if (v == 1) != want:
                    S.fail(what)
            offer(sg, True, 'a valid signature is rejected')
            r1b, s1b = sg[L:], sg[:L]
            if L == 64 and max(r1, s1) >> 504 == 0:
                pass
            for bad in (r1b + s1b if r1b != s1b else None, sg[:-1], sg + b'\0', b'\0' + sg, s1b[::-1] + r1b[::-1], b'\0' + s1b + b'\0' + r1b, s1b[1:] + r1b[1:], b'',
                        bytes(L) + s1b + bytes(L) + r1b, s1b + r1b + S.bytes(2), s1b.lstrip(b'\0') + r1b.lstrip(b'\0'),
                        (b'' if s1b[0] or r1b[0] else s1b[1:] + r1b[1:])):
                if bad is None or bad == sg:
                    continue
                if len(bad) == 2 * L:
                    y, x = int.from_bytes(bad[:L], 'big'), int.from_bytes(bad[L:], 'big')
                    offer(bad, ec.verify(c, dg, Q, x, y), 'verdict for a damaged signature')
                else:
                    offer(bad, False, 'a signature of another length is accepted')
            cfree(cx)
            X.pk_free(pk)
