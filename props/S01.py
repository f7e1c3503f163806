"""GOST R 34.10 signature equations."""
import ctypes
from dv import model, bnx, direct as dr, terms as tm
from dv.bnx import A, K, modq
from dv.exec import Exec, Ptr, NULL, T, Undecided
from dv.ir import probe
from dv.terms import const

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 40, 400, 150
RULE = 'random keys on every built-in curve; signatures made by the engine checked with an independent implementation, valid and damaged signatures offered to the engine'
ASSUMPTIONS = ['BN_*, EC_* and ECDSA_SIG_* of OpenSSL follow their documentation (ghost contracts of dv/bnx.py)',
               'gost_ec_point_mul computes n*G + m*Q (property S07) or fails', 'the order of the group is prime and annihilates every point of it (property S03)',
               'digests are 32 or 64 bytes long (the engine aborts on any other length)']
SRC = ['gost_ec_sign.c']


def state(p, R, n):
    C = bnx.contracts()
    ex = Exec(p, contracts=C, externs=dict(model.BASE))
    ex.externs['OPENSSL_die'] = C['OPENSSL_die']
    from dv.exec import State
    st = State()
    g = dr.opaque(st, 'group')
    pub = dr.opaque(st, 'pub')
    st.data['pt.' + pub.obj] = (('Q', K(1)),)
    st.mem[pub.obj].meta = {'borrowed': True}
    priv = bnx.new(st, (A('d'), 'exact'), borrowed=True)
    st.data['key'] = {'group': g, 'priv': priv, 'pub': pub}
    ec = dr.opaque(st, 'eckey')
    if n:
        d = model.sym(st, 'dgst', n)
        st.data['names'] = {('le', tuple(model.symbytes('dgst', n))): 'md'}
    return ex, st, ec, (d if n else None)


def digest(s):
    """the digest value of the equations on this path, or None if zero was not told apart"""
    e = (A('md'), 'red')
    for f in bnx.facts(s):
        if f[0] == 'zero' and f[1] == e:
            return K(1)
        if f[0] == 'nonzero' and f[1] == e:
            return A('md')
    return None


def sign(p, n):
    def f(R):
        ex, st, ec, d = state(p, R, n)
        nm = 'gost_ec_sign(%d)' % n
        good = 0
        for kind, s, r in model.runall(ex, st, 'gost_ec_sign', [d, const(n, 32), ec]):
            if kind != 'ret':
                continue
            if s.data.get('failed'):
                R.truth('%s: a failure of the arithmetic fails the signature' % nm, dr.isnull(r))
                continue
            if dr.isnull(r):
                R.truth('%s: signing succeeds' % nm, False)
                continue
            good += 1
            a, b = s.data['sig.' + r.obj]
            if a is None:
                R.truth('%s: the signature has both parts' % nm, False)
                continue
            a, b = bnx.get(s, a), bnx.get(s, b)
            e = digest(s)
            R.truth('%s: a zero digest is told apart' % nm, e is not None)
            rr = A(bnx.coord('x', (('G', A('k')),)))
            R.truth('%s: r = x(kG) mod q' % nm, a == (rr, 'red'))
            if e is not None:
                R.truth('%s: s = rd + ke mod q' % nm, b == (modq(rr * A('d') + A('k') * e), 'red'))
            fs = bnx.facts(s)
            R.truth('%s: r and s are not zero' % nm, ('nonzero', a) in fs and ('nonzero', b) in fs)
            R.truth('%s: the nonce is drawn for this signature' % nm, ('drawn', 'k') in fs)
        R.truth('%s: signatures are made' % nm, good > 0)
        R.absorb(ex, nm)
    return [('sign%d' % n, f)]


ORDER = (A('q'), 'exact')


def verify(p, n):
    def f(R):
        ex, st, ec, d = state(p, R, n)
        nm = 'gost_ec_verify(%d)' % n
        sig = dr.opaque(st, 'sig')
        r, s_ = (A('r'), 'exact'), (A('s'), 'exact')
        st.data['sig.' + sig.obj] = (bnx.new(st, r, borrowed=True), bnx.new(st, s_, borrowed=True))
        yes = no = 0
        for kind, s, v in model.runall(ex, st, 'gost_ec_verify', [d, const(n, 32), sig, ec]):
            if kind != 'ret':
                continue
            if v.op != 'c':
                R.truth('%s: the result is definite' % nm, False)
                continue
            fs = bnx.facts(s)
            e = digest(s)
            x = None
            if e is not None:
                z1, z2 = modq(A('s') * bnx.inv(e)), modq(-A('r') * bnx.inv(e))
                x = (A(bnx.coord('x', bnx.norm({'G': z1, 'Q': z2}))), 'red')
            ok = [any(f[0] == 'nonzero' and f[1] == y for f in fs) for y in (r, s_)]
            ok += [any(f[0] == 'nonneg' and f[1] == y for f in fs) for y in (r, s_)]
            ok += [any(f[0] in ('ult', 'lt') and f[1:] == (y, ORDER) or f[0] in ('ugt', 'gt') and f[1:] == (ORDER, y) for f in fs) for y in (r, s_)]
            eqs = [f for f in fs if f[0] in ('eq', 'ueq') and x is not None and set(f[1:]) == {x, r}]
            if v.a != 0:
                yes += 1
                R.truth('%s: nothing is accepted after a failure' % nm, not s.data.get('failed'))
                R.truth('%s: success is 1' % nm, v.a == 1)
                for t, w in zip(ok, ('r is not zero', 's is not zero', 'r is not negative', 's is not negative', 'r < q', 's < q')):
                    R.truth('%s: accepted only if %s' % (nm, w), t)
                R.truth('%s: a zero digest is told apart' % nm, e is not None)
                R.truth('%s: accepted only if x(s/e G - r/e Q) mod q = r' % nm, bool(eqs))
            elif not s.data.get('failed'):
                no += 1
                bad = any(f[0] in ('zero', 'neg') and f[1] in (r, s_) for f in fs) or \
                    any(f[0] in ('ugt', 'ueq', 'gt', 'eq') and f[1] in (r, s_) and f[2] == ORDER for f in fs) or \
                    any(f[0] in ('ult', 'ueq', 'lt', 'eq') and f[1] == ORDER and f[2] in (r, s_) for f in fs) or \
                    any(f[0] in ('lt', 'gt', 'ult', 'ugt') and x is not None and set(f[1:]) == {x, r} for f in fs)
                R.truth('%s: refused only for a reason of the standard' % nm, bad)
        R.truth('%s: both outcomes exist' % nm, yes > 0 and no > 0)
        R.absorb(ex, nm)
    return [('verify%d' % n, f)]


def lemma():
    """what is signed verifies: s/e G - r/e dG = kG"""
    def f(R):
        for e in (K(1), A('md')):
            r, d, k = A('r'), A('d'), A('k')
            s = modq(r * d + k * e)
            z1, z2 = modq(s * bnx.inv(e)), modq(-r * bnx.inv(e))
            R.truth('lemma: signatures that are made are accepted', modq(z1 + z2 * d) == k)
    return [('lemma', f)]


def keys(p):
    def f(R):
        for fn in ('gost_ec_compute_public', 'gost_ec_keygen'):
            ex, st, ec, d = state(p, R, 0)
            good = 0
            was = st.data['key']
            for kind, s, v in model.runall(ex, st, fn, [ec]):
                if kind != 'ret':
                    continue
                key = s.data['key']
                if s.data.get('failed'):
                    R.truth('%s: a failure is reported' % fn, v is dr.ZERO or v.op == 'c' and v.a == 0)
                    continue
                if v.op != 'c' or v.a == 0:
                    R.truth('%s: success is reported' % fn, False)
                    continue
                good += 1
                dd = bnx.get(s, key['priv'])
                R.truth('%s: the public key is dG' % fn, s.data['pt.' + key['pub'].obj] == bnx.norm({'G': modq(dd[0])}))
                if fn.endswith('keygen'):
                    R.truth('%s: the private key is drawn from 1..q-1' % fn, dd == (A('k'), 'red') and ('nonzero', dd) in bnx.facts(s))
                else:
                    R.truth('%s: the private key stays' % fn, key['priv'] == was['priv'])
            R.truth('%s: keys are made' % fn, good > 0)
            R.absorb(ex, fn)
    return [('keys', f)]


def prove(R):
    p = model.prog(SRC, R.tmp)
    R.contracts['BN_*, EC_*, ECDSA_SIG_*'] = 'assumed (OpenSSL)'
    R.contracts['gost_ec_point_mul'] = 'assumed here, see S07'
    T = []
    for n in (32, 64):
        T += sign(p, n) + verify(p, n)
    R.parallel(T + keys(p) + lemma())


def rnd_digest(S, c, n):
    rng = S.rng
    r = rng.random()
    if r < 0.6:
        return S.bytes(n)
    if r < 0.75:
        v = c.q * rng.randrange(0, min(4, (256 ** n - 1) // c.q + 1))
    elif r < 0.85:
        v = (c.q * rng.randrange(0, 3) + rng.choice((-1, 1))) % 256 ** n
    elif r < 0.92:
        v = 256 ** n - 1
    else:
        v = rng.randrange(0, 3)
    return (v % 256 ** n).to_bytes(n, 'little')


def search(S):
    from dv import ecx
    from dv.real import Buf
    from spec import ec
    X = ecx.EC(S.lib)
    rng = S.rng
    P, I = ecx.P, ecx.I
    f_sign = S.lib.fn('gost_ec_sign', P, P, I, P)
    f_ver = S.lib.fn('gost_ec_verify', I, P, I, P, P)
    f_pub = S.lib.fn('gost_ec_compute_public', I, P)
    f_gen = S.lib.fn('gost_ec_keygen', I, P)
    names = list(X.curves)
    n = 0
    rand = ecx.Rand(S.lib, rng)
    while S.more():
        name = names[n % len(names)]
        n += 1
        c = X.curves[name]
        r = rng.random()
        d = rng.randrange(1, c.q) if r < 0.8 else rng.choice((1, 2, c.q - 1, c.q - 2))
        if rng.random() < 0.2:
            S.case(kind='key generation', curve=name)
            k = X.key(X.nid(name))
            rand.queue = [0] if rng.random() < 0.4 else []
            if f_gen(k) != 1:
                S.fail('key generation fails')
            d = X.val(X.get0_priv(k))
            if not 0 < d < c.q:
                S.fail('generated private key is out of range', d=hex(d))
        else:
            S.case(kind='public key', curve=name, d=hex(d))
            k = X.key(X.nid(name), d)
            if k is None:
                S.fail('no such curve')
            if f_pub(k) != 1:
                S.fail('the public key cannot be computed')
        g = X.get0_group(k)
        Q = X.coords(g, X.get0_pub(k))
        S.last['d'] = hex(d)
        S.expect(Q, c.mul(d, c.G), 'wrong public key')
        for _ in range(3):
            m = rng.choice((32, 64))
            dg = rnd_digest(S, c, m)
            S.case(kind='sign and verify', curve=name, d=hex(d), digest=dg)
            b = Buf(dg)
            t = rng.random()
            e = ec.e_of(c, dg)
            k2, Q2 = k, Q
            if t < 0.3:
                # the first nonce gives s = 0
                k0 = rng.randrange(1, c.q)
                r0 = c.mul(k0, c.G)[0] % c.q
                d2 = -k0 * e * pow(r0, -1, c.q) % c.q
                Q2 = c.mul(d2, c.G)
                k2 = X.key(X.nid(name), d2, Q2)
                rand.queue = [k0]
                S.last.update(d=hex(d2), first_nonce=hex(k0))
            elif t < 0.5:
                rand.queue = [rng.choice((1, c.q - 1, 2))]
                S.last.update(first_nonce=hex(rand.queue[0]))
            x = f_sign(b.p, m, k2)
            rand.queue = []
            if not x:
                S.fail('signing fails')
            rr, ss = X.val(X.get_r(x)), X.val(X.get_s(x))
            S.last.update(r=hex(rr), s=hex(ss))
            if not ec.verify(c, dg, Q2, rr, ss):
                S.fail('the signature does not satisfy the equations')
            if f_ver(b.p, m, x, k2) != 1:
                S.fail('the signature made is not accepted')
            X.sigfree(x)
            if k2 != k:
                X.key_free(k2)
                continue
            # signatures that are offered
            for _ in range(3):
                t = rng.random()
                r2, s2, dg2 = rr, ss, dg
                if t < 0.1:
                    r2, s2 = ec.sign(c, dg, d, rng.randrange(1, c.q))
                elif t < 0.2:
                    r2 = rng.choice((rr + c.q, rr - c.q, -rr, c.q - rr))
                elif t < 0.3:
                    s2 = rng.choice((ss + c.q, ss - c.q, -ss, c.q - ss))
                elif t < 0.4:
                    r2 = rng.choice((0, c.q, 2 * c.q, 1, c.q - 1))
                elif t < 0.5:
                    s2 = rng.choice((0, c.q, 2 * c.q, 1, c.q - 1))
                elif t < 0.55:
                    r2, s2 = rng.choice((0, c.q)), rng.choice((0, c.q))
                elif t < 0.6:
                    r2, s2 = ss, rr
                elif t < 0.7:
                    r2 ^= 1 << rng.randrange(8 * c.n)
                elif t < 0.8:
                    s2 ^= 1 << rng.randrange(8 * c.n)
                elif t < 0.9:
                    dg2 = bytearray(dg)
                    dg2[rng.randrange(m)] ^= 1 << rng.randrange(8)
                    dg2 = bytes(dg2)
                elif t < 0.95 and m == c.n:
                    # the equation holds with s = 0
                    u = rng.randrange(1, c.q)
                    r2 = c.mul(u * d, c.G)[0] % c.q
                    dg2 = (-r2 * pow(u, -1, c.q) % c.q).to_bytes(m, 'little')
                    s2 = rng.choice((0, c.q, -c.q, 2 * c.q))
                else:
                    # the sum is the point at infinity
                    e = ec.e_of(c, dg)
                    u = rng.randrange(1, c.q)
                    r2 = u
                    s2 = u * d % c.q
                want = ec.verify(c, dg2, Q, r2, s2)
                S.case(kind='verify', curve=name, d=hex(d), digest=dg2, r=hex(r2), s=hex(s2))
                x = X.sig(r2, s2)
                b2 = Buf(dg2)
                got = f_ver(b2.p, m, x, k)
                X.err()
                X.sigfree(x)
                if (got == 1) != want or got not in (0, 1):
                    S.fail('a %s signature is %s' % (('valid', 'refused') if want else ('wrong', 'accepted')), result=got)
        X.key_free(k)
