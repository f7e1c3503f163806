"""The built-in curve parameter sets."""
import ctypes
from dv import model, bnx, direct as dr, terms as tm
from dv.exec import Exec, Ptr, NULL, T, Undecided, State
from dv.ir import probe
from dv.terms import const
from spec import ec

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 20, 120, 60
RULE = 'every parameter set filled in random order (cached and not, aliases mixed), read back through OpenSSL, with the group check of OpenSSL'
ASSUMPTIONS = ['BN_hex2bn reads hexadecimal numbers; EC_GROUP_new_curve_GFp, EC_POINT_set_affine_coordinates, EC_GROUP_set_generator and EC_KEY_set_group as documented (the key gets a copy of the group)',
               'the standard values are those of spec/curves.json (RFC 4357, R 1323565.1.024, RFC 7836)', 'primality is decided by 40-base Miller-Rabin']
SRC = ['gost_ec_sign.c', 'gost_params.c']


def contracts():
    C = bnx.contracts()

    def hex2bn(ex, s, a, i):
        try:
            v = int(dr.cstr(ex, s, a[1], i.line), 16)
            n = len(dr.cstr(ex, s, a[1], i.line))
        except ValueError:
            raise Undecided('not a hexadecimal number')
        f = bnx.fail(s)
        p = dr.ptr_at(s, a[0])
        if p is None:
            p = bnx.new(s)
            s.wval(a[0], p)
        bnx.put(s, p, (bnx.K(v), 'exact'))
        return [(s, const(n, 32)), (f, const(0, 32))]
    C['BN_hex2bn'] = hex2bn

    def num(s, p):
        v = bnx.get(s, p)
        k = v[0].const()
        if k is None:
            raise Undecided('a parameter that is not a number')
        return k

    def curve(ex, s, a, i):
        f = bnx.fail(s)
        g = dr.opaque(s, 'grp')
        s.data['grp.' + g.obj] = {'p': num(s, a[0]), 'a': num(s, a[1]), 'b': num(s, a[2])}
        return [(s, g), (f, NULL)]
    C['EC_GROUP_new_curve_GFp'] = C['EC_GROUP_new_curve'] = curve

    def alive(ex, s, p, i):
        if s.mem[p.obj].freed:
            ex.res.fail('mem:a released group is used', 'line %d' % i.line)
        return 'grp.' + p.obj

    def setaff(ex, s, a, i):
        f = bnx.fail(s)
        k = alive(ex, s, a[0], i)
        s.data['aff.' + a[1].obj] = (a[0].obj, num(s, a[2]), num(s, a[3]))
        return [(s, const(1, 32)), (f, const(0, 32))]
    C['EC_POINT_set_affine_coordinates'] = C['EC_POINT_set_affine_coordinates_GFp'] = setaff

    def gen(ex, s, a, i):
        f = bnx.fail(s)
        k = alive(ex, s, a[0], i)
        pt = s.data.get('aff.' + a[1].obj)
        if pt is None:
            raise Undecided('base point')
        s.data[k] = dict(s.data[k], x=pt[1], y=pt[2], q=num(s, a[2]), h=num(s, a[3]) if isinstance(a[3], Ptr) else None)
        return [(s, const(1, 32)), (f, const(0, 32))]
    C['EC_GROUP_set_generator'] = gen

    def name(ex, s, a, i):
        k = alive(ex, s, a[0], i)
        if a[1].op != 'c':
            raise Undecided('curve name')
        s.data[k] = dict(s.data[k], name=a[1].a)
    C['EC_GROUP_set_curve_name'] = name

    def setgroup(ex, s, a, i):
        f = bnx.fail(s)
        k = alive(ex, s, a[1], i)
        s.data['keygroup'] = s.data[k]
        return [(s, const(1, 32)), (f, const(0, 32))]
    C['EC_KEY_set_group'] = setgroup

    def gfree(ex, s, a, i):
        if isinstance(a[0], Ptr):
            alive(ex, s, a[0], i)
            s.w(a[0].obj).freed = True
    C['EC_GROUP_free'] = gfree
    C['EC_GROUP_dup'] = lambda ex, s, a, i: dup(s, a[0])

    def dup(s, g):
        f = bnx.fail(s)
        n = dr.opaque(s, 'grp')
        s.data['grp.' + n.obj] = s.data['grp.' + g.obj]
        return [(s, n), (f, NULL)]
    return C


def valid(c):
    """the number theory of a parameter set"""
    G = (c.x, c.y)
    yield 'the field is prime', ec.prime(c.p) and c.p > 3
    yield 'the order is prime', ec.prime(c.q)
    yield 'the curve is not singular', (4 * c.a ** 3 + 27 * c.b ** 2) % c.p != 0
    yield 'the base point is on the curve', c.on(G) and 0 <= c.x < c.p and 0 <= c.y < c.p
    yield 'the base point has the order', c.mul(c.q, G) is None
    # |#E - (p + 1)| <= 2 sqrt(p): only one multiple of q fits, and it is h*q
    t = c.p + 1 - c.h * c.q
    yield 'the cofactor is right', t * t <= 4 * c.p and (c.q - 4) ** 2 > 16 * c.p
    yield 'not anomalous, large embedding degree', c.q != c.p and all(pow(c.p, k, c.q) != 1 for k in range(1, 32))


def nids(R):
    names = {n: 'NID_' + n for n in ec.RAW}
    v = probe(['openssl/objects.h'], list(names.values()), workdir=R.tmp)
    return {n: v[k] for n, k in names.items()}


def prove(R):
    p = model.prog(SRC, R.tmp)
    N = nids(R)
    C = contracts()
    R.contracts['BN_hex2bn, EC_GROUP_*, EC_POINT_set_affine_coordinates, EC_KEY_set_group'] = 'assumed (OpenSSL)'
    curves = {n: ec.Curve(n) for n in ec.RAW}

    def start():
        ex = Exec(p, contracts=C, externs=dict(model.BASE))
        ex.externs['OPENSSL_die'] = C['OPENSSL_die']
        st = State()
        return ex, st, dr.opaque(st, 'eckey')

    def check(R, nm, n, s, r):
        """state after fill_GOST_EC_params for curve n"""
        c = curves[n]
        if s.data.get('failed'):
            R.cond('%s: a failure is reported' % nm, tm.eq(r, const(0, 32)), s.pc)
            return False
        R.cond('%s: success' % nm, tm.not_(tm.eq(r, const(0, 32))), s.pc)
        g = s.data.get('keygroup') or {}
        for k in ('p', 'a', 'b', 'x', 'y', 'q', 'h'):
            R.truth('%s: %s is the standard\'s' % (nm, k), g.get(k) == getattr(c, k))
        R.truth('%s: the key knows its parameter set' % nm, g.get('name') == N[n])
        return True

    def again(s):
        s.data.pop('failed', None)
        s.data.pop('keygroup', None)
        return s

    def one(n):
        def f(R):
            same = [m for m in curves if m == n or ec.RAW[m].get('alias') == n or ec.RAW[n].get('alias') == m or
                    (ec.RAW[n].get('alias') and ec.RAW[n].get('alias') == ec.RAW[m].get('alias'))]
            other = next(m for m in curves if m not in same)
            ex, st, key = start()
            good = 0
            for kind, s, r in model.runall(ex, st, 'fill_GOST_EC_params', [key, const(N[n], 32)]):
                if kind != 'ret':
                    continue
                ok = check(R, n, n, s, r)
                good += ok
                for m in same + ([other] if ok else []):
                    for kind, s2, r2 in model.runall(ex, again(s.fork()), 'fill_GOST_EC_params', [key, const(N[m], 32)]):
                        if kind == 'ret':
                            check(R, '%s after %s%s' % (m, 'a failure of ' if not ok else '', n), m, s2, r2)
                if not ok:
                    continue
                for kind, s2, r2 in model.runall(ex, s.fork(), 'free_cached_groups', []):
                    if kind != 'ret':
                        continue
                    for kind, s3, r3 in model.runall(ex, again(s2), 'fill_GOST_EC_params', [key, const(N[n], 32)]):
                        if kind == 'ret':
                            check(R, '%s after the groups are released' % n, n, s3, r3)
            R.truth('%s is built in' % n, good > 0)
            R.absorb(ex, n)
        return (n, f)

    def rest(R):
        ex, st, key = start()
        for nid in (0, 1, 4, 5, 815, 850, 1 << 20, 0xffffffff):
            if nid in N.values():
                continue
            for kind, s, r in model.runall(ex, st.fork(), 'fill_GOST_EC_params', [key, const(nid, 32)]):
                if kind == 'ret':
                    R.cond('identifier %d: no parameters' % nid, tm.eq(r, const(0, 32)), s.pc)
                    R.truth('identifier %d: no group' % nid, 'keygroup' not in s.data)
        # any identifier that is not in the tables
        nid = tm.var('nid', 32)
        for v in N.values():
            st.assume(tm.not_(tm.eq(nid, const(v, 32))))
        for kind, s, r in model.runall(ex, st, 'fill_GOST_EC_params', [key, nid]):
            if kind == 'ret':
                R.cond('other identifiers: no parameters', tm.eq(r, const(0, 32)), s.pc)
        R.absorb(ex, 'other identifiers')
        for n, c in curves.items():
            for what, v in valid(c):
                R.truth('%s: %s' % (n, what), bool(v))
            a = ec.RAW[n].get('alias')
            if a:
                d = curves[a]
                R.truth('%s is %s' % (n, a), (c.p, c.a, c.b, c.q, c.x, c.y, c.h) == (d.p, d.a, d.b, d.q, d.x, d.y, d.h))
    R.parallel([one(n) for n in curves] + [('rest', rest)])


def search(S):
    from dv import ecx
    X = ecx.EC(S.lib)
    rng = S.rng
    P, I = ecx.P, ecx.I
    cf = S.lib.cf
    getcurve = cf('EC_GROUP_get_curve', I, P, P, P, P, P)
    gen = cf('EC_GROUP_get0_generator', P, P)
    order, cof = cf('EC_GROUP_get0_order', P, P), cf('EC_GROUP_get0_cofactor', P, P)
    name = cf('EC_GROUP_get_curve_name', I, P)
    gcheck = cf('EC_GROUP_check', I, P, P)
    clear = S.lib.fn('free_cached_groups', None)
    pmul = S.lib.fn('gost_ec_point_mul', I, P, P, P, P, P, P) if S.lib.has('gost_ec_point_mul') else None
    names = list(X.curves)
    first = True
    checked = set()
    while S.more():
        todo = [n for n in names]
        rng.shuffle(todo)
        for n in todo:
            if not first and not S.more():
                break
            S.case(kind='parameters', curve=n)
            k = X.key(X.nid(n))
            if k is None:
                S.fail('no such parameter set')
            g = X.get0_group(k)
            b = [X.bn(0) for _ in range(3)]
            getcurve(g, b[0], b[1], b[2], X.ctx)
            c = X.curves[n]
            for w, what in zip(b, ('p', 'a', 'b')):
                S.expect(X.val(w), getattr(c, what), what)
                X.bnfree(w)
            S.expect(X.coords(g, gen(g)), c.G, 'base point')
            S.expect(X.val(order(g)), c.q, 'order')
            S.expect(X.val(cof(g)), c.h, 'cofactor')
            S.expect(name(g), X.nid(n), 'identifier')
            if n not in checked:
                checked.add(n)
                X.err()
                if gcheck(g, X.ctx) != 1:
                    S.fail('OpenSSL finds the group invalid')
                for what, v in valid(c):
                    if not v:
                        S.fail(what + ': not so')
            X.key_free(k)
        first = False
        if rng.random() < 0.5:
            clear()
        S.case(kind='unknown identifier', nid=rng.randrange(2000))
        if S.last['nid'] not in {X.nid(n) for n in names}:
            k = X.key(S.last['nid'])
            X.err()
            if k is not None:
                S.fail('parameters for an unknown identifier')
