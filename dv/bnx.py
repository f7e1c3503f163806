"""Ghost contracts of OpenSSL's big numbers, curve points and signatures.

A big number is an opaque object with a value (poly, kind) in s.data['bn.<object>']: an integer
polynomial over named atoms; kind 'exact' (the integer itself), 'red' (the residue modulo the group
order q, in [0, q)) or 'cong' (some integer with that residue).  A point is a linear combination of
the base point 'G' and named points with coefficients modulo q.  Comparisons fork and leave facts in
s.data['facts']; a failing call leaves s.data['failed']."""
from . import terms as tm
from . import model, direct as dr
from .terms import const
from .exec import Ptr, NULL, T, Undecided

ONE, ZERO, NEG = const(1, 32), const(0, 32), const(0xffffffff, 32)


class P:
    """integer polynomial over atoms (hashable)"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = frozenset((m, c) for m, c in dict(t).items() if c)

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __hash__(self):
        return hash(self.t)

    def __add__(self, o):
        d = dict(self.t)
        for m, c in o.t:
            d[m] = d.get(m, 0) + c
        return P(d)

    def __neg__(self):
        return P({m: -c for m, c in self.t})

    def __sub__(self, o):
        return self + -o

    def __mul__(self, o):
        d = {}
        for m, c in self.t:
            for n, e in o.t:
                k = cancel(m + n)
                d[k] = d.get(k, 0) + c * e
        return P(d)

    def const(self):
        if not self.t:
            return 0
        if len(self.t) == 1:
            (m, c), = self.t
            if m == ():
                return c
        return None

    def atom(self):
        if len(self.t) == 1:
            (m, c), = self.t
            if len(m) == 1 and c == 1:
                return m[0]
        return None

    def sub(self, name, v):
        r = P({})
        for m, c in self.t:
            x = P({tuple(a for a in m if a != name): c})
            for a in m:
                if a == name:
                    x = x * v
            r = r + x
        return r

    def __repr__(self):
        if not self.t:
            return '0'
        return ' + '.join(('%d' % c if not m else ('' if c == 1 else '%d*' % c) + '*'.join(m)) for m, c in sorted(self.t, key=repr))


def cancel(m):
    m = list(m)
    for a in list(m):
        b = 'inv(%s)' % a
        if a in m and b in m:
            m.remove(a)
            m.remove(b)
    return tuple(sorted(m))


def A(name):
    return P({(name,): 1})


def K(n):
    return P({(): n})


def modq(p):
    return p.sub('q', K(0))


def inv(p):
    c = modq(p)
    if c.const() == 1:
        return c
    a = c.atom()
    if a is not None:
        return A(a[4:-1]) if a.startswith('inv(') and a[4:-1].isidentifier() else A('inv(%s)' % a)
    return A('inv(%r)' % c)


# ---------------------------------------------------------------- state
def new(s, val=None, name='bn', **meta):
    p = dr.opaque(s, name)
    s.data['bn.' + p.obj] = val or (K(0), 'exact')
    s.mem[p.obj].meta = dict(meta)
    return p


def get(s, p):
    if not isinstance(p, Ptr):
        raise Undecided('a null number is used')
    if s.mem[p.obj].freed:
        raise Undecided('a released number is used')
    v = s.data.get('bn.' + p.obj)
    if v is None:
        raise Undecided('not a number: %r' % (p,))
    return v


def put(s, p, v):
    get(s, p)
    s.data['bn.' + p.obj] = v


def fact(s, *f):
    s.data['facts'] = s.data.get('facts', ()) + (f,)


def facts(s):
    return s.data.get('facts', ())


def fail(s):
    f = s.fork()
    f.data['failed'] = True
    return f


def residue(v):
    return modq(v[0])


def exactable(v):
    """the integer is known"""
    return v[1] == 'exact'


# ---------------------------------------------------------------- contracts
def contracts(q='q'):
    C = {}

    def alloc(kind, first=None):
        def h(ex, s, a, i):
            f = fail(s)
            return [(s, (first or new)(s) if not isinstance(first, str) else dr.opaque(s, kind)), (f, NULL)]
        return h
    C['BN_CTX_new'] = C['BN_CTX_secure_new'] = alloc('bnctx', 'x')
    C['BN_CTX_start'] = model.nop

    def ctxend(ex, s, a, i):
        s.data.pop('noget', None)
    C['BN_CTX_end'] = ctxend

    def ctxget(ex, s, a, i):
        # documented: after a failure all calls fail until BN_CTX_end
        if s.data.get('noget'):
            return NULL
        f = fail(s)
        f.data['noget'] = True
        return [(s, new(s, ctx=True)), (f, NULL)]
    C['BN_CTX_get'] = ctxget
    C['BN_new'] = C['BN_secure_new'] = alloc('bn')

    def free(what):
        def h(ex, s, a, i):
            p = a[0]
            if isinstance(p, Ptr):
                o = s.mem[p.obj]
                if o.freed or (o.meta or {}).get('ctx') or (o.meta or {}).get('borrowed'):
                    ex.res.fail('mem:%s is released once and only by its owner' % what, 'line %d: %s' % (i.line, p.obj))
                s.w(p.obj).freed = True
        return h
    for n, w in (('BN_free', 'a number'), ('BN_clear_free', 'a number'), ('BN_CTX_free', 'a context'), ('EC_POINT_free', 'a point'), ('EC_POINT_clear_free', 'a point'), ('ECDSA_SIG_free', 'a signature')):
        C[n] = free(w)

    def out(ex, s, p, v, ret=None):
        """store a result; the call may fail"""
        f = fail(s)
        put(s, p, v)
        return [(s, ret if ret is not None else ONE), (f, ZERO if ret is None else NULL)]

    def isorder(s, p):
        v = get(s, p)
        if v != (A('q'), 'exact'):
            raise Undecided('arithmetic with another modulus: %r' % (v,))

    def div(ex, s, a, i):
        if isinstance(a[0], Ptr):
            raise Undecided('quotient')
        isorder(s, a[3])
        v = get(s, a[2])
        # the remainder of a number known not to be negative is the residue
        return out(ex, s, a[1], (residue(v), 'red' if nonneg(s, v) else 'cong'))
    C['BN_div'] = div

    def nnmod(ex, s, a, i):
        isorder(s, a[2])
        return out(ex, s, a[0], (residue(get(s, a[1])), 'red'))
    C['BN_nnmod'] = nnmod

    def mod2(op):
        def h(ex, s, a, i):
            isorder(s, a[3])
            return out(ex, s, a[0], (modq(op(get(s, a[1])[0], get(s, a[2])[0])), 'red'))
        return h
    C['BN_mod_mul'] = mod2(lambda x, y: x * y)
    C['BN_mod_add'] = mod2(lambda x, y: x + y)
    C['BN_mod_sub'] = mod2(lambda x, y: x - y)

    def plain(op, nn):
        def h(ex, s, a, i):
            x, y = get(s, a[1]), get(s, a[2])
            k = 'exact' if exactable(x) and exactable(y) else 'cong'
            return out(ex, s, a[0], (op(x[0], y[0]), k))
        return h
    C['BN_add'] = plain(lambda x, y: x + y, True)
    C['BN_sub'] = plain(lambda x, y: x - y, False)
    C['BN_mul'] = plain(lambda x, y: x * y, True)

    def minv(ex, s, a, i):
        isorder(s, a[2])
        f = fail(s)
        v = (inv(get(s, a[1])[0]), 'red')
        # zero has no inverse: that cannot be ruled out here unless it was tested
        p = a[0] if isinstance(a[0], Ptr) else new(s)
        put(s, p, v)
        fact(s, 'inverse of', residue(get(f, a[1])))
        return [(s, p), (f, NULL)]
    C['BN_mod_inverse'] = minv

    def setword(ex, s, a, i):
        if a[1].op != 'c':
            raise Undecided('symbolic word')
        return out(ex, s, a[0], (K(a[1].a), 'exact'))
    C['BN_set_word'] = setword
    C['BN_zero_ex'] = lambda ex, s, a, i: put(s, a[0], (K(0), 'exact'))
    C['BN_dup'] = lambda ex, s, a, i: [(s, new(s, get(s, a[0]))), (fail(s), NULL)]
    C['BN_copy'] = lambda ex, s, a, i: out(ex, s, a[0], get(s, a[1]), a[0])

    def value_one(ex, s, a, i):
        return new(s, (K(1), 'exact'), borrowed=True)
    C['BN_value_one'] = value_one

    def known_zero(s, v):
        if v[0].const() is not None and v[1] in ('exact', 'red'):
            return v[0].const() == 0
        for f in facts(s):
            if f[0] in ('zero', 'nonzero') and f[1] == v:
                return f[0] == 'zero'
        return None

    def iszero(ex, s, a, i):
        v = get(s, a[0])
        k = known_zero(s, v)
        if k is not None:
            return const(int(k), 32)
        f = s.fork()
        fact(s, 'nonzero', v)
        fact(f, 'zero', v)
        return [(s, ZERO), (f, ONE)]
    C['BN_is_zero'] = iszero

    def isneg(ex, s, a, i):
        v = get(s, a[0])
        if nonneg(s, v):
            return ZERO
        f = s.fork()
        fact(s, 'nonneg', v)
        fact(f, 'neg', v)
        return [(s, ZERO), (f, ONE)]
    C['BN_is_negative'] = isneg

    def cmp_(unsigned):
        def h(ex, s, a, i):
            x, y = get(s, a[0]), get(s, a[1])
            if x == y and x[1] != 'cong':
                return ZERO
            if x[0].const() is not None and y[0].const() is not None and x[1] == y[1] == 'exact':
                d = x[0].const() - y[0].const()
                return const((d > 0) - (d < 0), 32)
            r = []
            w = 'u' if unsigned else ''
            # zero against a tested number
            for k, n in (('lt', NEG), ('eq', ZERO), ('gt', ONE)):
                f = s.fork()
                fact(f, w + k, x, y)
                r.append((f, n))
            return r
        return h
    C['BN_cmp'] = cmp_(False)
    C['BN_ucmp'] = cmp_(True)

    def bytes_in(order):
        def h(ex, s, a, i):
            n = a[1]
            if n.op != 'c':
                ex.reconc(s, n)
                raise Undecided('length')
            bs = ex.read_bytes(s, a[0], n.a, i.line)
            f = fail(s)
            nm = s.data.get('names', {}).get((order, tuple(bs)))
            nm = nm or '%s:%s' % (order, ','.join(str(tm.canon(b)) if hasattr(tm, 'canon') else repr(b) for b in bs))
            p = a[2] if isinstance(a[2], Ptr) else new(s)
            put(s, p, (A(nm), 'exact'))
            return [(s, p), (f, NULL)]
        return h
    C['BN_lebin2bn'] = bytes_in('le')
    C['BN_bin2bn'] = bytes_in('be')
    C['BN_clear'] = lambda ex, s, a, i: put(s, a[0], (K(0), 'exact'))
    C['BN_set_flags'] = model.nop

    # ------------------------------------------------ randomness
    def rnd(ex, s, a, i):
        isorder(s, a[1])
        n = s.data.get('draws', 0) + 1
        s.data['draws'] = n
        f = fail(s)
        if n > 1:
            # only the latest draw is live: what was computed from earlier ones is arbitrary
            base = s.data['atdraw']
            for k in list(s.data):
                if k.startswith('bn.') and s.data[k] != base.get(k):
                    if k in base and base[k] != (K(0), 'exact'):
                        raise Undecided('a number from before the loop is changed in it')
                    s.data[k] = (A('stale'), 'cong')
                if k.startswith('pt.') and s.data[k] != base.get(k):
                    s.data[k] = (('stale', K(1)),)
            s.data['facts'] = base['facts']
            key = (i.line, s.frames[-1].fn.name, tuple(sorted((k, repr(v)) for k, v in s.data.items() if k.startswith(('bn.', 'pt.')))), tuple(repr(r) for r in s.frames[-1].regs if isinstance(r, Ptr) or r is NULL))
            seen = s.data['seen']
            if key in seen:
                s.data['subsumed'] = True
                f.data['subsumed'] = True
                from .exec import PathEnd
                raise PathEnd()
            seen.add(key)
        else:
            s.data['atdraw'] = dict(s.data, facts=facts(s))
            s.data['seen'] = f.data['seen'] = set()
        f.data = dict(s.data, failed=True)
        put(s, a[0], (A('k'), 'red'))
        fact(s, 'drawn', 'k')
        return [(s, ONE), (f, ZERO)]
    for n in ('BN_rand_range', 'BN_priv_rand_range', 'BN_priv_rand_range_ex', 'BN_rand_range_ex'):
        C[n] = rnd

    # ------------------------------------------------ groups, points
    def order(ex, s, a, i):
        return out(ex, s, a[1], (A('q'), 'exact'))
    C['EC_GROUP_get_order'] = order

    def get0_order(ex, s, a, i):
        if 'order' not in s.data:
            s.data['order'] = new(s, (A('q'), 'exact'), borrowed=True)
        return s.data['order']
    C['EC_GROUP_get0_order'] = get0_order

    def cofactor(ex, s, a, i):
        return out(ex, s, a[1], (A('h'), 'exact'))
    C['EC_GROUP_get_cofactor'] = cofactor

    def pnew(ex, s, a, i):
        f = fail(s)
        p = dr.opaque(s, 'pt')
        s.data['pt.' + p.obj] = ()
        s.mem[p.obj].meta = {}
        return [(s, p), (f, NULL)]
    C['EC_POINT_new'] = pnew

    def mul(ex, s, a, i, cof=True):
        group, r, n, qq, m, ctx = a[:6]
        if not isinstance(r, Ptr):
            raise Undecided('point')
        f = fail(s)
        d = {}
        if isinstance(n, Ptr):
            d['G'] = modq(get(s, n)[0])
        if isinstance(m, Ptr):
            if not isinstance(qq, Ptr):
                return [(f, ZERO)]
            # a point alone: the cofactor is cleared on the way
            z = A('h') if not isinstance(n, Ptr) and cof else K(1)
            for b, c in s.data['pt.' + qq.obj]:
                d[b] = d.get(b, P({})) + modq(z * get(s, m)[0] * c)
        if not d:
            return [(f, ZERO)]
        s.data['pt.' + r.obj] = norm(d)
        return [(s, ONE), (f, ZERO)]
    C['gost_ec_point_mul'] = mul
    C['EC_POINT_mul'] = lambda ex, s, a, i: mul(ex, s, a, i, False)

    def add(ex, s, a, i):
        f = fail(s)
        d = dict(s.data['pt.' + a[2].obj])
        for b, c in s.data['pt.' + a[3].obj]:
            d[b] = d.get(b, P({})) + c
        s.data['pt.' + a[1].obj] = norm(d)
        return [(s, ONE), (f, ZERO)]
    C['EC_POINT_add'] = add

    def affine(ex, s, a, i):
        f = fail(s)
        pt = s.data['pt.' + a[1].obj]
        for k, p in ((2, 'x'), (3, 'y')):
            if isinstance(a[k], Ptr):
                put(s, a[k], (A(coord(p, pt)), 'exact'))
        return [(s, ONE), (f, ZERO)]
    C['EC_POINT_get_affine_coordinates'] = C['EC_POINT_get_affine_coordinates_GFp'] = affine

    # ------------------------------------------------ keys, signatures
    def part(k):
        return lambda ex, s, a, i: s.data['key'][k] if isinstance(a[0], Ptr) else NULL
    C['EC_KEY_get0_group'] = part('group')
    C['EC_KEY_get0_private_key'] = part('priv')
    C['EC_KEY_get0_public_key'] = part('pub')

    def setpriv(ex, s, a, i):
        f = fail(s)
        s.data['key'] = dict(s.data['key'], priv=new(s, get(s, a[1]), borrowed=True))
        return [(s, ONE), (f, ZERO)]
    C['EC_KEY_set_private_key'] = setpriv

    def setpub(ex, s, a, i):
        f = fail(s)
        p = dr.opaque(s, 'pub')
        s.data['pt.' + p.obj] = s.data['pt.' + a[1].obj]
        s.mem[p.obj].meta = {'borrowed': True}
        s.data['key'] = dict(s.data['key'], pub=p)
        return [(s, ONE), (f, ZERO)]
    C['EC_KEY_set_public_key'] = setpub

    def sig_new(ex, s, a, i):
        f = fail(s)
        p = dr.opaque(s, 'sig')
        s.data['sig.' + p.obj] = (None, None)
        s.mem[p.obj].meta = {}
        return [(s, p), (f, NULL)]
    C['ECDSA_SIG_new'] = sig_new

    def set0(ex, s, a, i):
        if not isinstance(a[1], Ptr) or not isinstance(a[2], Ptr):
            return ZERO
        for x in a[1:3]:
            m = s.mem[x.obj].meta or {}
            if m.get('ctx') or m.get('borrowed') or s.mem[x.obj].freed:
                ex.res.fail('mem:numbers given to a signature are its own', 'line %d' % i.line)
            s.w(x.obj).meta = {'borrowed': True}
        s.data['sig.' + a[0].obj] = (a[1], a[2])
        return ONE
    C['ECDSA_SIG_set0'] = set0

    def get0(ex, s, a, i):
        r, z = s.data['sig.' + a[0].obj]
        for p, v in ((a[1], r), (a[2], z)):
            if isinstance(p, Ptr):
                s.wval(p, v if v is not None else const(0, 64))
    C['ECDSA_SIG_get0'] = get0
    C['ECDSA_SIG_get0_r'] = lambda ex, s, a, i: s.data['sig.' + a[0].obj][0] or NULL
    C['ECDSA_SIG_get0_s'] = lambda ex, s, a, i: s.data['sig.' + a[0].obj][1] or NULL
    C['OPENSSL_die'] = model.BASE.get('OPENSSL_die') or (lambda ex, s, a, i: [])
    return C


def norm(d):
    return tuple(sorted(((b, modq(c)) for b, c in d.items() if modq(c).t), key=repr))


def coord(p, pt):
    return '%s[%s]' % (p, '; '.join('(%r)%s' % (c, b) for b, c in pt))


def nonneg(s, v):
    if v[1] == 'red':
        return True
    c = v[0].const()
    if c is not None and v[1] == 'exact':
        return c >= 0
    a = v[0].atom()
    if v[1] == 'exact' and a is not None and (a in ('q', 'h') or a in s.data.get('names', {}).values() or a.startswith(('le', 'be', 'x[', 'y['))):
        return True
    return any(f[0] == 'nonneg' and f[1] == v for f in facts(s))
