"""Hash-consed bit-vector terms with eager normalisation.

Normal form, in short: bitwise operators and extraction are pushed down to the pieces of
concatenations, xor is an n-ary set with cancellation, addition is a linear combination with
coefficients modulo 2^w, table lookups are keyed by the *contents* of the table.
Terms are created by the executor (from the code) and by the specifications (from the
standards); equal results of equal computations become the same object.
"""
import sys
sys.setrecursionlimit(200000)


class T:
    __slots__ = ('op', 'a', 'w', 'id', '_ub', '_vars')

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]


def _mk(op, a, w):
    k = (op, a, w)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.w = w
        _cnt[0] += 1
        t.id = _cnt[0]
        t._ub = None
        t._vars = None
        _tab[k] = t
    return t


def const(v, w):
    return _mk('c', v & ((1 << w) - 1), w)


def var(name, w):
    return _mk('v', name, w)


TRUE = const(1, 1)
FALSE = const(0, 1)
_fresh = [0]


def fresh(name, w):
    _fresh[0] += 1
    return var('%s!%d' % (name, _fresh[0]), w)


def isc(t):
    return t.op == 'c'


def cval(t):
    return t.a if t.op == 'c' else None


# ---------------------------------------------------------------- concat / extract
def concat(parts):
    """parts: least significant first."""
    out = []
    for p in parts:
        if p.op == 'cat':
            ps = p.a
        else:
            ps = (p,)
        for q in ps:
            if out:
                l = out[-1]
                if l.op == 'c' and q.op == 'c':
                    out[-1] = const(l.a | (q.a << l.w), l.w + q.w)
                    continue
                m = _adj(l, q)
                if m is not None:
                    out[-1] = m
                    continue
            out.append(q)
    if len(out) == 1:
        return out[0]
    return _mk('cat', tuple(out), sum(p.w for p in out))


def _adj(lo, hi):
    """merge two adjacent pieces of one opaque term"""
    if hi.op == 'ext':
        b, h2, l2 = hi.a
        if lo.op == 'ext':
            b1, h1, l1 = lo.a
            if b1 is b and l2 == h1 + 1:
                if l1 == 0 and h2 == b.w - 1:
                    return b
                return _mk('ext', (b, h2, l1), h2 - l1 + 1)
        elif b.op in ('lin', 'mul', 'sext') and l2 == lo.w and lo.op == b.op and extract(b, l2 - 1, 0) is lo:
            # the low part of a sum was normalised to a sum of low parts
            return extract(b, h2, 0)
    if lo.op == 'xor' and hi.op == 'xor' and len(lo.a) == len(hi.a):
        res = []
        his = list(hi.a)
        for x in lo.a:
            ok = False
            for j, y in enumerate(his):
                if x.op == 'c' and y.op == 'c':
                    m = const(x.a | (y.a << x.w), x.w + y.w)
                else:
                    m = _adj(x, y)
                if m is not None:
                    res.append(m)
                    del his[j]
                    ok = True
                    break
            if not ok:
                return None
        return xorn(res)
    if lo.op == 'sel' and hi.op == 'sel' and lo.a[1] is hi.a[1]:
        return sel(_cattab(lo.a[0].tab, hi.a[0].tab), lo.a[1])
    if lo.op == 'ite' and hi.op == 'ite' and lo.a[0] is hi.a[0]:
        x, y = concat((lo.a[1], hi.a[1])), concat((lo.a[2], hi.a[2]))
        if x.op == 'cat' or y.op == 'cat':
            return None
        return ite(lo.a[0], x, y)
    return None


_extmemo = {}


def extract(t, hi, lo):
    if lo == 0 and hi == t.w - 1:
        return t
    op = t.op
    w = hi - lo + 1
    if op == 'c':
        return const(t.a >> lo, w)
    if op == 'ext':
        b, h, l = t.a
        return extract(b, l + hi, l + lo)
    k = (t, hi, lo)
    r = _extmemo.get(k)
    if r is not None:
        return r
    if op == 'cat':
        out = []
        pos = 0
        for p in t.a:
            e = pos + p.w
            if e > lo and pos <= hi:
                a = max(lo, pos) - pos
                b = min(hi, e - 1) - pos
                out.append(extract(p, b, a))
            pos = e
            if pos > hi:
                break
        r = concat(out)
    elif op == 'xor':
        r = xorn([extract(x, hi, lo) for x in t.a])
    elif op == 'and':
        r = and_(extract(t.a[0], hi, lo), extract(t.a[1], hi, lo))
    elif op == 'or':
        r = or_(extract(t.a[0], hi, lo), extract(t.a[1], hi, lo))
    elif op == 'ite':
        r = ite(t.a[0], extract(t.a[1], hi, lo), extract(t.a[2], hi, lo))
    elif op == 'lin' and lo == 0:
        r = lin([(extract(x, hi, 0), c) for x, c in t.a[0]], t.a[1], w)
    elif op == 'mul' and lo == 0:
        r = mul(extract(t.a[0], hi, 0), extract(t.a[1], hi, 0))
    elif op == 'sext' and hi < t.a[0].w:
        r = extract(t.a[0], hi, lo)
    elif op == 'sel':
        r = sel(_subtab(t.a[0].tab, hi, lo), t.a[1])
    else:
        r = _mk('ext', (t, hi, lo), w)
    _extmemo[k] = r
    return r


def zext(t, w):
    if w == t.w:
        return t
    return concat((t, const(0, w - t.w)))


def sext(t, w):
    if w == t.w:
        return t
    if t.op == 'c':
        v = t.a
        if v >> (t.w - 1):
            v -= 1 << t.w
        return const(v, w)
    if t.op == 'cat' and t.a[-1].op == 'c' and not (t.a[-1].a >> (t.a[-1].w - 1)):
        return zext(t, w)
    if ub(t) < (1 << (t.w - 1)):
        return zext(t, w)
    if t.w == 1:
        return ite(t, const(-1, w), const(0, w))
    if t.op == 'ite':
        return ite(t.a[0], sext(t.a[1], w), sext(t.a[2], w))
    return _mk('sext', (t,), w)


def trunc(t, w):
    return extract(t, w - 1, 0)


# ---------------------------------------------------------------- bitwise
def _bounds(t, s):
    pos = 0
    for p in t.a:
        s.add(pos)
        pos += p.w


_xortab_memo = {}


def _xortab(t1, t2):
    k = (t1[0], t2[0]) if t1[0] < t2[0] else (t2[0], t1[0])
    r = _xortab_memo.get(k)
    if r is None:
        n = min(len(t1[1]), len(t2[1]))
        r = _xortab_memo[k] = table([t1[1][j] ^ t2[1][j] for j in range(n)], t1[2])
    return r


_identtab = {}


def _mergesel(items, w):
    """several table lookups at one index inside a xor become one lookup"""
    idx = {}
    rest = []
    hit = False
    for t in items:
        if t.op == 'sel':
            k = t.a[1]
            if k in idx:
                hit = True
                idx[k] = _xortab(idx[k], t.a[0].tab)
            else:
                idx[k] = t.a[0].tab
        else:
            rest.append(t)
    if w <= 8 and idx and rest:
        r2 = []
        for t in rest:
            if t in idx and t.w == w and len(idx[t][1]) == 1 << w:
                it = _identtab.get(w)
                if it is None:
                    it = _identtab[w] = table(range(1 << w), w)
                idx[t] = _xortab(idx[t], it)
                hit = True
            else:
                r2.append(t)
        rest = r2
    if not hit:
        return None
    out = [sel(tb, k) for k, tb in idx.items()] + rest
    return out


def xorn(ts):
    w = ts[0].w
    # flatten with cancellation
    c = 0
    cnt = {}
    st = list(ts)
    cats = False
    while st:
        t = st.pop()
        if t.op == 'c':
            c ^= t.a
        elif t.op == 'xor':
            st.extend(t.a)
        else:
            if t in cnt:
                del cnt[t]
            else:
                cnt[t] = 1
    items = list(cnt)
    if not items:
        return const(c, w)
    for t in items:
        if t.op == 'cat':
            cats = True
            break
    if len(items) == 1 and c == 0:
        return items[0]
    if cats:
        s = set()
        for t in items:
            if t.op == 'cat':
                _bounds(t, s)
        cuts = sorted(s) + [w]
        out = []
        for i in range(len(cuts) - 1):
            lo, hi = cuts[i], cuts[i + 1] - 1
            ps = [extract(t, hi, lo) for t in items]
            if c:
                ps.append(const(c >> lo, hi - lo + 1))
            out.append(xorn(ps))
        return concat(out)
    if len(items) > 1:
        m = _mergesel(items, w)
        if m is not None:
            if c:
                m.append(const(c, w))
            return xorn(m)
    items.sort(key=lambda t: t.id)
    if c:
        items.append(const(c, w))
    return _mk('xor', tuple(items), w)


def xor(a, b):
    return xorn((a, b))


def not_(a):
    return xorn((a, const(-1, a.w)))


def _runs(c, w):
    out = []
    i = 0
    while i < w:
        b = (c >> i) & 1
        j = i
        while j < w and ((c >> j) & 1) == b:
            j += 1
        out.append((b, i, j - 1))
        i = j
    return out


def and_(a, b):
    if a is b:
        return a
    w = a.w
    if a.op == 'c':
        a, b = b, a
    if b.op == 'c':
        c = b.a
        if c == 0:
            return b
        if c == (1 << w) - 1:
            return a
        if a.op == 'c':
            return const(a.a & c, w)
        return concat([extract(a, hi, lo) if bit else const(0, hi - lo + 1) for bit, lo, hi in _runs(c, w)])
    if a.op == 'cat' or b.op == 'cat':
        return _split2(and_, a, b)
    if w == 1:
        if a.op == 'xor' and not_(a) is b or b.op == 'xor' and not_(b) is a:
            return FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk('and', (a, b), w)


def or_(a, b):
    if a is b:
        return a
    w = a.w
    if a.op == 'c':
        a, b = b, a
    if b.op == 'c':
        c = b.a
        if c == 0:
            return a
        if c == (1 << w) - 1:
            return b
        if a.op == 'c':
            return const(a.a | c, w)
        return concat([const(-1, hi - lo + 1) if bit else extract(a, hi, lo) for bit, lo, hi in _runs(c, w)])
    if a.op == 'cat' or b.op == 'cat':
        return _split2(or_, a, b)
    if w == 1:
        if a.op == 'xor' and not_(a) is b or b.op == 'xor' and not_(b) is a:
            return TRUE
    if a.id > b.id:
        a, b = b, a
    return _mk('or', (a, b), w)


def _split2(f, a, b):
    s = set()
    if a.op == 'cat':
        _bounds(a, s)
    if b.op == 'cat':
        _bounds(b, s)
    cuts = sorted(s) + [a.w]
    out = []
    for i in range(len(cuts) - 1):
        lo, hi = cuts[i], cuts[i + 1] - 1
        out.append(f(extract(a, hi, lo), extract(b, hi, lo)))
    return concat(out)


# ---------------------------------------------------------------- arithmetic
def lin(pairs, k, w):
    """sum c_i * t_i + k modulo 2^w"""
    m = (1 << w) - 1
    d = {}
    st = list(pairs)
    while st:
        t, c = st.pop()
        c &= m
        if c == 0:
            continue
        if t.op == 'c':
            k += t.a * c
        elif t.op == 'lin':
            k += t.a[1] * c
            for x, cx in t.a[0]:
                st.append((x, cx * c))
        else:
            if t.op == 'cat' and t.a[0].op == 'c' and t.a[0].a == 0 and len(t.a) == 2 and t.a[1].op != 'c':
                # x << s, where the whole of x is kept (its low bits)
                s = t.a[0].w
                x = t.a[1]
                if x.op == 'ext' and x.a[2] == 0:
                    b = x.a[0]
                    if b.w == w:
                        st.append((b, c << s))
                        continue
                    # low part of something else: keep
                if x.op == 'v' or x.op in ('lin',):
                    st.append((zext(x, w) if x.w < w else x, c << s))
                    continue
            d[t] = d.get(t, 0) + c
    k &= m
    items = [(t, c & m) for t, c in d.items() if c & m]
    if not items:
        return const(k, w)
    if len(items) == 1 and items[0][1] == 1 and k == 0:
        return items[0][0]
    if w == 1:
        r = [t for t, c in items]
        r.append(const(k, 1))
        return xorn(r)
    if len(items) == 1 and items[0][1] == m and k == m:
        # -x - 1 = ~x
        return not_(items[0][0])
    if len(items) == 2 and k == 0 and items[0][1] == 1 and items[1][1] == 1 or \
       len(items) == 1 and items[0][1] == 1:
        # addition without overlapping bits is or
        x = items[0][0]
        y = items[1][0] if len(items) == 2 else const(k, w)
        if not (maybits(x) & maybits(y)):
            return or_(x, y)
    items.sort(key=lambda p: p[0].id)
    return _mk('lin', (tuple(items), k), w)


def add(a, b):
    return lin(((a, 1), (b, 1)), 0, a.w)


def sub(a, b):
    return lin(((a, 1), (b, -1)), 0, a.w)


def addc(a, k):
    return lin(((a, 1),), k, a.w)


def neg(a):
    return lin(((a, -1),), 0, a.w)


def mul(a, b):
    if a.op == 'c':
        a, b = b, a
    if b.op == 'c':
        c = b.a
        if a.op != 'c' and c and c & (c - 1) == 0:
            s = c.bit_length() - 1
            if a.op == 'cat' or a.op == 'ext' or a.op == 'xor' or a.op == 'sel':
                return shl(a, s)
        return lin(((a, c),), 0, a.w)
    if a.id > b.id:
        a, b = b, a
    return _mk('mul', (a, b), a.w)


def shl(a, s):
    if isinstance(s, T):
        if s.op != 'c':
            if a.op == 'c' and a.a == 0:
                return a
            return _mk('shl', (a, s), a.w)
        s = s.a
    if s == 0:
        return a
    if s >= a.w:
        return const(0, a.w)
    if a.op == 'lin':
        return lin(((a, 1 << s),), 0, a.w)
    return concat((const(0, s), extract(a, a.w - 1 - s, 0)))


def lshr(a, s):
    if isinstance(s, T):
        if s.op != 'c':
            if a.op == 'c' and a.a == 0:
                return a
            return _mk('lshr', (a, s), a.w)
        s = s.a
    if s == 0:
        return a
    if s >= a.w:
        return const(0, a.w)
    return concat((extract(a, a.w - 1, s), const(0, s)))


def ashr(a, s):
    if isinstance(s, T):
        if s.op != 'c':
            return _mk('ashr', (a, s), a.w)
        s = s.a
    if s == 0:
        return a
    if s >= a.w:
        s = a.w - 1
    return sext(extract(a, a.w - 1, s), a.w)


def udiv(a, b):
    if a.op == 'c' and b.op == 'c' and b.a:
        return const(a.a // b.a, a.w)
    if b.op == 'c' and b.a and b.a & (b.a - 1) == 0:
        return lshr(a, b.a.bit_length() - 1)
    if b.op == 'c' and ub(a) < b.a:
        return const(0, a.w)
    return _mk('udiv', (a, b), a.w)


def urem(a, b):
    if a.op == 'c' and b.op == 'c' and b.a:
        return const(a.a % b.a, a.w)
    if b.op == 'c' and b.a and b.a & (b.a - 1) == 0:
        return and_(a, const(b.a - 1, a.w))
    if b.op == 'c' and ub(a) < b.a:
        return a
    return _mk('urem', (a, b), a.w)


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def sdiv(a, b):
    if a.op == 'c' and b.op == 'c' and b.a:
        x, y = sgn(a.a, a.w), sgn(b.a, a.w)
        q = abs(x) // abs(y)
        return const(q if (x < 0) == (y < 0) else -q, a.w)
    h = 1 << (a.w - 1)
    if ub(a) < h and ub(b) < h:
        return udiv(a, b)
    return _mk('sdiv', (a, b), a.w)


def srem(a, b):
    if a.op == 'c' and b.op == 'c' and b.a:
        x, y = sgn(a.a, a.w), sgn(b.a, a.w)
        r = abs(x) % abs(y)
        return const(-r if x < 0 else r, a.w)
    h = 1 << (a.w - 1)
    if ub(a) < h and ub(b) < h:
        return urem(a, b)
    return _mk('srem', (a, b), a.w)


# ---------------------------------------------------------------- predicates
def maybits(t):
    """mask of the bits that may be one"""
    if t.op == 'c':
        return t.a
    if t.op == 'cat':
        m = 0
        pos = 0
        for p in t.a:
            m |= maybits(p) << pos
            pos += p.w
        return m
    return (1 << t.w) - 1


_lb_extra = {}


def ub(t):
    """upper bound of the unsigned value"""
    if t._ub is not None:
        return t._ub
    op = t.op
    m = (1 << t.w) - 1
    r = m
    if op == 'c':
        r = t.a
    elif op == 'cat':
        r = 0
        pos = 0
        for p in t.a:
            r |= ub(p) << pos
            pos += p.w
    elif op == 'ite':
        r = max(ub(t.a[1]), ub(t.a[2]))
    elif op == 'lin':
        s = t.a[1]
        for x, c in t.a[0]:
            s += ub(x) * c
            if s > m:
                break
        r = min(s, m) if s <= m else m
    elif op == 'and':
        r = min(ub(t.a[0]), ub(t.a[1]))
    elif op == 'urem' and t.a[1].op == 'c' and t.a[1].a:
        r = min(ub(t.a[0]), t.a[1].a - 1)
    elif op == 'udiv' and t.a[1].op == 'c' and t.a[1].a:
        r = ub(t.a[0]) // t.a[1].a
    elif op == 'lshr':
        r = ub(t.a[0])
    elif op == 'mul':
        s = ub(t.a[0]) * ub(t.a[1])
        if s <= m:
            r = s
    elif op == 'sel':
        r = max(t.a[0][1])
    t._ub = r
    return r


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'c' and b.op == 'c':
        return FALSE
    w = a.w
    if w == 1:
        return xorn((a, b, TRUE))
    if b.op == 'c':
        a, b = b, a
    if a.op == 'c':
        if a.a > ub(b):
            return FALSE
        if b.op == 'ite':
            x, y = b.a[1], b.a[2]
            if x.op == 'c' and y.op == 'c':
                if x.a == a.a:
                    return b.a[0] if y.a != a.a else TRUE
                return not_(b.a[0]) if y.a == a.a else FALSE
        if b.op == 'cat':
            # split on constant pieces
            pos = 0
            rest = []
            for p in b.a:
                cp = (a.a >> pos) & ((1 << p.w) - 1)
                if p.op == 'c':
                    if p.a != cp:
                        return FALSE
                else:
                    rest.append((p, cp))
                pos += p.w
            if len(rest) == 1:
                return eq(const(rest[0][1], rest[0][0].w), rest[0][0])
        if a.a == 0 and b.op == 'srem' and b.a[1].op == 'c' and b.a[1].a & (b.a[1].a - 1) == 0 and 1 < b.a[1].a < 1 << w - 1:
            k = b.a[1].a.bit_length() - 1
            return eq(const(0, k), extract(b.a[0], k - 1, 0))
        if b.op == 'xor' and b.a[-1].op == 'c':
            return eq(const(a.a ^ b.a[-1].a, w), xorn(b.a[:-1]))
        if b.op == 'lin' and b.a[1]:
            return eq(const(a.a - b.a[1], w), lin(b.a[0], 0, w))
        if b.op == 'lin' and len(b.a[0]) == 1 and b.a[0][0][1] == (1 << w) - 1:
            return eq(const(-a.a, w), b.a[0][0][0])
        if b.op == 'sext':
            x = b.a[0]
            if sgn(a.a, w) == sgn(a.a & ((1 << x.w) - 1), x.w):
                return eq(const(a.a, x.w), x)
            return FALSE
        return _mk('eq', (a, b), 1)
    if a.op == 'lin' or b.op == 'lin':
        d = sub(a, b)
        if d.op == 'c':
            return TRUE if d.a == 0 else FALSE
    if a.op == 'cat' and b.op == 'cat':
        # common high zero
        if a.a[-1].op == 'c' and b.a[-1].op == 'c':
            k = min(a.a[-1].w, b.a[-1].w)
            if extract(a, w - 1, w - k) is not extract(b, w - 1, w - k):
                return FALSE
            return eq(extract(a, w - 1 - k, 0), extract(b, w - 1 - k, 0))
    if a.id > b.id:
        a, b = b, a
    return _mk('eq', (a, b), 1)


def ult(a, b):
    if a is b:
        return FALSE
    if a.op == 'c' and b.op == 'c':
        return TRUE if a.a < b.a else FALSE
    if b.op == 'c':
        if ub(a) < b.a:
            return TRUE
        if b.a == 0:
            return FALSE
        if b.a == 1:
            return eq(a, const(0, a.w))
        if b.a == (1 << b.w) - 1:
            return not_(eq(a, b))
    if a.op == 'c':
        if a.a >= ub(b):
            return FALSE
        if a.a == 0:
            return not_(eq(a, b))
    if a.op == 'cat' and a.a[-1].op == 'c' and a.a[-1].a == 0 and b.op == 'cat' and b.a[-1].op == 'c' and b.a[-1].a == 0:
        k = min(a.a[-1].w, b.a[-1].w)
        return ult(extract(a, a.w - 1 - k, 0), extract(b, a.w - 1 - k, 0))
    if a.op == 'cat' and a.a[-1].op == 'c' and a.a[-1].a == 0 and b.op == 'c':
        k = a.a[-1].w
        if b.a >> (a.w - k):
            return TRUE
        return ult(extract(a, a.w - 1 - k, 0), const(b.a, a.w - k))
    if b.op == 'cat' and b.a[-1].op == 'c' and b.a[-1].a == 0 and a.op == 'c':
        k = b.a[-1].w
        if a.a >> (a.w - k):
            return FALSE
        return ult(const(a.a, a.w - k), extract(b, a.w - 1 - k, 0))
    return _mk('ult', (a, b), 1)


def ule(a, b):
    return not_(ult(b, a))


def slt(a, b):
    if a is b:
        return FALSE
    h = 1 << (a.w - 1)
    if a.op == 'c' and b.op == 'c':
        return TRUE if sgn(a.a, a.w) < sgn(b.a, a.w) else FALSE
    if ub(a) < h and ub(b) < h:
        return ult(a, b)
    if ub(a) < h and b.op == 'c' and b.a >= h:
        return FALSE
    if ub(b) < h and a.op == 'c' and a.a >= h:
        return TRUE
    if b.op == 'c' and b.a == 0:
        return extract(a, a.w - 1, a.w - 1)
    if a.op == 'c' and a.a == (1 << a.w) - 1:
        return not_(extract(b, a.w - 1, a.w - 1))
    if a.op == 'ite' and a.a[1].op == 'c' and a.a[2].op == 'c' and b.op == 'c':
        return ite(a.a[0], slt(a.a[1], b), slt(a.a[2], b))
    if b.op == 'ite' and b.a[1].op == 'c' and b.a[2].op == 'c' and a.op == 'c':
        return ite(b.a[0], slt(a, b.a[1]), slt(a, b.a[2]))
    return _mk('slt', (a, b), 1)


def sle(a, b):
    return not_(slt(b, a))


def ite(c, a, b):
    if c.op == 'c':
        return a if c.a else b
    if a is b:
        return a
    if a.w == 1:
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    if c.op == 'xor' and c.a[-1].op == 'c':
        return ite(not_(c), b, a)
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if c.op == 'eq' and c.a[0].op == 'c' and c.a[1].w <= 8 and c.a[1].op != 'sext' and w_ok(a.w):
        t = tabulate(c, a, b)
        if t is not None:
            return t
    if a.op == 'cat' or b.op == 'cat':
        s = {0}
        if a.op == 'cat':
            _bounds(a, s)
        if b.op == 'cat':
            _bounds(b, s)
        cuts = sorted(s) + [a.w]
        ps = []
        same = False
        for i in range(len(cuts) - 1):
            lo, hi = cuts[i], cuts[i + 1] - 1
            x, y = extract(a, hi, lo), extract(b, hi, lo)
            ps.append((x, y))
        out = []
        for x, y in ps:
            if x is y:
                out.append(x)
            else:
                out.append(ite(c, x, y))
        # build without re-merging into itself
        res = []
        for p in out:
            for q in (p.a if p.op == 'cat' else (p,)):
                if res:
                    l = res[-1]
                    if l.op == 'c' and q.op == 'c':
                        res[-1] = const(l.a | (q.a << l.w), l.w + q.w)
                        continue
                    if l.op == 'ext' and q.op == 'ext':
                        m = _adj(l, q)
                        if m is not None:
                            res[-1] = m
                            continue
                res.append(q)
        if len(res) == 1:
            return res[0]
        return _mk('cat', tuple(res), a.w)
    return _mk('ite', (c, a, b), a.w)


def w_ok(w):
    return w > 1 and w <= 128


def _only(t, leaf, n):
    """t depends on leaf only (bounded walk); -> nodes or None"""
    st = [t]
    seen = {leaf}
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if len(seen) > n:
            return None
        if x.op in ('v', 'uf', 'arr'):
            return None
        st.extend(children(x))
    return seen


def tabulate(c, a, b):
    """ite over one small term: a function of at most 8 bits becomes a table"""
    leaf = c.a[1]
    if leaf.op == 'v' and leaf.a[0] == '#':
        return None
    if (a.op == 'c' and b.op == 'c') and False:
        return None
    k = c.a[0].a
    lv = None
    cc = None
    for cand in _cands(leaf, c.a[0]):
        if cand.op == 'c' or _only(a, cand, 24) is None or _only(b, cand, 24) is None:
            continue
        lv = var('leaf', cand.w)
        if cand is leaf:
            cc = eq(lv, c.a[0])
        elif cand is leaf.a[1] if leaf.op == 'sel' else False:
            cc = eq(sel(leaf.a[0].tab, lv), c.a[0])
        else:
            cc = eq(lv, const(0, lv.w))
        leaf = cand
        break
    if lv is None:
        return None
    a = replace(a, leaf, lv)
    b = replace(b, leaf, lv)
    key = (a, b, cc)
    tb = _tabulated.get(key)
    if tb is None:
        vals = []
        for j in range(1 << leaf.w):
            memo = {lv: j}
            vals.append(evalt(a if evalt(cc, None, memo) else b, None, memo))
        tb = _tabulated[key] = table(vals, a.w)
    return sel(tb, leaf)


def _cands(leaf, k):
    yield leaf
    if leaf.op == 'sel' and leaf.a[1].w <= 8:
        yield leaf.a[1]
    if k.a:
        yield xorn((leaf, k))


_tabulated = {}


def replace(t, x, y):
    """replace the subterm x by y"""
    memo = {x: y}

    def go(t):
        r = memo.get(t)
        if r is None:
            ch = children(t)
            n = [go(q) for q in ch]
            r = t if all(p is q for p, q in zip(ch, n)) else rebuild(t, n)
            memo[t] = r
        return r
    return go(t)


def size_exceeds(ts, n):
    seen = set()
    st = list(ts)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if len(seen) > n:
            return True
        st.extend(children(x))
    return False


# ---------------------------------------------------------------- tables, functions
_tables = {}


def table(values, w):
    """intern a table of constants; returns a key usable in sel()"""
    values = tuple(values)
    k = (w, values)
    r = _tables.get(k)
    if r is None:
        r = (len(_tables), values, w)
        _tables[k] = r
    return r


_tk = {}
_tinfo = {}


def _info(tab):
    """(identity?, linear?, or-mask) of a table"""
    r = _tinfo.get(tab[0])
    if r is None:
        i, v, w = tab
        m = 0
        for x in v:
            m |= x
        n = len(v)
        ident = all(x == j for j, x in enumerate(v))
        lin_ = False
        if n & (n - 1) == 0 and n > 1 and v[0] == 0:
            lin_ = True
            k = 1
            while k < n and lin_:
                b = v[k]
                for j in range(k):
                    if v[k + j] != b ^ v[j]:
                        lin_ = False
                        break
                k *= 2
        r = _tinfo[i] = (ident, lin_, m, all(x == v[0] for x in v))
    return r


_subt = {}


def _subtab(tab, hi, lo):
    k = (tab[0], hi, lo)
    r = _subt.get(k)
    if r is None:
        m = (1 << (hi - lo + 1)) - 1
        r = _subt[k] = table([(x >> lo) & m for x in tab[1]], hi - lo + 1)
    return r


def _cattab(t1, t2):
    k = (t1[0], t2[0], 'cat')
    r = _subt.get(k)
    if r is None:
        n = min(len(t1[1]), len(t2[1]))
        r = _subt[k] = table([t1[1][j] | (t2[1][j] << t1[2]) for j in range(n)], t1[2] + t2[2])
    return r


def _comptab(t1, t2):
    """t1 o t2"""
    k = (t1[0], t2[0], 'o')
    r = _subt.get(k)
    if r is None:
        n = len(t1[1])
        if max(t2[1]) >= n:
            r = 0
        else:
            r = table([t1[1][j] for j in t2[1]], t1[2])
        _subt[k] = r
    return r


def sel(tab, idx):
    """tab = table(...); idx any width, in range by construction"""
    i, values, w = tab
    if idx.op == 'c':
        return const(values[idx.a], w)
    ident, lin_, m, cst = _info(tab)
    if cst:
        return const(values[0], w)
    if ident and len(values) == 1 << idx.w:
        return zext(idx, w) if w >= idx.w else trunc(idx, w)
    if lin_ and idx.op == 'xor' and len(values) == 1 << idx.w:
        return xorn([sel(tab, x) for x in idx.a])
    if idx.op == 'cat' and idx.a[-1].op == 'c' and idx.a[-1].a == 0:
        # drop the zero high part of the index
        low = extract(idx, idx.w - idx.a[-1].w - 1, 0)
        n = 1 << low.w
        if n <= len(values):
            return sel(table(values[:n], w) if n < len(values) else tab, low)
    if idx.op == 'sel':
        t2 = idx.a[0].tab
        c = _comptab(tab, t2)
        if c:
            return sel(c, idx.a[1])
    full = (1 << w) - 1
    if m != full:
        # always-zero bits
        out = []
        for bit, lo, hi in _runs(m, w):
            out.append(sel(_subtab(tab, hi, lo), idx) if bit else const(0, hi - lo + 1))
        return concat(out)
    return _sel(tab, idx)


def _sel(tab, idx):
    k = _tk.get(tab[0])
    if k is None:
        k = _tk[tab[0]] = _TabKey(tab[0], tab[1])
        k.tab = tab
    return _mk('sel', (k, idx), tab[2])


class _TabKey(tuple):
    """hashable by id only"""
    def __new__(cls, i, values):
        o = tuple.__new__(cls, (i, values))
        return o

    def __hash__(self):
        return hash(self[0])

    def __eq__(self, o):
        return self is o or (isinstance(o, _TabKey) and self[0] == o[0])


def uf(name, args, w):
    """uninterpreted function; arguments are split into bytes for canonicity"""
    return _mk('uf', (name, tuple(args)), w)


def arr(name, idx):
    """byte idx (64-bit term) of an unbounded symbolic byte array"""
    return _mk('arr', (name, idx), 8)


def bytes_of(t):
    return [extract(t, i + 7, i) for i in range(0, t.w, 8)]


def rotl(t, n):
    n %= t.w
    if n == 0:
        return t
    return concat((extract(t, t.w - 1, t.w - n), extract(t, t.w - n - 1, 0)))


def load_le(bs):
    return concat(bs)


def load_be(bs):
    return concat(list(reversed(bs)))


# ---------------------------------------------------------------- traversal
def children(t):
    op = t.op
    if op == 'c' or op == 'v':
        return ()
    if op == 'lin':
        return tuple(x for x, c in t.a[0])
    if op == 'ext':
        return (t.a[0],)
    if op == 'sel':
        return (t.a[1],)
    if op == 'uf':
        return t.a[1]
    if op == 'arr':
        return (t.a[1],)
    return t.a


def vars_of(t):
    """frozenset of variable names (arrays as '@name')"""
    if t._vars is not None:
        return t._vars
    st = [t]
    while st:
        x = st[-1]
        if x._vars is not None:
            st.pop()
            continue
        ch = [y for y in children(x) if y._vars is None]
        if ch:
            st.extend(ch)
            continue
        st.pop()
        if x.op == 'v':
            x._vars = frozenset((x.a,))
        elif x.op == 'c':
            x._vars = frozenset()
        else:
            s = frozenset()
            for y in children(x):
                if not (y._vars <= s):
                    s = s | y._vars
            if x.op == 'arr':
                s = s | {'@' + x.a[0]}
            x._vars = s
    return t._vars


def rebuild(t, ch):
    op = t.op
    if op == 'lin':
        return lin([(x, c) for x, (_, c) in zip(ch, t.a[0])], t.a[1], t.w)
    if op == 'ext':
        return extract(ch[0], t.a[1], t.a[2])
    if op == 'cat':
        return concat(ch)
    if op == 'xor':
        return xorn(ch)
    if op == 'and':
        return and_(*ch)
    if op == 'or':
        return or_(*ch)
    if op == 'ite':
        return ite(*ch)
    if op == 'eq':
        return eq(*ch)
    if op == 'ult':
        return ult(*ch)
    if op == 'slt':
        return slt(*ch)
    if op == 'sext':
        return sext(ch[0], t.w)
    if op == 'sel':
        return sel(t.a[0].tab, ch[0])
    if op == 'uf':
        h = UF_SIMP.get(t.a[0])
        if h:
            return h(*ch)
        return uf(t.a[0], ch, t.w)
    if op == 'arr':
        return arr(t.a[0], ch[0])
    return {'mul': mul, 'shl': shl, 'lshr': lshr, 'ashr': ashr, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}[op](*ch)


UF_SIMP = {}


class Subst:
    """substitution of variables (and arbitrary leaf terms), memoised"""

    def __init__(self, m):
        self.m = dict(m)          # T -> T
        self.names = frozenset(n for t in m for n in vars_of(t))
        self.memo = {}

    def __call__(self, t):
        if not (vars_of(t) & self.names):
            return t
        memo = self.memo
        r = memo.get(t)
        if r is not None:
            return r
        st = [t]
        while st:
            x = st[-1]
            if x in memo:
                st.pop()
                continue
            if x in self.m:
                memo[x] = self.m[x]
                st.pop()
                continue
            if not (vars_of(x) & self.names):
                memo[x] = x
                st.pop()
                continue
            ch = children(x)
            todo = [y for y in ch if y not in memo]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            nch = [memo[y] for y in ch]
            if all(p is q for p, q in zip(nch, ch)):
                memo[x] = x
            else:
                memo[x] = rebuild(x, nch)
        return memo[t]


# ---------------------------------------------------------------- evaluation
def evalt(t, env, memo):
    """env(name, width) -> int for variables; env.arr(name, idx); env.uf(name, args, argw, w)"""
    r = memo.get(t)
    if r is not None:
        return r
    st = [t]
    while st:
        x = st[-1]
        if x in memo:
            st.pop()
            continue
        ch = children(x)
        todo = [y for y in ch if y not in memo]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        memo[x] = _ev1(x, [memo[y] for y in ch], env)
    return memo[t]


def _ev1(t, v, env):
    op = t.op
    w = t.w
    m = (1 << w) - 1
    if op == 'c':
        return t.a
    if op == 'v':
        return env.var(t.a, w) & m
    if op == 'lin':
        s = t.a[1]
        for (x, c), y in zip(t.a[0], v):
            s += c * y
        return s & m
    if op == 'cat':
        r = 0
        pos = 0
        for p, y in zip(t.a, v):
            r |= y << pos
            pos += p.w
        return r
    if op == 'ext':
        return (v[0] >> t.a[2]) & m
    if op == 'xor':
        r = 0
        for y in v:
            r ^= y
        return r
    if op == 'and':
        return v[0] & v[1]
    if op == 'or':
        return v[0] | v[1]
    if op == 'ite':
        return v[1] if v[0] else v[2]
    if op == 'eq':
        return int(v[0] == v[1])
    if op == 'ult':
        return int(v[0] < v[1])
    if op == 'slt':
        aw = t.a[0].w
        return int(sgn(v[0], aw) < sgn(v[1], aw))
    if op == 'sext':
        return sgn(v[0], t.a[0].w) & m
    if op == 'sel':
        tb = t.a[0][1]
        return tb[v[0]] if v[0] < len(tb) else 0
    if op == 'uf':
        return env.uf(t.a[0], v, [x.w for x in t.a[1]], w) & m
    if op == 'arr':
        return env.arr(t.a[0], v[0]) & 255
    if op == 'mul':
        return (v[0] * v[1]) & m
    if op == 'shl':
        return (v[0] << v[1]) & m if v[1] < w else 0
    if op == 'lshr':
        return v[0] >> v[1] if v[1] < w else 0
    if op == 'ashr':
        return (sgn(v[0], w) >> min(v[1], w - 1)) & m
    if op == 'udiv':
        return v[0] // v[1] if v[1] else m
    if op == 'urem':
        return v[0] % v[1] if v[1] else v[0]
    if op in ('sdiv', 'srem'):
        f = sdiv if op == 'sdiv' else srem
        if v[1] == 0:
            return 0
        return f(const(v[0], w), const(v[1], w)).a
    raise AssertionError(op)


# ---------------------------------------------------------------- printing
def show(t, d=4):
    if t.op == 'c':
        return '%#x' % t.a if t.a > 9 else str(t.a)
    if t.op == 'v':
        return t.a
    if d == 0:
        return '..'
    if t.op == 'lin':
        s = ' + '.join(('' if c == 1 else ('-' if c == (1 << t.w) - 1 else str(sgn(c, t.w)) + '*')) + show(x, d - 1) for x, c in t.a[0])
        k = sgn(t.a[1], t.w)
        return '(%s%s)' % (s, ' %+d' % k if k else '')
    if t.op == 'ext':
        return '%s[%d:%d]' % (show(t.a[0], d - 1), t.a[1], t.a[2])
    if t.op == 'sel':
        return 'T%d[%s]' % (t.a[0][0], show(t.a[1], d - 1))
    if t.op == 'uf':
        return '%s(%s)' % (t.a[0], ','.join(show(x, d - 1) for x in t.a[1][:6]) + (',..' if len(t.a[1]) > 6 else ''))
    if t.op == 'arr':
        return '%s[%s]' % (t.a[0], show(t.a[1], d - 1))
    return '%s(%s)' % (t.op, ', '.join(show(x, d - 1) for x in t.a[:8]))


_canon = {}


def canon(t):
    """second normal form, for matching: sums of multiples of 2^k are split into low constant and high part"""
    r = _canon.get(t)
    if r is not None:
        return r
    r = t
    if t.op == 'lin':
        w = t.w
        kc = t.a[1]
        items = []
        for x, c in t.a[0]:
            x = canon(x)
            sh = 0
            while x.op == 'cat' and x.a[0].op == 'c':
                kc += (c << sh) * x.a[0].a
                sh += x.a[0].w
                x = concat(x.a[1:])
            items.append((x, c, sh))
        kc &= (1 << w) - 1
        k = min(sh + (c & -c).bit_length() - 1 for _, c, sh in items)
        if k >= w:
            r = const(kc, w)
        elif k or any(sh for _, _, sh in items):
            def fit(x):
                return zext(x, w - k) if x.w < w - k else trunc(x, w - k)
            hi = lin([(fit(x), (c << sh) >> k) for x, c, sh in items], kc >> k, w - k)
            r = concat([const(kc & ((1 << k) - 1), k), canon(hi) if hi is not t else hi]) if k else hi
    elif t.op == 'ext' and t.a[0].op == 'lin':
        b = canon(t.a[0])
        if b is not t.a[0]:
            r = canon(extract(b, t.a[1], t.a[2]))
        elif t.a[2] == 0 and t.w < b.w:
            c = lin([(trunc(x, t.w), c) for x, c in b.a[0]], b.a[1], t.w)
            r = canon(c) if c.op != 'ext' else c
    elif t.op == 'cat':
        n = [canon(x) for x in t.a]
        if any(a is not b for a, b in zip(n, t.a)):
            r = concat(n)
    _canon[t] = r
    return r
