"""Multiplication in GF(2^64) and GF(2^128) for MGM."""
import ctypes as C
from dv import model, bil, g89, evpmodel as em, cphist as ch, terms as tm
from dv.exec import State, Undecided, FPtr
from spec import modes as m
from props.C05 import SRC

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 5, 60, 60
ASSUMPTIONS = ['operands are read and written in the big-endian byte order of R 1323565.1.026; the result does not overlap the operands (as at all call sites)']
RULE = 'random operands, single bits, zero and all-one halves; product of the compiled functions against shift-and-add'
POLY = {8: 0x1b, 16: 0x87}


def mulname(R, p, glob, contracts):
    """the multiplication given to gost_mgm128_init by the cipher"""
    got = []

    def init(ex, s, a, i):
        if not isinstance(a[3], FPtr):
            raise Undecided('multiplication is not a known function')
        got.append(a[3].name)
        s.data['stop'] = 1
        return None
    S = ch.Setup(R, p, glob, 1, dict(contracts, gost_mgm128_init=init, gost_mgm128_setiv=model.ret(1)))
    S.init(S.st)
    if len(set(got)) != 1:
        raise Undecided('multiplication used by %s: %r' % (glob, got))
    return got[0]


def gf(R, p, fn, n):
    ex = bil.BilExec(p, {}, model.BASE, limit=200)
    sp = ex.space = bil.Space(8 * n)
    st = State()
    o = []
    for nm, f in (('$a', sp.a), ('$b', sp.b)):
        for i in range(n):
            sp.defs['%s[%d]' % (nm, i)] = [f(8 * (n - 1 - i) + j) for j in range(8)]
        o.append(model.sym(st, nm, n))
    r = st.new('r', n)
    want = bil.product(sp, POLY[n])
    outs = [x for k, x, v in model.runall(ex, st, fn, [r] + o) if k == 'ret']
    R.truth('%s: returns on one joined path' % fn, len(outs) == 1)
    x = outs[0]
    got = []
    for b in reversed(x.bytes(r, n)):
        got += sp.bits(b)
    for i in range(8 * n):
        R.truth('GF(2^%d) product: bit of the result' % (8 * n), got[i] == want[i], 'bit %d of %s differs from the product' % (i, fn), by='GF(2) bilinear normal form')
    for q, nm in zip(o, ('$a', '$b')):
        R.eq('%s: operands unchanged' % fn, x.bytes(q, n), model.symbytes(nm, n))
    R.absorb(ex, fn)


def contracts(R):
    C = g89.contracts(R)
    C.update(g89.param_contracts({'nid': None}))
    C.update(em.kuz_contracts())
    return C


def prove(R):
    p = model.prog(SRC, R.tmp)
    R.parallel([('GF(2^%d)' % (8 * n), lambda R, g=g, n=n: gf(R, p, mulname(R, p, g, contracts(R)), n))
                for g, n in (('magma_mgm_cipher', 8), ('grasshopper_mgm_cipher', 16))])


def operand(S, n):
    r = S.rng
    k = r.randrange(8)
    if k == 0:
        return (1 << r.randrange(8 * n)).to_bytes(n, 'big')
    if k == 1:
        return r.choice((bytes(n), b'\xff' * n, bytes(n - 1) + b'\1', b'\x80' + bytes(n - 1)))
    b = S.bytes(n)
    if k == 2:
        return bytes(n // 2) + b[n // 2:]
    if k == 3:
        return b[:n // 2] + bytes(n // 2)
    if k == 4:
        i = r.randrange(n)
        return b[:i] + bytes(n - i)
    if k == 5:
        i = r.randrange(n)
        return bytes(i) + b[i:]
    return b


def search(S):
    from dv.real import Buf
    fs = [(n, S.lib.fn(f, None, *([C.c_void_p] * 3))) for f, n in (('gf64_mul', 8), ('gf128_mul_uint64', 16)) if S.lib.has(f)]
    k = 0
    while S.more() and fs:
        k += 1
        n, f = fs[k % len(fs)]
        x, y = operand(S, n), operand(S, n)
        S.case(kind='product', bits=8 * n, a=x, b=y)
        r, a, b = Buf(n), Buf(x), Buf(y)
        f(r.p, a.p, b.p)
        S.expect(r.get(), m.gfmul(x, y, n), 'product differs')
        if a.get() != x or b.get() != y or not all(z.ok() for z in (r, a, b)):
            S.fail('operand modified or write outside the result')
