"""Assumed contracts of the external functions (OpenSSL, libc) and helpers to set up verification."""
from . import terms as tm
from .terms import const, T
from .exec import Ptr, Obj, Exec, State, Undecided, NULL, PathEnd, FPtr, Refork
from . import ir
from .ir import REPO

DIR = {}


def prog(srcs, tmp, repo=REPO):
    return ir.Program(srcs, repo=repo, workdir=tmp)


def sym(st, name, size):
    """fixed object with symbolic contents name[0..size)"""
    return st.new(name, size, init=lambda o, name=name: tm.var('%s[%d]' % (name, o), 8))


def symbytes(name, n):
    return [tm.var('%s[%d]' % (name, i), 8) for i in range(n)]


def word(bs):
    return tm.concat(bs)


def nop(ex, s, a, i):
    return None


def ret(v, w=32):
    return lambda ex, s, a, i: const(v, w)


def cleanse(ex, s, a, i):
    ex.memset(s, a[0], const(0, 32), a[1], i.line)
    return None


def rand_bytes(fail=None):
    """RAND_bytes / RAND_priv_bytes(buf, n): n arbitrary bytes and 1; or (fail) an error value with the
    buffer in an arbitrary state"""
    def h(ex, s, a, i):
        n = a[1]
        if n.op != 'c':
            ex.reconc(s, n)
        k = n.a
        nr = s.data.get('rand', 0)
        s.data['rand'] = nr + 1
        out = []
        if fail is not None:
            s2 = s.fork()
            ex.write_bytes(s2, a[0], [tm.var('rnd%d.f[%d]' % (nr, j), 8) for j in range(k)], i.line)
            out.append((s2, const(fail, 32)))
        ex.write_bytes(s, a[0], [tm.var('rnd%d[%d]' % (nr, j), 8) for j in range(k)], i.line)
        if fail is None:
            return const(1, 32)
        return [(s, const(1, 32))] + out
    return h


def malloc(zero=False, can_fail=True, name='heap'):
    def h(ex, s, a, i):
        n = a[0]
        if n.op != 'c':
            ex.reconc(s, n)
        k = s.data.get('nalloc', 0)
        s.data['nalloc'] = k + 1
        nm = '%s%d' % (name, k)
        out = []
        if can_fail:
            s2 = s.fork()
            out.append((s2, NULL))
        p = s.new(nm, n.a, init=(lambda o: const(0, 8)) if zero else (lambda o, nm=nm: tm.var('undef.%s[%d]' % (nm, o), 8)))
        s.mem[p.obj].meta = {'heap': const(1, 1)}
        if not out:
            return p
        return [(s, p)] + out
    return h


def free(ex, s, a, i):
    p = a[0]
    if isinstance(p, T):
        if p.op == 'c' and p.a == 0:
            return None
        raise Undecided('free of a non-pointer')
    o = s.mem[p.obj]
    if o.freed:
        ex.res.fail('mem:double free', 'line %d' % i.line)
        raise PathEnd()
    if p.off.op != 'c' or p.off.a != 0 or not (o.meta and 'heap' in o.meta):
        ex.res.fail('mem:free of something not allocated', 'line %d: %r' % (i.line, p))
        raise PathEnd()
    s.w(p.obj).freed = True
    return None


def clear_free(ex, s, a, i):
    p = a[0]
    if isinstance(p, Ptr):
        n = a[1]
        if n.op == 'c':
            ex.write_bytes(s, p, [const(0, 8)] * n.a, i.line)
    return free(ex, s, [p], i)


def memcmp(ex, s, a, i):
    n = a[2]
    if n.op != 'c':
        ex.reconc(s, n)
    x = ex.read_bytes(s, a[0], n.a, i.line)
    y = ex.read_bytes(s, a[1], n.a, i.line)
    if n.a == 0:
        return const(0, 32)
    if any(not isinstance(b, T) for b in x + y):
        raise Undecided('memcmp of pointers')
    e = tm.eq(tm.concat(x), tm.concat(y))
    d = s.data.get('ncmp', 0)
    s.data['ncmp'] = d + 1
    return tm.ite(e, const(0, 32), tm.or_(tm.var('memcmp%d' % d, 32), const(1, 32)))


def strlen_(ex, s, a, i):
    n = 0
    while True:
        b = ex.read_bytes(s, a[0].add(n), 1, i.line)[0]
        if b.op != 'c':
            raise Undecided('strlen of symbolic text')
        if b.a == 0:
            return const(n, 64)
        n += 1


def strcmp_(ex, s, a, i):
    n = 0
    while True:
        x = ex.read_bytes(s, a[0].add(n), 1, i.line)[0]
        y = ex.read_bytes(s, a[1].add(n), 1, i.line)[0]
        if x.op != 'c' or y.op != 'c':
            raise Undecided('strcmp of symbolic text')
        if x.a != y.a:
            return const(x.a - y.a, 32)
        if x.a == 0:
            return const(0, 32)
        n += 1


def bufreverse(ex, s, a, i):
    """OpenSSL: reverse n bytes, in place when there is no source"""
    n = a[2]
    if n.op != 'c':
        raise Undecided('BUF_reverse of symbolic length')
    if n.a:
        src = a[1] if isinstance(a[1], Ptr) else a[0]
        ex.write_bytes(s, a[0], ex.read_bytes(s, src, n.a, i.line)[::-1], i.line)


BASE = {
    'BUF_reverse': bufreverse,
    'OPENSSL_cleanse': cleanse,
    'RAND_priv_bytes': rand_bytes(), 'RAND_bytes': rand_bytes(),
    'CRYPTO_malloc': malloc(), 'CRYPTO_zalloc': malloc(zero=True), 'malloc': malloc(),
    'CRYPTO_free': free, 'free': free, 'CRYPTO_clear_free': clear_free,
    'memcmp': memcmp, 'CRYPTO_memcmp': memcmp,
    'ERR_GOST_error': nop, 'ERR_put_error': nop, 'ERR_new': nop, 'ERR_set_debug': nop, 'ERR_set_error': nop, 'ERR_add_error_data': nop,
    'strlen': strlen_, 'strcmp': strcmp_,
}
NOTES = {
    'RAND': 'RAND_bytes/RAND_priv_bytes write exactly the stated bytes, with arbitrary values',
    'cleanse': 'OPENSSL_cleanse zeroes exactly the stated range',
}


def run1(ex, st, fn, args):
    """execute fn to the end; one path expected -> (state, value)"""
    ex.call_fn(st, fn, args)
    out = [r for r in ex.run(st, len(st.frames) - 1) if r[0] == 'ret']
    if len(out) != 1:
        raise Undecided('%s: %d paths' % (fn, len(out)))
    return out[0][1], out[0][2]


def runall(ex, st, fn, args):
    ex.call_fn(st, fn, args)
    return [r for r in ex.run(st, len(st.frames) - 1)]
