"""Contracts of the OpenSSL EVP/HMAC interface used on inner contexts, with ghost state: every context
carries what it was initialised with and the sequence of data given to it.  Every call that can fail does
so in a forked state.

ghost state s.data['x.<obj>']:
  digest  ('md', nid or name, key or None, size or None, (pieces...))      piece: tuple of byte terms
  cipher  ('ci', nid, key, iv, enc, pos)       pos: number of bytes processed (int)
  hmac    ('hm', nid, key, (pieces...))
"""
from . import terms as tm
from . import model, direct as dr
from .terms import const
from .exec import Ptr, NULL, T, Undecided
from .machines import xorl

ONE, ZERO = const(1, 32), const(0, 32)
NOTES = ['EVP_MD_CTX/EVP_CIPHER_CTX/HMAC_CTX objects of OpenSSL: initialisation, update and finalisation compute the named function of the data given since initialisation; each call may fail (the failure value is 0 or negative, and nothing is written then)']


def g(s, p):
    return s.data.get('x.' + p.obj)


def put(s, p, v):
    s.data['x.' + p.obj] = v


def alive(ex, s, p, line, what='context'):
    if not isinstance(p, Ptr) or s.mem[p.obj].freed:
        ex.res.fail('mem:%s is valid' % what, 'line %d: %r' % (line, p))
        from .exec import PathEnd
        raise PathEnd()
    ex.res.ok('mem:%s is valid' % what)


def rd(ex, s, p, n, line):
    if n.op != 'c':
        ex.reconc(s, n)
    if n.a == 0:
        return ()
    return tuple(ex.read_bytes(s, p, n.a, line))


def new(kind):
    def h(ex, s, a, i):
        f = s.fork()
        p = dr.opaque(s, kind)
        s.mem[p.obj].meta = {'ctx': const(1, 1)}
        put(s, p, None)
        return [(s, p), (f, NULL)]
    return h


def free(ex, s, a, i):
    if isinstance(a[0], Ptr):
        if s.mem[a[0].obj].freed:
            ex.res.fail('mem:double free of a context', 'line %d' % i.line)
        s.w(a[0].obj).freed = True
    return None


def fails(s, v=ZERO):
    f = s.fork()
    f.data['failed'] = True
    return (f, v)


def bynid(kind):
    def h(ex, s, a, i):
        nm = '%s:%r' % (kind, a[0])
        if nm not in s.mem:
            s.new(nm, 8, kind='opaque')
            s.data['obj.' + nm] = a[0]
        f = s.fork()
        f.data['failed'] = True
        return [(s, Ptr(nm, 0)), (f, NULL)]
    return h


def ident(s, p):
    return s.data.get('obj.' + p.obj) if isinstance(p, Ptr) else None


def stream(nid, key, iv, pos, n):
    """n bytes of the gamma from byte position pos"""
    return [tm.uf('gamma', [nid, tm.concat(list(key)), tm.concat(list(iv)), const(pos + j, 32)], 8) for j in range(n)]


def macfn(nid, key, pieces, size):
    data = [b for p in pieces for b in p]
    f = 'mac%d' % len(data)
    return [tm.uf(f, [nid, tm.concat(list(key)), tm.concat(data) if data else const(0, 8), const(j, 8)], 8) for j in range(size)]


def hashfn(nid, pieces, size):
    data = [b for p in pieces for b in p]
    return [tm.uf('hash%d' % len(data), [nid, tm.concat(data) if data else const(0, 8), const(j, 8)], 8) for j in range(size)]


def hmacfn(nid, key, pieces, size):
    data = [b for p in pieces for b in p]
    return [tm.uf('hmac%d.%d' % (len(key), len(data)), [nid, tm.concat(list(key)) if key else const(0, 8), tm.concat(data), const(j, 8)], 8) for j in range(size)]


def contracts(sizes=lambda s, nid: 32, ivlen=lambda nid: 16, keylen=32, cmds=None):
    """sizes(s, nid): digest length; cmds: EVP_MD_CTRL_* values"""
    C = {}
    C['EVP_MD_CTX_new'] = new('mdctx')
    C['EVP_MD_CTX_free'] = C['EVP_CIPHER_CTX_free'] = C['HMAC_CTX_free'] = free
    C['EVP_CIPHER_CTX_new'] = new('cictx')
    C['HMAC_CTX_new'] = new('hmctx')
    C['EVP_get_digestbynid'] = bynid('md')
    C['EVP_get_cipherbynid'] = bynid('ci')

    def sn(ex, s, a, i):
        nm = 'sn:%r' % a[0]
        if nm not in s.mem:
            s.new(nm, 8, kind='opaque')
        s.data['obj.' + nm] = a[0]
        return Ptr(nm, 0)
    C['OBJ_nid2sn'] = sn

    def byname(kind):
        def h(ex, s, a, i):
            return bynid(kind)(ex, s, [ident(s, a[0])], i)
        return h
    C['EVP_get_digestbyname'] = byname('md')
    C['EVP_get_cipherbyname'] = byname('ci')

    def digestinit(ex, s, a, i):
        alive(ex, s, a[0], i.line)
        n = ident(s, a[1])
        if n is None:
            s.data['failed'] = True
            return ZERO
        f = fails(s)
        put(s, a[0], ('md', n, None, None, ()))
        return [(s, ONE), f]
    C['EVP_DigestInit_ex'] = digestinit
    C['EVP_DigestInit'] = digestinit

    def digestupdate(ex, s, a, i):
        alive(ex, s, a[0], i.line)
        b = rd(ex, s, a[1], a[2], i.line)
        x = g(s, a[0])
        if not x:
            raise Undecided('update of an uninitialised digest')
        f = fails(s)
        put(s, a[0], x[:4] + (x[4] + (b,),))
        return [(s, ONE), f]
    C['EVP_DigestUpdate'] = digestupdate

    def ctrl(ex, s, a, i):
        """omac_imit_ctrl (contract proved in M03)"""
        alive(ex, s, a[0], i.line)
        x = g(s, a[0])
        if not x or a[1].op != 'c' or a[2].op != 'c':
            raise Undecided('control of a MAC context')
        if a[1].a == cmds['EVP_MD_CTRL_SET_KEY'] and a[2].a == 32:
            k = rd(ex, s, a[3], const(32, 64), i.line)
            f = fails(s)
            put(s, a[0], ('md', x[1], k, x[3], ()))
            return [(s, ONE), f]
        if a[1].a == cmds['EVP_MD_CTRL_XOF_LEN']:
            f = fails(s)
            put(s, a[0], x[:3] + (a[2].a,) + x[4:])
            return [(s, ONE), f]
        raise Undecided('control %r' % a[1])
    if cmds:
        C['omac_imit_ctrl'] = ctrl

    def final(ex, s, a, i):
        alive(ex, s, a[0], i.line)
        x = g(s, a[0])
        if not x:
            raise Undecided('final of an uninitialised digest')
        f = fails(s)
        n = sizes(s, x[1])
        ex.write_bytes(s, a[1], hashfn(x[1], x[4], n) if x[2] is None else macfn(x[1], x[2], x[4], n), i.line)
        if isinstance(a[2], Ptr):
            s.wval(a[2], const(n, 32))
        put(s, a[0], None)
        return [(s, ONE), f]
    C['EVP_DigestFinal_ex'] = final
    C['EVP_DigestFinal'] = final

    def finalxof(ex, s, a, i):
        alive(ex, s, a[0], i.line)
        x = g(s, a[0])
        if not x:
            raise Undecided('final of an uninitialised digest')
        if a[2].op != 'c':
            ex.reconc(s, a[2])
        f = fails(s)
        n = a[2].a
        ex.write_bytes(s, a[1], macfn(x[1], x[2], x[4], n) if x[2] is not None else [tm.var('nokey%d' % j, 8) for j in range(n)], i.line)
        put(s, a[0], None)
        return [(s, ONE), f]
    C['EVP_DigestFinalXOF'] = finalxof

    def cinit(ex, s, a, i):
        alive(ex, s, a[0], i.line)
        x = g(s, a[0])
        n = ident(s, a[1])
        if n is None and isinstance(a[1], Ptr):
            raise Undecided('cipher object')
        if n is None and not x:
            s.data['failed'] = True
            return ZERO
        f = fails(s)
        nid = n if n is not None else x[1]
        key = tuple(ex.read_bytes(s, a[3], keylen, i.line)) if isinstance(a[3], Ptr) else (x[2] if x and n is None else None)
        iv = tuple(ex.read_bytes(s, a[4], ivlen(nid), i.line)) if isinstance(a[4], Ptr) else (x[3] if x and n is None else None)
        put(s, a[0], ('ci', nid, key, iv, a[5] if not (a[5].op == 'c' and a[5].a == 0xffffffff) else x[4], 0))
        return [(s, ONE), f]
    C['EVP_CipherInit_ex'] = cinit

    def cupdate(ex, s, a, i):
        alive(ex, s, a[0], i.line)
        x = g(s, a[0])
        if not x or x[2] is None or x[3] is None:
            raise Undecided('cipher context without key or IV')
        b = rd(ex, s, a[3], a[4], i.line)
        f = fails(s)
        if b:
            ex.write_bytes(s, a[1], xorl(list(b), stream(x[1], x[2], x[3], x[5], len(b))), i.line)
        s.wval(a[2], const(len(b), 32))
        put(s, a[0], x[:5] + (x[5] + len(b),))
        return [(s, ONE), f]
    C['EVP_CipherUpdate'] = cupdate

    def cfinal(ex, s, a, i):
        alive(ex, s, a[0], i.line)
        f = fails(s)
        s.wval(a[2], ZERO)
        return [(s, ONE), f]
    C['EVP_CipherFinal_ex'] = cfinal

    def hinit(ex, s, a, i):
        alive(ex, s, a[0], i.line)
        n = ident(s, a[3])
        if n is None:
            s.data['failed'] = True
            return ZERO
        if not isinstance(a[1], Ptr):
            raise Undecided('HMAC without a key')
        if a[2].op == 'c' or a[2].w <= 64:
            k = rd(ex, s, a[1], a[2], i.line)
        f = fails(s)
        put(s, a[0], ('hm', n, k, ()))
        return [(s, ONE), f]
    C['HMAC_Init_ex'] = hinit

    def hupdate(ex, s, a, i):
        alive(ex, s, a[0], i.line)
        x = g(s, a[0])
        b = rd(ex, s, a[1], a[2], i.line)
        f = fails(s)
        put(s, a[0], x[:3] + (x[3] + (b,),))
        return [(s, ONE), f]
    C['HMAC_Update'] = hupdate

    def hfinal(ex, s, a, i):
        alive(ex, s, a[0], i.line)
        x = g(s, a[0])
        n = sizes(s, x[1])
        f = fails(s)
        ex.write_bytes(s, a[1], hmacfn(x[1], x[2], x[3], n), i.line)
        if isinstance(a[2], Ptr):
            s.wval(a[2], const(n, 32))
        put(s, a[0], None)
        return [(s, ONE), f]
    C['HMAC_Final'] = hfinal

    def reset(ex, s, a, i):
        alive(ex, s, a[0], i.line)
        put(s, a[0], None)
        return ONE
    C['HMAC_CTX_reset'] = reset
    return C
