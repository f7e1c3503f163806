"""Assumed contracts of the EVP layer and of the engine objects that hang off it.

One cipher context is a fixed object 'EVP' (original IV, IV, buffer, number) plus the cipher data;
one digest context is the digest data.  The accessors of OpenSSL are replaced by contracts on that
object.  The method table (init, do_cipher, ctrl, ...) is obtained by executing the engine's own
GOST_init_cipher / GOST_init_digest on the engine's own descriptor, so nothing here names the
internal functions.
"""
from . import terms as tm
from . import model
from .terms import const, T
from .exec import Ptr, FPtr, Undecided, PathEnd, NULL

OIV, IV, BUF, NUM, SIZE = 0, 16, 32, 64, 72


def die(ex, s, a, i):
    ex.res.fail('assertion of the code', 'line %d in %s' % (i.line, s.frames[-1].fn.name))
    raise PathEnd()


class Meth:
    """method table filled by the engine"""

    def __init__(self):
        self.f = {}

    def contracts(self, kind):
        M = self.f
        C = {}

        def new(ex, s, a, i):
            M['nid'] = a[0]
            if kind == 'CIPHER':
                M['block_size'], M['key_len'] = a[1], a[2]
            return s.new('meth', 8, kind='opaque')
        C['EVP_%s_meth_new' % kind] = new

        def setter(nm):
            def h(ex, s, a, i):
                M[nm] = a[1]
                return const(1, 32)
            return h
        names = ('iv_length', 'flags', 'init', 'do_cipher', 'cleanup', 'impl_ctx_size', 'set_asn1_params', 'get_asn1_params', 'ctrl') if kind == 'CIPHER' else \
                ('result_size', 'input_blocksize', 'app_datasize', 'flags', 'init', 'update', 'final', 'copy', 'cleanup', 'ctrl')
        for nm in names:
            C['EVP_%s_meth_set_%s' % (kind, nm)] = setter(nm)
        C['EVP_add_digest_alias'] = C['EVP_add_alg_module'] = C['OBJ_NAME_add'] = model.ret(1)

        def nm(ex, s, a, i):
            return s.new('text', 16)
        C['EVP_MD_get0_name'] = nm
        return C


def methods(ex, st, glob, kind='CIPHER', fn=None):
    m = Meth()
    save = dict(ex.externs)
    ex.externs = dict(ex.externs)
    ex.externs.update(m.contracts(kind))
    ex.externs['OPENSSL_die'] = die
    try:
        g = ex.gptr(st, glob, 0, None)
        st, v = model.run1(ex, st, fn or ('GOST_init_cipher' if kind == 'CIPHER' else 'GOST_init_digest'), [g])
    finally:
        ex.externs = save
    out = {}
    for k, v in m.f.items():
        out[k] = v.a if isinstance(v, T) and v.op == 'c' else v
    return st, out


def fname(f):
    if not isinstance(f, FPtr):
        raise Undecided('missing method')
    return f.fn or f.name


def evp_contracts(C):
    """C: dict with meth (method table), enc"""
    e = {}

    def g(name):
        def d(f):
            for n in name.split():
                e[n] = f
            return f
        return d

    @g('EVP_CIPHER_CTX_get_cipher_data')
    def _(ex, s, a, i):
        return Ptr(s.data['cd.' + a[0].obj], 0) if 'cd.' + a[0].obj in s.data else NULL

    def ev(s, a, off):
        return Ptr('E.' + a[0].obj, off)

    @g('EVP_CIPHER_CTX_original_iv')
    def _(ex, s, a, i):
        return ev(s, a, OIV)

    @g('EVP_CIPHER_CTX_iv EVP_CIPHER_CTX_iv_noconst')
    def _(ex, s, a, i):
        return ev(s, a, IV)

    @g('EVP_CIPHER_CTX_buf_noconst')
    def _(ex, s, a, i):
        return ev(s, a, BUF)

    @g('EVP_CIPHER_CTX_get_num EVP_CIPHER_CTX_num')
    def _(ex, s, a, i):
        return s.val(ev(s, a, NUM), 4)

    @g('EVP_CIPHER_CTX_set_num')
    def _(ex, s, a, i):
        s.wval(ev(s, a, NUM), tm.trunc(a[1], 32))
        return const(1, 32)

    @g('EVP_CIPHER_CTX_is_encrypting EVP_CIPHER_CTX_encrypting')
    def _(ex, s, a, i):
        return const(C['enc'], 32)

    @g('EVP_CIPHER_CTX_get_iv_length EVP_CIPHER_get_iv_length')
    def _(ex, s, a, i):
        return const(C['meth']['iv_length'], 32)

    @g('EVP_CIPHER_CTX_get_key_length EVP_CIPHER_get_key_length')
    def _(ex, s, a, i):
        return const(C['meth']['key_len'], 32)

    @g('EVP_CIPHER_CTX_get_block_size')
    def _(ex, s, a, i):
        return const(C['meth']['block_size'], 32)

    @g('EVP_CIPHER_CTX_get_nid EVP_CIPHER_CTX_nid')
    def _(ex, s, a, i):
        return const(C['meth']['nid'], 32)

    @g('EVP_CIPHER_get_mode')
    def _(ex, s, a, i):
        return const(C['meth']['flags'] & 0xf0007, 32)

    @g('EVP_CIPHER_CTX_cipher EVP_CIPHER_CTX_get0_cipher')
    def _(ex, s, a, i):
        if 'meth' not in s.mem:
            s.new('meth', 8, kind='opaque')
        return Ptr('meth', 0)

    @g('EVP_CIPHER_CTX_get_app_data')
    def _(ex, s, a, i):
        return s.data.get('app.' + a[0].obj, NULL)

    @g('EVP_CIPHER_CTX_set_app_data')
    def _(ex, s, a, i):
        s.data['app.' + a[0].obj] = a[1]
        return None

    @g('EVP_MD_CTX_get0_md_data EVP_MD_CTX_md_data')
    def _(ex, s, a, i):
        return Ptr(s.data['md.' + a[0].obj], 0) if 'md.' + a[0].obj in s.data else NULL

    @g('OPENSSL_die __assert_fail abort')
    def _(ex, s, a, i):
        return die(ex, s, a, i)
    return e


def inc_counter(ex, s, a, i):
    """big-endian increment of the whole counter (proved separately, see inc_lemma)"""
    n = a[1]
    if n.op != 'c':
        raise Undecided('counter length')
    n = n.a
    bs = ex.read_bytes(s, a[0], n, i.line)
    v = tm.addc(tm.concat(list(reversed(bs))), 1)
    ex.write_bytes(s, a[0], list(reversed(tm.bytes_of(v))), i.line)
    return None


def prove_inc(R, p):
    """the contract of inc_counter, for the lengths used"""
    from .exec import Exec, State
    for n in (4, 8, 16):
        ex = Exec(p, {}, model.BASE, limit=40)
        st = State()
        c = model.sym(st, 'ctr', n)
        b = model.symbytes('ctr', n)
        want = list(reversed(tm.bytes_of(tm.addc(tm.concat(list(reversed(b))), 1))))
        for kind, x, v in model.runall(ex, st, 'inc_counter', [c, const(n, 64)]):
            if kind == 'ret':
                R.eq('inc_counter(%d): big-endian increment' % n, x.bytes(c, n), want, x.pc)
        R.absorb(ex, 'inc_counter')


# ---------------------------------------------------------------- Kuznyechik
def kuz_sched(key, dec=False):
    return tm.bytes_of(tm.uf('kuzdsched' if dec else 'kuzsched', [tm.concat(key)], 1280))


def kuz_block(key, block, dec=False):
    """key, block: lists of bytes -> list of bytes"""
    return tm.bytes_of(tm.uf('KD' if dec else 'KE', [tm.concat(kuz_sched(key, dec)), tm.concat(block)], 128))


def kuz_contracts():
    """the contracts proved in B02"""
    C = {}

    def setk(dec):
        def h(ex, s, a, i):
            k = ex.read_bytes(s, a[1], 32, i.line)
            ex.write_bytes(s, a[0], kuz_sched(k, dec), i.line)
            return None
        return h

    def blk(dec):
        def h(ex, s, a, i):
            ks = ex.read_bytes(s, a[0], 160, i.line)
            b = ex.read_bytes(s, a[1], 16, i.line)
            o = tm.bytes_of(tm.uf('KD' if dec else 'KE', [tm.concat(ks), tm.concat(b)], 128))
            if isinstance(a[3], Ptr):
                ex.write_bytes(s, a[3], [tm.fresh('scratch', 8) for _ in range(16)], i.line)
            ex.write_bytes(s, a[2], o, i.line)
            return None
        return h
    C['grasshopper_set_encrypt_key'] = setk(False)
    C['grasshopper_set_decrypt_key'] = setk(True)
    C['grasshopper_encrypt_block'] = blk(False)
    C['grasshopper_decrypt_block'] = blk(True)
    return C


KUZ_NOTE = {'grasshopper_set_encrypt_key': 'proved in B02', 'grasshopper_set_decrypt_key': 'proved in B02',
            'grasshopper_encrypt_block': 'proved in B02', 'grasshopper_decrypt_block': 'proved in B02'}
