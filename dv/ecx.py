"""Keys, points and signatures of the real engine (through OpenSSL) for the searches."""
import ctypes as C
from spec import ec

P, I, SZ = C.c_void_p, C.c_int, C.c_size_t


class EC:
    def __init__(self, lib):
        self.lib = lib
        f = lib.cf
        self.key_new = f('EC_KEY_new', P)
        self.key_free = f('EC_KEY_free', None, P)
        self.fill = lib.fn('fill_GOST_EC_params', I, P, I)
        self.get0_group = f('EC_KEY_get0_group', P, P)
        self.get0_pub = f('EC_KEY_get0_public_key', P, P)
        self.get0_priv = f('EC_KEY_get0_private_key', P, P)
        self.set_priv = f('EC_KEY_set_private_key', I, P, P)
        self.set_pub = f('EC_KEY_set_public_key', I, P, P)
        self.pnew = f('EC_POINT_new', P, P)
        self.pfree = f('EC_POINT_free', None, P)
        self.setaff = f('EC_POINT_set_affine_coordinates', I, P, P, P, P, P)
        self.getaff = f('EC_POINT_get_affine_coordinates', I, P, P, P, P, P)
        self.isinf = f('EC_POINT_is_at_infinity', I, P, P)
        self.setinf = f('EC_POINT_set_to_infinity', I, P, P)
        self.setjac = f('EC_POINT_set_Jprojective_coordinates_GFp', I, P, P, P, P, P, P)
        self.bin2bn = f('BN_bin2bn', P, C.c_char_p, I, P)
        self.bn2bin = f('BN_bn2bin', I, P, P)
        self.bits = f('BN_num_bits', I, P)
        self.bnfree = f('BN_free', None, P)
        self.setneg = f('BN_set_negative', None, P, I)
        self.isneg = f('BN_is_negative', I, P)
        self.ctx_new = f('BN_CTX_new', P)
        self.ctx_free = f('BN_CTX_free', None, P)
        self.signew = f('ECDSA_SIG_new', P)
        self.sigfree = f('ECDSA_SIG_free', None, P)
        self.set0 = f('ECDSA_SIG_set0', I, P, P, P)
        self.get_r = f('ECDSA_SIG_get0_r', P, P)
        self.get_s = f('ECDSA_SIG_get0_s', P, P)
        self.txt2nid = f('OBJ_txt2nid', I, C.c_char_p)
        self.sn2nid = f('OBJ_sn2nid', I, C.c_char_p)
        self.err = f('ERR_clear_error', None)
        self.err_peek = f('ERR_peek_error', C.c_ulong)
        self.curves = {n: ec.Curve(n) for n in ec.RAW}
        self.ctx = self.ctx_new()
        self.pk_new = f('EVP_PKEY_new', P)
        self.pk_free = f('EVP_PKEY_free', None, P)

    def nid(self, name):
        n = self.sn2nid(name.replace('id_', 'id-', 1).replace('_', '-').encode())
        return n

    def bn(self, v):
        b = abs(v).to_bytes((abs(v).bit_length() + 7) // 8 or 1, 'big')
        r = self.bin2bn(b, len(b), None)
        if v < 0:
            self.setneg(r, 1)
        return r

    def val(self, p):
        n = (self.bits(p) + 7) // 8
        b = C.create_string_buffer(n + 1)
        self.bn2bin(p, b)
        v = int.from_bytes(b.raw[:n], 'big')
        return -v if self.isneg(p) else v

    def point(self, g, pt):
        p = self.pnew(g)
        if pt is None:
            self.setinf(g, p)
            return p
        x, y = self.bn(pt[0]), self.bn(pt[1])
        r = self.setaff(g, p, x, y, self.ctx)
        self.bnfree(x)
        self.bnfree(y)
        if r != 1:
            self.pfree(p)
            return None
        return p

    def coords(self, g, p):
        if self.isinf(g, p):
            return None
        x, y = self.bn(0), self.bn(0)
        r = self.getaff(g, p, x, y, self.ctx)
        v = (self.val(x), self.val(y))
        self.bnfree(x)
        self.bnfree(y)
        return v if r == 1 else 'error'

    def key(self, nid, d=None, Q=None):
        k = self.key_new()
        if self.fill(k, nid) != 1:
            self.key_free(k)
            return None
        if d is not None:
            b = self.bn(d)
            self.set_priv(k, b)
            self.bnfree(b)
        if Q is not None:
            g = self.get0_group(k)
            p = self.point(g, Q)
            self.set_pub(k, p)
            self.pfree(p)
        return k

    def sig(self, r, s):
        x = self.signew()
        self.set0(x, self.bn(r), self.bn(s))
        return x


class Rand:
    """the random generator of OpenSSL, with chosen first results"""

    def __init__(self, lib, rng):
        self.queue = []
        self.rng = rng
        CB = C.CFUNCTYPE(I, P, I)

        def f(buf, n):
            if self.queue:
                v = self.queue.pop(0).to_bytes(n, 'big') if self.queue[0] < 256 ** n else self.rng.randbytes(n)
            else:
                v = self.rng.randbytes(n)
            C.memmove(buf, v, n)
            return 1
        self.cb = CB(f)
        self.st = C.CFUNCTYPE(I)(lambda: 1)

        class M(C.Structure):
            _fields_ = [('seed', P), ('bytes', CB), ('cleanup', P), ('add', P), ('pseudo', CB), ('status', C.CFUNCTYPE(I))]
        self.m = M(None, self.cb, None, None, self.cb, self.st)
        lib.cf('RAND_set_rand_method', I, P)(C.addressof(self.m))
