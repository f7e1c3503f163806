"""Driving the compiled engine through OpenSSL's EVP layer."""
import ctypes as C
from .real import Buf

P = C.c_void_p
I = C.c_int
SZ = C.c_size_t
STR = C.c_char_p

EVP_CTRL_SET_SBOX, EVP_CTRL_KEY_MESH, EVP_CTRL_TLSTREE = 0x1e, 0x20, 0x2a
SET_IVLEN, GET_TAG, SET_TAG = 9, 0x10, 0x11
PROCESS_UNPROTECTED = 0x28
MD_XOF_LEN, MD_TLSTREE, MD_KEY_LEN, MD_SET_KEY = 3, 4, 0x1003, 0x1004


class Engine:
    def __init__(self, lib):
        self.lib = lib
        cr = lib.crypto

        def f(name, res, *a):
            g = getattr(cr, name)
            g.restype = res
            g.argtypes = list(a)
            return g
        self.f = f
        f('ENGINE_load_builtin_engines' if hasattr(cr, 'ENGINE_load_builtin_engines') else 'OPENSSL_init_crypto', I)
        init = f('OPENSSL_init_crypto', I, C.c_uint64, P)
        init(0x0000000c | 0x00000400 | 0x00000200, None)
        e = f('ENGINE_by_id', P, STR)(b'dynamic')
        cs = f('ENGINE_ctrl_cmd_string', I, P, STR, STR, I)
        so = lib.so.encode()
        if cs(e, b'SO_PATH', so, 0) != 1 or cs(e, b'ID', b'gost', 0) != 1 or cs(e, b'LOAD', None, 0) != 1:
            f('ERR_print_errors_fp', None, P)(C.c_void_p.in_dll(C.CDLL(None), 'stderr'))
            raise RuntimeError('engine does not load')
        if f('ENGINE_init', I, P)(e) != 1:
            raise RuntimeError('engine does not initialise')
        f('ENGINE_set_default', I, P, C.c_uint)(e, 0xffff)
        self.e = e
        self.nid = f('OBJ_sn2nid', I, STR)
        self.get_cipher = f('ENGINE_get_cipher', P, P, I)
        self.get_digest = f('ENGINE_get_digest', P, P, I)
        self.c_new = f('EVP_CIPHER_CTX_new', P)
        self.c_free = f('EVP_CIPHER_CTX_free', None, P)
        self.c_init = f('EVP_CipherInit_ex', I, P, P, P, P, P, I)
        self.c_upd = f('EVP_CipherUpdate', I, P, P, C.POINTER(I), P, I)
        self.c_fin = f('EVP_CipherFinal_ex', I, P, P, C.POINTER(I))
        self.c_ctrl = f('EVP_CIPHER_CTX_ctrl', I, P, I, I, P)
        self.c_copy = f('EVP_CIPHER_CTX_copy', I, P, P)
        self.c_reset = f('EVP_CIPHER_CTX_reset', I, P)
        self.c_pad = f('EVP_CIPHER_CTX_set_padding', I, P, I)
        self.c_data = f('EVP_CIPHER_CTX_get_cipher_data', P, P)
        self.c_raw = f('EVP_Cipher', I, P, P, P, C.c_uint)
        self.c_set_num = f('EVP_CIPHER_CTX_set_num', I, P, I)
        self.md_new = f('EVP_MD_CTX_new', P)
        self.md_free = f('EVP_MD_CTX_free', None, P)
        self.md_init = f('EVP_DigestInit_ex', I, P, P, P)
        self.md_upd = f('EVP_DigestUpdate', I, P, P, SZ)
        self.md_fin = f('EVP_DigestFinal_ex', I, P, P, C.POINTER(C.c_uint))
        self.md_finxof = f('EVP_DigestFinalXOF', I, P, P, SZ)
        self.md_ctrl = f('EVP_MD_CTX_ctrl', I, P, I, I, P)
        self.md_copy = f('EVP_MD_CTX_copy_ex', I, P, P)
        self.md_reset = f('EVP_MD_CTX_reset', I, P)
        self.md_data = f('EVP_MD_CTX_get0_md_data', P, P)
        self.md_setflags = f('EVP_MD_CTX_set_flags', None, P, I)
        self.err_clear = f('ERR_clear_error', None)

    def cipher(self, sn):
        n = self.nid(sn.encode())
        c = self.get_cipher(self.e, n)
        if not c:
            raise RuntimeError('no cipher ' + sn)
        return c

    def digest(self, sn):
        c = self.get_digest(self.e, self.nid(sn.encode()))
        if not c:
            raise RuntimeError('no digest ' + sn)
        return c


class Overrun(Exception):
    pass


class Cipher:
    def __init__(self, E, sn):
        self.E = E
        self.c = E.cipher(sn)
        self.x = E.c_new()
        self.set = False

    def init(self, key=None, iv=None, enc=None, first=True):
        E = self.E
        k = Buf(key) if key is not None else None
        v = Buf(iv) if iv is not None else None
        r = E.c_init(self.x, self.c if first else None, E.e if first else None, k.p if k else None, v.p if v else None, -1 if enc is None else int(enc))
        E.err_clear()
        return r

    def ctrl(self, cmd, arg, ptr=None):
        r = self.E.c_ctrl(self.x, cmd, arg, ptr)
        self.E.err_clear()
        return r

    def nopad(self):
        self.E.c_pad(self.x, 0)

    def update(self, data, inplace=False, aad=False):
        """-> bytes or None on failure"""
        n = C.c_int(0)
        i = Buf(data)
        if aad:
            r = self.E.c_upd(self.x, None, C.byref(n), i.p, len(data))
            self.E.err_clear()
            return b'' if r == 1 else None
        if inplace:
            o = i
        else:
            o = Buf(len(data) + 32)
        r = self.E.c_upd(self.x, o.p, C.byref(n), i.p, len(data))
        self.E.err_clear()
        if not i.ok() or not o.ok():
            raise Overrun('written outside the buffer')
        if not inplace and i.get() != bytes(data):
            raise Overrun('the input buffer was modified')
        return o.get(n.value) if r == 1 else None

    def final(self):
        n = C.c_int(0)
        o = Buf(64)
        r = self.E.c_fin(self.x, o.p, C.byref(n))
        self.E.err_clear()
        return o.get(n.value) if r == 1 else None

    def copy(self):
        d = Cipher.__new__(Cipher)
        d.E, d.c, d.x = self.E, self.c, self.E.c_new()
        r = self.E.c_copy(d.x, self.x)
        self.E.err_clear()
        if r != 1:
            self.E.c_free(d.x)
            return None
        return d

    def free(self):
        if self.x:
            self.E.c_free(self.x)
            self.x = None


class Digest:
    def __init__(self, E, sn):
        self.E = E
        self.m = E.digest(sn)
        self.x = E.md_new()

    def init(self):
        return self.E.md_init(self.x, self.m, self.E.e)

    def ctrl(self, cmd, arg, ptr=None):
        r = self.E.md_ctrl(self.x, cmd, arg, ptr)
        self.E.err_clear()
        return r

    def update(self, data):
        b = Buf(data)
        r = self.E.md_upd(self.x, b.p, len(data))
        self.E.err_clear()
        return r

    def final(self, n=64, full=False):
        o = Buf(max(n, 64))
        l = C.c_uint(0)
        r = self.E.md_fin(self.x, o.p, C.byref(l))
        self.E.err_clear()
        if not o.ok():
            raise Overrun('digest written outside the buffer')
        return o.get(max(l.value, n if n <= 64 and full else 0)) if r == 1 else None

    def finalxof(self, n):
        o = Buf(n)
        r = self.E.md_finxof(self.x, o.p, n)
        self.E.err_clear()
        if not o.ok():
            raise Overrun('digest written outside the buffer')
        return o.get(n) if r == 1 else None

    def copy(self):
        d = Digest.__new__(Digest)
        d.E, d.m, d.x = self.E, self.m, self.E.md_new()
        r = self.E.md_copy(d.x, self.x)
        self.E.err_clear()
        if r != 1:
            self.E.md_free(d.x)
            return None
        return d

    def free(self):
        if self.x:
            self.E.md_free(self.x)
            self.x = None


def splits(rng, n, maxparts=6, unit=1):
    """random way of cutting n into parts (sometimes empty ones), multiples of unit"""
    k = rng.choice((1, 1, 2, 2, 3, 3, 4, rng.randrange(1, maxparts + 1)))
    m = n // unit
    mode = rng.random()
    if mode < 0.25 and m > 1:
        # small leading pieces
        cuts = []
        p = 0
        while p < m and len(cuts) < 12:
            p += rng.choice((1, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33))
            if p < m:
                cuts.append(p)
    else:
        cuts = sorted(rng.randrange(0, m + 1) for _ in range(k - 1))
    r = []
    q = 0
    for c in cuts + [m]:
        r.append((c - q) * unit)
        q = c
    return r
