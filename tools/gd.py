"""Minimal ctypes driver of the freshly built engine (/repo/_build/bin/gost.so) through libcrypto's EVP layer."""
import ctypes as C
import ctypes.util
import sys
L = C.CDLL(ctypes.util.find_library('crypto') or 'libcrypto.so.3')
P, I = C.c_void_p, C.c_int
SO = b'/repo/_build/bin/gost.so'


def f(name, res, *a):
    g = getattr(L, name)
    g.restype = res
    g.argtypes = list(a)
    return g


f('OPENSSL_init_crypto', I, C.c_uint64, P)(0xc | 0x400 | 0x200, None)
E = f('ENGINE_by_id', P, C.c_char_p)(b'dynamic')
_cs = f('ENGINE_ctrl_cmd_string', I, P, C.c_char_p, C.c_char_p, I)
for k, v in ((b'SO_PATH', SO), (b'ID', b'gost'), (b'LOAD', None)):
    if _cs(E, k, v, 0) != 1:
        sys.exit('cannot load the engine')
f('ENGINE_init', I, P)(E)
f('ENGINE_set_default', I, P, C.c_uint)(E, 0xffff)
nid = f('OBJ_sn2nid', I, C.c_char_p)
_gc = f('ENGINE_get_cipher', P, P, I)
_gd = f('ENGINE_get_digest', P, P, I)


class Cipher:
    def __init__(self, name, key=None, iv=None, enc=1):
        self.x = f('EVP_CIPHER_CTX_new', P)()
        self.c = _gc(E, nid(name.encode()))
        assert self.c, name
        if key is not None:
            assert self.init(key, iv, enc) == 1

    def init(self, key, iv, enc=1, first=True):
        r = f('EVP_CipherInit_ex', I, P, P, P, C.c_char_p, C.c_char_p, I)(self.x, self.c if first else None, E if first else None, key, iv, enc)
        f('EVP_CIPHER_CTX_set_padding', I, P, I)(self.x, 0)
        return r

    def ctrl(self, cmd, arg, ptr=None):
        return f('EVP_CIPHER_CTX_ctrl', I, P, I, I, P)(self.x, cmd, arg, ptr)

    def update(self, d, aad=False, inplace=False):
        n = C.c_int(0)
        ib = C.create_string_buffer(bytes(d), len(d) + 64)
        ob = None if aad else (ib if inplace else C.create_string_buffer(len(d) + 64))
        r = f('EVP_CipherUpdate', I, P, P, P, P, I)(self.x, C.cast(ob, P) if ob is not None else None, C.cast(C.pointer(n), P), C.cast(ib, P), len(d))
        if r != 1:
            return None
        return b'' if aad else ob.raw[:n.value]

    def final(self):
        n = C.c_int(0)
        ob = C.create_string_buffer(64)
        r = f('EVP_CipherFinal_ex', I, P, P, P)(self.x, C.cast(ob, P), C.cast(C.pointer(n), P))
        return ob.raw[:n.value] if r == 1 else None

    def copy(self):
        d = Cipher.__new__(Cipher)
        d.c = self.c
        d.x = f('EVP_CIPHER_CTX_new', P)()
        return d if f('EVP_CIPHER_CTX_copy', I, P, P)(d.x, self.x) == 1 else None

    def free(self):
        f('EVP_CIPHER_CTX_free', None, P)(self.x)
        self.x = None

    def run(self, data, *cuts):
        out, p = b'', 0
        for c in list(cuts) + [len(data)]:
            out += self.update(data[p:c]) if c > p else b''
            p = c
        return out


class Digest:
    def __init__(self, name):
        self.x = f('EVP_MD_CTX_new', P)()
        self.m = _gd(E, nid(name.encode()))
        assert self.m, name
        assert self.init() == 1

    def init(self):
        return f('EVP_DigestInit_ex', I, P, P, P)(self.x, self.m, E)

    def ctrl(self, cmd, arg, ptr=None):
        if isinstance(ptr, bytes):
            b = C.create_string_buffer(ptr, len(ptr))
            ptr = C.cast(b, P)
        return f('EVP_MD_CTX_ctrl', I, P, I, I, P)(self.x, cmd, arg, ptr)

    def key(self, k):
        return self.ctrl(0x1004, len(k), k)

    def update(self, d):
        return f('EVP_DigestUpdate', I, P, C.c_char_p, C.c_size_t)(self.x, bytes(d), len(d))

    def final(self, size=None):
        ob = C.create_string_buffer(256)
        n = C.c_uint(0)
        r = f('EVP_DigestFinal_ex', I, P, P, P)(self.x, C.cast(ob, P), C.cast(C.pointer(n), P))
        return ob.raw[:size if size else n.value] if r == 1 else None

    def copy(self):
        d = Digest.__new__(Digest)
        d.m = self.m
        d.x = f('EVP_MD_CTX_new', P)()
        return d if f('EVP_MD_CTX_copy_ex', I, P, P)(d.x, self.x) == 1 else None

    def free(self):
        f('EVP_MD_CTX_free', None, P)(self.x)
        self.x = None


def check(what, got, want):
    if got != want:
        sh = lambda v: v[:40].hex() if isinstance(v, bytes) else repr(v)
        at = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), None) if isinstance(got, bytes) and isinstance(want, bytes) else None
        print('FAIL %s: got %s want %s (first difference at %s)' % (what, sh(got), sh(want), at))
        sys.exit(1)


def pattern(n, s=1):
    import hashlib
    return hashlib.shake_256(b'demo%d' % s).digest(n)
