"""The real code, compiled from /repo's working tree into a shared engine, driven through ctypes.
Used to replay counterexamples and for the searches for a concrete failing input."""
import ctypes as C
import ctypes.util
import glob
import os
import subprocess
import tempfile
import atexit
import shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('DV_REPO', '/repo')
DEFS = ['-DL_ENDIAN', '-DHAVE_ADDCARRY_U64', '-DENGINE_DIR="/x"']
SKIP = ('gost_prov.c', 'gost_prov_cipher.c', 'gost_prov_digest.c', 'gost_prov_mac.c', 'gostsum.c', 'gost12sum.c')


class BuildError(Exception):
    pass


def workdir():
    d = tempfile.mkdtemp(prefix='dvreal.')
    atexit.register(shutil.rmtree, d, True)
    return d


def build(out, asan=False, ecp=True):
    """-> path of the shared object"""
    os.makedirs(out, exist_ok=True)
    srcs = [s for s in sorted(glob.glob(REPO + '/*.c')) if os.path.basename(s) not in SKIP and not os.path.basename(s).startswith('test_')]
    flags = ['-std=gnu90', '-g', '-fPIC', '-w', '-fno-inline', '-fno-ipa-sra', '-fno-ipa-cp', '-I' + REPO] + DEFS
    if asan:
        flags += ['-fsanitize=address', '-fno-omit-frame-pointer']
    objs = []

    def one(s):
        o = os.path.join(out, os.path.basename(s) + '.o')
        opt = '-O0' if os.path.basename(s).startswith('ecp_') else '-O1'
        r = subprocess.run(['gcc', opt] + flags + ['-c', s, '-o', o], capture_output=True, text=True, timeout=300)
        if r.returncode:
            raise BuildError(s + ': ' + r.stderr[-1500:])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    so = os.path.join(out, 'gostreal.so')
    r = subprocess.run(['gcc', '-shared', '-o', so] + objs + ['-lcrypto'] + (['-fsanitize=address'] if asan else []), capture_output=True, text=True, timeout=300)
    if r.returncode:
        raise BuildError(r.stderr[-1500:])
    return so


class Lib:
    """functions (static ones too) of the real engine by name"""

    def __init__(self, so):
        self.so = so
        self.crypto = C.CDLL(ctypes.util.find_library('crypto') or 'libcrypto.so.3', mode=C.RTLD_GLOBAL)
        self.dll = C.CDLL(so, mode=C.RTLD_GLOBAL)
        self.syms = {}
        r = subprocess.run(['nm', so], capture_output=True, text=True)
        for l in r.stdout.splitlines():
            p = l.split()
            if len(p) == 3 and p[1] in 'tTdDbBrRuV':
                self.syms.setdefault(p[2], int(p[0], 16))
        self.base = None
        for l in open('/proc/self/maps'):
            if so in l:
                b = int(l.split('-')[0], 16)
                if self.base is None or b < self.base:
                    self.base = b

    def addr(self, name):
        return self.base + self.syms[name]

    def has(self, name):
        return name in self.syms

    def fn(self, name, res=C.c_int, *args):
        return C.CFUNCTYPE(res, *args)(self.addr(name))

    def cf(self, name, res=C.c_int, *args):
        f = getattr(self.crypto, name)
        f.restype = res
        f.argtypes = list(args)
        return f


_libc = C.CDLL(None)
_libc.malloc.restype = C.c_void_p
_libc.malloc.argtypes = [C.c_size_t]
_libc.free.argtypes = [C.c_void_p]


class Buf:
    """exactly sized heap buffer with guard bytes checked on free"""

    G = 64

    def __init__(self, data_or_n):
        data = bytes(data_or_n) if not isinstance(data_or_n, int) else bytes(data_or_n)
        self.n = len(data)
        self.p0 = _libc.malloc(self.n + 2 * self.G)
        C.memset(self.p0, 0xA5, self.n + 2 * self.G)
        self.p = self.p0 + self.G
        C.memmove(self.p, data, self.n)

    def get(self, n=None, off=0):
        return C.string_at(self.p + off, self.n if n is None else n)

    def set(self, data, off=0):
        C.memmove(self.p + off, bytes(data), len(data))

    def ok(self):
        g = b'\xA5' * self.G
        return C.string_at(self.p0, self.G) == g and C.string_at(self.p + self.n, self.G) == g

    def free(self):
        if self.p0:
            _libc.free(self.p0)
            self.p0 = None

    def __del__(self):
        self.free()
