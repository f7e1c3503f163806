"""Copied cipher and digest contexts."""
import ctypes
import os
from dv import evp, xcheck, model, g89, direct as dr, mdhist as mh, cphist as ch, evpmodel as em, terms as tm
from dv.exec import Ptr, FPtr, PB, NULL, T, Undecided
from dv.ir import probe
from dv.terms import const
from props.C05 import SRC as BASE
from props.C01 import OPEN

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 25, 200, 100
ASAN = True
RULE = 'every algorithm copied at random points; original and copy continued, finalised and freed in every order, against two uncopied runs'
ASSUMPTIONS = ['EVP_CIPHER_CTX_copy and EVP_MD_CTX_copy_ex of OpenSSL duplicate the context and its private data bytewise and then call the engine',
               'EVP_MD_CTX_copy, EVP_CIPHER_CTX_copy and CMAC_CTX_copy on inner contexts give independent equal contexts',
               'pointers of the private data have the shape key setup gives them; all other bytes are arbitrary']
SRC = BASE + ['gost_md2012.c', 'gosthash.c', 'gosthash2012.c', 'gost_omac.c', 'gost_omac_acpkm.c', 'gost_keyexpimp.c']
KEEP = ((['gost_crypt.c'], [('offsetof(struct ossl_gost_cipher_ctx, omac_ctx)', 8), ('offsetof(gost_mgm_ctx, mgm.key)', 8), ('offsetof(gost_mgm_ctx, iv)', 8)]),
        (['gost_grasshopper_cipher.c'], [('offsetof(gost_grasshopper_cipher_ctx_ctr, omac_ctx)', 8), ('offsetof(gost_grasshopper_cipher_ctx_ctr, c.type)', 4)]))
ONE, ZERO = const(1, 32), const(0, 32)
CIPHERS = ['Gost28147_89_cipher', 'Gost28147_89_cbc_cipher', 'Gost28147_89_cnt_cipher', 'Gost28147_89_cnt_12_cipher', 'magma_ctr_cipher', 'magma_ctr_acpkm_cipher', 'magma_ctr_acpkm_omac_cipher', 'magma_ecb_cipher', 'magma_cbc_cipher', 'magma_mgm_cipher'] + \
    ['grasshopper_%s_cipher' % x for x in ('ecb', 'cbc', 'cfb', 'ofb', 'ctr', 'ctr_acpkm', 'ctr_acpkm_omac', 'mgm')] + ['magma_kexp15_cipher', 'kuznyechik_kexp15_cipher']
DIGESTS = ['GostR3411_94_digest', 'Gost28147_89_MAC_digest', 'Gost28147_89_mac_12_digest', 'GostR3411_2012_256_digest', 'GostR3411_2012_512_digest', 'magma_mac_digest', 'grasshopper_mac_digest', 'kuznyechik_ctracpkm_omac_digest']


def externs(v):
    """inner contexts: created, copied, freed; everything else of the key setup succeeds"""
    C = {}

    def new(kind):
        def h(ex, s, a, i):
            f = s.fork()
            f.data['failed'] = True
            return [(s, dr.opaque(s, kind)), (f, NULL)]
        return h
    C['EVP_MD_CTX_new'] = new('mdctx')
    C['EVP_CIPHER_CTX_new'] = new('cictx')
    C['CMAC_CTX_new'] = new('cmac')

    def alloc(h):
        def g(ex, s, a, i):
            out = h(ex, s, a, i)
            for x, p in out:
                if p is NULL:
                    x.data['failed'] = True
            return out
        return g
    for n in ('CRYPTO_malloc', 'CRYPTO_zalloc', 'malloc', 'calloc', 'CRYPTO_calloc'):
        if n in model.BASE:
            C[n] = alloc(model.BASE[n])

    def free(ex, s, a, i):
        if isinstance(a[0], Ptr):
            if s.mem[a[0].obj].freed:
                ex.res.fail('mem:double free of an inner context', 'line %d' % i.line)
            s.w(a[0].obj).freed = True
    for n in ('EVP_MD_CTX_free', 'EVP_CIPHER_CTX_free', 'CMAC_CTX_free'):
        C[n] = free

    def copy(ex, s, a, i):
        if not all(isinstance(x, Ptr) and not s.mem[x.obj].freed for x in a[:2]):
            ex.res.fail('mem:inner contexts are valid', 'line %d: %r' % (i.line, a[:2]))
            f = s.fork()
            f.data['failed'] = True
            return [(f, ZERO)]
        f = s.fork()
        f.data['failed'] = True
        s.data['copy.' + a[0].obj] = a[1].obj
        return [(s, ONE), (f, ZERO)]
    for n in ('EVP_MD_CTX_copy', 'EVP_MD_CTX_copy_ex', 'EVP_CIPHER_CTX_copy', 'CMAC_CTX_copy'):
        C[n] = copy
    C['EVP_CIPHER_CTX_set_flags'] = model.nop
    C['EVP_CIPHER_CTX_block_size'] = C['EVP_CIPHER_CTX_get_block_size'] = lambda ex, s, a, i: const(16, 32)
    return C


def setup_externs():
    """key setup always succeeds"""
    C = {}

    def name(ex, s, a, i):
        nm = 'o:%s:%r' % (i.line, len(a))
        if nm not in s.mem:
            s.new(nm, 8, kind='opaque')
        return Ptr(nm, 0)
    for n in ('OBJ_nid2sn', 'EVP_get_digestbyname', 'EVP_get_cipherbyname', 'EVP_CIPHER_fetch', 'EVP_PKEY_new_mac_key', 'EVP_MD_fetch', 'cipher_gost_grasshopper_ctracpkm', 'EVP_CIPHER_CTX_get0_cipher', 'EVP_CIPHER_CTX_cipher'):
        C[n] = name
    for n in ('EVP_DigestInit_ex', 'EVP_DigestSignInit', 'CMAC_Init', 'CMAC_Update', 'EVP_EncryptInit_ex', 'EVP_CIPHER_CTX_set_key_length', 'EVP_Cipher', 'EVP_CIPHER_CTX_ctrl', 'EVP_CIPHER_CTX_cleanup', 'EVP_CIPHER_CTX_reset', 'EVP_CIPHER_is_a', 'EVP_MD_is_a'):
        C[n] = model.ret(1)
    for n in ('EVP_CIPHER_free', 'EVP_PKEY_free', 'EVP_MD_free'):
        C[n] = model.nop
    C['OBJ_txt2nid'] = lambda ex, s, a, i: tm.var('nid', 32)
    C['EVP_CIPHER_get_key_length'] = C['EVP_CIPHER_key_length'] = lambda ex, s, a, i: const(32, 32)
    C['EVP_CIPHER_get0_provider'] = lambda ex, s, a, i: NULL
    C['EVP_CIPHER_CTX_iv'] = lambda ex, s, a, i: Ptr('E.CTX', em.IV)
    C['gost_kdftree2012_256'] = lambda ex, s, a, i: (ex.write_bytes(s, a[0], [tm.fresh('kdf', 8) for _ in range(a[1].a)], i.line), ONE)[1]
    C['gost_tlstree'] = lambda ex, s, a, i: ONE
    return C


def smear(s, objs, keep=()):
    """every byte that is no (possibly null) pointer and no type tag becomes arbitrary"""
    for o in objs:
        if s.mem[o].kind == 'opaque':
            continue
        for i in range(s.mem[o].size):
            if isinstance(s.rb(o, i), T) and not (o == 'cd' and i in keep):
                s.wb(Ptr(o, i), [tm.var('any.%s[%d]' % (o, i), 8)])


def reach(s, roots):
    """objects (no globals) reachable from the private data"""
    out, work = [], list(roots)
    while work:
        o = work.pop()
        if o in out:
            continue
        out.append(o)
        if s.mem[o].kind == 'opaque':
            continue
        for i in range(s.mem[o].size):
            b = s.rb(o, i)
            if isinstance(b, PB) and isinstance(b.p, Ptr) and b.p.obj in s.mem and not isglob(s, b.p.obj):
                work.append(b.p.obj)
    return out


def isglob(s, o):
    return o.startswith('g:') or o.startswith('@') or o.startswith('o:') or o.startswith('cipher:') or getattr(s.mem.get(o), 'kind', '') == 'glob' or o not in s.mem


class Iso:
    """the copy is equal to the original and shares nothing with it"""

    def __init__(self, R, name, before, after, slack=()):
        self.R, self.name, self.b, self.x = R, name, before, after
        self.map = {}
        self.slack = dict(slack)

    def pair(self, o, p):
        """object o of the original, p of the copy"""
        R, nm = self.R, self.name
        if o in self.map:
            R.truth('%s: one private object for each of the original' % nm, self.map[o] == p)
            return
        self.map[o] = p
        if self.b.mem[o].kind == 'opaque':
            R.truth('%s: inner context is copied' % nm, self.x.data.get('copy.' + p) == o and not self.x.mem[p].freed)
            return
        if p not in self.x.mem or self.x.mem[p].freed or self.x.mem[p].size != self.b.mem[o].size:
            R.truth('%s: private object of the same kind' % nm, False)
            return
        xs, ys = [], []
        for i in range(self.b.mem[o].size):
            a, c = self.b.rb(o, i), self.x.rb(p, i)
            if isinstance(a, T) != isinstance(c, T):
                R.truth('%s: bytes of the copy equal the original' % nm, False)
                return
            if isinstance(a, T):
                if i not in self.slack.get(o, ()):
                    xs.append(c)
                    ys.append(a)
                continue
            if a.i:
                continue
            P, Q = a.p, c.p
            if isinstance(P, FPtr) or isglob(self.b, P.obj):
                R.truth('%s: pointers to constants are kept' % nm, P == Q)
                continue
            R.truth('%s: inner pointers keep their place' % nm, isinstance(Q, Ptr) and P.off is Q.off)
            if isinstance(Q, Ptr):
                self.pair(P.obj, Q.obj)
        R.eq('%s: bytes of the copy equal the original' % nm, xs, ys, self.x.pc)

    def done(self, roots):
        mine, theirs = set(self.map), set(self.map.values())
        self.R.truth('%s: the copy shares nothing with the original' % self.name, not (mine & theirs) and not (theirs & set(reach(self.b, roots))))
        for o in mine:
            if self.b.mem[o].kind != 'opaque':
                self.R.truth('%s: the original is left alone' % self.name, dr.cells(self.b, o) == dr.cells(self.x, o) and not self.x.mem[o].freed)
            else:
                self.R.truth('%s: the original is left alone' % self.name, not self.x.mem[o].freed and 'copy.' + o not in self.x.data)


def clone(st, o, p):
    st.new(p, st.mem[o].size, init=lambda i: const(0, 8))
    st.wb(Ptr(p, 0), [st.rb(o, i) for i in range(st.mem[o].size)])
    return Ptr(p, 0)


def unshared(R, glob, x, y):
    """releasing the remains of a failed copy leaves the original alone"""
    mine = {o for o in reach(x, ['cd']) if o != 'cd'}
    R.truth('%s: a failed copy shares nothing with the original' % glob, not mine & set(reach(y, ['cd2'])) and not any(y.mem[o].freed for o in mine))


def shapes(out):
    """distinct pointer shapes of the private data"""
    seen = {}
    for x in out:
        k = tuple((i, b.p.obj if isinstance(b.p, Ptr) else str(b.p)) for i, b in enumerate(dr.cells(x, 'cd')) if isinstance(b, PB) and not b.i) if 'cd' in x.mem else ()
        seen.setdefault(k, x)
    return list(seen.values())


def cipher(p, glob, v, C):
    def f(R):
        ext = externs(v)
        ext.update(setup_externs())
        for k in ('EVP_CIPHER_CTX_iv', 'EVP_CIPHER_CTX_cipher', 'EVP_CIPHER_CTX_get0_cipher'):
            ext.pop(k, None)
        S = ch.Setup(R, p, glob, 1, C, externs=ext)
        flags = S.meth['flags']
        S.meth['klen'] = 64 if 'kexp15' in glob else 32
        if 'cd' not in S.st.mem:
            R.truth('%s: no private data' % glob, True)
            return
        base = dr.zeroed(S.st.fork(), 'cd')
        starts = [base]
        if flags & v['EVP_CIPH_CTRL_INIT']:
            starts = [x for x, r in S.ctrl(base, v['EVP_CTRL_INIT'], ZERO)]
        if flags & v['EVP_CIPH_ALWAYS_CALL_INIT']:
            starts = [x for b in starts for x, r in S.init(b, key=False, iv=False)]
        keyed = []
        for b in starts:
            for key in (True, False):
                for x, r in S.init(b, key=key):
                    if not x.data.pop('failed', None):
                        keyed.append(x)
        R.truth('%s: a key can be set' % glob, len(keyed) > 0)
        for x in shapes(starts + keyed):
            x = x.fork()
            x.data.pop('failed', None)
            smear(x, reach(x, ['cd', 'E.CTX']), v['keep'](glob))
            out = x.new('OUT', 8, kind='opaque')
            clone(x, 'E.CTX', 'E.OUT')
            clone(x, 'cd', 'cd2')
            x.data['cd.OUT'] = 'cd2'
            if 'app.CTX' in x.data:
                x.data['app.OUT'] = x.data['app.CTX']
            if flags & v['EVP_CIPH_CUSTOM_COPY']:
                ends = S.ctrl(x, v['EVP_CTRL_COPY'], ZERO, out)
            else:
                ends = [(x.fork(), ONE)]
            good = 0
            for y, r in ends:
                if y.data.get('failed'):
                    R.cond('%s: a failed copy is reported' % glob, tm.not_(tm.slt(ZERO, r)), y.pc)
                    unshared(R, glob, x, y)
                    continue
                good += 1
                R.cond('%s: copy succeeds' % glob, tm.slt(ZERO, r), y.pc)
                I = Iso(R, glob, x, y)
                I.pair('E.CTX', 'E.OUT')
                I.pair('cd', 'cd2')
                I.done(['cd', 'E.CTX'])
            R.truth('%s: copies are made' % glob, good > 0)
        R.absorb(S.ex, glob)
    return [(glob, f)]


def digest(p, glob, v, C, slack):
    def f(R):
        ext = setup_externs()
        ext.update(externs(v))
        S = mh.MSetup(R, p, glob, C, externs=ext)
        base = dr.zeroed(S.st.fork(), 'cd')
        pts = [x for x, r in S.call(base, 'init')]
        keyed = []
        for x in pts:
            if not isinstance(S.meth.get('ctrl'), FPtr):
                continue
            y = x.fork()
            for z, r in S.ctrl(y, v['EVP_MD_CTRL_SET_KEY'], const(32, 32), model.sym(y, 'key', 32)):
                z.mem.pop('key', None)
                if not z.data.pop('failed', None):
                    keyed.append(z)
        for x in shapes(pts + keyed):
            x = x.fork()
            x.data.pop('failed', None)
            objs = reach(x, ['cd'])
            smear(x, objs, v['OMAC_CTX'] if glob in ('magma_mac_digest', 'grasshopper_mac_digest') else v['OMAC_ACPKM_CTX'] if 'omac' in glob else ())
            sl = {}
            for o in objs:
                if o != 'cd' and x.mem[o].kind != 'opaque':
                    sl[o] = slack
                    if v['nlast'] + 4 <= x.mem[o].size:
                        x.assume(tm.not_(tm.eq(x.val(Ptr(o, v['nlast']), 4), const(0xffffffff, 32))))
            to = x.new('TO', 8, kind='opaque')
            clone(x, 'cd', 'cd2')
            x.data['md.TO'] = 'cd2'
            good = 0
            for kind, y, r in model.runall(S.ex, x.fork(), em.fname(S.meth['copy']), [to, S.ctx]) if isinstance(S.meth.get('copy'), FPtr) else [('ret', x.fork(), ONE)]:
                if kind != 'ret':
                    continue
                if y.data.get('failed'):
                    R.cond('%s: a failed copy is reported' % glob, tm.not_(tm.slt(ZERO, r)), y.pc)
                    unshared(R, glob, x, y)
                    continue
                good += 1
                R.cond('%s: copy succeeds' % glob, tm.slt(ZERO, r), y.pc)
                I = Iso(R, glob, x, y, sl)
                I.pair('cd', 'cd2')
                I.done(['cd'])
            R.truth('%s: copies are made' % glob, good > 0)
        R.absorb(S.ex, glob)
    return [(glob, f)]


def prove(R):
    p = model.prog(SRC, R.tmp)
    v = probe(['openssl/evp.h', 'gost_lcl.h'], ['EVP_CIPH_ALWAYS_CALL_INIT', 'EVP_CIPH_CUSTOM_COPY', 'EVP_CIPH_CTRL_INIT', 'EVP_CTRL_INIT', 'EVP_CTRL_COPY', 'EVP_MD_CTRL_SET_KEY'], workdir=R.tmp)
    w = probe(['gost_omac_acpkm.c'], ['offsetof(CMAC_ACPKM_CTX, nlast_block)', 'offsetof(CMAC_ACPKM_CTX, tbl)', 'offsetof(CMAC_ACPKM_CTX, last_block)', 'offsetof(CMAC_ACPKM_CTX, num)', 'sizeof(CMAC_ACPKM_CTX)'], workdir=R.tmp)
    slack = [w['offsetof(CMAC_ACPKM_CTX, %s)' % n] + 16 + j for n in ('tbl', 'last_block') for j in range(16)]
    slack += range(w['offsetof(CMAC_ACPKM_CTX, num)'] + 4, w['sizeof(CMAC_ACPKM_CTX)'])
    v['nlast'] = w['offsetof(CMAC_ACPKM_CTX, nlast_block)']
    gz = probe(KEEP[0][0], [e for e, n in KEEP[0][1]] + ['sizeof(gost_mgm_ctx)'], workdir=R.tmp)
    kz = probe(KEEP[1][0], [e for e, n in KEEP[1][1]], workdir=R.tmp)
    for src, e in (('gost_omac.c', 'OMAC_CTX'), ('gost_omac_acpkm.c', 'OMAC_ACPKM_CTX')):
        q = probe([src], ['offsetof(%s, %s)' % (e, n) for n in ('cmac_ctx', 'cipher_name')], workdir=R.tmp)
        v[e] = {o + j for o in q.values() for j in range(8)}

    def keep(glob):
        if 'mgm' in glob:
            t = [('offsetof(gost_mgm_ctx, mgm.key)', 8), ('offsetof(gost_mgm_ctx, iv)', 8)]
        elif glob.startswith('grass'):
            t = KEEP[1][1]
        else:
            t = KEEP[0][1][:1]
        d = kz if glob.startswith('grass') and 'mgm' not in glob else gz
        return {d[e] + j for e, n in t for j in range(n)}
    v['keep'] = keep
    C = em.kuz_contracts()
    C.update(g89.contracts(R))
    C.update(g89.param_contracts({'nid': None}))
    for q in ("gost_kdftree2012_256", "gost_tlstree", "cipher_gost_grasshopper_ctracpkm"):
        C[q] = setup_externs()[q]
    R.contracts['EVP_*, CMAC_* on inner contexts, OBJ_*'] = 'assumed (OpenSSL)'
    T = []
    for g in CIPHERS:
        T += cipher(p, g, v, C)
    for g in DIGESTS:
        T += digest(p, g, v, C, slack)
    R.parallel(T)



NAMES = {'gost89': (8, 1), 'gost89-cbc': (8, 8), 'gost89-cnt': (8, 1), 'gost89-cnt-12': (8, 1), 'magma-ctr': (4, 1), 'magma-ctr-acpkm': (4, 1), 'magma-ecb': (0, 8), 'magma-cbc': (8, 8), 'magma-mgm': (8, 1),
         'kuznyechik-ecb': (0, 16), 'kuznyechik-cbc': (16, 16), 'kuznyechik-cfb': (16, 1), 'kuznyechik-ofb': (16, 1), 'kuznyechik-ctr': (8, 1), 'kuznyechik-ctr-acpkm': (8, 1), 'kuznyechik-mgm': (16, 1)}
DNAMES = ['md_gost94', 'md_gost12_256', 'md_gost12_512', 'gost-mac', 'gost-mac-12', 'magma-mac', 'kuznyechik-mac', 'kuznyechik-ctr-acpkm-omac']
OMACS = {'magma-ctr-acpkm-omac': (4, 'magma'), 'kuznyechik-ctr-acpkm-omac': (8, 'kuznyechik')}
GET_TAG = 0x10


def apply(c, op):
    """one step of a program on a context"""
    k = op[0]
    if isinstance(c, evp.Cipher):
        if k == 'init':
            r = c.init(op[1], op[2], op[3], first=op[4])
            c.nopad()
            return r
        if k == 'upd':
            return c.update(op[1])
        if k == 'aad':
            return c.update(op[1], aad=True)
        if k == 'mesh':
            return c.ctrl(evp.EVP_CTRL_KEY_MESH, op[1])
        if k == 'fin':
            return c.final()
        b = evp.Buf(16)
        return c.ctrl(GET_TAG, op[1], b.p), b.get()[:op[1]]
    if k == 'init':
        return c.init()
    if k == 'key':
        b = evp.Buf(op[1])
        return c.ctrl(evp.MD_SET_KEY, 32, b.p)
    if k == 'sec':
        return c.ctrl(evp.EVP_CTRL_KEY_MESH, op[1])
    if k == 'tls':
        b = evp.Buf(op[1])
        return c.ctrl(evp.MD_TLSTREE, 0, b.p)
    if k == 'xof':
        return c.ctrl(evp.MD_XOF_LEN, op[1])
    if k == 'upd':
        return c.update(op[1])
    return c.final()


def program(S, sn, cipher):
    rng = S.rng
    out = []
    data = lambda: S.bytes(rng.choice((0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 100, 300)))
    if not cipher:
        out.append(('init',))
        if not sn.startswith('md_'):
            out.append(('key', S.bytes(32)))
        if sn.endswith('omac') and rng.random() < 0.7:
            out.append(('sec', rng.choice((16, 32, 48))))
        if sn.endswith('mac') and rng.random() < 0.3:
            out.append(('xof', rng.randrange(1, 5)))
        return out + [('upd', data()) for _ in range(rng.randrange(0, 4))]
    ivl, unit = NAMES[sn]
    cut = lambda d: d[:len(d) - len(d) % unit]
    enc = rng.randrange(2)
    r = rng.random()
    iv = S.bytes(ivl) if ivl else None
    if iv and sn == 'kuznyechik-mgm' or sn == 'magma-mgm':
        iv = bytes([iv[0] & 127]) + iv[1:]
    key = S.bytes(32)
    if r < 0.6:
        out.append(('init', key, iv, enc, True))
    else:
        out.append(('init', None, None, enc, True))
        out.append(('init', key, iv, enc, False))
    if 'acpkm' in sn and rng.random() < 0.6:
        out.append(('mesh', rng.choice((16, 32, 64, 96))))
    if 'mgm' in sn:
        out += [('aad', data() or b'a') for _ in range(rng.randrange(0, 3))]
    for _ in range(rng.randrange(0, 4)):
        d = cut(data())
        if d:
            out.append(('upd', d))
    return out


def finish(S, sn, cipher):
    out = program(S, sn, cipher)
    if cipher:
        out = [o for o in out if o[0] == 'upd']
        if 'mgm' in sn:
            out += [('fin',), ('tag', 16 if sn[0] == 'k' else 8)]
        return out
    return ([('tls', S.bytes(8))] if sn in ('magma-mac', 'kuznyechik-mac') and S.rng.random() < 0.4 else []) + [o for o in out if o[0] == 'upd'] + [('fin',)]


def search(S):
    from spec import modes as m
    E = evp.Engine(S.lib)
    rng = S.rng
    n = 0
    off = {'magma': (['gost_crypt.c'], 'offsetof(struct ossl_gost_cipher_ctx, kdf_seed)'), 'kuznyechik': (['gost_grasshopper_cipher.c'], 'offsetof(gost_grasshopper_cipher_ctx_ctr, kdf_seed)')}
    seeds = {k: probe(i, [e], workdir=os.environ.get('DV_TMP', '/tmp'))[e] for k, (i, e) in off.items()}

    def mk(sn, cipher):
        return evp.Cipher(E, sn) if cipher else evp.Digest(E, sn)

    def straight(sn, cipher, ops):
        c = mk(sn, cipher)
        out = [apply(c, o) for o in ops]
        c.free()
        return out

    def omac(sn):
        """data encrypted through a copy; the tag is taken from the copy and from the original"""
        ivl, kind = OMACS[sn]
        key, iv = S.bytes(32), S.bytes(ivl)
        a, b, x = (S.bytes(rng.choice((0, 1, 8, 16, 33, 100))) for _ in range(3))
        early = rng.random() < 0.25
        S.case(kind='copy of a CTR-ACPKM-OMAC context', name=sn, key=key, iv=iv, before=a, copy=b, original=x, before_key=early)
        c = evp.Cipher(E, sn)
        if early:
            c.init(None, None, 1)
            d = c.copy()
            if d is None:
                S.fail('%s: copy before the key fails' % sn)
            c.init(key, iv, 1, first=False)
            d.init(key, iv, 1, first=False)
            a = b''
        else:
            c.init(key, iv, 1)
            if a:
                c.update(a)
            d = c.copy()
            if d is None:
                S.fail('%s: copy fails' % sn)
        sz = 8 if kind == 'magma' else 16
        for z, msg, w in rng.sample([(c, x, 'original'), (d, b, 'copy')], 2):
            seed = ctypes.string_at(E.c_data(z.x) + seeds[kind], 8)
            want, tag = m.ctr_acpkm_omac(kind, key, iv, a + msg, seed, 1024 if kind == 'magma' else 4096)
            if msg:
                S.expect(z.update(msg), want[len(a):], '%s: the %s continues differently' % (sn, w))
            if z.final() is None:
                S.fail('%s: the %s cannot be finalised' % (sn, w))
            S.expect(ctypes.string_at(E.c_data(z.x) + tags[kind], sz), tag, '%s: wrong tag in the %s' % (sn, w))
            z.free()
    tag = {'magma': (['gost_crypt.c'], 'offsetof(struct ossl_gost_cipher_ctx, tag)'), 'kuznyechik': (['gost_grasshopper_cipher.c'], 'offsetof(gost_grasshopper_cipher_ctx_ctr, tag)')}
    tags = {k: probe(i, [e], workdir=os.environ.get('DV_TMP', '/tmp'))[e] for k, (i, e) in tag.items()}
    todo = [(x, True) for x in NAMES] + [(x, False) for x in DNAMES] + [(x, None) for x in OMACS]
    while S.more():
        sn, cipher = todo[n % len(todo)]
        n += 1
        if cipher is None:
            omac(sn)
            continue
        pre = program(S, sn, cipher)
        at = rng.randrange(1, len(pre) + 1)
        if rng.random() < 0.3:
            at = rng.randrange(1, min(3, len(pre)) + 1)
        rest = pre[at:]
        pre = pre[:at]
        tails = [rest + finish(S, sn, cipher) if any(o[0] == 'key' or o[0] == 'init' for o in rest) or rng.random() < 0.5 else finish(S, sn, cipher) for _ in range(2)]
        S.case(kind='copied context', name=sn, before=repr(pre), original=repr(tails[0]), copy=repr(tails[1]))
        w0, w1 = straight(sn, cipher, pre + tails[0]), straight(sn, cipher, pre + tails[1])
        c = mk(sn, cipher)
        g = [apply(c, o) for o in pre]
        d = c.copy()
        if d is None:
            S.fail('%s: copy fails' % sn)
        if rng.random() < 0.2:
            e = d.copy()
            d.free()
            d = e
        gs, cs = [list(g), list(g)], [c, d]
        todo2 = [0] * len(tails[0]) + [1] * len(tails[1])
        r = rng.random()
        if r < 0.5:
            rng.shuffle(todo2)
        elif r < 0.75:
            todo2.reverse()
        pos = [0, 0]
        for k in todo2:
            gs[k].append(apply(cs[k], tails[k][pos[k]]))
            pos[k] += 1
            if pos[k] == len(tails[k]):
                cs[k].free()
        for k in cs:
            k.free()
        S.expect(repr(gs[1]), repr(w1), '%s: the copy behaves differently from an uncopied context' % sn)
        S.expect(repr(gs[0]), repr(w0), '%s: the original is disturbed by its copy' % sn)
