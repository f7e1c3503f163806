"""OMAC-ACPKM."""
import ctypes
from dv import evp, xcheck, model, direct as dr, mdhist as mh, terms as tm, solver
from dv.exec import Ptr, NULL, Undecided
from dv.hist import Machine
from dv.ir import probe
from dv.machines import xorl, Z
from dv.terms import const
from props.C05 import kuz
from spec import modes as m, tasks as t

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 15, 200, 100
RULE = 'random keys, messages, section sizes N and T*, splits, MAC lengths; copies; re-use'
ASSUMPTIONS = ['EVP_EncryptInit_ex/EVP_Cipher of OpenSSL drive the two engine ciphers as documented: kuznyechik-cbc (its blocks: C05) and kuznyechik-ctr-acpkm (its keystream, in 48-byte pieces: C06); each call may fail',
               'the section size T* of the master key stream is at least 48 bytes (the key material of one section)',
               'the section sizes are set between the key and the first data',
               'EVP_get_cipherbyname, EVP_CIPHER_fetch, EVP_CIPHER_CTX_new and memory allocation may fail; otherwise they return a valid object']
ONE, ZERO, O64 = const(1, 32), const(0, 32), const(0, 64)
CBC, CTR = 'cipher:kuznyechik-cbc', 'cipher:kuznyechik-ctr-acpkm'
# ghost layout of an EVP_CIPHER_CTX: key, current iv, section size of the cipher, bytes of keystream used
KEY, IV, TT, POS, SIZE = 0, 32, 48, 56, 64


def feasible(y):
    return all(solver.feasible(y.pc[:k], y.pc[k]) for k in range(len(y.pc)))


def pull(T, pos):
    """48 bytes of the ACPKM-Master key stream from position pos: section key, subkey"""
    b = stream(model.symbytes('key', 32), T, pos)
    return b[:32], b[32:]


def stream(key, T, pos):
    # the first piece lies in the first section whatever T* >= 48
    return tm.bytes_of(tm.uf('acpkm-master', [tm.concat(key), const(4096, 32) if pos is O64 else T, pos], 384))


class OACPKM(Machine):
    """K, K1, iv, '#num', '#pos': after every whole block; l*: before the last one, which is kept until more data come"""
    unit = 1

    def __init__(self, E):
        self.E = E

    def start(self, sec=const(4096, 32), T=const(4096, 32), size=const(16, 64)):
        k, k1 = pull(T, O64)
        z = [Z] * 16
        G = {'K': k, 'K1': k1, 'buf': z, '#num': ZERO, '#pos': const(48, 64), 'part': z, 'pos': 0, 'n': False, 'm': False, '#sec': sec, '#T': T, '#size': size,
             'lK': k, 'lK1': k1, 'lbuf': z, '#lnum': ZERO, '#lpos': const(48, 64)}
        self.dep(G)
        return G

    def dep(self, G):
        if not G['n']:
            G['K'], G['K1'] = pull(G['#T'], O64)
            G['buf'], G['#num'], G['#pos'] = [Z] * 16, ZERO, const(48, 64)
        if G['n'] and not G['pos']:
            if G['m']:
                G['K'], G['K1'] = pull(G['#T'], G['#lpos'])
                G['#pos'] = tm.addc(G['#lpos'], 48)
                G['#num'] = const(16, 32)
            else:
                G['K'], G['K1'], G['#pos'] = G['lK'], G['lK1'], G['#lpos']
                G['#num'] = tm.addc(G['#lnum'], 16)
            G['buf'] = self.E(G['K'], xorl(G['lbuf'], G['part']))
        else:
            for k in ('K', 'K1', 'buf'):
                G['l' + k] = G[k]
            G['#lnum'], G['#lpos'] = G['#num'], G['#pos']

    def mesh(self, D, G):
        """section key for the next block"""
        m = D(tm.ule(G['#sec'], G['#num']))
        if m:
            G['K'], G['K1'] = pull(G['#T'], G['#pos'])
            G['#pos'] = tm.addc(G['#pos'], 48)
            G['#num'] = ZERO
        return m

    def step(self, D, G, ins):
        G = dict(G)
        part = list(G['part'])
        part[G['pos']] = ins[0]
        G['part'] = part
        if G['pos'] == 0:
            for k in ('K', 'K1', 'buf'):
                G['l' + k] = G[k]
            G['#lnum'], G['#lpos'] = G['#num'], G['#pos']
            G['m'] = False
        G['pos'] += 1
        if G['pos'] == 16:
            G['m'] = self.mesh(D, G)
            G['buf'] = self.E(G['K'], xorl(G['buf'], part))
            G['#num'] = tm.addc(G['#num'], 16)
            G['pos'] = 0
            G['n'] = True
        return G, None

    def inv(self, G):
        s = G['#sec']
        r = [tm.eq(tm.extract(s, 3, 0), const(0, 4)), tm.not_(tm.eq(s, ZERO)), tm.ule(const(1, 64), G['#size']), tm.ule(G['#size'], const(16, 64))]
        for k in ('#num', '#lnum'):
            r += [tm.ule(G[k], s), tm.eq(tm.extract(G[k], 3, 0), const(0, 4))]
        if G['n'] and not G['pos']:
            c = tm.ule(s, G['#lnum'])
            r.append(c if G['m'] else tm.not_(c))
        return r

    def derived(self, G):
        return {'nlast': const(G['pos'] or (16 if G['n'] else 0), 32)}

    def final(self, D, G):
        G = dict(G)
        if G['n'] and not G['pos']:
            return self.E(G['K'], xorl(xorl(G['lbuf'], G['part']), G['K1']))
        self.mesh(D, G)
        p = G['part'][:G['pos']] + [const(0x80, 8)] + [Z] * (15 - G['pos'])
        k1 = tm.concat(G['K1'][::-1])
        k2 = tm.xor(tm.shl(k1, const(1, 128)), tm.ite(tm.eq(tm.extract(k1, 127, 127), const(1, 1)), const(0x87, 128), const(0, 128)))
        return self.E(G['K'], xorl(xorl(G['buf'], p), tm.bytes_of(k2)[::-1]))

    def size(self, D, G):
        for k in range(1, 16):
            if D(tm.eq(G['#size'], const(k, 64))):
                return k
        return 16


def externs(nids):
    C = {}
    E, _ = kuz()

    def fail(s, v=ZERO):
        s.data['failed'] = 1
        return (s, v)

    def opaque(s, name):
        if name not in s.mem:
            s.new(name, 8, kind='opaque')
        return Ptr(name, 0)

    def txt2nid(ex, s, a, i):
        return const(nids.get(dr.cstr(ex, s, a[0], i.line), 0), 32)
    C['OBJ_txt2nid'] = txt2nid

    def byname(ex, s, a, i):
        n = dr.cstr(ex, s, a[0], i.line)
        f = s.fork()
        return [(s, opaque(s, 'cipher:' + n)), (f, NULL)]
    C['EVP_get_cipherbyname'] = byname
    C['EVP_CIPHER_fetch'] = lambda ex, s, a, i: byname(ex, s, a[1:], i)
    C['EVP_CIPHER_free'] = model.nop
    C['EVP_CIPHER_is_a'] = lambda ex, s, a, i: const(int(isinstance(a[0], Ptr) and a[0].obj == 'cipher:' + dr.cstr(ex, s, a[1], i.line)), 32)
    C['cipher_gost_grasshopper_ctracpkm'] = lambda ex, s, a, i: opaque(s, CTR)

    def new(ex, s, a, i):
        f = s.fork()
        p = s.new('evp', SIZE, init=lambda o: const(0, 8))
        s.data['kind.' + p.obj] = None
        return [(s, p), (f, NULL)]
    C['EVP_CIPHER_CTX_new'] = new

    def kind(s, p):
        if not isinstance(p, Ptr) or s.mem[p.obj].freed:
            raise Undecided('no valid cipher context')
        return s.data['kind.' + p.obj]

    def free(ex, s, a, i):
        if isinstance(a[0], Ptr):
            if s.mem[a[0].obj].freed:
                ex.res.fail('mem:double free of a cipher context', 'line %d' % i.line)
            s.w(a[0].obj).freed = True
    C['EVP_CIPHER_CTX_free'] = free

    def cleanup(ex, s, a, i):
        s.data['kind.' + a[0].obj] = None
        return ONE
    C['EVP_CIPHER_CTX_reset'] = C['EVP_CIPHER_CTX_cleanup'] = cleanup

    def init(ex, s, a, i):
        ctx, ciph, impl, key, iv = a
        kind(s, ctx)
        f = s.fork()
        if isinstance(ciph, Ptr):
            s.data['kind.' + ctx.obj] = ciph.obj
            s.wb(Ptr(ctx.obj, TT), tm.bytes_of(const(4096, 32)))
        k = kind(s, ctx)
        if k is None:
            return [fail(f)]
        if isinstance(key, Ptr):
            s.wb(Ptr(ctx.obj, KEY), ex.read_bytes(s, key, 32, i.line))
        if isinstance(iv, Ptr):
            s.wb(Ptr(ctx.obj, IV), ex.read_bytes(s, iv, 16, i.line))
        if isinstance(iv, Ptr) or isinstance(key, Ptr):
            s.wb(Ptr(ctx.obj, POS), [Z] * 8)
        return [(s, ONE), fail(f)]
    C['EVP_EncryptInit_ex'] = init

    def cipher(ex, s, a, i):
        ctx, out, inp, n = a
        k = kind(s, ctx)
        n = n.a
        f = s.fork()
        key = s.bytes(Ptr(ctx.obj, KEY), 32)
        iv = s.bytes(Ptr(ctx.obj, IV), 16)
        b = ex.read_bytes(s, inp, n, i.line)
        if k == CBC and n % 16 == 0:
            o = []
            for j in range(0, n, 16):
                iv = E(key, xorl(iv, b[j:j + 16]))
                o += iv
            s.wb(Ptr(ctx.obj, IV), iv)
        elif k == CTR and n == 48:
            if any(c is not const(0xff if j < 8 else 0, 8) for j, c in enumerate(iv)):
                raise Undecided('IV of the ACPKM-Master stream')
            pos, T = s.val(Ptr(ctx.obj, POS), 8), s.val(Ptr(ctx.obj, TT), 4)
            o = xorl(b, stream(key, T, pos))
            s.wb(Ptr(ctx.obj, POS), tm.bytes_of(tm.addc(pos, 48)))
        else:
            raise Undecided('EVP_Cipher on %s with %r bytes' % (k, n))
        ex.write_bytes(s, out, o, i.line)
        return [(s, ONE), fail(f)]
    C['EVP_Cipher'] = cipher
    C['EVP_CIPHER_CTX_get0_cipher'] = C['EVP_CIPHER_CTX_cipher'] = lambda ex, s, a, i: NULL if kind(s, a[0]) is None else Ptr(kind(s, a[0]), 0)
    C['EVP_CIPHER_CTX_get_block_size'] = C['EVP_CIPHER_CTX_block_size'] = lambda ex, s, a, i: const({CBC: 16, CTR: 1}[kind(s, a[0])], 32)
    C['EVP_CIPHER_get_key_length'] = C['EVP_CIPHER_key_length'] = lambda ex, s, a, i: const(32, 32)

    def setlen(ex, s, a, i):
        f = s.fork()
        return [(s, ONE), fail(f)] if a[1] is const(32, 32) else [fail(s)]
    C['EVP_CIPHER_CTX_set_key_length'] = setlen
    C['EVP_CIPHER_CTX_iv'] = lambda ex, s, a, i: Ptr(a[0].obj, IV)
    C['EVP_CIPHER_get0_provider'] = lambda ex, s, a, i: NULL

    def ctrl(ex, s, a, i):
        if kind(s, a[0]) != CTR or a[1] is not const(nids['EVP_CTRL_KEY_MESH'], 32):
            raise Undecided('control call of a cipher')
        f = s.fork()
        s.wb(Ptr(a[0].obj, TT), tm.bytes_of(a[2]))
        return [(s, ONE), fail(f)]
    C['EVP_CIPHER_CTX_ctrl'] = ctrl
    C['EVP_MD_is_a'] = lambda ex, s, a, i: ONE
    C['EVP_MD_get_block_size'] = C['EVP_MD_block_size'] = lambda ex, s, a, i: const(16, 32)
    return C


def begin(v):
    def f(R, S, M):
        name = 'omac-acpkm'
        out = []
        a32 = tm.var('#arg', 32)
        n64 = tm.var('#n', 64)

        def refuses(x, why):
            y = x.fork()
            for z, r in S.call(y, 'update', y.new('in', n64, kind='arr'), n64):
                R.cond('%s: update %s is refused' % (name, why), tm.eq(r, ZERO), z.pc)
            y = x.fork()
            o = y.new('md', 16, init=lambda o: tm.var('md0[%d]' % o, 8))
            for z, r in S.call(y, 'final', o):
                R.cond('%s: final %s is refused' % (name, why), tm.eq(r, ZERO), z.pc)
                R.eq('%s: final %s writes nothing' % (name, why), z.bytes(o, 16), model.symbytes('md0', 16), z.pc)
        for x, r in S.call(dr.zeroed(S.st.fork(), 'cd'), 'init'):
            R.cond('%s: init succeeds' % name, tm.eq(r, ONE), x.pc)
            refuses(x, 'without a key')
            y = x.fork()
            for z, q in S.ctrl(y, v['EVP_CTRL_KEY_MESH'], a32):
                R.cond('%s: section size without a key: refused' % name, tm.not_(tm.slt(ZERO, q)), z.pc)
            y = x.fork()
            y.assume(tm.not_(tm.eq(a32, ZERO)))
            y.assume(tm.not_(tm.eq(a32, const(32, 32))))
            for z, q in S.ctrl(y, v['EVP_MD_CTRL_SET_KEY'], a32, model.sym(y, 'key', 32)):
                R.cond('%s: a key of another length is refused' % name, tm.not_(tm.slt(ZERO, q)), z.pc)
                refuses(z, 'after a key of another length')
            keys = []
            y = x.fork()
            keys += S.ctrl(y, v['EVP_MD_CTRL_SET_KEY'], const(32, 32), model.sym(y, 'key', 32))
            y = x.fork()
            mk = y.new('mackey', 40, init=lambda o: tm.var('key[%d]' % (o - 4), 8) if 4 <= o < 36 else tm.var('mackey[%d]' % o, 8))
            keys += S.ctrl(y, v['EVP_MD_CTRL_SET_KEY'], ZERO, mk)
            good = 0
            for y, q in keys:
                if not dr.ptr_at(y, Ptr('cd', v['key_set'])) and y.val(Ptr('cd', v['key_set']), 4) is ZERO:
                    R.cond('%s: a failed key is reported' % name, tm.not_(tm.slt(ZERO, q)), y.pc)
                    refuses(y, 'after a failed key')
                    continue
                R.cond('%s: key accepted' % name, tm.slt(ZERO, q), y.pc)
                good += 1
                if y.data.pop('failed', None):
                    R.no('%s: a failure while setting the key is ignored' % name)
                for o in ('key', 'mackey'):
                    y.mem.pop(o, None)
                out.append((y.fork(), M.start()))
                # section sizes
                for withT in (0, 1):
                    w = y.fork()
                    w.data['a'], w.data['t'] = a32, tm.var('#targ', 32)
                    p = w.new('T', 4, init=lambda o: tm.extract(tm.var('#targ', 32), 8 * o + 7, 8 * o)) if withT else NULL
                    for u, g in S.ctrl(w, v['EVP_CTRL_KEY_MESH'], a32, p):
                        fl = u.data.pop('failed', None)
                        a, ta = u.data.pop('a'), u.data.pop('t')
                        legal = tm.and_(tm.not_(tm.eq(a, ZERO)), tm.eq(tm.extract(a, 3, 0), const(0, 4)))
                        ok = tm.slt(ZERO, g)
                        if fl:
                            R.cond('%s: a failure is reported' % name, tm.not_(ok), u.pc)
                            continue
                        R.cond('%s: section sizes are whole numbers of blocks, others are refused' % name, tm.eq(ok, legal), u.pc)
                        u.assume(ok)
                        u.assume(legal)
                        if not feasible(u):
                            continue
                        T = ta if withT and solver.feasible(u.pc, tm.not_(tm.eq(ta, ZERO))) else const(4096, 32)
                        u.mem.pop('T', None)
                        # the sizes are arbitrary from here on
                        out.append((u, M.start(a, T)))
                for u, g in S.ctrl(y.fork(), v['EVP_MD_CTRL_XOF_LEN'], a32):
                    ok = tm.slt(ZERO, g)
                    legal = tm.and_(tm.sle(ONE, a32), tm.sle(a32, const(16, 32)))
                    R.cond('%s: MAC lengths 1..16 are accepted, others refused' % name, tm.eq(ok, legal), u.pc)
                    for c in (ok, tm.not_(ok)):
                        b = u.fork()
                        b.assume(c)
                        if c is tm.FALSE or not feasible(b):
                            continue
                        if c is ok:
                            out.append((b, M.start(size=tm.sext(a32, 64))))
                        else:
                            R.truth('%s: a refused length changes nothing' % name, dr.cells(b, 'cd') == dr.cells(y, 'cd'))
            R.truth('%s: a key can be set' % name, good >= 2)
        return out
    return f


def prove(R):
    p = model.prog(['gost_omac_acpkm.c', 'gost_md.c'], R.tmp)
    v = probe(['openssl/objects.h', 'openssl/evp.h', 'gost_lcl.h'], ['NID_grasshopper_cbc', 'NID_magma_cbc', 'EVP_MD_CTRL_SET_KEY', 'EVP_MD_CTRL_XOF_LEN', 'EVP_CTRL_KEY_MESH'], workdir=R.tmp)
    v['key_set'] = 24
    ext = externs({'kuznyechik-cbc': v['NID_grasshopper_cbc'], 'magma-cbc': v['NID_magma_cbc'], 'EVP_CTRL_KEY_MESH': v['EVP_CTRL_KEY_MESH']})
    for f in ('EVP_EncryptInit_ex', 'EVP_Cipher', 'EVP_CIPHER_CTX_ctrl'):
        R.contracts[f] = 'assumed (OpenSSL, driving the ciphers of C05 and C06)'
    E, _ = kuz()
    M0 = OACPKM(E)
    R.parallel(mh.prove_digest(R, p, 'kuznyechik_ctracpkm_omac_digest', 'omac-acpkm', lambda: OACPKM(E), {}, begin(v), lambda D, G: M0.size(D, G), 16, persist=('#arg', '#targ'), externs=ext))


def setup(S):
    if S.rng.random() < 0.15:
        return (4096, 4096), None
    sec = S.rng.choice((16, 32, 48, 64, 128, 256))
    T = S.rng.choice((0, 48, 64, 80, 96, 144, 768)) if S.rng.random() < 0.7 else 0

    def apply(d, S):
        v = ctypes.c_int(T)
        return d.ctrl(evp.EVP_CTRL_KEY_MESH, sec, ctypes.addressof(v)) > 0
    return (sec, T or 4096), apply


def search(S):
    E = evp.Engine(S.lib)
    while S.more():
        xcheck.mac_case(S, E, 'kuznyechik-ctr-acpkm-omac', lambda k, d, p: m.omac_acpkm(t.kz, k, d, p[0], p[1]), (None, 1, 4, 8, 15, 16), setup=setup, marks=(16, 32, 64, 128, 256), big=700)
