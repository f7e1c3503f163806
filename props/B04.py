"""GOST R 34.11-94 digest."""
import ctypes
from dv import evp, xcheck, model, g89, direct as dr, mdhist as mh, terms as tm
from dv.exec import Exec, State, Ptr, Undecided
from dv.hist import Machine
from dv.ir import probe
from dv.real import Buf
from dv.terms import const
from spec import ciphers as sp
from props.C05 import SRC

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 15, 200, 100
RULE = 'random messages, splits, re-initialised and copied contexts; blocks of all ones and long carries; gosthash.c called directly with every S-box set'
ASSUMPTIONS = ['messages shorter than 2^60 bytes']
Z = const(0, 8)
DF = 'GostR3411_94_CryptoProParamSet'


def step(H, M, tag):
    return tm.bytes_of(tm.uf('g94step', [tm.concat(H), tm.concat(M), tag], 256))


def add(S, M):
    return tm.bytes_of(tm.add(tm.concat(S), tm.concat(M)))


class G94(Machine):
    unit = 1

    def __init__(self, tag):
        self.tag = tag

    def start(self):
        z = [Z] * 32
        return {'H': z, 'S': z, 'part': z, 'pos': 0, '#len': const(0, 64)}

    def step(self, D, G, ins):
        G = dict(G)
        part = list(G['part'])
        part[G['pos']] = ins[0]
        G['part'] = part
        G['pos'] += 1
        if G['pos'] == 32:
            G['pos'] = 0
            G['H'] = step(G['H'], part, self.tag)
            G['S'] = add(G['S'], part)
            G['#len'] = tm.addc(G['#len'], 32)
        self.dep(G)
        return G, None

    def dep(self, G):
        # bytes of an unfinished block only
        G['part'] = G['part'][:G['pos']] + [Z] * (32 - G['pos'])

    def inv(self, G):
        return [tm.eq(tm.extract(G['#len'], 4, 0), const(0, 5))]

    def derived(self, G):
        return {'left': const(G['pos'], 32), 'sb': self.tag}

    def final(self, D, G):
        H, S = G['H'], G['S']
        z = [Z] * 32
        n = tm.addc(G['#len'], G['pos'])
        if G['pos']:
            p = G['part'][:G['pos']] + [Z] * (32 - G['pos'])
            H, S = step(H, p, self.tag), add(S, p)
        elif D(tm.eq(n, const(0, 64))):
            H = step(H, z, self.tag)
        H = step(H, tm.bytes_of(tm.shl(tm.zext(n, 256), const(3, 256))), self.tag)
        return step(H, S, self.tag)


def short(call):
    """the domain: fewer than 2^60 bytes"""
    push = call.push

    def p(H, st, G):
        st.assume(tm.ult(G['#len'], const((1 << 60) - 64, 64)))
        return push(H, st, G)
    call.push = p
    return call


def contracts(R):
    """of the static helpers of gosthash.c, proved by helpers()"""
    C = g89.contracts(R)
    v = probe(['gost89.h'], ['__builtin_offsetof(gost_ctx, %s)' % f for f in ('key', 'mask', 'k87', 'k65', 'k43', 'k21')], workdir=R.tmp)
    v = list(v.values())

    def hstep(ex, s, a, i):
        t = [ex.read_bytes(s, a[0].add(o), 1, i.line)[0] for o in v[2:]]
        if any(x is not t[0] for x in t):
            raise Undecided('S-box tables of different sets')
        H = ex.read_bytes(s, a[1], 32, i.line)
        M = ex.read_bytes(s, a[2], 32, i.line)
        # the key schedule of the cipher context is scratch space
        for o in v[:2]:
            ex.write_bytes(s, a[0].add(o), [tm.fresh('scratch', 8) for _ in range(32)], i.line)
        ex.write_bytes(s, a[1], step(H, M, t[0]), i.line)
        return const(1, 32)

    def addb(ex, s, a, i):
        if a[0].op != 'c' or a[0].a != 32:
            raise Undecided('add_blocks of another length')
        x = ex.read_bytes(s, a[1], 32, i.line)
        y = ex.read_bytes(s, a[2], 32, i.line)
        ex.write_bytes(s, a[1], add(x, y), i.line)
        c = tm.add(tm.zext(tm.concat(x), 257), tm.zext(tm.concat(y), 257))
        return tm.zext(tm.extract(c, 256, 256), 32)
    return C, dict(C, hash_step=hstep, add_blocks=addb)


def helpers(p, C):
    def hstep(R):
        for n in sp.SBOX_NAMES:
            ex = Exec(p, C, model.BASE, limit=200)
            st = State()
            c = model.sym(st, 'ctx', ctxsize(R))
            st, _ = model.run1(ex, st, 'gost_init', [c, ex.gptr(st, n, 0, None)])
            h, m = model.sym(st, 'H', 32), model.sym(st, 'M', 32)
            H, M = model.symbytes('H', 32), model.symbytes('M', 32)
            st, v = model.run1(ex, st, 'hash_step', [c, h, m])
            R.eq('hash_step: one compression step', st.bytes(h, 32), sp.g94_step(H, M, lambda k, b: g89.blk(list(k) + [g89.sb(n)], b), lambda a, b: tm.xor(a, const(b, 8) if isinstance(b, int) else b)), st.pc)
            R.eq('hash_step: message unchanged', st.bytes(m, 32), M, st.pc)
            R.cond('hash_step: reports success', tm.eq(v, const(1, 32)), st.pc)
            t = [st.rb('ctx', i) for i in range(st.mem['ctx'].size)]
            R.absorb(ex, 'hash_step')

    def addb(R):
        ex = Exec(p, C, model.BASE, limit=200)
        st = State()
        x, y = model.sym(st, 'x', 32), model.sym(st, 'y', 32)
        X, Y = model.symbytes('x', 32), model.symbytes('y', 32)
        st, v = model.run1(ex, st, 'add_blocks', [const(32, 32), x, y])
        R.eq('add_blocks: 256-bit sum', st.bytes(x, 32), add(X, Y), st.pc)
        R.eq('add_blocks: right operand unchanged', st.bytes(y, 32), Y, st.pc)
        c = tm.add(tm.zext(tm.concat(X), 257), tm.zext(tm.concat(Y), 257))
        R.cond('add_blocks: carry', tm.eq(v, tm.zext(tm.extract(c, 256, 256), 32)), st.pc)
        R.absorb(ex, 'add_blocks')
    return [('hash_step', hstep), ('add_blocks', addb)]


def ctxsize(R):
    return probe(['gost89.h'], ['sizeof(gost_ctx)'], workdir=R.tmp)['sizeof(gost_ctx)']


def offs(R):
    n = ['len', 'cipher_ctx', 'left', 'H', 'S', 'remainder']
    v = probe(['stddef.h', 'gosthash.h'], ['offsetof(gost_hash_ctx, %s)' % f for f in n] + ['sizeof(gost_hash_ctx)'], workdir=R.tmp)
    return dict(zip(n + ['size'], v.values()))


SB = tm.var('sbox', 8)


def begin(R, S, M):
    out = []
    v = probe(['gost_lcl.h', 'stddef.h'], ['offsetof(struct ossl_gost_digest_ctx, cctx)'] + ['offsetof(gost_ctx, %s)' % f for f in ('k87', 'k65', 'k43', 'k21')], workdir=R.tmp)
    v = list(v.values())
    for x, w in S.call(S.st.fork(), 'init'):
        R.cond('init succeeds', tm.eq(w, const(1, 32)), x.pc)
        for o in v[1:]:
            R.eq('init: S-box set', x.bytes(Ptr('cd', v[0] + o), 1), [g89.sb(DF)], x.pc)
            # the histories are shown for any set
            x.wb(Ptr('cd', v[0] + o), [SB])
        out.append((x, M.start()))
    return out


def cli(p, C):
    """init_gost_hash_ctx, start_hash: the initial state, for every S-box set"""
    def f(R):
        o = offs(R)
        v = probe(['gost89.h'], ['__builtin_offsetof(gost_ctx, %s)' % f for f in ('k87', 'k65', 'k43', 'k21')], workdir=R.tmp)
        for n in sp.SBOX_NAMES:
            ex = Exec(p, C, model.BASE, limit=200)
            st = State()
            h = model.sym(st, 'hctx', o['size'])
            outs = [(x, r) for k, x, r in model.runall(ex, st, 'init_gost_hash_ctx', [h, ex.gptr(st, n, 0, None)])]
            good = 0
            for x, r in outs:
                q = dr.ptr_at(x, Ptr('hctx', o['cipher_ctx']))
                if q is None:
                    R.cond('init_gost_hash_ctx: reports an allocation failure', tm.eq(r, const(0, 32)), x.pc)
                    continue
                good += 1
                R.cond('init_gost_hash_ctx: succeeds', tm.eq(r, const(1, 32)), x.pc)
                for f in v.values():
                    R.eq('init_gost_hash_ctx: S-box set', x.bytes(q.add(f), 1), [g89.sb(n)], x.pc)
                for f, w in (('H', 32), ('S', 32), ('len', 8), ('left', 4)):
                    for i in range(w):
                        x.wb(Ptr('hctx', o[f] + i), [tm.var('%s[%d]' % (f, i), 8)])
                y, r = model.run1(ex, x, 'start_hash', [h])
                R.cond('start_hash: succeeds', tm.eq(r, const(1, 32)), y.pc)
                for f, w in (('H', 32), ('S', 32), ('len', 8), ('left', 4)):
                    R.eq('start_hash: %s' % f, y.bytes(Ptr('hctx', o[f]), w), [Z] * w, y.pc)
                R.cond('start_hash: keeps the cipher', tm.TRUE if dr.ptr_at(y, Ptr('hctx', o['cipher_ctx'])) == q else tm.FALSE, y.pc)
            if not good:
                R.no('init_gost_hash_ctx never succeeds')
            R.absorb(ex, 'init_gost_hash_ctx')
    return [('start', f)]


def prove(R):
    p = model.prog(SRC + ['gosthash.c'], R.tmp)
    C, D = contracts(R)
    T = helpers(p, C) + cli(p, C)
    T += mh.prove_blocks(R, p, 'GostR3411_94_digest', 'md_gost94', lambda: G94(SB), D, begin, lambda D, G: 32, 32, 32, wrap=short, persist=('sbox',), pins=[('cd', offs(R)['left'], 4)])
    R.contracts.update({'hash_step': 'proved', 'add_blocks': 'proved'})
    R.parallel(T)


def api(S, n):
    """gosthash.c itself, as the command line tool uses it"""
    rng = S.rng
    V, N = ctypes.c_void_p, ctypes.c_size_t
    f = lambda name, *a: S.lib.fn(name, ctypes.c_int, *a)
    name = rng.choice(sp.SBOX_NAMES)
    b = S.lib.addr(name)
    c = Buf(n['size'])
    data = msg(S)
    parts = evp.splits(rng, len(data))
    S.case(kind='hash_block', sbox=name, data=data, parts=parts)
    f('init_gost_hash_ctx', V, V)(c.p, b)
    if rng.random() < 0.5:
        f('start_hash', V)(c.p)
        j = Buf(S.bytes(rng.randrange(100)))
        f('hash_block', V, V, N)(c.p, j.p, len(j.get()))
    f('start_hash', V)(c.p)
    p = 0
    for k in parts:
        d = Buf(data[p:p + k])
        f('hash_block', V, V, N)(c.p, d.p, k)
        p += k
    o = Buf(32)
    r = f('finish_hash', V, V)(c.p, o.p)
    S.lib.fn('done_gost_hash_ctx', None, V)(c.p)
    S.expect(o.get() if r == 1 and o.ok() else None, sp.gost94(data, name), 'finish_hash disagrees with the standard')


def msg(S):
    rng = S.rng
    n = xcheck.rnd_len(S, 1000, 1, (32, 64, 96, 128, 256, 8192))
    r = rng.random()
    if r < 0.4:
        return rng.randbytes(n)
    if r < 0.6:
        return b'\xff' * n
    if r < 0.8:
        # carries through the control sum
        return b''.join(rng.choice((b'\xff' * 32, b'\1' + bytes(31), bytes(31) + b'\x80', b'\xff' * rng.randrange(32) + rng.randbytes(32))) for _ in range(n // 32 + 1))[:n]
    return bytes(rng.choice((0, 1, 127, 128, 254, 255)) for _ in range(n))


def search(S):
    E = evp.Engine(S.lib)
    n = {'size': 256}
    k = 0
    while S.more():
        k += 1
        if k % 2:
            api(S, n)
        else:
            xcheck.mac_case(S, E, 'md_gost94', lambda k, d, p: sp.gost94(d), (None,), marks=(32, 64, 8192), big=9000, keyed=False, data=msg(S) if k % 4 else None)
