"""GOST 28147-89 imitovstavka."""
import ctypes
from dv import evp, xcheck, model, g89, mdhist as mh, terms as tm
from dv.exec import Ptr
from spec import modes as m, tasks as t

from props.C05 import SRC
from props.C01 import OPEN

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 15, 200, 100


def get_mac(full, nbytes):
    return full[:nbytes]


def starts(df, st):
    """key by the control call (raw, or with an S-box set), then any MAC length"""
    def begin(R, S, M):
        one = tm.const(1, 32)
        out = []
        key = model.symbytes('key', 32)
        fresh = S.st.fork()
        for i in range(S.meth['app_datasize']):
            fresh.wb(Ptr('cd', i), [tm.const(0, 8)])
        for x, v in S.call(fresh, 'init'):
            R.cond('init succeeds', tm.eq(v, one), x.pc)
            # without a key nothing is computed
            t = x.fork()
            d = t.new('in', tm.var('#n', 64), kind='arr')
            for y, w in S.call(t, 'update', d, tm.var('#n', 64)):
                R.cond('update without a key is refused', tm.eq(w, tm.const(0, 32)), y.pc)
            t = x.fork()
            m = t.new('md', 8, init=lambda o: tm.var('md0[%d]' % o, 8))
            for y, w in S.call(t, 'final', m):
                R.cond('final without a key is refused', tm.eq(w, tm.const(0, 32)), y.pc)
                R.eq('final without a key writes nothing', y.bytes(m, 8), model.symbytes('md0', 8), y.pc)
            keys = []
            t = x.fork()
            k = model.sym(t, 'key', 32)
            keys += [(y, w, df) for y, w in S.ctrl(t, evp.MD_SET_KEY, tm.const(32, 32), k)]
            for nid, name in [(0, df)] + list(g89.nid_probe(R).items()):
                t = x.fork()
                mk = t.new('mackey', 40, init=lambda o, nid=nid: tm.const(nid >> 8 * o & 255, 8) if o < 4 else tm.var('key[%d]' % (o - 4), 8) if o < 36 else tm.const(0, 8))
                keys += [(y, w, name) for y, w in S.ctrl(t, evp.MD_SET_KEY, tm.const(0, 32), mk)]
            a = tm.var('#arg', 32)
            t = x.fork()
            t.assume(tm.not_(tm.eq(a, tm.const(0, 32))))
            t.assume(tm.not_(tm.eq(a, tm.const(32, 32))))
            k = model.sym(t, 'key', 32)
            for y, w in S.ctrl(t, evp.MD_SET_KEY, a, k):
                R.cond('a key of another length is refused', tm.eq(w, tm.const(0, 32)), y.pc)
            for y, w, name in keys:
                R.cond('key accepted', tm.eq(w, one), y.pc)
                for o in list(y.mem):
                    if o in ('key', 'mackey') or o.startswith('obj:'):
                        y.mem.pop(o)
                K = key + [g89.sb(name)]
                out.append((y, M.start(K)))
                for z, q in S.ctrl(y, evp.MD_XOF_LEN, tm.var('#size', 32)):
                    for c, ok in ((tm.eq(q, one), True), (tm.not_(tm.eq(q, one)), False)):
                        u = z.fork()
                        u.assume(c)
                        if c is tm.FALSE:
                            continue
                        legal = tm.and_(tm.ule(tm.const(1, 32), tm.var('#size', 32)), tm.ule(tm.var('#size', 32), tm.const(8, 32)))
                        R.cond('MAC length: 1 to 8 accepted, others refused', legal if ok else tm.not_(legal), u.pc)
                        out.append((u, M.start(K, tm.var('#size', 32) if ok else tm.const(4, 32))))
        return out
    return begin


def prove(R):
    p = model.prog(SRC, R.tmp)
    C = g89.contracts(R)
    g89.nid_probe(R)
    R.contracts['OBJ_*'] = OPEN
    T = []
    for glob, name, df in (('Gost28147_89_MAC_digest', 'gost-mac', t.A), ('Gost28147_89_mac_12_digest', 'gost-mac-12', t.Z)):
        D = dict(C)
        D.update(g89.param_contracts({'nid': None}))
        T += mh.prove_digest(R, p, glob, name, g89.IMIT, D, starts(df, None), lambda D, G: g89.IMIT.size(None, D, G), 8, persist=('#size',))
    R.parallel(T)


def search(S):
    E = evp.Engine(S.lib)
    n = 0
    while S.more():
        n += 1
        sn, sb = (('gost-mac', t.A), ('gost-mac-12', t.Z))[n % 2]
        xcheck.mac_case(S, E, sn, lambda k, d, p: m.imit(k, d, sb), (None, 1, 2, 3, 4, 5, 6, 7, 8), marks=(8, 16, 1024, 2048), big=3000)
