"""MGM: RFC 9058 authenticated encryption."""
import ctypes as C
from dv import evp, model, g89, evpmodel as em, cphist as ch, terms as tm, solver
from dv.real import Buf
from dv.cphist import N, NMAX
from dv.exec import State, Ptr, NULL, Undecided
from dv.hist import Machine, Call
from dv.machines import xorl, Z
from dv.ir import probe
from dv.terms import const
from spec import modes as m, tasks as t
from props.C05 import SRC, kuz
from props.C07 import mulname, contracts

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 20, 150, 100
RULE = 'random keys, nonces, AAD, data, splits (empty parts included); tags altered in every position; re-use of the context'
ASSUMPTIONS = ['all associated data is given before the data; associated data and plaintext are not both empty (RFC 9058)',
               'the counters len(A), len(C) stay below the limit of the mode; single calls are shorter than 2^31 bytes']
O64 = const(0, 64)


class MGM(Machine):
    """ph: 'init' nothing yet, 'aad', 'dn'/'da' data phase entered without / with AAD but no data yet, 'data'"""
    unit = 1

    def __init__(self, E, bs, dec, der=None):
        self.E, self.bs, self.dec, self.der = E, bs, dec, der

    def mul(self, a, b):
        return tm.bytes_of(tm.uf('gfmul%d' % self.bs, [tm.concat(a), tm.concat(b)], 8 * self.bs))

    def start(self, key, iv):
        z = [Z] * self.bs
        G = {'K': list(key), 'nonce': list(iv), 'Z': z, 'Y': z, 'ek': z, 'part': z, 'sum': z, 'pos': 0, 'ph': 'init', 'top': 0, '#alen': O64, '#mlen': O64}
        self.dep(G)
        return G

    def n1(self, G):
        return [tm.or_(G['nonce'][0], const(0x80, 8))] + G['nonce'][1:]

    def n0(self, G):
        return [tm.and_(G['nonce'][0], const(0x7f, 8))] + G['nonce'][1:]

    def dep(self, G):
        if G['ph'] in ('init', 'dn'):
            G['Z'] = self.E(G['K'], self.n1(G))
            G['sum'] = [Z] * self.bs
            G['#alen'] = O64
        if G['ph'] in ('init', 'aad', 'dn', 'da'):
            G['#mlen'] = O64

    def inv(self, G):
        lim = const((1 << (self.bs * 4 - 3)) - 1, 64)
        r = [tm.ule(G['#alen'], lim), tm.ule(G['#mlen'], lim), tm.ule(tm.add(G['#alen'], G['#mlen']), lim)]
        if G['ph'] in ('aad', 'da'):
            r.append(tm.ule(const(1, 64), G['#alen']))
        if G['ph'] == 'data':
            r.append(tm.ule(const(1, 64), G['#mlen']))
        return r

    def absorb(self, G, part):
        h = self.E(G['K'], G['Z'])
        G['sum'] = xorl(G['sum'], self.mul(h, part))
        hb = self.bs // 2
        G['Z'] = ch.unbe(tm.addc(ch.be(G['Z'][:hb]), 1)) + G['Z'][hb:]

    def enter(self, kind, n):
        def f(G):
            if kind == 'aad':
                G['top'] = 1
                if n is N:
                    G['ph'] = 'aad'
                    G['#alen'] = tm.add(G['#alen'], N)
            else:
                if G['ph'] in ('aad', 'init'):
                    if G['pos']:
                        self.absorb(G, G['part'][:G['pos']] + [Z] * (self.bs - G['pos']))
                        G['pos'] = 0
                    G['ph'] = 'da' if G['ph'] == 'aad' else 'dn'
                if G['ph'] in ('da', 'dn'):
                    G['Y'] = self.E(G['K'], self.n0(G))
                    G['top'] = 0
                if n is N:
                    G['ph'] = 'data'
                    G['#mlen'] = tm.add(G['#mlen'], N)
            return G
        return f

    def step(self, D, G, ins):
        G = dict(G)
        if G['ph'] == 'aad':
            o, c = None, ins[0]
        else:
            if G['pos'] == 0:
                G['ek'] = self.E(G['K'], G['Y'])
                hb = self.bs // 2
                G['Y'] = G['Y'][:hb] + ch.unbe(tm.addc(ch.be(G['Y'][hb:]), 1))
            o = tm.xor(ins[0], G['ek'][G['pos']])
            c = ins[0] if self.dec else o
            o = [o]
        part = list(G['part'])
        part[G['pos']] = c
        G['part'] = part
        G['pos'] += 1
        if G['pos'] == self.bs:
            self.absorb(G, part)
            G['pos'] = 0
        return G, o

    def derived(self, G):
        d = dict(self.der(G))
        d['nc'] = self.n1(G) if G['top'] else self.n0(G)
        ap = G['ph'] in ('init', 'aad')
        d['ares'] = const(G['pos'] if ap else 0, 32)
        d['mres'] = const(0 if ap else G['pos'], 32)
        d['sum16'] = G['sum'] + [Z] * (16 - self.bs)
        return d

    def tag(self, G):
        G = dict(G)
        if G['pos']:
            self.absorb(G, G['part'][:G['pos']] + [Z] * (self.bs - G['pos']))
        hb = self.bs // 2
        lens = []
        for x in (G['#alen'], G['#mlen']):
            lens += ch.unbe(tm.extract(tm.concat([const(0, 3), x]), 8 * hb - 1, 0))
        self.absorb(G, lens)
        return self.E(G['K'], G['sum'])


def length(st, v, n):
    # everything is processed (an obligation of its own): the processed position is the length
    r = tm.eq(v, tm.trunc(n, 32))
    p = st.data.get('p')
    return r if p is None else tm.or_(r, tm.eq(v, tm.trunc(p, 32)))


def mulc(n):
    def h(ex, s, a, i):
        x, y = ex.read_bytes(s, a[1], n, i.line), ex.read_bytes(s, a[2], n, i.line)
        ex.write_bytes(s, a[0], tm.bytes_of(tm.uf('gfmul%d' % n, [tm.concat(x), tm.concat(y)], 8 * n)), i.line)
        return None
    return h


def mgm(R, p, glob, bs, enc, V):
    C = contracts(R)
    fn = mulname(R, p, glob, C)
    C[fn] = mulc(bs)
    R.contracts[fn] = 'proved in C07'
    C['inc_counter'] = em.inc_counter
    name = '%s %s' % (glob, 'encryption' if enc else 'decryption')
    S = ch.Setup(R, p, glob, enc, C, limit=40)
    E, der = kuz() if bs == 16 else (g89.magma, g89.magder)
    M = MGM(E, bs, not enc, der)
    R.truth('%s: nonce length' % glob, S.meth['iv_length'] == bs)
    do = em.fname(S.meth['do_cipher'])
    tagn = tm.var('#tagn', 32)

    def aad(n):
        def push(H, st, G):
            if n is N:
                room(st, G)
            st.new('in', n, kind='arr')
            st.mem['in'].meta = {'rd': 1}
            S.ex.call_fn(st, do, [S.ctx, NULL, Ptr('in', 0), n])
        c = Call('associated data' if n is N else 'empty associated data', push, progress='in', outobj=None, inobj='in', n=n,
                 ret=lambda st, G, v: ('reports the length', length(st, v, n)), pre=lambda G: G['ph'] in ('init', 'aad'))
        c.enter = M.enter('aad', n)
        return c

    def data(n, inplace):
        def push(H, st, G):
            if n is N:
                room(st, G)
            i = st.new('in', n, kind='arr')
            o = i if inplace else st.new('out', n, kind='arr')
            S.ex.call_fn(st, do, [S.ctx, o, i, n])
        c = Call('data in place' if inplace else ('data' if n is N else 'empty data'), push, 'out', 'in', 'in' if inplace else 'out', n,
                 ret=lambda st, G, v: ('reports the length', length(st, v, n)))
        c.enter = M.enter('data', n)
        return c

    def room(st, G):
        st.assume(tm.ule(const(1, 64), N))
        st.assume(tm.ule(N, const(NMAX, 64)))
        st.assume(tm.ule(tm.add(tm.add(G['#alen'], G['#mlen']), O64), const((1 << (bs * 4 - 3)) - 1, 64)))

    def final(kind):
        def push(H, st, G):
            S.ex.call_fn(st, do, [S.ctx, Ptr('finout', 0), NULL, O64])
            st.new('finout', 16)
            if not enc:
                st.wb(Ptr('E.CTX', em.BUF), [tm.var('tag[%d]' % j, 8) for j in range(bs)])

        def fin(H, st, G, v, org):
            want = M.tag(G)
            if enc:
                H.ob(org, 'cond', '%s: finalisation succeeds' % name, tm.eq(v, const(0, 32)), st.pc)
                H.ob(org, 'eq', '%s: tag' % name, st.bytes(Ptr('E.CTX', em.BUF), bs), want, st.pc)
                H.ob(org, 'eq', '%s: tag length' % name, st.val(Ptr('cd', V['taglen']), 4), const(bs, 32), st.pc)
            else:
                same = tm.eq(tm.concat([tm.var('tag[%d]' % j, 8) for j in range(bs)]), tm.concat(want))
                isset = tm.eq(st.val(Ptr('cd', V['taglen']), 4), const(bs, 32))
                ok = tm.eq(v, const(0, 32))
                H.ob(org, 'cond', '%s: succeeds only if the tag was given and matches' % name, tm.or_(tm.not_(ok), tm.and_(same, isset)), st.pc)
                H.ob(org, 'cond', '%s: a matching tag is accepted' % name, tm.or_(ok, tm.not_(tm.and_(same, isset))), st.pc)
                H.ob(org, 'cond', '%s: a mismatch is an error' % name, tm.or_(ok, tm.slt(v, const(0, 32))), st.pc)
        c = Call('final', push, n=None, outobj=None, inobj=None, pre=lambda G: G['ph'] != 'init')
        c.final = fin
        return c

    def ctrlc(what, cmd, arg, check, mem=bs):
        """a control call: the history goes on"""
        def push(H, st, G):
            st.new('tagbuf', mem, init=lambda o: tm.var('newtag[%d]' % o, 8))
            S.ex.call_fn(st, em.fname(S.meth['ctrl']), [S.ctx, const(cmd, 32), arg, Ptr('tagbuf', 0)])

        def restart(H, st, G, v, org):
            check(H, st, G, v, org)
            st.mem.pop('tagbuf', None)
            return None
        c = Call(what, push, n=None, outobj=None, inobj=None)
        c.restart = restart
        return c

    def set_tag(H, st, G, v, org):
        ok = tm.eq(v, const(1, 32))
        good = tm.and_(tm.eq(tagn, const(bs, 32)), tm.TRUE if not enc else tm.FALSE)
        H.ob(org, 'cond', '%s: only whole tags are accepted, for decryption' % name, tm.eq(ok, good), st.pc)
        y = st.fork()
        y.assume(ok)
        if y.pc and solver.feasible(y.pc[:-1], y.pc[-1]) and ok is not tm.FALSE:
            H.ob(org, 'eq', '%s: the expected tag is kept' % name, y.bytes(Ptr('E.CTX', em.BUF), bs), [tm.var('newtag[%d]' % j, 8) for j in range(bs)], y.pc)
            H.ob(org, 'eq', '%s: and its length' % name, y.val(Ptr('cd', V['taglen']), 4), const(bs, 32), y.pc)

    def restart_iv():
        c = S.iv_restart(lambda G, v: M.start(G['K'], v))
        return c

    H0 = ch.Setup.hist

    def late(H, st, G, v, org):
        H.ob(org, 'cond', '%s: associated data after data is refused' % name, tm.slt(v, const(0, 32)), st.pc)

    def late_push(H, st, G):
        n = tm.var('#late', 64)
        st.new('in', n, kind='arr')
        S.ex.call_fn(st, do, [S.ctx, NULL, Ptr('in', 0), n])
    lc = Call('late AAD', late_push, n=None, outobj=None, inobj=None, pre=lambda G: G['ph'] == 'data')
    lc.final = late
    calls = [aad(N), aad(O64), data(N, False), data(N, True), data(O64, False), final('final'), lc,
             restart_iv(), S.rekey(lambda G, k, v: M.start(k, v)),
             ctrlc('SET_TAG', V['EVP_CTRL_AEAD_SET_TAG'], tagn, set_tag)]
    key = model.symbytes('key', 32)

    def starts():
        out = []
        # EVP_CTRL_INIT comes first
        for x0, v0 in S.ctrl(S.st, V['EVP_CTRL_INIT'], const(0, 32)):
            R.cond('%s: ctrl INIT succeeds' % name, tm.eq(v0, const(1, 32)), x0.pc)
            R.eq('%s: no tag yet' % name, x0.val(Ptr('cd', V['taglen']), 4), const(-1, 32), x0.pc)
            S.st = x0
            for x, v in S.init(x0):
                R.cond('%s: init succeeds' % name, tm.eq(v, const(1, 32)), x.pc)
                out.append((x, M.start(key, model.symbytes('iv', bs))))
        return out
    H = S.hist(M, name, calls=calls)
    H.keycells = lambda st: ()
    H.budget = 20000
    H.pins = [('cd', V['ares'], 4), ('cd', V['mres'], 4)]
    H.run(starts)
    R.absorb(S.ex, name)


def other(R, p, glob, bs, V):
    """nonce lengths, tags handed out, over-long data"""
    C = contracts(R)
    C.update(gost_mgm128_init=model.nop, gost_mgm128_setiv=model.ret(1))
    S = ch.Setup(R, p, glob, 1, C)
    a = tm.var('#arg', 32)
    st = S.st.fork()
    st.data['a'] = a
    for x, v in S.ctrl(st, V['EVP_CTRL_AEAD_SET_IVLEN'], a):
        ok = tm.slt(const(0, 32), v)
        R.cond('%s: only nonces of one block are accepted' % glob, tm.or_(tm.not_(ok), tm.eq(x.data['a'], const(bs, 32))), x.pc)
    st = S.st.fork()
    tl = st.val(Ptr('cd', V['taglen']), 4)
    st.new('tb', 16, init=lambda o: tm.var('tb[%d]' % o, 8))
    st.assume(tm.slt(a, const(17, 32)))
    st.data['a'] = a
    st.data['tl'] = tl
    a0, tl0 = a, tl
    for enc in (0, 1):
        S.C['enc'] = enc
        for x, v in S.ctrl(st, V['EVP_CTRL_AEAD_GET_TAG'], a0, Ptr('tb', 0)):
            a, tl = x.data['a'], x.data['tl']
            ok = tm.eq(v, const(1, 32))
            good = tm.and_(tm.and_(tm.slt(const(0, 32), a), tm.slt(a, const(bs + 1, 32))), tm.and_(tm.sle(const(0, 32), tl), tm.TRUE if enc else tm.FALSE))
            R.cond('%s: tags are handed out after encryption only, never longer than computed' % glob, tm.or_(tm.not_(ok), good), x.pc)
            R.cond('%s: refusals are reported' % glob, tm.or_(ok, tm.sle(v, const(0, 32))), x.pc)
            if ok is tm.TRUE:
                n = [c for c in range(1, bs + 1) if solver.feasible(x.pc, tm.eq(a, const(c, 32)))]
                for c in n:
                    y = x.fork()
                    y.assume(tm.eq(a, const(c, 32)))
                    R.eq('%s: the tag handed out' % glob, y.bytes(Ptr('tb', 0), c), [S.st.rb('E.CTX', em.BUF + j) for j in range(c)], y.pc)
    R.absorb(S.ex, glob)


def prove(R):
    p = model.prog(SRC, R.tmp)
    R.contracts.update(em.KUZ_NOTE)
    R.attempt('inc_counter', em.prove_inc, R, p)
    V = probe(['stddef.h', 'openssl/evp.h', 'gost_lcl.h', 'gost_gost2015.h'], ['EVP_CTRL_AEAD_SET_TAG', 'EVP_CTRL_AEAD_GET_TAG', 'EVP_CTRL_AEAD_SET_IVLEN', 'EVP_CTRL_INIT', 'offsetof(gost_mgm_ctx,taglen)', 'offsetof(gost_mgm_ctx,mgm.ares)', 'offsetof(gost_mgm_ctx,mgm.mres)'], workdir=R.tmp)
    V['taglen'] = V['offsetof(gost_mgm_ctx,taglen)']
    for k in ('ares', 'mres'):
        V[k] = V['offsetof(gost_mgm_ctx,mgm.%s)' % k]
    T = []
    for g, bs in (('magma_mgm_cipher', 8), ('grasshopper_mgm_cipher', 16)):
        for e in (1, 0):
            T.append(('%s %s' % (g, 'enc' if e else 'dec'), lambda R, g=g, bs=bs, e=e: mgm(R, p, g, bs, e, V)))
        T.append(('other ' + g, lambda R, g=g, bs=bs: other(R, p, g, bs, V)))
    R.parallel(T)


# ---------------------------------------------------------------- bounded search (compiled code against spec.modes.mgm)
SET_IVLEN, GET_TAG, SET_TAG = 9, 16, 17


def search(S):
    E = evp.Engine(S.lib)
    while S.more():
        for sn, bs, ciph in (('magma-mgm', 8, t.mg), ('kuznyechik-mgm', 16, t.kz)):
            one(S, E, sn, bs, ciph)


def rnd(S, n):
    r = S.rng.random()
    return S.bytes(n) if r < 0.6 else b'\xff' * n if r < 0.8 else bytes(n)


def partlen(S, bs):
    r = S.rng.random()
    if r < 0.2:
        return 0
    if r < 0.6:
        return S.rng.randrange(1, 5 * bs)
    if r < 0.85:
        return bs * S.rng.randrange(1, 9)
    return S.rng.randrange(1, 700)


def one(S, E, sn, bs, ciph):
    rng = S.rng
    c = evp.Cipher(E, sn)
    key = None
    try:
        first = True
        for msg in range(rng.choice((1, 1, 2, 3))):
            how = rng.choice(('both', 'both', 'ivonly', 'keyonly')) if key else 'both'
            if how != 'ivonly':
                key = rnd(S, 32)
            if how != 'keyonly':
                nonce = rnd(S, bs)
            aad, data = rng.randbytes(partlen(S, bs)), rng.randbytes(partlen(S, bs))
            if not aad and not data:
                aad = b'\x01'
            pa, pd = evp.splits(rng, len(aad)), evp.splits(rng, len(data))
            if not aad:
                pa = []
            enc = rng.random() < 0.5
            abandon = rng.random() < 0.15
            cp = rng.choice((None, None, None, 'aad', 'data', 'end'))
            inp = rng.random() < 0.3
            out, tag = m.mgm(ciph(key), nonce, aad, data, enc)
            if how == 'keyonly':
                # a new key alone: the nonce is given again, as the interface requires
                how = 'both'
            S.case(cipher=sn, key=key, nonce=nonce, aad=aad, data=data, enc=enc, message=msg, aad_parts=pa, data_parts=pd, init=how, copy=cp, inplace=inp)
            r = c.init(key if how != 'ivonly' else None, nonce, enc, first=first)
            first = False
            if r != 1:
                S.fail('%s: init fails' % sn)
            res = b''

            def dup():
                nonlocal c
                d = c.copy()
                if d is None:
                    S.fail('%s: copy fails' % sn)
                # the original is used up for something else: the copy must not notice
                c.update(b'\x55' * 3, aad=cp == 'aad')
                c.free()
                c = d
            p = 0
            for j, k in enumerate(pa):
                if cp == 'aad' and j == len(pa) - 1:
                    dup()
                if c.update(aad[p:p + k], aad=True) is None:
                    S.fail('%s: associated data refused' % sn)
                p += k
            p = 0
            for j, k in enumerate(pd):
                if cp == 'data' and j == len(pd) - 1:
                    dup()
                o = c.update(data[p:p + k], inplace=inp) if k else b''
                if o is None:
                    S.fail('%s: data refused' % sn)
                res += o
                p += k
            S.expect(res, out, '%s: output differs from RFC 9058' % sn)
            if data and rng.random() < 0.2 and c.update(b'x', aad=True) is not None:
                S.fail('%s: associated data after data is accepted' % sn)
            if cp == 'end':
                d = c.copy()
                if d is None:
                    S.fail('%s: copy fails' % sn)
                c.free()
                c = d
            if abandon:
                continue
            tb = Buf(b'\0' * 16)
            if enc:
                if c.final() is None:
                    S.fail('%s: final fails' % sn)
                n = bs if rng.random() < 0.7 else rng.randrange(1, bs + 1)
                if c.ctrl(GET_TAG, n, tb.p) != 1:
                    S.fail('%s: tag not handed out' % sn)
                S.expect(tb.get(n), tag[:n], '%s: tag differs from RFC 9058' % sn)
            else:
                bad = rng.random() < 0.5
                w = bytearray(tag)
                if bad:
                    b = rng.choice((0, 8 * bs - 1, rng.randrange(8 * bs)))
                    w[b // 8] ^= 1 << (b % 8)
                if c.ctrl(SET_TAG, bs, Buf(bytes(w)).p) != 1:
                    S.fail('%s: tag refused' % sn)
                ok = c.final() is not None
                if ok and bad:
                    S.case(cipher=sn, key=key, nonce=nonce, aad=aad, data=data, tag=bytes(w))
                    S.fail('%s: a wrong tag is accepted' % sn)
                if not ok and not bad:
                    S.fail('%s: the right tag is refused' % sn)
    except evp.Overrun as e:
        S.fail('%s: %s' % (sn, e))
    finally:
        c.free()
