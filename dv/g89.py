"""Contracts of gost89.c (proved in B01) and the modes built on them.

Representation: the key words of a context are stored as word - mask; the mask is an arbitrary but
fixed value 'mask0' (B01 proves that no function of gost89.c lets it through).  The four S-box
tables carry the identity of the S-box set they were expanded from.
"""
from . import terms as tm
from . import model
from .terms import const
from .ir import probe
from .exec import Ptr, Undecided
from .hist import Machine
from .machines import ECB, CBC, Z, xorl
from spec.ciphers import SBOX_NAMES

IDS = {n: i + 1 for i, n in enumerate(SBOX_NAMES)}
MESH = [const(b, 8) for b in bytes.fromhex('6900722264C904238D3ADB9646E92AC418FEAC9400ED0712C086DCC2EF4CA92B')]
NOTE = {f: 'proved in B01' for f in ('gostcrypt', 'gostdecrypt', 'magmacrypt', 'magmadecrypt', 'gost_key', 'gost_key_nomask', 'magma_key', 'gost_init', 'gost_get_key', 'magma_get_key', 'gost_enc_with_key', 'mac_block')}


def sb(name):
    return const(IDS[name], 8)


def swap4(k):
    o = []
    for i in range(0, len(k), 4):
        o += list(reversed(k[i:i + 4]))
    return o


def blk(K, b, f='g89e'):
    """K: 32 bytes (as read by gost_key) + S-box tag; b: 8 bytes"""
    return tm.bytes_of(tm.uf(f, [tm.concat(K[:32]), K[32], tm.concat(b)], 64))


def magma(K, b, dec=False):
    """Magma: the same network with all byte orders reversed"""
    return list(reversed(blk(swap4(K[:32]) + [sb('Gost28147_TC26ParamSetZ') if len(K) < 33 else K[32]], list(reversed(b)), 'g89d' if dec else 'g89e')))


def mesh(K):
    o = []
    for i in range(0, 32, 8):
        o += blk(K, MESH[i:i + 8], 'g89d')
    return o + [K[32]]


def masks():
    return [tm.var('mask0[%d]' % i, 32) for i in range(8)]


def cells(K, swap=False):
    """key words as stored"""
    b = swap4(K[:32]) if swap else K[:32]
    return [tm.sub(tm.concat(b[4 * i:4 * i + 4]), m) for i, m in enumerate(masks())]


def contracts(R):
    o = ['master_key', 'key', 'mask', 'k87', 'k65', 'k43', 'k21']
    sz = probe(['gost89.h', '<stddef.h>'] if False else ['gost89.h'], ['__builtin_offsetof(gost_ctx, %s)' % f for f in o] + ['sizeof(gost_ctx)'], workdir=R.tmp)
    O = {f: sz['__builtin_offsetof(gost_ctx, %s)' % f] for f in o}
    O['size'] = sz['sizeof(gost_ctx)']
    C = {}

    def init(ex, s, a, i):
        b = a[1]
        if not isinstance(b, Ptr) or b.off.op != 'c' or b.off.a:
            if isinstance(b, tm.T) and b.op == 'c' and b.a == 0:
                nm = 'GostR3411_94_TestParamSet'
            else:
                raise Undecided('S-box argument')
        else:
            nm = b.obj.split(':')[-1]
        if nm not in IDS:
            raise Undecided('S-box ' + nm)
        for f in ('k87', 'k65', 'k43', 'k21'):
            ex.write_bytes(s, a[0].add(O[f]), [const(IDS[nm], 8)], i.line)
        return None

    def getk(ex, s, c, line):
        ks = ex.read_bytes(s, c.add(O['key']), 32, line)
        ms = ex.read_bytes(s, c.add(O['mask']), 32, line)
        k = []
        for j in range(0, 32, 4):
            k += tm.bytes_of(tm.add(tm.concat(ks[j:j + 4]), tm.concat(ms[j:j + 4])))
        t = [ex.read_bytes(s, c.add(O[f]), 1, line)[0] for f in ('k87', 'k65', 'k43', 'k21')]
        if any(x is not t[0] for x in t):
            raise Undecided('S-box tables of different sets')
        return k + [t[0]]

    def setk(swap, mask):
        def h(ex, s, a, i):
            k = ex.read_bytes(s, a[1], 32, i.line)
            if swap:
                k = swap4(k)
            ms = masks() if mask else [const(0, 32)] * 8
            kw = [tm.sub(tm.concat(k[4 * j:4 * j + 4]), m) for j, m in enumerate(ms)]
            ex.write_bytes(s, a[0].add(O['key']), sum((tm.bytes_of(x) for x in kw), []), i.line)
            ex.write_bytes(s, a[0].add(O['mask']), sum((tm.bytes_of(x) for x in ms), []), i.line)
            return None
        return h

    def crypt(f, rev):
        def h(ex, s, a, i):
            K = getk(ex, s, a[0], i.line)
            b = ex.read_bytes(s, a[1], 8, i.line)
            o = blk(K, list(reversed(b)) if rev else b, f)
            ex.write_bytes(s, a[2], list(reversed(o)) if rev else o, i.line)
            return None
        return h

    def rd(swap):
        def h(ex, s, a, i):
            k = getk(ex, s, a[0], i.line)[:32]
            ex.write_bytes(s, a[1], swap4(k) if swap else k, i.line)
            return None
        return h

    def withkey(ex, s, a, i):
        C['gost_key_nomask'](ex, s, [a[0], a[1]], i)
        return C['gostcrypt'](ex, s, [a[0], a[2], a[3]], i)

    def mac(ex, s, a, i):
        K = getk(ex, s, a[0], i.line)
        b = ex.read_bytes(s, a[1], 8, i.line)
        x = ex.read_bytes(s, a[2], 8, i.line)
        ex.write_bytes(s, a[1], blk(K, xorl(b, x), 'g89m'), i.line)
        return None
    C['gost_init'] = C['kboxinit'] = init
    C['gost_key'] = setk(False, True)
    C['gost_key_nomask'] = setk(False, False)
    C['magma_key'] = setk(True, True)
    C['gostcrypt'] = crypt('g89e', False)
    C['gostdecrypt'] = crypt('g89d', False)
    C['magmacrypt'] = crypt('g89e', True)
    C['magmadecrypt'] = crypt('g89d', True)
    C['gost_get_key'] = rd(False)
    C['magma_get_key'] = rd(True)
    C['gost_enc_with_key'] = withkey
    C['mac_block'] = mac
    R.contracts.update(NOTE)
    return C


# ---------------------------------------------------------------- EVP glue
NIDS = {}


def nid_probe(R):
    if not NIDS:
        names = {'NID_id_Gost28147_89_CryptoPro_A_ParamSet': 'Gost28147_CryptoProParamSetA', 'NID_id_Gost28147_89_CryptoPro_B_ParamSet': 'Gost28147_CryptoProParamSetB',
                 'NID_id_Gost28147_89_CryptoPro_C_ParamSet': 'Gost28147_CryptoProParamSetC', 'NID_id_Gost28147_89_CryptoPro_D_ParamSet': 'Gost28147_CryptoProParamSetD',
                 'NID_id_tc26_gost_28147_param_Z': 'Gost28147_TC26ParamSetZ', 'NID_id_Gost28147_89_TestParamSet': 'Gost28147_TestParamSet'}
        v = probe(['openssl/objects.h'], list(names), workdir=R.tmp)
        for k, n in names.items():
            NIDS[v[k]] = n
    return NIDS


def param_contracts(state):
    """the object database and the engine's parameter store; state['nid']: the configured S-box set (None: default)"""
    C = {}

    def engine_param(ex, s, a, i):
        if state.get('nid') is None:
            return const(0, 64)
        if 'crypt_params' not in s.mem:
            s.new('crypt_params', 8, init=lambda o: const(ord('x') if o < 7 else 0, 8))
        return Ptr('crypt_params', 0)

    def txt2nid(ex, s, a, i):
        return const(state['nid'] or 0, 32)

    def nid2obj(ex, s, a, i):
        if a[0].op != 'c':
            raise Undecided('nid')
        nm = 'obj:%d' % a[0].a
        if nm not in s.mem:
            s.new(nm, 8, kind='opaque')
        return Ptr(nm, 0)

    def obj2nid(ex, s, a, i):
        return const(int(a[0].obj.split(':')[1]), 32)
    def d2i(ex, s, a, i):
        """GOST_CIPHER_PARAMS: any IV of the right or of another length, one of the S-box sets; or a failure"""
        bad = s.fork()
        gcp = s.new('gcp', 16)
        os_ = s.new('gcpiv', 24)
        n = state.get('ivlen', 8)
        d = s.new('gcpdata', n, init=lambda o: tm.var('cmsiv[%d]' % o, 8))
        nm = 'obj:%d' % state['cms']
        if nm not in s.mem:
            s.new(nm, 8, kind='opaque')
        s.wval(gcp, os_)
        s.wval(gcp.add(8), Ptr(nm, 0))
        s.wval(os_.add(8), d)
        sh = s.fork()
        s.wval(os_, const(n, 32))
        s.data['cmsok'] = True
        sh.wval(os_, const(n - 1, 32))
        sh.data['cmsbad'] = bad.data['cmsbad'] = True
        return [(s, gcp), (sh, gcp), (bad, const(0, 64))]

    def gfree(ex, s, a, i):
        for o in ('gcp', 'gcpiv', 'gcpdata'):
            s.mem.pop(o, None)
        return None
    C['d2i_GOST_CIPHER_PARAMS'] = d2i
    C['GOST_CIPHER_PARAMS_free'] = gfree
    C['ASN1_TYPE_get'] = lambda ex, s, a, i: const(16, 32)
    C['get_gost_engine_param'] = engine_param
    C['OBJ_txt2nid'] = txt2nid
    C['OBJ_nid2obj'] = nid2obj
    C['OBJ_obj2nid'] = obj2nid
    return C


# ---------------------------------------------------------------- machines
class Mesh(Machine):
    """'#c': 8-byte blocks since the last key change (as the standard counts them), '#m': meshing required"""
    unit = 1

    def begin(self, D, G):
        """before a block of gamma"""
        G = dict(G)
        c = G['#c']
        if D(tm.eq(c, const(1024, 32))) and D(tm.not_(tm.eq(G['#m'], const(0, 32)))):
            G['K'] = mesh(G['K'])
            G['iv'] = blk(G['K'], G['iv'])
        return G

    def end(self, G):
        G['#c'] = tm.addc(tm.zext(tm.extract(G['#c'], 9, 0), 32), 8)

    def inv(self, G):
        c = G['#c']
        return [tm.eq(tm.extract(c, 2, 0), const(0, 3)), tm.ule(c, const(1024, 32))]

    def derived(self, G):
        return {'k32': cells(G['K']), 'mask': masks(), 'sb': G['K'][32]}

    def start(self, K, iv, m=const(1, 32)):
        return {'K': list(K), 'iv': list(iv), 'gm': [Z] * 8, 'pos': 0, '#c': const(0, 32), '#m': m}


class CFB89(Mesh):
    def __init__(self, dec):
        self.dec = dec

    def step(self, D, G, ins):
        if G['pos'] == 0:
            G = self.begin(D, G)
            G['gm'] = blk(G['K'], G['iv'])
            self.end(G)
        G = dict(G)
        p = G['pos']
        o = tm.xor(ins[0], G['gm'][p])
        iv = list(G['iv'])
        iv[p] = ins[0] if self.dec else o
        G['iv'] = iv
        G['pos'] = (p + 1) % 8
        return G, [o]

    def restart(self, G, iv):
        return dict(G, iv=list(iv), pos=0)

    def rekey(self, G, key, iv):
        return self.start(key + [G['K'][32]], iv, G['#m'])


def endaround(x, c):
    """(x + c) mod 2^32 - 1 as GOST 28147-89 defines it: the carry is added back"""
    y = tm.addc(x, c)
    return tm.ite(tm.ult(y, x), tm.addc(y, 1), y)


class CNT89(Mesh):
    def __init__(self, default):
        self.default = sb(default)

    def restart(self, G, iv):
        return self.start(G['K'][:32] + [self.default], iv)

    def rekey(self, G, key, iv):
        return self.start(key + [self.default], iv)

    def step(self, D, G, ins):
        if G['pos'] == 0:
            G = self.begin(D, G)
            if D(tm.eq(G['#c'], const(0, 32))):
                G['iv'] = blk(G['K'], G['iv'])
            s = tm.concat(G['iv'])
            n3 = tm.addc(tm.extract(s, 31, 0), 0x01010101)
            n4 = endaround(tm.extract(s, 63, 32), 0x01010104)
            G['iv'] = tm.bytes_of(n3) + tm.bytes_of(n4)
            G['gm'] = blk(G['K'], G['iv'])
            self.end(G)
        G = dict(G)
        o = tm.xor(ins[0], G['gm'][G['pos']])
        G['pos'] = (G['pos'] + 1) % 8
        return G, [o]


def sboxes(state, cms=True, mesh=True, m0=1):
    """begin hook: the ways an S-box set and key meshing are chosen"""
    def begin(R, S, M, x, key, iv):
        from . import evp
        n = len(iv)
        Zs = sb(state.get('default', 'Gost28147_TC26ParamSetZ'))
        one = const(1, 32)
        out = [(x, M.start(key + [Zs], iv))]
        if mesh:
            a = tm.var('#mesh', 32)
            for y, v in S.ctrl(x, evp.EVP_CTRL_KEY_MESH, a):
                R.cond('key meshing set through the control call', tm.eq(v, one), y.pc)
                out.append((y, M.start(key + [Zs], iv, a)))
        for nid, name in nid_probe(R).items():
            state['nid'] = nid
            for y, v in S.ctrl(x, evp.EVP_CTRL_SET_SBOX, const(0, 32), Ptr(x.new('sboxname', 8), 0) if 'sboxname' not in x.mem else Ptr('sboxname', 0)):
                R.cond('S-box set chosen through the control call', tm.eq(v, one), y.pc)
                y.mem.pop('sboxname', None)
                y.mem.pop('crypt_params', None)
                out.append((y, M.start(key + [sb(name)], iv)))
            if state.get('param', True):
                for y, v in S.init(S.st):
                    R.cond('init with a configured S-box set', tm.eq(v, one), y.pc)
                    y.mem.pop('crypt_params', None)
                    out.append((y, M.start(key + [sb(name)], iv)))
            state['nid'] = None
            if cms:
                state['cms'] = nid
                for y, v in [r for t, _ in S.init(S.st, key=False, iv=False) for r in cms_params(S, t.fork(), n)]:
                    for z, w in S.init(y, key=True, iv=False):
                        R.cond('init after CMS parameters succeeds', tm.eq(w, one), z.pc)
                        out.append((z, M.start(key + [sb(name)] if state.get('param', True) else key + [Zs], model.symbytes('cmsiv', n))))
        x.mem.pop('sboxname', None)
        for y, G in out:
            for k in list(y.mem):
                if k.startswith('obj:') or k in ('sboxname', 'crypt_params'):
                    y.mem.pop(k)
        return out
    return begin


def cms_params(S, st, n):
    """get_asn1_params of the cipher on decoded parameters with any IV"""
    f = S.meth['get_asn1_params']
    p = st.new('params', 16)
    q = st.new('paramseq', 24, init=lambda o: tm.var('seqlen[%d]' % o, 8))
    st.wval(p.add(8), q)
    st.wval(q.add(8), st.new('seqdata', 8))
    outs = []
    for kind, x, v in model.runall(S.ex, st, f.name, [S.ctx, p]):
        for o in ('params', 'paramseq', 'seqdata'):
            x.mem.pop(o, None)
        if kind != 'ret':
            continue
        if x.data.pop('cmsbad', False):
            S.R.cond('bad CMS parameters are reported', tm.not_(tm.eq(v, const(1, 32))), x.pc)
        elif x.data.pop('cmsok', False):
            S.R.cond('CMS parameters accepted', tm.eq(v, const(1, 32)), x.pc)
            outs.append((x, v))
    return outs


class CBC89(CBC):
    def __init__(self, dec):
        CBC.__init__(self, lambda K, b: blk(K, b, 'g89d' if dec else 'g89e'), 8, dec, lambda G: {'k32': cells(G['K']), 'mask': masks(), 'sb': G['K'][32]})

    def rekey(self, G, key, iv):
        return self.start(key + [G['K'][32]], iv)


def magder(G):
    """cells of a Magma context"""
    return {'k32': cells(G['K'], swap=True), 'mask': masks()}


class IMIT(Machine):
    """GOST 28147-89 imitovstavka; K, buf, '#c': after every whole block of the message; l*: before the last one
    (a whole block may be kept until it is known that it is not the whole message); n: blocks so far, at most 2"""
    unit = 1

    def start(self, K, size=const(4, 32)):
        k, z, c = list(K), [Z] * 8, const(0, 32)
        return {'K': k, 'lK': k, 'buf': z, 'lbuf': z, 'part': z, '#c': c, '#lc': c, 'pos': 0, 'n': 0, 'm': False, '#sz': size}

    def dep(self, G):
        if G['n'] == 0:
            G['buf'] = [Z] * 8
        if G['n'] + (G['pos'] > 0) < 2:
            G['lbuf'] = [Z] * 8
        if G['n'] and not G['pos']:
            G['K'] = mesh(G['lK']) if G['m'] else G['lK']
            G['buf'] = blk(G['K'], xorl(G['lbuf'], G['part']), 'g89m')
            G['#c'] = self.count(G['#lc'])
        else:
            G['lK'], G['#lc'] = G['K'], G['#c']

    def count(self, c):
        return tm.addc(tm.zext(tm.extract(c, 9, 0), 32), 8)

    def block(self, D, K, buf, c, b):
        m = D(tm.eq(c, const(1024, 32)))
        if m:
            K = mesh(K)
        return m, K, blk(K, xorl(buf, b), 'g89m'), self.count(c)

    def step(self, D, G, ins):
        G = dict(G)
        part = list(G['part'])
        part[G['pos']] = ins[0]
        G['part'] = part
        G['lK'], G['lbuf'], G['#lc'] = G['K'], G['buf'], G['#c']
        G['pos'] += 1
        G['m'] = False
        if G['pos'] == 8:
            G['m'], G['K'], G['buf'], G['#c'] = self.block(D, G['K'], G['buf'], G['#c'], part)
            G['pos'] = 0
            G['n'] = min(2, G['n'] + 1)
        return G, None

    def inv(self, G):
        r = []
        z = const(0, 32)
        for c in (G['#c'], G['#lc']):
            r += [tm.eq(tm.extract(c, 2, 0), const(0, 3)), tm.ule(c, const(1024, 32))]
        if G['n'] == 0:
            r += [tm.eq(G['#c'], z), tm.eq(G['#lc'], z)]
        elif G['n'] == 1:
            r += [tm.eq(G['#c'], const(8, 32)), tm.eq(G['#lc'], z if not G['pos'] else const(8, 32))]
        else:
            r += [tm.not_(tm.eq(G['#c'], z)), tm.not_(tm.eq(G['#lc'], z))]
        if G['n'] and not G['pos']:
            full = tm.eq(G['#lc'], const(1024, 32))
            r.append(full if G['m'] else tm.not_(full))
        return r + [tm.ule(const(1, 32), G['#sz']), tm.ule(G['#sz'], const(8, 32))]

    def derived(self, G):
        return {'k32': cells(G['K']), 'lk32': cells(G['lK']), 'mask': masks(), 'sb': G['K'][32], 'left8': const(G['pos'] or (8 if G['n'] else 0), 32)}

    def final(self, D, G):
        K, buf, c = G['K'], G['buf'], G['#c']
        if G['pos']:
            _, K, buf, c = self.block(D, K, buf, c, G['part'][:G['pos']] + [Z] * (8 - G['pos']))
        if G['n'] + (1 if G['pos'] else 0) == 1:
            _, K, buf, c = self.block(D, K, buf, c, [Z] * 8)
        return buf

    def size(self, D, G):
        for k in range(1, 8):
            if D(tm.eq(G['#sz'], const(k, 32))):
                return k
        return 8
