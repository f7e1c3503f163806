"""Encoding of keys."""
import ctypes
from dv import model, bnx, direct as dr, terms as tm
from dv.bnx import A, K
from dv.exec import Exec, Ptr, NULL, T, Undecided, State
from dv.ir import probe
from dv.terms import const

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 25, 200, 120
RULE = 'keys of every curve and algorithm encoded and decoded; private keys as raw bytes, octet strings, integers and masked sequences with 0 to 4 masks; damaged, truncated, empty and over-long encodings'
ASSUMPTIONS = ['BN_*, EC_*, EVP_PKEY_* as documented (ghost contracts of dv/bnx.py)', 'OpenSSL\'s ASN.1 decoder and encoder are inverse; a decoded string has the length it says',
               'gost_ec_compute_public: property S01; fill_GOST_EC_params: property S03', 'a malformed encoding is one with a wrong length, no content, a zero or negative private key, or a point off the curve']
SRC = ['gost_ameth.c']
ONE, ZERO = const(1, 32), const(0, 32)
NIDS = ['NID_id_GostR3410_2001', 'NID_id_GostR3410_2001DH', 'NID_id_GostR3410_2012_256', 'NID_id_GostR3410_2012_512', 'NID_id_GostR3411_94_CryptoProParamSet',
        'NID_id_GostR3411_2012_256', 'NID_id_GostR3411_2012_512']
MASKS = 6


def layout(R):
    O = {'struct asn1_string_st': ['length', 'data', 'type'], 'MASKED_GOST_KEY': ['masked_priv_key', 'public_key'], 'GOST_KEY_PARAMS': ['key_params', 'hash_params', 'cipher_params']}
    q = []
    for t, fs in O.items():
        q += ['offsetof(%s, %s)' % (t, f) for f in fs] + ['sizeof(%s)' % t]
    d = probe(['openssl/asn1.h', 'gost_lcl.h'], q, workdir=R.tmp)
    return {(t.split()[-1], f): d['offsetof(%s, %s)' % (t, f)] for t, fs in O.items() for f in fs} | {t.split()[-1]: d['sizeof(%s)' % t] for t in O}


def ptr(s, p, off=0):
    q = dr.ptr_at(s, Ptr(p.obj, p.off.a + off))
    return NULL if q is None else q


def string(s, L, nm, n=None):
    """a decoded string of any length"""
    p = s.new(nm, L['asn1_string_st'], init=lambda o: const(0, 8))
    n = tm.var(nm + '.len', 32) if n is None else n
    s.assume(tm.sle(ZERO, n))
    d = s.new(nm + '.data', tm.zext(n, 64), kind='arr')
    s.wval(Ptr(p.obj, L['asn1_string_st', 'length']), n)
    s.wval(Ptr(p.obj, L['asn1_string_st', 'data']), d)
    s.mem[p.obj].meta = {'owned': True}
    return p


def base(v, typ):
    C = bnx.contracts()
    # without a number from the secure heap the conversions make one of their own
    C['BN_secure_new'] = lambda ex, s, a, i: (lambda f: [(s, bnx.new(s)), (f, NULL)])(s.fork())
    C['EVP_PKEY_get_base_id'] = C['EVP_PKEY_get_id'] = lambda ex, s, a, i: const(typ, 32)
    C['EVP_PKEY_get0'] = lambda ex, s, a, i: s.data['ec']
    C['EVP_PKEY_missing_parameters'] = lambda ex, s, a, i: ZERO
    C['EVP_PKEY_get0_type'] = C['EVP_PKEY_get_id']

    def nid2obj(ex, s, a, i):
        if a[0].op != 'c':
            raise Undecided('object identifier')
        k = 'OBJ%d' % a[0].a
        if k not in s.mem:
            s.new(k, 1, init=lambda o: tm.var('?', 8))
        return Ptr(k, 0)
    C['OBJ_nid2obj'] = nid2obj

    def free(what):
        def h(ex, s, a, i):
            if isinstance(a[0], Ptr):
                o = s.mem[a[0].obj]
                if o.freed:
                    ex.res.fail('mem:%s is released once' % what, 'line %d' % i.line)
                s.w(a[0].obj).freed = True
        return h
    for n in ('ASN1_STRING_free', 'ASN1_OCTET_STRING_free', 'ASN1_BIT_STRING_free', 'ASN1_INTEGER_free', 'MASKED_GOST_KEY_free', 'GOST_KEY_PARAMS_free'):
        C[n] = free('a structure')

    def mal(zero):
        def h(ex, s, a, i):
            r = model.malloc(zero=zero)(ex, s, a, i)
            for st, p in r:
                if not isinstance(p, Ptr):
                    st.data['failed'] = True
            return r
        return h
    C['CRYPTO_malloc'], C['CRYPTO_secure_malloc'] = mal(False), mal(False)
    C['CRYPTO_zalloc'] = mal(True)
    C['CRYPTO_secure_free'] = model.BASE['CRYPTO_free']
    return C


def two(s, *e):
    f = bnx.fail(s)
    if e:
        dr.note(s, *e)
    return [(s, ONE), (f, ZERO)]


def start(p, C):
    ex = Exec(p, contracts=C, externs=dict(model.BASE, **{k: C[k] for k in ('CRYPTO_malloc', 'CRYPTO_zalloc', 'CRYPTO_secure_malloc')}))
    ex.externs['OPENSSL_die'] = C['OPENSSL_die']
    st = State()
    st.data['ec'] = dr.opaque(st, 'eckey')
    return ex, st


def prove(R):
    p = model.prog(SRC, R.tmp)
    v = probe(['openssl/objects.h'], NIDS, workdir=R.tmp)
    L = layout(R)
    curves = curve_nids(R)
    R.contracts['BN_*, EC_*, ASN.1'] = 'assumed (OpenSSL)'
    R.contracts['gost_ec_compute_public'] = 'proved in S01'
    R.contracts['fill_GOST_EC_params'] = 'proved in S03'
    R.bounded.append('unmask_priv_key: lists of at most %d masks' % MASKS)
    wrap = 'LEGACY_PK_WRAP'     # the value of the engine's PK_PARAMS control that asks for octet strings
    types = {v[k]: (64 if k.endswith('512') else 32) for k in NIDS[:4]}

    def unmask(n, k):
        def f(R):
            C = base(v, 0)
            ex, st = start(p, C)
            st.data['key'] = {'group': dr.opaque(st, 'group'), 'priv': NULL, 'pub': NULL}
            st.new('buf', n * (k + 1), init=lambda o: tm.var('b[%d]' % o, 8))
            st.data['names'] = {('le', tuple(tm.var('b[%d]' % (n * j + o), 8) for o in range(n))): 'm%d' % j for j in range(k + 1)}
            nm = 'unmask_priv_key(%d bytes, %d masks)' % (n, k)
            good = 0
            for kind, s, r in model.runall(ex, st, 'unmask_priv_key', [dr.opaque(st, 'pk'), Ptr('buf', 0), const(n, 32), const(k, 32)]):
                if kind != 'ret':
                    continue
                live = [o for o in s.mem if o.startswith('bn') and not s.mem[o].freed and not (s.mem[o].meta or {}).get('borrowed')]
                if s.data.get('failed'):
                    # (a number may be made without the secure heap)
                    if isinstance(r, Ptr):
                        R.truth('%s: a failure is not a key' % nm, not s.mem[r.obj].freed and bnx.residue(bnx.get(s, r)) == want(k))
                    continue
                good += 1
                R.truth('%s: a number' % nm, isinstance(r, Ptr) and not s.mem[r.obj].freed)
                R.truth('%s: the product of the key and the masks modulo the order' % nm, isinstance(r, Ptr) and bnx.residue(bnx.get(s, r)) == want(k))
                if k == 0:
                    R.truth('%s: the number as it stands' % nm, bnx.get(s, r) == (A('m0'), 'exact'))
            R.truth('%s: keys are decoded' % nm, good > 0)
            R.absorb(ex, nm)

        def want(k):
            x = A('m0')
            for j in range(1, k + 1):
                x = x * A('m%d' % j)
            return bnx.modq(x)
        return ('unmask %d %d' % (n, k), f)

    def privdec(typ, n):
        def f(R):
            C = base(v, typ)
            ex, st = start(p, C)
            ln = tm.var('priv_len', 32)
            nm = 'priv_decode(%d)' % typ
            # d2i gives a length between 0 and 2^31-1
            st.assume(tm.sle(ZERO, ln))
            st.new('pkey', tm.zext(ln, 64), kind='arr')

            def get0(ex, s, a, i):
                g = bnx.fail(s)
                s.wval(a[0], dr.opaque(s, 'obj'))
                s.wval(a[1], Ptr('pkey', 0))
                s.wval(a[2], ln)
                s.wval(a[3], dr.opaque(s, 'alg'))
                return [(s, ONE), (g, ZERO)]
            C['PKCS8_pkey_get0'] = get0
            C['decode_gost_algor_params'] = lambda ex, s, a, i: two(s, 'params', a[0])

            def d2i(kind):
                def h(ex, s, a, i):
                    g = bnx.fail(s)
                    q = ptr(s, a[1])
                    R.truth('%s: decodes from the start of the key' % nm, q == Ptr('pkey', 0))
                    R.eq('%s: to its end' % nm, tm.sext(a[2], 64) if a[2].w == 32 else a[2], tm.zext(ln, 64), s.pc)
                    if kind == 'octet':
                        o = string(s, L, 'octet')
                    elif kind == 'int':
                        o = dr.opaque(s, 'asn1int')
                    else:
                        o = s.new('masked', L['MASKED_GOST_KEY'], init=lambda o: const(0, 8))
                        for x in ('masked_priv_key', 'public_key'):
                            s.wval(Ptr(o.obj, L['MASKED_GOST_KEY', x]), string(s, L, x))
                    s.data['form'] = kind
                    return [(s, o), (g, NULL)]
                return h
            C['d2i_ASN1_OCTET_STRING'], C['d2i_ASN1_INTEGER'], C['d2i_MASKED_GOST_KEY'] = d2i('octet'), d2i('int'), d2i('masked')

            def le(ex, s, a, i):
                g = bnx.fail(s)
                if a[1].op != 'c':
                    o = ex.values(s, a[1], 4)
                    if len(o) != 1:
                        raise Undecided('length of a number')
                bs = ex.read_bytes(s, a[0], n, i.line)
                R.eq('%s: %d bytes of a number' % (nm, n), a[1], const(n, 32), s.pc)
                w = [tm.arr('octet.data', const(j, 64)) for j in range(n)]
                R.eq('%s: the bytes of the octet string' % nm, bs, w, s.pc)
                b = a[2] if isinstance(a[2], Ptr) else bnx.new(s)
                bnx.put(s, b, (A('octet'), 'exact'))
                return [(s, b), (g, NULL)]
            C['BN_lebin2bn'] = le

            def tobn(ex, s, a, i):
                g = bnx.fail(s)
                b = a[1] if isinstance(a[1], Ptr) else bnx.new(s)
                bnx.put(s, b, (A('int') - A('neg'), 'exact'))
                return [(s, b), (g, NULL)]
            C['ASN1_INTEGER_to_BN'] = tobn

            def unm(ex, s, a, i):
                g = bnx.fail(s)
                o = a[1].obj
                R.eq('%s: masked keys have the length of the key' % nm, a[2], const(n, 32), s.pc)
                size = ln if o == 'pkey' else tm.var('masked_priv_key.len', 32)
                R.truth('%s: unmasks the key given' % nm, o in ('pkey', 'masked_priv_key.data') and s.data.get('form', 'raw') == ('raw' if o == 'pkey' else 'masked'))
                R.eq('%s: from its start' % nm, a[1].off, const(0, 64), s.pc)
                # precondition of unmask_priv_key and the count of the masks at once
                R.eq('%s: all masks' % nm, tm.mul(tm.add(tm.sext(a[3], 64), const(1, 64)), const(n, 64)), tm.zext(size, 64), s.pc)
                R.cond('%s: not less than none' % nm, tm.sle(ZERO, a[3]), s.pc)
                b = bnx.new(s, (A('unmasked'), 'exact'))
                return [(s, b), (g, NULL)]
            C['unmask_priv_key'] = unm

            def setp(ex, s, a, i):
                x = bnx.get(s, a[1])
                g = bnx.fail(s)
                dr.note(s, 'set', a[0], x, tuple(bnx.facts(s)))
                return [(s, ONE), (g, ZERO)]
            C['gost_set_priv_key'] = setp
            pk = dr.opaque(st, 'pk')
            forms = set()
            for kind, s, r in model.runall(ex, st, 'priv_decode_gost', [pk, dr.opaque(st, 'p8')]):
                if kind != 'ret':
                    continue
                ev = [e for e in dr.events(s) if e[0] == 'set']
                for o in s.mem:
                    if (o.startswith('octet') and not o.endswith('.data') or o.startswith('asn1int') or o == 'masked') and not s.mem[o].freed:
                        R.truth('%s: what was decoded is released' % nm, False, o)
                if s.data.get('failed') or not ev:
                    R.cond('%s: a failure is reported' % nm, tm.eq(r, ZERO), s.pc)
                    R.truth('%s: only with a reason' % nm, s.data.get('failed') or reason(s, ln, n), str(s.data.get('form')))
                    continue
                R.cond('%s: success' % nm, tm.eq(r, ONE), s.pc)
                form = s.data.get('form', 'raw')
                forms.add(form)
                x = {'raw': A('unmasked'), 'masked': A('unmasked'), 'octet': A('octet'), 'int': A('int') - A('neg')}[form]
                R.truth('%s: the number decoded is the private key' % nm, len(ev) == 1 and ev[0][1] == pk and ev[0][2][0] == x)
                F = {q[0] for q in ev[0][3]}
                R.truth('%s: never zero' % nm, 'nonzero' in F)
                R.truth('%s: never negative' % nm, form != 'int' or 'nonneg' in F)
                R.cond('%s: never from nothing' % nm, tm.slt(ZERO, ln), s.pc)
                whole = tm.eq(tm.urem(ln, const(n, 32)), ZERO)
                R.cond('%s: raw keys are whole multiples' % nm, whole if form == 'raw' else tm.not_(whole), s.pc)
                tag = tm.arr('pkey', const(0, 64))
                if form != 'raw':
                    R.eq('%s: by its tag' % nm, tag, const({'octet': 4, 'int': 2, 'masked': 0x30}[form], 8), s.pc)
            R.truth('%s: all containers' % nm, forms == {'raw', 'octet', 'int', 'masked'}, str(forms))
            R.absorb(ex, nm)

        def reason(s, ln, n):
            """a refusal without a failed call: the container is none or has a wrong length, or the number is zero or negative"""
            F = {q[0] for q in bnx.facts(s)}
            if F & {'zero', 'neg'}:
                return True
            good = s.data.get('form')
            if good == 'octet':
                c = tm.eq(tm.var('octet.len', 32), const(n, 32))
            elif good == 'masked':
                m = tm.var('masked_priv_key.len', 32)
                c = tm.and_(tm.slt(ZERO, m), tm.eq(tm.urem(m, const(n, 32)), ZERO))
            elif good is None:
                tag = tm.arr('pkey', const(0, 64))
                R.cond('priv_decode(%d): nothing is refused without a reason' % typ, tm.or_(tm.eq(ln, ZERO), tm.and_(tm.not_(tm.eq(tm.urem(ln, const(n, 32)), ZERO)), tm.and_(tm.not_(tm.eq(tag, const(4, 8))), tm.and_(tm.not_(tm.eq(tag, const(2, 8))), tm.not_(tm.eq(tag, const(0x30, 8))))))), s.pc)
                return True
            else:
                return False
            R.cond('priv_decode(%d): nothing is refused without a reason' % typ, tm.not_(c), s.pc)
            return True
        return ('priv_decode %d' % typ, f)

    def setpriv(typ):
        def f(R):
            C = base(v, typ)
            C['gost_ec_compute_public'] = lambda ex, s, a, i: two(s, 'public', a[0])
            ex, st = start(p, C)
            st.data['key'] = {'group': dr.opaque(st, 'group'), 'priv': NULL, 'pub': NULL}
            num = bnx.new(st, (A('d'), 'exact'))
            nm = 'gost_set_priv_key(%d)' % typ
            good = 0
            for kind, s, r in model.runall(ex, st, 'gost_set_priv_key', [dr.opaque(st, 'pk'), num]):
                if kind != 'ret':
                    continue
                if s.data.get('failed') or typ not in types:
                    R.cond('%s: a failure is reported' % nm, tm.eq(r, ZERO), s.pc)
                    continue
                good += 1
                R.cond('%s: success' % nm, tm.eq(r, ONE), s.pc)
                q = s.data['key']['priv']
                R.truth('%s: the private key' % nm, isinstance(q, Ptr) and bnx.get(s, q) == (A('d'), 'exact'))
                R.truth('%s: and its public key' % nm, ('public', s.data['ec']) in dr.events(s))
            R.truth('%s: keys are set' % nm, good > 0 or typ not in types)
            R.absorb(ex, nm)
        return ('setpriv %d' % typ, f)

    def number(C, atoms):
        """bytes of the numbers; store_bignum may find them too long"""
        def store(ex, s, a, i):
            if a[2].op != 'c':
                o = ex.values(s, a[2], 3)
                if len(o) != 1:
                    raise Undecided('length of a number')
                n = o[0]
            else:
                n = a[2].a
            if not isinstance(a[0], Ptr):
                ex.res.fail('mem:a number is there', 'line %d' % i.line)
                return ZERO
            x = bnx.get(s, a[0])[0].atom()
            f = bnx.fail(s)
            pt = a[1]
            if pt.off.op != 'c':
                pt = Ptr(pt.obj, const(ex.values(s, pt.off, 3)[0], 64))
            ex.write_bytes(s, pt, [tm.var('%s.%d' % (x, j), 8) for j in range(n)][::-1], i.line)
            return [(s, ONE), (f, ZERO)] if atoms else ONE
        C['store_bignum'] = store

    def strs(C):
        def oset(ex, s, a, i):
            f = bnx.fail(s)
            n = a[2]
            if n.op != 'c':
                n = const(ex.values(s, n, 3)[0], 32)
            s.data['str.' + a[0].obj] = tuple(ex.read_bytes(s, a[1], n.a, i.line))
            return [(s, ONE), (f, ZERO)]
        C['ASN1_OCTET_STRING_set'] = C['ASN1_STRING_set'] = oset
        C['ASN1_STRING_new'] = C['ASN1_OCTET_STRING_new'] = lambda ex, s, a, i: [(s, dr.opaque(s, 'str')), (bnx.fail(s), NULL)]

        def i2d(ex, s, a, i):
            f = bnx.fail(s)
            d = dr.opaque(s, 'der')
            s.data['der.' + d.obj] = s.data['str.' + a[0].obj]
            s.wval(a[1], d)
            s.assume(tm.slt(ZERO, tm.var('derlen', 32)))
            return [(s, tm.var('derlen', 32)), (f, const(0xffffffff, 32))]
        C['i2d_ASN1_OCTET_STRING'] = i2d

    def privenc(typ, n, fmt, have=True):
        def f(R):
            C = base(v, typ)
            number(C, True)
            strs(C)
            ex, st = start(p, C)
            st.data['key'] = {'group': dr.opaque(st, 'group'), 'priv': bnx.new(st, (A('d'), 'exact'), borrowed=True) if have else NULL, 'pub': NULL}
            C['get_gost_engine_param'] = lambda ex, s, a, i: s.new('fmt', len(fmt) + 1, init=lambda o: const((fmt.encode() + b'\0')[o], 8)) if fmt is not None else NULL

            def params(ex, s, a, i):
                g = bnx.fail(s)
                return [(s, dr.opaque(s, 'params')), (g, NULL)]
            C['encode_gost_algor_params'] = params

            def set0(ex, s, a, i):
                g = bnx.fail(s)
                m = a[6]
                bs = None
                if a[5].obj.startswith('der'):
                    bs = ('octet', s.data['der.' + a[5].obj], m)
                else:
                    if m.op != 'c':
                        m = const(ex.values(s, m, 3)[0], 32)
                    bs = ('raw', tuple(ex.read_bytes(s, a[5], m.a, i.line)))
                    R.truth('%s: the structure can release the bytes' % nm, a[5].off.op == 'c' and a[5].off.a == 0 and not s.mem[a[5].obj].freed and s.data.get('sec') != a[5].obj)
                dr.note(s, 'p8', a[1], a[2], a[3], a[4], bs)
                return [(s, ONE), (g, ZERO)]
            C['PKCS8_pkey_set0'] = set0
            mal = C['CRYPTO_secure_malloc']

            def sec(ex, s, a, i):
                r = mal(ex, s, a, i)
                for t, q in r:
                    if isinstance(q, Ptr):
                        t.data['sec'] = q.obj
                return r
            C['CRYPTO_secure_malloc'] = ex.externs['CRYPTO_secure_malloc'] = sec
            nm = 'priv_encode(%d, %s)' % (typ, fmt)
            good = 0
            for kind, s, r in model.runall(ex, st, 'priv_encode_gost', [dr.opaque(st, 'p8'), dr.opaque(st, 'pk')]):
                if kind != 'ret':
                    continue
                ev = [e for e in dr.events(s) if e[0] == 'p8']
                if s.data.get('failed') or not have:
                    R.cond('%s: a failure is reported' % nm, tm.eq(r, ZERO), s.pc)
                    continue
                good += 1
                R.cond('%s: success' % nm, tm.eq(r, ONE), s.pc)
                R.truth('%s: one structure' % nm, len(ev) == 1)
                e = ev[0]
                d = tuple(tm.var('d.%d' % j, 8) for j in range(n))
                R.truth('%s: the little-endian bytes of the private key' % nm, e[5][0] == ('octet' if fmt == wrap else 'raw') and tuple(e[5][1]) == d)
                R.truth('%s: algorithm' % nm, e[1] == Ptr('OBJ%d' % typ, 0))
                R.truth('%s: version 0, parameters in a sequence' % nm, e[2] == ZERO and e[3] == const(16, 32) and isinstance(e[4], Ptr) and e[4].obj.startswith('params'))
            R.truth('%s: keys are encoded' % nm, good > 0 or not have)
            R.absorb(ex, nm)
        return ('priv_encode %d %s %s' % (typ, fmt, have), f)
    def pubdec(typ, n):
        def f(R):
            C = base(v, typ)
            ex, st = start(p, C)
            nm = 'pub_decode(%d, %d)' % (typ, n)
            st.new('pub', tm.zext(tm.var('publen', 32), 64), kind='arr')
            st.assume(tm.sle(ZERO, tm.var('publen', 32)))
            st.data['key'] = {'group': dr.opaque(st, 'group'), 'priv': NULL, 'pub': NULL}

            def get0(ex, s, a, i):
                g = bnx.fail(s)
                s.wval(a[0], dr.opaque(s, 'obj'))
                s.wval(a[1], Ptr('pub', 0))
                s.wval(a[2], tm.var('publen', 32))
                s.wval(a[3], dr.opaque(s, 'alg'))
                return [(s, ONE), (g, ZERO)]
            C['X509_PUBKEY_get0_param'] = get0
            C['OBJ_obj2nid'] = lambda ex, s, a, i: const(typ, 32)
            C['EVP_PKEY_assign'] = lambda ex, s, a, i: ONE
            C['decode_gost_algor_params'] = lambda ex, s, a, i: two(s, 'params', a[0])

            def deg(ex, s, a, i):
                b = tm.var('degree', 32)
                s.assume(tm.ule(b, const(8 * n, 32)))
                s.assume(tm.ule(const(8 * n - 7, 32), b))
                return b
            C['EC_GROUP_get_degree'] = deg

            def d2i(ex, s, a, i):
                g = bnx.fail(s)
                R.truth('%s: decodes the key given' % nm, ptr(s, a[1]) == Ptr('pub', 0))
                return [(s, string(s, L, 'octet')), (g, NULL)]
            C['d2i_ASN1_OCTET_STRING'] = d2i
            want = {tuple(tm.arr('octet.data', const(j, 64)) for j in range(n)): 'X', tuple(tm.arr('octet.data', const(n + j, 64)) for j in range(n)): 'Y'}

            def bn(rev):
                def h(ex, s, a, i):
                    g = bnx.fail(s)
                    if a[1].op != 'c':
                        o = ex.values(s, a[1], 3)
                        if len(o) != 1:
                            raise Undecided('length of a coordinate')
                        a[1] = const(o[0], 32)
                    q = a[0]
                    if q.off.op != 'c':
                        q = Ptr(q.obj, const(ex.values(s, q.off, 3)[0], 64))
                    bs = tuple(ex.read_bytes(s, q, a[1].a, i.line))
                    bs = bs[::-1] if rev else bs
                    b = a[2] if isinstance(a[2], Ptr) else bnx.new(s)
                    bnx.put(s, b, (A(want.get(bs, 'other')), 'exact'))
                    return [(s, b), (g, NULL)]
                return h
            C['BN_bin2bn'], C['BN_lebin2bn'] = bn(True), bn(False)

            def rev(ex, s, a, i):
                if a[2].op != 'c':
                    o = ex.values(s, a[2], 3)
                    if len(o) != 1:
                        raise Undecided('length of the point')
                    a[2] = const(o[0], a[2].w)
                return model.bufreverse(ex, s, a, i)
            C['BUF_reverse'] = rev

            def aff(ex, s, a, i):
                g = bnx.fail(s)   # not on the curve
                dr.note(s, 'affine', a[1], bnx.get(s, a[2])[0], bnx.get(s, a[3])[0])
                return [(s, ONE), (g, ZERO)]
            C['EC_POINT_set_affine_coordinates'] = aff
            C['EC_POINT_new'] = lambda ex, s, a, i: [(s, dr.opaque(s, 'point')), (bnx.fail(s), NULL)]
            C['EC_KEY_set_public_key'] = lambda ex, s, a, i: two(s, 'pubset', a[0], a[1])
            good = 0
            for kind, s, r in model.runall(ex, st, 'pub_decode_gost_ec', [dr.opaque(st, 'pk'), dr.opaque(st, 'x509')]):
                if kind != 'ret':
                    continue
                ev = dr.events(s)
                ps = [e for e in ev if e[0] == 'pubset']
                ok = tm.eq(tm.var('octet.len', 32), const(2 * n, 32))
                if s.data.get('failed') or not ps:
                    R.cond('%s: a failure is reported' % nm, tm.sle(r, ZERO), s.pc)
                    if not s.data.get('failed'):
                        R.cond('%s: only a wrong length is refused' % nm, tm.not_(ok), s.pc)
                    continue
                good += 1
                R.cond('%s: success' % nm, tm.eq(r, ONE), s.pc)
                R.cond('%s: only of the length of two coordinates' % nm, ok, s.pc)
                af = [e for e in ev if e[0] == 'affine']
                R.truth('%s: the point with the little-endian coordinates' % nm, len(af) == 1 and af[0][2:] == (A('X'), A('Y')))
                R.truth('%s: is the public key' % nm, len(ps) == 1 and ps[0][2] == af[0][1] and ps[0][1] == s.data['ec'])
            R.truth('%s: keys are decoded' % nm, good > 0)
            R.absorb(ex, nm)
        return ('pub_decode %d %d' % (typ, n), f)

    def pubenc(typ, n):
        def f(R):
            C = base(v, typ)
            number(C, False)
            strs(C)
            ex, st = start(p, C)
            nm = 'pub_encode(%d, %d)' % (typ, n)
            pub = dr.opaque(st, 'pub')
            st.data['pt.' + pub.obj] = (('Q', K(1)),)
            st.mem[pub.obj].meta = {'borrowed': True}
            st.data['key'] = {'group': dr.opaque(st, 'group'), 'priv': NULL, 'pub': pub}

            def params(ex, s, a, i):
                g = bnx.fail(s)
                return [(s, dr.opaque(s, 'params')), (g, NULL)]
            C['encode_gost_algor_params'] = params

            def bits(ex, s, a, i):
                b = tm.var('bits', 32)
                s.assume(tm.ule(b, const(8 * n, 32)))
                s.assume(tm.ule(const(8 * n - 7, 32), b))
                return b
            C['BN_num_bits'] = C['EC_GROUP_get_degree'] = bits

            def rev(ex, s, a, i):
                if a[2].op != 'c':
                    a[2] = const(ex.values(s, a[2], 3)[0], a[2].w)
                return model.bufreverse(ex, s, a, i)
            C['BUF_reverse'] = rev

            def set0(ex, s, a, i):
                g = bnx.fail(s)
                dr.note(s, 'x509', a[1], a[2], a[3], s.data.get('der.' + a[4].obj), a[5])
                return [(s, ONE), (g, ZERO)]
            C['X509_PUBKEY_set0_param'] = set0
            good = 0
            nx, ny = [bnx.coord(c, (('Q', K(1)),)) for c in 'xy']
            for kind, s, r in model.runall(ex, st, 'pub_encode_gost_ec', [dr.opaque(st, 'x509'), dr.opaque(st, 'pk')]):
                if kind != 'ret':
                    continue
                ev = [e for e in dr.events(s) if e[0] == 'x509']
                if s.data.get('failed'):
                    R.cond('%s: a failure is reported' % nm, tm.eq(r, ZERO), s.pc)
                    continue
                good += 1
                R.cond('%s: success' % nm, tm.eq(r, ONE), s.pc)
                w = tuple(tm.var('%s.%d' % (c, j), 8) for c in (nx, ny) for j in range(n))
                R.truth('%s: the little-endian coordinates in an octet string' % nm, len(ev) == 1 and ev[0][4] == w and ev[0][5] == tm.var('derlen', 32))
                R.truth('%s: algorithm and parameters' % nm, ev[0][1] == Ptr('OBJ%d' % typ, 0) and ev[0][2] == const(16, 32) and isinstance(ev[0][3], Ptr) and ev[0][3].obj.startswith('params'))
            R.truth('%s: keys are encoded' % nm, good > 0)
            R.absorb(ex, nm)
        return ('pub_encode %d %d' % (typ, n), f)

    def algenc(typ, c):
        def f(R):
            C = base(v, typ)
            ex, st = start(p, C)
            st.data['key'] = {'group': dr.opaque(st, 'group'), 'priv': NULL, 'pub': NULL}
            C['EC_GROUP_get_curve_name'] = lambda ex, s, a, i: const(c, 32)

            def new(t, n):
                def h(ex, s, a, i):
                    return [(s, s.new(t, n, init=lambda o: const(0, 8))), (bnx.fail(s), NULL)]
                return h
            C['ASN1_STRING_new'], C['GOST_KEY_PARAMS_new'] = new('params', L['asn1_string_st']), new('gkp', L['GOST_KEY_PARAMS'])

            def i2d(ex, s, a, i):
                g = bnx.fail(s)
                s.wval(a[1], dr.opaque(s, 'der'))
                dr.note(s, 'i2d', *[ptr(s, a[0], L['GOST_KEY_PARAMS', x]) for x in ('key_params', 'hash_params', 'cipher_params')])
                n = tm.var('derlen', 32)
                s.assume(tm.slt(ZERO, n))
                return [(s, n), (g, const(0xffffffff, 32))]
            C['i2d_GOST_KEY_PARAMS'] = i2d
            nm = 'encode_gost_algor_params(%d, %d)' % (typ, c)
            good = 0
            for kind, s, r in model.runall(ex, st, 'encode_gost_algor_params', [dr.opaque(st, 'pk')]):
                if kind != 'ret':
                    continue
                ev = dr.events(s)
                if s.data.get('failed') or not c:
                    R.truth('%s: a failure is reported' % nm, not isinstance(r, Ptr))
                    continue
                good += 1
                R.truth('%s: names the parameter set' % nm, len(ev) == 1 and ev[0][1] == Ptr('OBJ%d' % c, 0))
                R.truth('%s: result' % nm, r == Ptr('params', 0) and not s.mem['params'].freed)
                R.eq('%s: length' % nm, s.val(Ptr('params', L['asn1_string_st', 'length']), 4), tm.var('derlen', 32), s.pc)
                R.eq('%s: a sequence' % nm, s.val(Ptr('params', L['asn1_string_st', 'type']), 4), const(16, 32), s.pc)
                R.truth('%s: its bytes' % nm, isinstance(ptr(s, r, L['asn1_string_st', 'data']), Ptr) and ptr(s, r, L['asn1_string_st', 'data']).obj.startswith('der'))
            R.truth('%s: parameters are encoded' % nm, good > 0 or not c)
            R.absorb(ex, nm)
        return ('alg_encode %d %d' % (typ, c), f)

    def algdec(typ):
        def f(R):
            C = base(v, typ)
            ex, st = start(p, C)
            nm = 'decode_gost_algor_params(%d)' % typ
            pt, keep = tm.var('ptype', 32), dr.opaque(st, 'ecold')
            C['X509_ALGOR_get0'] = lambda ex, s, a, i: (s.wval(a[0], dr.opaque(s, 'obj')), s.wval(a[1], pt), s.wval(a[2], string(s, L, 'val')), None)[3]
            C['OBJ_obj2nid'] = lambda ex, s, a, i: const(typ, 32) if a[0].obj.startswith('obj') else tm.var('param_nid', 32) if a[0].obj == 'OBJkey' else tm.var('othernid', 32)

            def d2i(ex, s, a, i):
                g = bnx.fail(s)
                R.truth('%s: decodes the parameters' % nm, ptr(s, a[1]) == Ptr('val.data', 0))
                R.eq('%s: of their length' % nm, tm.sext(a[2], 64) if a[2].w == 32 else a[2], tm.zext(tm.var('val.len', 32), 64), s.pc)
                o = s.new('gkp', L['GOST_KEY_PARAMS'], init=lambda o: const(0, 8))
                s.wval(Ptr('gkp', L['GOST_KEY_PARAMS', 'key_params']), s.new('OBJkey', 1, init=lambda o: const(0, 8)))
                for x in ('hash_params', 'cipher_params'):
                    s.wval(Ptr('gkp', L['GOST_KEY_PARAMS', x]), dr.opaque(s, 'OBJother'))
                return [(s, o), (g, NULL)]
            C['d2i_GOST_KEY_PARAMS'] = d2i
            C['EVP_PKEY_set_type'] = lambda ex, s, a, i: two(s, 'type', a[1])
            C['EC_KEY_new'] = lambda ex, s, a, i: [(s, dr.opaque(s, 'eckey')), (bnx.fail(s), NULL)]
            C['EC_KEY_free'] = model.nop
            C['fill_GOST_EC_params'] = lambda ex, s, a, i: two(s, 'fill', a[0], a[1])

            def assign(ex, s, a, i):
                g = bnx.fail(s)
                s.data['ec'] = a[2]
                return [(s, ONE), (g, ZERO)] if isinstance(a[2], Ptr) else [(g, ZERO)]
            C['EVP_PKEY_assign'] = assign
            good = 0
            for have in (True, False):
                t = st.fork()
                t.data['ec'] = keep if have else NULL
                for kind, s, r in model.runall(ex, t, 'decode_gost_algor_params', [dr.opaque(t, 'pk'), dr.opaque(t, 'alg')]):
                    if kind != 'ret':
                        continue
                    ev = dr.events(s)
                    fl = [e for e in ev if e[0] == 'fill']
                    if s.data.get('failed') or not fl:
                        R.cond('%s: a failure is reported' % nm, tm.eq(r, ZERO), s.pc)
                        if not s.data.get('failed') and typ in types:
                            R.cond('%s: only another form is refused' % nm, tm.not_(tm.eq(pt, const(16, 32))), s.pc)
                        continue
                    good += 1
                    R.cond('%s: success' % nm, tm.eq(r, ONE), s.pc)
                    R.cond('%s: only for a sequence' % nm, tm.eq(pt, const(16, 32)), s.pc)
                    R.truth('%s: the type of the key' % nm, ('type', const(typ, 32)) in ev and typ in types)
                    R.truth('%s: the parameter set named fills the key' % nm, len(fl) == 1 and fl[0][1] == s.data['ec'])
                    R.eq('%s: the parameter set' % nm, fl[0][2], tm.var('param_nid', 32), s.pc)
            R.truth('%s: parameters are decoded' % nm, good > 0 or typ not in types)
            R.absorb(ex, nm)
        return ('alg_decode %d' % typ, f)
    jobs = [unmask(n, k) for n in (32, 64) for k in range(MASKS + 1)]
    for t, n in types.items():
        jobs += [privdec(t, n), setpriv(t), algdec(t)]
        jobs += [privenc(t, n, f, h) for f in (None, wrap, 'RAW', '') for h in (True, False)]
        jobs += [pubdec(t, m) for m in (32, 64)] + [pubenc(t, m) for m in (32, 64)]
        jobs += [algenc(t, c) for c in curves + [0]]
    jobs += [setpriv(1), algdec(1)]
    R.parallel(jobs)


def curve_nids(R):
    from spec import ec
    names = ['NID_' + n.replace('-', '_') for n in ec.RAW]
    return sorted(set(probe(['openssl/objects.h'], names, workdir=R.tmp).values()))


def search(S):
    from dv import ecx, der
    from dv.evp import Engine
    from dv.real import Buf
    E = Engine(S.lib)
    X = ecx.EC(S.lib)
    rng = S.rng
    P, I, SZ, L = ecx.P, ecx.I, ctypes.c_size_t, ctypes.c_long
    cf = S.lib.cf
    assign, get0 = cf('EVP_PKEY_assign', I, P, I, P), cf('EVP_PKEY_get0', P, P)
    baseid = cf('EVP_PKEY_get_base_id', I, P)
    i2d, d2i = cf('i2d_PUBKEY', I, P, P), cf('d2i_PUBKEY', P, P, P, L)
    p8new, p8free = cf('EVP_PKEY2PKCS8', P, P), cf('PKCS8_PRIV_KEY_INFO_free', None, P)
    i2p8, d2p8 = cf('i2d_PKCS8_PRIV_KEY_INFO', I, P, P), cf('d2i_PKCS8_PRIV_KEY_INFO', P, P, P, L)
    p8key = cf('EVP_PKCS82PKEY', P, P)
    g_priv, g_pub, g_grp = [cf('EC_KEY_get0_' + w, P, P) for w in ('private_key', 'public_key', 'group')]
    g_name = cf('EC_GROUP_get_curve_name', I, P)
    setpar = S.lib.fn('gost_set_default_param', I, I, ctypes.c_char_p)
    memory = cf('CRYPTO_secure_malloc_init', I, SZ, SZ)
    algs = ['gost2001', 'gost2012_256', 'gost2012_512']
    if rng.random() < 0.5:
        memory(1 << 20, 32)

    def same(what, ins, got, want):
        if got != want:
            S.fail('%s: got %.200s, expected %.200s' % (what, got, want), None, ins=ins)

    def out(f, k):
        n = f(k, None)
        if n <= 0:
            return None
        o = Buf(n)
        q = P(o.p)
        f(k, ctypes.byref(q))
        return o.get() if o.ok() else None

    def into(f, b, free, n=None):
        """decodes exactly this encoding"""
        o = Buf(b)
        q = P(o.p)
        r = f(None, ctypes.byref(q), len(b))
        if r and q.value != o.p + len(b):
            free(r)
            return None
        return r

    def scal(k):
        v = g_priv(k)
        return X.val(v) if v else None

    def check(what, k, alg, name, d, Q, enc):
        ec = get0(k)
        same(what + ': algorithm', [alg, name, hex(d or 0), enc.hex()], baseid(k), E.nid(alg.encode()))
        same(what + ': parameter set', [alg, name, hex(d or 0), enc.hex()], g_name(g_grp(ec)), X.nid(name))
        if d is not None:
            same(what + ': scalar', [alg, name, hex(d), enc.hex()], scal(ec), d)
        same(what + ': point', [alg, name, hex(d or 0), enc.hex()], X.coords(g_grp(ec), g_pub(ec)), Q)

    def p8(head, blob):
        return der.seq(der.integer(0), head, der.octets(blob))

    def private(enc):
        i = into(d2p8, enc, p8free)
        if not i:
            return None, False
        k = p8key(i)
        p8free(i)
        X.err()
        return k, True
    names = sorted(X.curves)
    turn = rng.randrange(1000)
    while S.more():
        S.case(turn=turn)
        turn += 1
        name = names[turn % len(names)]
        c = X.curves[name]
        n, q = c.n, c.q
        alg = 'gost2012_512' if n == 64 else rng.choice(algs[:2])
        d = rng.choice([1, 2, q - 1, q - 2, q >> 1, 1 << 8 * (n - 1) - 1, 255, rng.randrange(1, 1 << 8 * (n // 2)), rng.randrange(1, q), rng.randrange(1, q), (rng.randrange(1, q) >> 64) << 64])
        d = d % q or 1
        Q = c.mul(d, c.G)
        k = X.pk_new()
        assign(k, E.nid(alg.encode()), X.key(X.nid(name), d, Q))
        # public keys
        sp = out(i2d, k)
        if sp is None:
            S.fail('i2d_PUBKEY of a key of %s %s' % (alg, name), None, ins=[hex(d)])
            return
        x = der.parts(der.one(sp)[1])
        head, pt = der.enc(*x[0]), Q[0].to_bytes(n, 'little') + Q[1].to_bytes(n, 'little')
        same('encoded point of %s %s' % (alg, name), [hex(d)], x[1], (3, b'\0' + der.octets(pt)))
        r = into(d2i, sp, X.pk_free)
        if not r:
            S.fail('decoding an encoded public key of %s %s' % (alg, name), None, ins=[sp.hex()])
            return
        check('decoded public key', r, alg, name, None, Q, sp)
        same('encoding again', [sp.hex()], out(i2d, r), sp)
        X.pk_free(r)

        def badpub(what, enc):
            r = into(d2i, enc, X.pk_free)
            if r:
                ec = get0(r)
                S.fail('a public key with %s is accepted (%s %s, %s)' % (what, alg, name, hex(d)), None, ins=[enc.hex()])
                X.pk_free(r)
            X.err()

        def badpoint(what, b):
            badpub(what, der.seq(head, der.bits(der.octets(b))))
        for b in {b'', pt[:-1], pt[:-2], pt + b'\0', pt + b'\0\0', pt[:n], pt + pt, pt[:1], bytes(2 * n - 2), pt[1:], S.bytes(rng.randrange(2 * n)), S.bytes(2 * n + 2 + rng.randrange(200))}:
            badpoint('a point of %d octets' % len(b), b)
        i = rng.randrange(2 * n)
        y = pt[:i] + bytes([pt[i] ^ 1 << rng.randrange(8)]) + pt[i + 1:]
        for b in (y, bytes(2 * n), b'\xff' * (2 * n), pt[n:] + pt[:n]):
            v = (int.from_bytes(b[:n], 'little'), int.from_bytes(b[n:], 'little'))
            if max(v) >= c.p or not c.on(v):
                badpoint('a point that is not on the curve', b)
        badpub('no octet string', der.seq(head, der.bits(b'')))
        badpub('bare octets', der.seq(head, der.bits(pt)))
        badpub('a short octet string', der.seq(head, der.bits(der.octets(pt)[:-1])))
        badpub('a long length', der.seq(head, der.bits(b'\4\x82\xff\xff' + pt)))
        a = der.parts(der.one(head)[1])
        for w, h in (('no parameters', der.seq(der.enc(*a[0]))), ('NULL parameters', der.seq(der.enc(*a[0]), b'\5\0')), ('empty parameters', der.seq(der.enc(*a[0]), der.seq())),
                     ('an unknown parameter set', der.seq(der.enc(*a[0]), der.seq(bytes.fromhex('06032a0304')))), ('a damaged parameter sequence', der.seq(der.enc(*a[0]), der.enc(0x30, a[1][1][:-1])))):
            badpub(w, der.seq(h, der.bits(der.octets(pt))))
            r, parsed = private(p8(h, d.to_bytes(n, 'little')))
            if r:
                S.fail('a private key with %s is accepted (%s %s)' % (w, alg, name), None, ins=[h.hex()])
                return
        # private keys as the engine writes them
        raw = d.to_bytes(n, 'little')
        wrap = rng.random() < 0.5
        setpar(2, b'LEGACY_PK_WRAP' if wrap else b'X')
        i = p8new(k)
        e = i and out(i2p8, i)
        if i:
            p8free(i)
        if not e:
            S.fail('encoding a private key of %s %s' % (alg, name), None, ins=[hex(d), wrap])
            return
        same('encoded private key', [alg, name, hex(d), wrap], e, p8(head, der.octets(raw) if wrap else raw))
        lib = lambda v: v.to_bytes(n, 'little')
        forms = [('own', e), ('raw', p8(head, raw)), ('octets', p8(head, der.octets(raw))), ('integer', p8(head, der.integer(d)))]
        for m in sorted({0, 1, rng.randrange(2, 5), rng.randrange(2, 12)}):
            ms = [rng.choice((1, q - 1, 2, rng.randrange(1, q), rng.randrange(1, q), 1 << 8 * n - 1)) % q or 1 for _ in range(m)]
            v = d
            for z in ms:
                v = v * pow(z, -1, q) % q
            b = b''.join(map(lib, [v] + ms))
            forms.append(('masked %d' % m, p8(head, b)))
            mg = lambda b: der.seq(der.octets(b), der.octets(pt))
            forms.append(('masked sequence %d' % m, p8(head, mg(b))))
        for w, b in forms:
            r, parsed = private(b)
            if not r:
                S.fail('a private key is refused: %s of %s %s' % (w, alg, name), None, ins=[hex(d), b.hex()])
                return
            check('private key, ' + w, r, alg, name, d, Q, b)
            X.pk_free(r)

        def bad(what, blob):
            r, parsed = private(p8(head, blob))
            if r:
                S.fail('a private key with %s is accepted (%s %s, scalar %s)' % (what, alg, name, hex(scal(get0(r)) or 0)), None, ins=[blob.hex()])
                X.pk_free(r)
        size = lambda v: v and len(v) % n
        bad('no content', b'')
        for ln in sorted({1, 2, n - 1, n + 1, n // 2, 2 * n - 1, rng.randrange(1, 5 * n)}):
            z = bytes([rng.choice((0, 5, 0x31, 0x80, 0xff))]) + S.bytes(ln - 1)
            if ln % n:
                bad('%d octets of content' % ln, z)
            z = S.bytes(ln - 1) + b'\1'
            if ln != n and len(der.octets(z)) % n:
                bad('an octet string of %d' % ln, der.octets(z))
            if ln % n and len(mg(z)) % n:
                bad('a masked key of %d octets' % ln, mg(z))
        for z, w in ((b'', 'an empty octet string'), (bytes(n), 'a zero octet string')):
            bad(w, der.octets(z))
        for w, z in (('a zero number', bytes(n)), ('a zero mask', raw + bytes(n)), ('a zero masked key', bytes(n) + raw), ('the order as key and a mask', lib(q) + raw),
                     ('integer zero', der.integer(0)), ('a negative integer', der.integer(-d)), ('an empty integer', b'\2\0'), ('an empty masked key', der.seq(der.octets(b''))), ('an empty sequence', der.seq()),
                     ('a masked key cut short', mg(raw + raw)[:-1]), ('an octet string cut short', der.octets(raw)[:-1]), ('an octet string too long for its place', b'\4\x82\xff\xff' + raw), ('a length only', b'\4'), ('a sequence tag only', b'\x30'),
                     ('a zero masked sequence', der.seq(der.octets(bytes(n)))), ('a bit string', der.bits(raw))):
            if len(z) % n or not z.strip(b'\0') or w in ('a zero mask', 'a zero masked key', 'the order as key and a mask'):
                bad(w, z)
        # damaged at will: whatever is accepted has been read from its own bytes
        for w, b in rng.sample(forms, 2):
            for _ in range(8):
                j = rng.randrange(len(b))
                z = rng.choice((b[:j], b[:j] + bytes([b[j] ^ 1 << rng.randrange(8)]) + b[j + 1:], b[:j] + b[j + 1:], b[:j] + S.bytes(1) + b[j:]))
                r, parsed = private(z)
                if r:
                    X.pk_free(r)
        # a key without a private part is not encoded
        kk = X.pk_new()
        assign(kk, E.nid(alg.encode()), X.key(X.nid(name), None, Q))
        i = p8new(kk)
        if i:
            S.fail('a key without a private part is encoded (%s %s)' % (alg, name), None, ins=[out(i2p8, i).hex()])
            p8free(i)
        X.err()
        X.pk_free(kk)
        X.pk_free(k)
