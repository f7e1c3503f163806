"""Kuznyechik block transform (GOST R 34.12-2015)."""
import ctypes as C
from dv import terms as tm, model
from dv.exec import Exec, State
from dv.ir import probe
from spec import ciphers as sp

LEVEL = 'proof'
QUICK_S, THOROUGH_S, DEEP_S = 8, 60, 60
ASSUMPTIONS = ['the S-box pi, the coefficients of the linear transform and the field polynomial of the standard are frozen in /verif/spec and validated by the published test vector']
RULE = 'random key and block; schedule, encryption and decryption of the compiled code'
SRC = ['gost_grasshopper_core.c', 'gost_grasshopper_precompiled.c', 'gost_grasshopper_defines.c', 'gost_grasshopper_galois_precompiled.c']


def w128(bs):
    return tm.concat(bs)


def prove(R):
    p = model.prog(SRC, R.tmp)
    k = sp.Kuz(sp.TermOps)
    kb = model.symbytes('key', 32)
    sched = k.schedule(kb)
    R.attempt('key schedule', keys, R, p, k, kb, sched)
    R.attempt('block', blocks, R, p, k)
    R.attempt('inverse lemma', lemma, R, k)


def keys(R, p, k, kb, sched):
    ex = Exec(p, {}, model.BASE, limit=64)
    for fn in ('grasshopper_set_encrypt_key', 'grasshopper_set_decrypt_key'):
        st = State()
        rk = model.sym(st, 'rk', 160)
        key = model.sym(st, 'key', 32)
        st, _ = model.run1(ex, st, fn, [rk, key])
        want = list(sched)
        if fn.endswith('decrypt_key'):
            want = [sched[0]] + [k.lin(k.li, x) for x in sched[1:]]
        for i in range(10):
            R.eq('%s: round key' % fn, st.bytes(rk.add(16 * i), 16), tm.bytes_of(want[i]))
        R.eq('%s: key unchanged' % fn, st.bytes(key, 32), kb)
    R.absorb(ex, 'keys')


def blocks(R, p, k):
    ex = Exec(p, {}, model.BASE, limit=64)
    ib = model.symbytes('in', 16)
    rkb = model.symbytes('rk', 160)
    ks = [w128(rkb[16 * i:16 * i + 16]) for i in range(10)]
    for fn in ('grasshopper_encrypt_block', 'grasshopper_decrypt_block'):
        for inplace in (False, True):
            st = State()
            rk = model.sym(st, 'rk', 160)
            i = model.sym(st, 'in', 16)
            o = i if inplace else model.sym(st, 'out', 16)
            b = model.sym(st, 'buf', 16)
            if fn.endswith('decrypt_block'):
                # view of a decryption schedule: the round keys 1..9 under the inverse linear transform
                img = tm.bytes_of(ks[0])
                for x in ks[1:]:
                    img += tm.bytes_of(k.lin(k.li, x))
                st.wb(rk, img)
            before = st.bytes(rk, 160)
            st, _ = model.run1(ex, st, fn, [rk, i, o, b])
            want = (k.enc if fn.endswith('encrypt_block') else k.dec)(ks, ib)
            nm = fn + (' in place' if inplace else '')
            R.eq('%s: ciphertext block' % nm, st.bytes(o, 16), want)
            R.eq('%s: schedule unchanged' % nm, st.bytes(rk, 160), before)
            if not inplace:
                R.eq('%s: input unchanged' % nm, st.bytes(i, 16), ib)
    R.absorb(ex, 'blocks')


def lemma(R, k):
    ib = model.symbytes('in', 16)
    rkb = model.symbytes('rk', 160)
    ks = [w128(rkb[16 * i:16 * i + 16]) for i in range(10)]
    R.eq('lemma: one round and its inverse', tm.bytes_of(k.sub(k.pii, k.lin(k.li, k.lin(k.ls, w128(ib))))), ib)
    R.eq('lemma: inverse round and round', tm.bytes_of(k.lin(k.ls, k.sub(k.pii, k.lin(k.li, w128(ib))))), ib)
    R.eq('lemma: dec(enc(x)) = x', k.dec(ks, k.enc(ks, ib)), ib)
    R.eq('lemma: enc(dec(x)) = x', k.enc(ks, k.dec(ks, ib)), ib)


def search(S):
    from dv.real import Buf
    L = S.lib
    P = C.c_void_p
    n = 0
    k = sp.Kuz(sp.IntOps)
    f = {x: L.fn('grasshopper_' + x, None, *([P] * a)) for x, a in (('set_encrypt_key', 2), ('set_decrypt_key', 2), ('encrypt_block', 4), ('decrypt_block', 4))}
    while S.more():
        n += 1
        key = S.bytes(32) if n % 4 else bytes([S.rng.choice((0, 255, 1)) for _ in range(32)])
        b = S.bytes(16) if n % 5 else bytes([S.rng.choice((0, 255)) for _ in range(16)])
        S.case(kind='kuznyechik', key=key, block=b)
        ks = k.schedule(list(key))
        kb, e, d, i, o, bf = Buf(key), Buf(160), Buf(160), Buf(b), Buf(16), Buf(16)
        f['set_encrypt_key'](e.p, kb.p)
        S.expect(e.get(), b''.join(x.to_bytes(16, 'little') for x in ks), 'encryption key schedule')
        f['set_decrypt_key'](d.p, kb.p)
        f['encrypt_block'](e.p, i.p, o.p, bf.p)
        S.expect(o.get(), bytes(k.enc(ks, list(b))), 'grasshopper_encrypt_block disagrees with Kuznyechik')
        f['decrypt_block'](d.p, i.p, o.p, bf.p)
        S.expect(o.get(), bytes(k.dec(ks, list(b))), 'grasshopper_decrypt_block disagrees with Kuznyechik')
        f['encrypt_block'](e.p, i.p, i.p, bf.p)
        f['decrypt_block'](d.p, i.p, i.p, bf.p)
        S.expect(i.get(), b, 'decryption does not undo encryption')
        if not all(x.ok() for x in (kb, e, d, i, o, bf)):
            S.fail('write outside a buffer')
