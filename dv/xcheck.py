"""Generic concrete checks of stream/block ciphers and MACs through EVP against the executable
specification: random chunking, in-place operation, decryption, re-initialisation and copies."""
from . import evp
from .real import Buf

SPECIAL_LEN = (0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65)


def rnd_len(S, big=3000, unit=1, marks=()):
    r = S.rng.random()
    if r < 0.35:
        n = S.rng.choice(SPECIAL_LEN)
    elif r < 0.6:
        n = S.rng.randrange(0, 200)
    elif r < 0.8 and marks:
        n = max(0, S.rng.choice(marks) + S.rng.choice((-17, -16, -9, -8, -7, -1, 0, 1, 7, 8, 9, 16, 17, 40)))
    else:
        n = S.rng.randrange(0, big)
    return n - n % unit


def rnd_key(S, n=32):
    r = S.rng.random()
    if r < 0.8:
        return S.bytes(n)
    if r < 0.9:
        return bytes([S.rng.choice((0, 255))]) * n
    return bytes(S.rng.choice((0, 1, 127, 128, 255)) for _ in range(n))


def rnd_iv(S, n):
    r = S.rng.random()
    if r < 0.5:
        return S.bytes(n)
    if r < 0.7:
        return b'\xff' * n
    if r < 0.8:
        return bytes(n)
    # close to a carry
    k = S.rng.randrange(0, n + 1)
    return (S.bytes(n - k) + b'\xff' * k)[:n]


def cipher_case(S, E, sn, ivl, oracle, unit=1, big=3000, marks=(), ctrls=None, what=None, inplace=True):
    """one random case for cipher sn; oracle(key, iv, data, enc, param) -> bytes"""
    rng = S.rng
    what = what or sn
    key, iv = rnd_key(S), rnd_iv(S, ivl)
    n = rnd_len(S, big, unit, marks)
    data = rng.randbytes(n)
    enc = rng.random() < 0.6
    param = None
    if ctrls:
        param = ctrls(S)
    parts = evp.splits(rng, n, unit=unit)
    inp = inplace and rng.random() < 0.35
    pre = None
    if rng.random() < 0.35:
        pl = rnd_len(S, 1500, unit, marks)
        pre = (rnd_key(S), rnd_iv(S, ivl), rng.randbytes(pl), evp.splits(rng, pl, unit=unit), rng.random() < 0.5, rng.random() < 0.5)
    cp = rng.randrange(len(parts)) if rng.random() < 0.25 else None
    S.case(kind=what, key=key, iv=iv, data=data, enc=enc, parts=parts, inplace=inp, param=repr(param and param[0]), used_before=pre and [p.hex() if isinstance(p, bytes) else p for p in pre], copy_at=cp)
    c = evp.Cipher(E, sn)
    try:
        if pre is not None:
            if c.init(pre[0], pre[1] if ivl else None, pre[4]) != 1:
                S.fail('%s: init fails' % what)
            c.nopad()
            p = 0
            for k in pre[3]:
                if k:
                    c.update(pre[2][p:p + k])
                p += k
            r = c.init(key, iv if ivl else None, enc, first=pre[5])
        else:
            r = c.init(key, iv if ivl else None, enc)
        if r != 1:
            S.fail('%s: init fails' % what)
        c.nopad()
        if param and param[1]:
            if param[1](c, S) is False:
                S.fail('%s: parameters refused' % what)
        want = oracle(key, iv, data, enc, param[0] if param else None)
        outs = [b'']
        p = 0
        dup = None
        for j, k in enumerate(parts):
            if cp == j:
                dup = c.copy()
                if dup is None:
                    S.fail('%s: copy fails' % what)
                at = p
            o = c.update(data[p:p + k], inplace=inp) if k else b''
            if o is None:
                S.fail('%s: update fails' % what, at=p)
            outs.append(o)
            p += k
        got = b''.join(outs)
        S.expect(got, want, '%s disagrees with the standard' % what)
        if dup is not None:
            c.free()
            o = dup.update(data[at:]) if at < n else b''
            dup.free()
            S.expect(o, want[at:], '%s: a copied context continues differently' % what)
    except evp.Overrun as e:
        S.fail('%s: %s' % (what, e))
    finally:
        c.free()


def mac_case(S, E, sn, oracle, sizes, big=3000, marks=(), setup=None, what=None, keyed=True, data=None):
    """oracle(key, data, param) -> full value; sizes: list of XOF lengths (None default)"""
    rng = S.rng
    what = what or sn
    key = rnd_key(S)
    n = rnd_len(S, big, 1, marks) if data is None else len(data)
    if data is None:
        data = rng.randbytes(n) if rng.random() < 0.85 else bytes([rng.choice((0, 255))]) * n
    parts = evp.splits(rng, n)
    param = setup(S) if setup else None
    size = rng.choice(sizes)
    used = rng.randbytes(rnd_len(S, 300)) if rng.random() < 0.3 else None
    cp = rng.randrange(len(parts)) if rng.random() < 0.25 else None
    S.case(kind=what, key=key, data=data, parts=parts, size=size, used=used, param=repr(param and param[0]), copy_at=cp)
    d = evp.Digest(E, sn)
    kb = Buf(key)
    try:
        if d.init() != 1:
            S.fail('%s: init fails' % what)
        if keyed:
            if used is not None:
                if d.ctrl(evp.MD_SET_KEY, 32, Buf(S.bytes(32)).p) <= 0:
                    S.fail('%s: key refused' % what)
                d.update(used)
                d.final()
                d.free()
                d = evp.Digest(E, sn)
                d.init()
            if d.ctrl(evp.MD_SET_KEY, 32, kb.p) <= 0:
                S.fail('%s: key refused' % what)
        elif used is not None:
            d.update(used)
            if d.init() != 1:
                S.fail('%s: init fails' % what)
        if param and param[1] and param[1](d, S) is False:
            S.fail('%s: parameters refused' % what)
        if size is not None and d.ctrl(evp.MD_XOF_LEN, size) <= 0:
            S.fail('%s: size refused' % what)
        want = oracle(key, data, param[0] if param else None)
        p = 0
        dup = None
        for j, k in enumerate(parts):
            if cp == j:
                dup = d.copy()
                if dup is None:
                    S.fail('%s: copy fails' % what)
                at = p
            if d.update(data[p:p + k]) != 1:
                S.fail('%s: update fails' % what)
            p += k
        got = d.final(size or 64, full=size is not None)
        if got is None:
            S.fail('%s: final fails' % what)
        m = size if size is not None else len(got)
        S.expect(got[:m], want[:m], '%s disagrees with the standard' % what)
        if dup is not None:
            d.free()
            if at < n:
                dup.update(data[at:])
            got = dup.final(size or 64, full=size is not None)
            dup.free()
            if got is None:
                S.fail('%s: final of a copy fails' % what)
            S.expect(got[:m], want[:m], '%s: a copied context continues differently' % what)
    except evp.Overrun as e:
        S.fail('%s: %s' % (what, e))
    finally:
        d.free()
