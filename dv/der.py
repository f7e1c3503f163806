"""A small DER codec for the searches."""


def enc(tag, body):
    n = len(body)
    if n < 128:
        l = bytes([n])
    else:
        b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
        l = bytes([0x80 | len(b)]) + b
    return bytes([tag]) + l + bytes(body)


def seq(*parts):
    return enc(0x30, b''.join(parts))


def octets(b):
    return enc(4, b)


def integer(v):
    n = max(1, (v.bit_length() + 8) // 8) if v >= 0 else ((-v - 1).bit_length() + 8) // 8
    return enc(2, v.to_bytes(n, 'big', signed=True))


def bits(b, unused=0):
    return enc(3, bytes([unused]) + bytes(b))


def one(b, at=0):
    """(tag, body, end) of the element at a place"""
    t, n, i = b[at], b[at + 1], at + 2
    if n & 0x80:
        k = n & 0x7f
        n = int.from_bytes(b[i:i + k], 'big')
        i += k
    if i + n > len(b):
        raise ValueError('short')
    return t, b[i:i + n], i + n


def parts(b):
    """elements of a constructed body"""
    i, r = 0, []
    while i < len(b):
        t, x, i = one(b, i)
        r.append((t, x))
    return r
