"""Curves, GOST R 34.10 and VKO in plain integer arithmetic (independent of the engine)."""
import json
import os

RAW = json.load(open(os.path.join(os.path.dirname(__file__), 'curves.json')))


class Curve:
    def __init__(self, name):
        d = RAW[name]
        self.name = name
        self.a, self.b, self.p, self.q, self.x, self.y, self.h = (int(d[k], 16) for k in ('a', 'b', 'p', 'q', 'x', 'y', 'h'))
        self.G = (self.x, self.y)
        self.n = 64 if self.p.bit_length() > 256 else 32

    def on(self, P):
        return P is None or (P[1] * P[1] - P[0] ** 3 - self.a * P[0] - self.b) % self.p == 0

    def add(self, P, Q):
        p = self.p
        if P is None:
            return Q
        if Q is None:
            return P
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            m = (3 * P[0] * P[0] + self.a) * pow(2 * P[1], -1, p) % p
        else:
            m = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
        x = (m * m - P[0] - Q[0]) % p
        return x, (m * (P[0] - x) - P[1]) % p

    def neg(self, P):
        return None if P is None else (P[0], -P[1] % self.p)

    def jdbl(self, P):
        X, Y, Z = P
        p = self.p
        if not Y or not Z:
            return 1, 1, 0
        yy = Y * Y % p
        S = 4 * X * yy % p
        zz = Z * Z % p
        M = (3 * X * X + self.a * zz * zz) % p
        x = (M * M - 2 * S) % p
        return x, (M * (S - x) - 8 * yy * yy) % p, 2 * Y * Z % p

    def jadd(self, P, Q):
        """Q affine"""
        X, Y, Z = P
        p = self.p
        if not Z:
            return Q[0], Q[1], 1
        zz = Z * Z % p
        u, s = Q[0] * zz % p, Q[1] * zz * Z % p
        h, r = (u - X) % p, (s - Y) % p
        if not h:
            return (1, 1, 0) if r else self.jdbl(P)
        hh = h * h % p
        hhh = hh * h % p
        v = X * hh % p
        x = (r * r - hhh - 2 * v) % p
        return x, (r * (v - x) - Y * hhh) % p, Z * h % p

    def aff(self, P):
        X, Y, Z = P
        if not Z:
            return None
        i = pow(Z, -1, self.p)
        return X * i * i % self.p, Y * i * i * i % self.p

    def mul(self, k, P):
        """k*P for any integer k (not reduced)"""
        if P is None or k == 0:
            return None
        if k < 0:
            return self.mul(-k, self.neg(P))
        R = (1, 1, 0)
        for b in bin(k)[2:]:
            R = self.jdbl(R)
            if b == '1':
                R = self.jadd(R, P)
        return self.aff(R)

    def comb(self, n, m, P):
        return self.add(self.mul(n, self.G), self.mul(m, P))


def e_of(c, dgst):
    return int.from_bytes(dgst, 'little') % c.q or 1


def verify(c, dgst, Q, r, s):
    if not 0 < r < c.q or not 0 < s < c.q:
        return False
    v = pow(e_of(c, dgst), -1, c.q)
    C = c.comb(s * v % c.q, -r * v % c.q, Q)
    return C is not None and C[0] % c.q == r


def sign(c, dgst, d, k):
    C = c.mul(k, c.G)
    r = C[0] % c.q
    return r, (r * d + k * e_of(c, dgst)) % c.q


def prime(n):
    """Miller-Rabin with the first 40 primes as bases"""
    small = [i for i in range(2, 174) if all(i % j for j in range(2, i))]
    if n < 2 or any(n % q == 0 and n != q for q in small):
        return False
    d, r = n - 1, 0
    while d % 2 == 0:
        d //= 2
        r += 1
    for a in small:
        if a % n == 0:
            continue
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(r - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True
