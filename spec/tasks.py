"""the ciphers and MACs of the engine: name, IV length, oracle"""
from . import modes as m

Z, A = 'Gost28147_TC26ParamSetZ', 'Gost28147_CryptoProParamSetA'
OID = {'Gost28147_TC26ParamSetZ': b'id-tc26-gost-28147-param-Z', 'Gost28147_CryptoProParamSetA': b'id-Gost28147-89-CryptoPro-A-ParamSet',
       'Gost28147_CryptoProParamSetB': b'id-Gost28147-89-CryptoPro-B-ParamSet', 'Gost28147_CryptoProParamSetC': b'id-Gost28147-89-CryptoPro-C-ParamSet',
       'Gost28147_CryptoProParamSetD': b'id-Gost28147-89-CryptoPro-D-ParamSet', 'Gost28147_TestParamSet': b'id-Gost28147-89-TestParamSet'}


def mg(k):
    return m.FastG89(Z, k, True)


def kz(k):
    return m.FastKuz(k)


def pad(iv, n):
    return iv.ljust(n, b'\0')
