"""A fixed pool of real key material for native runs (made once per process, deterministically where possible)."""
import functools
import os
import pickle

from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519, rsa as _rsa, x448, x25519
from cryptography.hazmat.primitives import serialization as S

SIZE = 4
_EC = {'P_256': ec.SECP256R1, 'P_384': ec.SECP384R1, 'P_521': ec.SECP521R1, 'SECP256K1': ec.SECP256K1}
_LEN = {'P_256': 32, 'P_384': 48, 'P_521': 66, 'SECP256K1': 32}
_OKP = {'ED25519': (ed25519.Ed25519PrivateKey, 32), 'ED448': (ed448.Ed448PrivateKey, 57),
        'X25519': (x25519.X25519PrivateKey, 32), 'X448': (x448.X448PrivateKey, 56)}


@functools.lru_cache(None)
def pair_by_name(name, i):
    """(x, y, d) of pair i.  Pair 0 of an EC curve has a coordinate with a leading zero byte."""
    if name in _EC:
        n = _LEN[name]
        j = 1000 * i + 1
        while True:
            sk = ec.derive_private_key(j * 7919 ** 5 + 17 if i % 2 else j, _EC[name]())
            pn = sk.public_key().public_numbers()
            x, y = pn.x.to_bytes(n, 'big'), pn.y.to_bytes(n, 'big')
            lead = 0 if name == 'P_521' else 0
            if i != 0 or x[0] == 0 or y[0] == 0:
                return x, y, sk.private_numbers().private_value.to_bytes(n, 'big')
            j += 1
    cls, n = _OKP[name]
    d = bytes((i * 37 + k * 11 + 5) % 256 for k in range(n))
    sk = cls.from_private_bytes(d)
    return sk.public_key().public_bytes(S.Encoding.Raw, S.PublicFormat.Raw), b'', d


def pair(crv, i):
    return pair_by_name(crv.fullname, i)


def rsa_numbers(i):
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'rsa_pool.pickle')
    return pickle.load(open(here, 'rb'))[i]


def rsa(i):
    from pycose.keys import keyparam as KP
    v = rsa_numbers(i)
    return {getattr(KP, 'RSAKp' + k): b for k, b in v.items()}
