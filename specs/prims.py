"""Primitives of the specifications, written against the libraries (never against pycose).

Under symbolic execution each of them is replaced by its model in pyvc/extlib.py; natively (replay of counterexamples,
bounded differential runs) the code below is what runs."""
import hashlib
import hmac as _hmac
import os

import cbor2
from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes, keywrap, serialization
from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519, padding, rsa, x448, x25519
from cryptography.hazmat.primitives.ciphers import Cipher, modes
from cryptography.hazmat.primitives.ciphers import algorithms as calgs
from cryptography.hazmat.primitives.ciphers.aead import AESCCM, AESGCM
from cryptography.hazmat.primitives.kdf.hkdf import HKDF
import ecdsa
from ecdsa.ellipticcurve import Point


def urandom(n):
    return os.urandom(n)


# ---- CBOR ------------------------------------------------------------------------------------------------

def _san(x, named):
    """Registered attributes become their id (algorithms their name if `named`), COSE keys their map."""
    from collections.abc import Mapping
    if isinstance(x, type):
        from pycose.algorithms import CoseAlgorithm
        return x.fullname if named and issubclass(x, CoseAlgorithm) else x.identifier
    if isinstance(x, dict):
        return {_san(k, named): _san(v, named) for k, v in x.items()}
    if isinstance(x, Mapping):
        d = {_san(k, named): v for k, v in x.items()}
        if 4 in d and isinstance(d[4], list) and not d[4]:
            del d[4]
        return {k: _san(v, named) for k, v in d.items()}
    if isinstance(x, (list, tuple)):
        return [_san(e, named) for e in x]
    if isinstance(x, cbor2.CBORTag):
        return cbor2.CBORTag(x.tag, _san(x.value, named))
    return x


def cbor(x):
    return cbor2.dumps(_san(x, False))


def cbor_hdr(x, tstr):
    return cbor2.dumps(_san(x, bool(tstr)))


def uncbor(b):
    return cbor2.loads(b)


def tagged(tag, x):
    return cbor2.CBORTag(tag, x)


def is_tag(x):
    return isinstance(x, cbor2.CBORTag)


def cose_key(d):
    """The COSE key of a dictionary (contract of CoseKey.from_dict: C16, C17)."""
    import copy
    from pycose.keys import CoseKey
    return CoseKey.from_dict(copy.deepcopy(d))


def parse(hdr, allow=True):
    """The header bucket of a dictionary (specs/headers.py; the code is verified against it in C22)."""
    from specs import headers as HD
    return HD.parse(hdr, allow)


# ---- hashes ----------------------------------------------------------------------------------------------

_H = {'sha1': hashes.SHA1, 'sha224': hashes.SHA224, 'sha256': hashes.SHA256, 'sha384': hashes.SHA384, 'sha512': hashes.SHA512}


def hash_(hname, data):
    if hname.startswith('shake'):
        n, ln = hname.split(':')
        return hashlib.new({'shake128': 'shake_128', 'shake256': 'shake_256'}[n], data).digest(int(ln))
    return hashlib.new(hname, data).digest()


def hmac_(hname, key, data):
    return _hmac.new(key, data, hname).digest()


def hkdf(hname, length, salt, info, secret):
    # RFC 5869, spelled out
    hl = hashlib.new(hname).digest_size
    prk = _hmac.new(salt if salt else b'\0' * hl, secret, hname).digest()
    t, out, i = b'', b'', 1
    while len(out) < length:
        t = _hmac.new(prk, t + info + bytes([i]), hname).digest()
        out += t
        i += 1
    return out[:length]


# ---- AES -------------------------------------------------------------------------------------------------

def aes_cbc_enc(key, iv, data):
    e = Cipher(calgs.AES(key), modes.CBC(iv)).encryptor()
    return e.update(data) + e.finalize()


def cbc_mac(key, data, n):
    """The first n bytes of the last block of the AES-CBC encryption of the zero-padded data with zero IV."""
    return aes_cbc_enc(key, bytes(16), data + bytes(-len(data) % 16))[-16:][:n]


def gcm_enc(key, nonce, data, aad):
    return AESGCM(key).encrypt(nonce, data, aad)


def gcm_dec(key, nonce, data, aad):
    return AESGCM(key).decrypt(nonce, data, aad)


def ccm_enc(key, nonce, data, aad, taglen):
    return AESCCM(key, taglen).encrypt(nonce, data, aad)


def ccm_dec(key, nonce, data, aad, taglen):
    return AESCCM(key, taglen).decrypt(nonce, data, aad)


def kw_wrap(key, data):
    return keywrap.aes_key_wrap(key, data)


def kw_unwrap(key, data):
    return keywrap.aes_key_unwrap(key, data)


# ---- signatures and key agreement ------------------------------------------------------------------------

EC_OBJ = {'secp256r1': ec.SECP256R1, 'secp384r1': ec.SECP384R1, 'secp521r1': ec.SECP521R1, 'secp256k1': ec.SECP256K1}
_EC2 = {'secp256r1': ecdsa.NIST256p, 'secp384r1': ecdsa.NIST384p, 'secp521r1': ecdsa.NIST521p,
        'secp256k1': ecdsa.SECP256k1}
_ED = {'Ed25519': ed25519, 'Ed448': ed448, 'X25519': x25519, 'X448': x448}


def _int(b):
    if not b:
        raise ValueError('empty')
    return int.from_bytes(b, 'big')


def ecdsa_sign(curve, hname, d, data):
    sk = ecdsa.SigningKey.from_secret_exponent(_int(d), curve=_EC2[curve])
    return sk.sign_deterministic(data, hashfunc=getattr(hashlib, hname))


def ecdsa_verify(curve, hname, x, y, data, sig):
    c = _EC2[curve]
    vk = ecdsa.VerifyingKey.from_public_point(Point(c.curve, _int(x), _int(y)), c)
    try:
        return vk.verify(sig, data, hashfunc=getattr(hashlib, hname))
    except ecdsa.BadSignatureError:
        return False


def eddsa_sign(curve, d, data):
    m = _ED[curve]
    return getattr(m, curve + 'PrivateKey').from_private_bytes(d).sign(data)


def eddsa_verify(curve, x, data, sig):
    k = getattr(_ED[curve], curve + 'PublicKey').from_public_bytes(x)
    try:
        k.verify(sig, data)
        return True
    except InvalidSignature:
        return False


def ec_public(curve, d, size):
    n = ec.derive_private_key(int.from_bytes(d, 'big'), EC_OBJ[curve]()).public_key().public_numbers()
    return n.x.to_bytes(size, 'big'), n.y.to_bytes(size, 'big'), n.y % 2 == 1


def ec_decompress(curve, data, size):
    n = ec.EllipticCurvePublicKey.from_encoded_point(EC_OBJ[curve](), data).public_numbers()
    return n.x.to_bytes(size, 'big'), n.y.to_bytes(size, 'big')


def ec_generate(curve, size):
    k = ec.generate_private_key(EC_OBJ[curve]())
    n = k.private_numbers()
    return (n.private_value.to_bytes(size, 'big'), n.public_numbers.x.to_bytes(size, 'big'),
            n.public_numbers.y.to_bytes(size, 'big'))


def okp_generate(curve):
    k = getattr(_ED[curve], curve + 'PrivateKey').generate()
    return k.private_bytes_raw(), k.public_key().public_bytes_raw()


def okp_public(curve, d):
    return getattr(_ED[curve], curve + 'PrivateKey').from_private_bytes(d).public_key().public_bytes_raw()


def pem(key, password=None):
    """The PEM text of an external key."""
    s = serialization
    if hasattr(key, 'private_bytes'):
        e = s.NoEncryption() if password is None else s.BestAvailableEncryption(password)
        return key.private_bytes(s.Encoding.PEM, s.PrivateFormat.PKCS8, e).decode()
    return key.public_bytes(s.Encoding.PEM, s.PublicFormat.SubjectPublicKeyInfo).decode()


def ecdh(curve, d, x, y):
    c = EC_OBJ[curve]()
    k = ec.derive_private_key(_int(d), c)
    return k.exchange(ec.ECDH(), ec.EllipticCurvePublicNumbers(_int(x), _int(y), c).public_key())


# ---- RSA -------------------------------------------------------------------------------------------------

def _pad(name):
    p = name.split(':')
    if p[0] == 'pss':
        return padding.PSS(padding.MGF1(_H[p[1]]()), int(p[2]))
    if p[0] == 'oaep':
        return padding.OAEP(padding.MGF1(_H[p[1]]()), _H[p[2]](), None)
    return padding.PKCS1v15()


def _rsa(nums):
    n, e, d, p, q, dp, dq, qinv = (int.from_bytes(x, 'big') for x in nums)
    return rsa.RSAPrivateNumbers(p, q, d, dp, dq, qinv, rsa.RSAPublicNumbers(e, n)).private_key()


class Randomised(bytes):
    """Natively: one possible result of a randomised operation; `ok` judges another one."""
    ok = None


def rsa_sign(pad, hname, nums, data):
    r = _rsa(nums).sign(data, _pad(pad), _H[hname]())
    if pad.startswith('pss'):
        r = Randomised(r)
        r.ok = lambda x: isinstance(x, bytes) and rsa_verify(pad, hname, nums[0], nums[1], data, x)
    return r


def rsa_verify(pad, hname, n, e, data, sig):
    pk = rsa.RSAPublicNumbers(int.from_bytes(e, 'big'), int.from_bytes(n, 'big')).public_key()
    try:
        pk.verify(sig, data, _pad(pad), _H[hname]())
        return True
    except InvalidSignature:
        return False


def rsa_encrypt(pad, n, e, data):
    pk = rsa.RSAPublicNumbers(int.from_bytes(e, 'big'), int.from_bytes(n, 'big')).public_key()
    r = Randomised(pk.encrypt(data, _pad(pad)))

    def ok(x):
        from specs import pool
        from pycose.keys import keyparam as KP
        for i in (0, 1):
            k = pool.rsa(i)
            if k[KP.RSAKpN] == n:
                nums = [k[p] for p in (KP.RSAKpN, KP.RSAKpE, KP.RSAKpD, KP.RSAKpP, KP.RSAKpQ, KP.RSAKpDP, KP.RSAKpDQ,
                                       KP.RSAKpQInv)]
                return rsa_decrypt(pad, nums, x) == data
        return True
    r.ok = ok
    return r


def rsa_valid(nums):
    """nums: n, e, or all eight numbers as integers; refused unless the library makes a key of them."""
    pub = rsa.RSAPublicNumbers(nums[1], nums[0])
    if len(nums) == 2:
        pub.public_key()
    else:
        n, e, d, p, q, dp, dq, qinv = nums
        rsa.RSAPrivateNumbers(p, q, d, dp, dq, qinv, pub).private_key()


def rsa_generate(bits):
    n = rsa.generate_private_key(65537, bits).private_numbers()
    u = n.public_numbers
    return [min_bytes(v) for v in (u.n, u.e, n.d, n.p, n.q, n.dmp1, n.dmq1, n.iqmp)]


def rsa_decrypt(pad, nums, data):
    return _rsa(nums).decrypt(data, _pad(pad))


# ---- other -----------------------------------------------------------------------------------------------

def xor_pad(base, part):
    """base xor the left-padded part; part must not be longer than base."""
    if len(part) > len(base):
        raise ValueError('too long')
    part = b'\0' * (len(base) - len(part)) + part
    return bytes(a ^ b for a, b in zip(base, part))


def min_bytes(n):
    h = '%x' % n
    return bytes.fromhex('0' * (len(h) % 2) + h) if n else b''


def validate_chain(first, rest, usage):
    from certvalidator import CertificateValidator
    return CertificateValidator(first, rest).validate_usage(usage)
