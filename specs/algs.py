"""What each registered algorithm computes (RFC 8152, 8230, 8812, 9054), over the primitives of specs/prims.py.

Parameters come from specs/registry.py by the algorithm's identifier, never from the code."""
from pycose.keys import keyparam as KP
from specs import prims as P
from specs import registry as R
from specs.common import Refused


def ident(alg):
    if alg is None:
        raise Refused('no algorithm')
    return alg.identifier


def aead_enc(alg, key, nonce, data, aad):
    i = ident(alg)
    if i in R.GCM:
        return P.gcm_enc(key, nonce, data, aad)
    if i in R.CCM:
        return P.ccm_enc(key, nonce, data, aad, R.CCM[i][1])
    raise Refused('not an AEAD')


def aead_dec(alg, key, nonce, data, aad):
    i = ident(alg)
    if i in R.GCM:
        return P.gcm_dec(key, nonce, data, aad)
    if i in R.CCM:
        return P.ccm_dec(key, nonce, data, aad, R.CCM[i][1])
    raise Refused('not an AEAD')


def key_length(alg):
    i = ident(alg)
    if i in R.KEYLEN:
        return R.KEYLEN[i]
    raise Refused('no key length')


def mac(alg, key, data):
    i = ident(alg)
    if i in R.HMAC:
        hname, n = R.HMAC[i]
        return P.hmac_(hname, key, data)[:n]
    if i in R.CBCMAC:
        return P.cbc_mac(key, data, R.CBCMAC[i][1])
    raise Refused('not a MAC')


def cbc_mac_def(key, data, n):
    """The definition of P.cbc_mac over AES-CBC encryption."""
    pad = b'\0' * (-len(data) % 16)
    ct = P.aes_cbc_enc(key, b'\0' * 16, data + pad)
    return ct[len(ct) - 16:][:n]


def hash_(alg, data):
    i = ident(alg)
    if i in R.HASH:
        hname, n = R.HASH[i]
        return P.hash_(hname, data)[:n]
    raise Refused('not a hash algorithm')


def rsa_private(k):
    return (k.store[KP.RSAKpN], k.store[KP.RSAKpE], k.store[KP.RSAKpD], k.store[KP.RSAKpP], k.store[KP.RSAKpQ],
            k.store[KP.RSAKpDP], k.store[KP.RSAKpDQ], k.store[KP.RSAKpQInv])


def sign(alg, k, data):
    """The signature of data under the private values of key k."""
    i = ident(alg)
    kty = k.store[KP.KpKty].identifier
    if i in R.ECDSA:
        if kty != 2:
            raise Refused('key type')
        hname, crv, name = R.ECDSA[i]
        if k.store[KP.EC2KpCurve].identifier != crv:
            raise Refused('curve')
        if KP.EC2KpD not in k.store:
            raise Refused('public key')
        return P.ecdsa_sign(name, hname, k.store[KP.EC2KpD], data)
    if i in R.EDDSA:
        if kty != 1:
            raise Refused('key type')
        crv = k.store[KP.OKPKpCurve].identifier
        if crv != 6 and crv != 7:
            raise Refused('curve')
        if KP.OKPKpD not in k.store:
            raise Refused('public key')
        return P.eddsa_sign('Ed25519' if crv == 6 else 'Ed448', k.store[KP.OKPKpD], data)
    if i in R.RSA_SIG:
        if kty != 3:
            raise Refused('key type')
        if KP.RSAKpD not in k.store:
            raise Refused('public key')
        pad, hname = R.RSA_SIG[i]
        return P.rsa_sign(pad, hname, rsa_private(k), data)
    raise Refused('not a signature algorithm')


def verify(alg, k, data, sig):
    i = ident(alg)
    kty = k.store[KP.KpKty].identifier
    if i in R.ECDSA:
        if kty != 2:
            raise Refused('key type')
        hname, crv, name = R.ECDSA[i]
        if k.store[KP.EC2KpCurve].identifier != crv:
            raise Refused('curve')
        return P.ecdsa_verify(name, hname, k.store[KP.EC2KpX], k.store[KP.EC2KpY], data, sig)
    if i in R.EDDSA:
        if kty != 1:
            raise Refused('key type')
        crv = k.store[KP.OKPKpCurve].identifier
        if crv != 6 and crv != 7:
            raise Refused('curve')
        if KP.OKPKpX not in k.store:
            raise Refused('no public value')
        return P.eddsa_verify('Ed25519' if crv == 6 else 'Ed448', k.store[KP.OKPKpX], data, sig)
    if i in R.RSA_SIG:
        if kty != 3:
            raise Refused('key type')
        pad, hname = R.RSA_SIG[i]
        return P.rsa_verify(pad, hname, k.store[KP.RSAKpN], k.store[KP.RSAKpE], data, sig)
    raise Refused('not a signature algorithm')


def kw_wrap(alg, kek, data):
    i = ident(alg)
    if i in R.KW:
        if len(kek) != R.KW[i]:
            raise Refused('key length')
        return P.kw_wrap(kek, data)
    raise Refused('not a key wrap')


def kw_unwrap(alg, kek, data):
    i = ident(alg)
    if i in R.KW:
        if len(kek) != R.KW[i]:
            raise Refused('key length')
        return P.kw_unwrap(kek, data)
    raise Refused('not a key wrap')


def ecdh(priv, pub):
    """Shared secret of the private value of priv and the point of pub, which must be on the same curve."""
    crv = pub.store[KP.EC2KpCurve].identifier
    if priv.store[KP.EC2KpCurve].identifier != crv:
        raise Refused('different curves')
    if KP.EC2KpD not in priv.store:
        raise Refused('no private value')
    return P.ecdh(R.CURVE[crv][2], priv.store[KP.EC2KpD], pub.store[KP.EC2KpX], pub.store[KP.EC2KpY])
