"""Specification of the recipient operations (RFC 8152 sections 11 and 12), over the state of a recipient object."""
from pycose import headers as H
from pycose.keys import keyops as KO
from pycose.keys import keyparam as KP
from pycose.keys import EC2Key, RSAKey, SymmetricKey
from specs import algs as A
from specs import common as S
from specs import prims as P
from specs import registry as R
from specs.common import Refused

WRAP, UNWRAP, DERIVE = (KO.WrapOp, KO.EncryptOp), (KO.UnwrapOp, KO.DecryptOp), (KO.DeriveKeyOp, KO.DeriveBitsOp)
EPHEMERAL = (-25, -26, -29, -30, -31)


def local(r, h, default):
    return r._local_attrs[h] if h in r._local_attrs else default


def rsa_nums(k):
    return A.rsa_private(k)


# ---- key wrap --------------------------------------------------------------------------------------------

def wrap(r, data=None):
    """The wrapped payload (or data) of a KeyWrap recipient that has its key."""
    data = r._payload if data is None else data
    alg = S.header(r, H.Algorithm)
    if len(r._phdr):
        raise Refused('protected header must be empty')
    if alg is None:
        raise Refused('no algorithm')
    i = alg.identifier
    if i in R.KW:
        S.check_key(r._key, SymmetricKey, alg, WRAP)
        return A.kw_wrap(alg, r._key.store[KP.SymKpK], data)
    if i in R.RSA_ENC:
        S.check_key(r._key, RSAKey, alg, WRAP)
        return P.rsa_encrypt(R.RSA_ENC[i], r._key.store[KP.RSAKpN], r._key.store[KP.RSAKpE], data)
    raise Refused('not a key wrap')


def unwrap(r):
    alg = S.header(r, H.Algorithm)
    if alg is None:
        raise Refused('no algorithm')
    i = alg.identifier
    if i in R.KW:
        S.check_key(r._key, SymmetricKey, alg, UNWRAP)
        return A.kw_unwrap(alg, r._key.store[KP.SymKpK], r._payload)
    if i in R.RSA_ENC:
        S.check_key(r._key, RSAKey, alg, UNWRAP)
        if KP.RSAKpD not in r._key.store:
            raise Refused('public key')
        return P.rsa_decrypt(R.RSA_ENC[i], A.rsa_private(r._key), r._payload)
    raise Refused('not a key wrap')


# ---- key agreement ---------------------------------------------------------------------------------------

def kdf_context(r, target, length):
    """RFC 8152 section 11.2; length in bytes."""
    if length not in (16, 24, 32):
        raise Refused('key length')
    pub = [length * 8, S.protected_auth(r)]
    other = local(r, H.SuppPubOther, b'')
    if other != b'':
        pub = pub + [other]
    ctx = [target.identifier,
           [S.header(r, H.PartyUID), S.header(r, H.PartyUNonce), S.header(r, H.PartyUOther)],
           [S.header(r, H.PartyVID), S.header(r, H.PartyVNonce), S.header(r, H.PartyVOther)],
           pub]
    priv = local(r, H.SuppPrivOther, b'')
    if priv != b'':
        ctx = ctx + [priv]
    return P.cbor(ctx)


def derive(r, alg, own, peer, target):
    """The key derived between the private value of own and the point of peer for use with target."""
    length = A.key_length(target)
    info = kdf_context(r, target, length)
    return P.hkdf(R.ECDH[alg.identifier][0], length, b'', info, A.ecdh(own, peer))


def peer_of(r, alg, sending):
    if sending:
        k = local(r, H.StaticKey, None)
    elif alg.identifier in EPHEMERAL:
        k = S.header(r, H.EphemeralKey)
    else:
        k = S.header(r, H.StaticKey)
    if k is None:
        raise Refused('no key of the peer')
    return k


def agree(r, target, sending):
    """The key a direct key agreement derives for target; the recipient has its own key."""
    alg = S.header(r, H.Algorithm)
    if alg is None or alg.identifier not in R.ECDH or R.ECDH[alg.identifier][1] is not None:
        raise Refused('not a direct key agreement')
    peer = peer_of(r, alg, sending)
    S.check_key(peer, EC2Key, alg, DERIVE)
    S.check_key(r._key, EC2Key, alg, DERIVE)
    return derive(r, alg, r._key, peer, target)


def agreed_kek(r, sending):
    """(key encryption key, key wrap algorithm) of a key agreement with key wrap."""
    alg = S.header(r, H.Algorithm)
    if alg is None or alg.identifier not in R.ECDH or R.ECDH[alg.identifier][1] is None:
        raise Refused('not a key agreement with key wrap')
    peer = peer_of(r, alg, sending)
    S.check_key(peer, EC2Key, alg, DERIVE)
    S.check_key(r._key, EC2Key, alg, DERIVE)
    kw = KWALG[R.ECDH[alg.identifier][1]]
    return derive(r, alg, r._key, peer, kw), kw


def agree_wrap(r, data=None):
    kek, kw = agreed_kek(r, True)
    return A.kw_wrap(kw, kek, r._payload if data is None else data)


def agree_unwrap(r):
    kek, kw = agreed_kek(r, False)
    return A.kw_unwrap(kw, kek, r._payload)


from specs import shapes as SH                      # noqa: E402
KWALG = {i: SH.of_ids([i])[0] for i in R.KW}
