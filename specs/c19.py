"""C19: every algorithm has the parameters its registration prescribes."""
from pycose.keys import curves as CU
from pycose.keys import keyparam as KP
from pycose.keys import keytype as KT
from pyvc.contract import Contract, State
from specs import algs as A
from specs import lemmas as L
from specs import prims as P
from specs import registry as R
from specs import shapes as SH
from specs.c15 import ALL, BARE

KEYTYPE = {1: KT.KtyOKP, 2: KT.KtyEC2}
CURVES = [CU.P256, CU.P384, CU.P521, CU.X25519, CU.X448, CU.Ed25519, CU.Ed448, CU.SECP256K1]
PAIRS = R.ECDH


def alg_of(cx, ids):
    return SH.of_ids([cx.choice('alg', list(ids))])[0]


# ---- lengths ---------------------------------------------------------------------------------------------

def lengths(cx):
    return State(alg=alg_of(cx, R.KEYLEN))


def tags(cx):
    return State(alg=alg_of(cx, R.CCM))


def digests(cx):
    return State(alg=alg_of(cx, list(R.HMAC) + list(R.CBCMAC)))


def digest_length(i):
    return R.HMAC[i][1] if i in R.HMAC else R.CBCMAC[i][1]


def agreements(cx):
    return State(alg=alg_of(cx, R.ECDH))


def i_agreement(s):
    kw = s.alg.get_key_wrap_func()
    return None if kw is None or kw.identifier == -6 else kw.identifier


# ---- content encryption ----------------------------------------------------------------------------------

def aead(cx):
    return State(alg=alg_of(cx, list(R.GCM) + list(R.CCM)), key=SH.plain_key(cx), nonce=cx.bytes('nonce'), data=cx.bytes('data'),
                 aad=cx.bytes('aad'))


def mac(cx):
    return State(alg=alg_of(cx, list(R.HMAC) + list(R.CBCMAC)), key=SH.plain_key(cx), data=cx.bytes('data'), tag=cx.bytes('tag'))


def hashes(cx):
    return State(alg=alg_of(cx, R.HASH), data=cx.bytes('data'))


def sigs(cx):
    ids = list(R.ECDSA) + list(R.EDDSA) + list(R.RSA_SIG)
    alg = alg_of(cx, ids)
    kty = cx.choice('key', ['EC2', 'OKP', 'RSA'] if alg.identifier in (-7, -8, -37) else [SH.SIGKINDS[alg.identifier]])
    if kty == 'EC2':
        k = SH.ec2_key(cx, 'key', ALL, schema=SH.PLAIN)
    elif kty == 'OKP':
        k = SH.okp_key(cx, 'key', schema=SH.PLAIN)
    else:
        k = SH.rsa_key(cx, 'key', schema=SH.PLAIN)
    return State(alg=alg, key=k, data=cx.bytes('data'), sig=cx.bytes('sig'))


# ---- key wrap --------------------------------------------------------------------------------------------

def wraps(cx):
    return State(alg=alg_of(cx, R.KW), key=SH.plain_key(cx), data=cx.bytes('data'))


def rsa_wraps(cx):
    return State(alg=alg_of(cx, R.RSA_ENC), key=SH.rsa_key(cx, 'key', True, schema=SH.PLAIN), data=cx.bytes('data'))


def s_rsa_wrap(s):
    return P.rsa_encrypt(R.RSA_ENC[s.alg.identifier], s.key.store[KP.RSAKpN], s.key.store[KP.RSAKpE], s.data)


def s_rsa_unwrap(s):
    return P.rsa_decrypt(R.RSA_ENC[s.alg.identifier], A.rsa_private(s.key), s.data)


# ---- curves ----------------------------------------------------------------------------------------------

def curves(cx):
    return State(crv=cx.choice('crv', CURVES))


def i_curve(s):
    return s.crv.key_type, s.crv.size


def s_curve(s):
    kty, size, _ = R.CURVE[s.crv.identifier]
    return KEYTYPE[kty], size


def i_curve_obj(s):
    return s.crv.curve_obj.name if s.crv.key_type is KT.KtyEC2 else s.crv.curve_obj.__name__


def s_curve_obj(s):
    kty, _, name = R.CURVE[s.crv.identifier]
    return name if kty == 2 else name + 'PrivateKey'


def i_key_length(s):
    return s.alg.get_key_length()


def s_key_length(s):
    return R.KEYLEN[s.alg.identifier]


def i_tag_length(s):
    return s.alg.get_tag_length()


def s_tag_length(s):
    return R.CCM[s.alg.identifier][1]


def i_digest_length(s):
    return s.alg.get_digest_length()


def s_digest_length(s):
    return digest_length(s.alg.identifier)


def i_key_wrap_func(s):
    return R.ECDH[s.alg.identifier][1]


def i_encrypt(s):
    return s.alg.encrypt(s.key, s.nonce, s.data, s.aad)


def s_encrypt(s):
    return A.aead_enc(s.alg, s.key.store[KP.SymKpK], s.nonce, s.data, s.aad)


def i_decrypt(s):
    return s.alg.decrypt(s.key, s.nonce, s.data, s.aad)


def s_decrypt(s):
    return A.aead_dec(s.alg, s.key.store[KP.SymKpK], s.nonce, s.data, s.aad)


def i_compute_tag(s):
    return s.alg.compute_tag(s.key, s.data)


def s_compute_tag(s):
    return A.mac(s.alg, s.key.store[KP.SymKpK], s.data)


def i_verify_tag(s):
    return s.alg.verify_tag(s.key, s.tag, s.data)


def s_verify_tag(s):
    return s.tag == A.mac(s.alg, s.key.store[KP.SymKpK], s.data)


def i_compute_hash(s):
    return s.alg.compute_hash(s.data)


def s_compute_hash(s):
    return A.hash_(s.alg, s.data)


def i_sign(s):
    return s.alg.sign(s.key, s.data)


def s_sign(s):
    return A.sign(s.alg, s.key, s.data)


def i_verify(s):
    return s.alg.verify(s.key, s.data, s.sig)


def s_verify(s):
    return A.verify(s.alg, s.key, s.data, s.sig)


def i_key_wrap(s):
    return s.alg.key_wrap(s.key, s.data)


def s_key_wrap(s):
    return A.kw_wrap(s.alg, s.key.store[KP.SymKpK], s.data)


def i_key_unwrap(s):
    return s.alg.key_unwrap(s.key, s.data)


def s_key_unwrap(s):
    return A.kw_unwrap(s.alg, s.key.store[KP.SymKpK], s.data)


def i_RSA_key_wrap(s):
    return s.alg.key_wrap(s.key, s.data)


def i_RSA_key_unwrap(s):
    return s.alg.key_unwrap(s.key, s.data)


M = 'pycose.algorithms.'
CONTRACTS = [
    L.aes_mac(),
    Contract('get_key_length', lengths, i_key_length, s_key_length,
             funcs=[M + '_EncAlg.get_key_length']),
    Contract('get_tag_length', tags, i_tag_length, s_tag_length,
             funcs=[M + '_AesCcm.get_tag_length']),
    Contract('get_digest_length', digests, i_digest_length, s_digest_length,
             funcs=[M + '_HMAC.get_digest_length', M + '_AesMac.get_digest_length']),
    Contract('get_key_wrap_func', agreements, i_agreement, i_key_wrap_func,
             funcs=[M + '_EcdhHkdf.get_key_wrap_func']),
    Contract('encrypt', aead, i_encrypt,
             s_encrypt,
             funcs=[M + '_AesGcm.encrypt', M + '_AesCcm.encrypt']),
    Contract('decrypt', aead, i_decrypt,
             s_decrypt,
             funcs=[M + '_AesGcm.decrypt', M + '_AesCcm.decrypt']),
    Contract('compute_tag', mac, i_compute_tag, s_compute_tag,
             funcs=[M + '_HMAC.compute_tag', M + '_AesMac.compute_tag']),
    Contract('verify_tag', mac, i_verify_tag,
             s_verify_tag,
             funcs=[M + '_HMAC.verify_tag', M + '_AesMac.verify_tag']),
    Contract('compute_hash', hashes, i_compute_hash, s_compute_hash,
             funcs=[M + '_HashAlg.compute_hash', M + '_HashAlg.get_hash_func']),
    Contract('sign', sigs, i_sign, s_sign,
             funcs=[M + '_Ecdsa.sign', M + 'EdDSA.sign', M + '_Rsa.sign', M + '_RsaPss.get_pad_func', M + '_RsaPkcs1.get_pad_func']),
    Contract('verify', sigs, i_verify, s_verify,
             funcs=[M + '_Ecdsa.verify', M + 'EdDSA.verify', M + '_Rsa.verify', M + '_RsaPss.get_pad_func', M + '_RsaPkcs1.get_pad_func']),
    Contract('key_wrap', wraps, i_key_wrap, s_key_wrap,
             funcs=[M + '_AesKw.key_wrap']),
    Contract('key_unwrap', wraps, i_key_unwrap, s_key_unwrap,
             funcs=[M + '_AesKw.key_unwrap']),
    Contract('RSA key_wrap', rsa_wraps, i_RSA_key_wrap, s_rsa_wrap,
             funcs=[M + '_RsaOaep.key_wrap', M + '_RsaOaep.get_pad_func']),
    Contract('RSA key_unwrap', rsa_wraps, i_RSA_key_unwrap, s_rsa_unwrap,
             funcs=[M + '_RsaOaep.key_unwrap', M + '_RsaOaep.get_pad_func']),
    Contract('curves', curves, i_curve, s_curve, funcs=['pycose.keys.curves.CoseCurve']),
    Contract('curve objects', curves, i_curve_obj, s_curve_obj, funcs=['pycose.keys.curves.CoseCurve']),
]
