"""The IANA COSE registries (RFC 8152, 8230, 8812, 9053, 9054, 9360): id -> (name in this library, name of its class).

An independent copy: reviewed against the registries, never derived from the code at run time."""

HEADERS = {
    0: ('RESERVED', 'Reserved'),
    1: ('ALG', 'Algorithm'),
    2: ('CRITICAL', 'Critical'),
    3: ('CONTENT_TYPE', 'ContentType'),
    4: ('KID', 'KID'),
    5: ('IV', 'IV'),
    6: ('PARTIAL_IV', 'PartialIV'),
    7: ('COUNTER_SIGN', 'CounterSignature'),
    9: ('COUNTER_SIGN0', 'CounterSignature0'),
    10: ('KID_CONTEXT', 'KIDContext'),
    32: ('X5_BAG', 'X5bag'),
    33: ('X5_CHAIN', 'X5chain'),
    34: ('X5_T', 'X5t'),
    35: ('X5_U', 'X5u'),
    -1: ('EPHEMERAL_KEY', 'EphemeralKey'),
    -2: ('STATIC_KEY', 'StaticKey'),
    -3: ('STATIC_KEY_ID', 'StaticKeyID'),
    -20: ('SALT', 'Salt'),
    -21: ('PARTY_U_ID', 'PartyUID'),
    -22: ('PARTY_U_NONCE', 'PartyUNonce'),
    -23: ('PARTY_U_OTHER', 'PartyUOther'),
    -24: ('PARTY_V_ID', 'PartyVID'),
    -25: ('PARTY_V_NONCE', 'PartyVNonce'),
    -26: ('PARTY_V_OTHER', 'PartyVOther'),
}
ALGORITHMS = {
    -65535: ('RS1', 'RsaPkcs1Sha1'),
    -259: ('RS512', 'RsaPkcs1Sha512'),
    -258: ('RS384', 'RsaPkcs1Sha384'),
    -257: ('RS256', 'RsaPkcs1Sha256'),
    -45: ('SHAKE-256', 'Shake256'),
    -44: ('SHA-512', 'Sha512'),
    -43: ('SHA-384', 'Sha384'),
    -42: ('RSAES_OAEP_SHA_512', 'RsaesOaepSha512'),
    -41: ('RSAES_OAEP_SHA_256', 'RsaesOaepSha256'),
    -40: ('RSAES_OAEP_SHA_1', 'RsaesOaepSha1'),
    -39: ('PS512', 'Ps512'),
    -38: ('PS384', 'Ps384'),
    -37: ('PS256', 'Ps256'),
    -36: ('ES512', 'Es512'),
    -35: ('ES384', 'Es384'),
    -34: ('ECDH_SS_A256KW', 'EcdhSsA256KW'),
    -33: ('ECDH_SS_A192KW', 'EcdhSsA192KW'),
    -32: ('ECDH_SS_A128KW', 'EcdhSsA128KW'),
    -31: ('ECDH_ES_A256KW', 'EcdhEsA256KW'),
    -30: ('ECDH_ES_A192KW', 'EcdhEsA192KW'),
    -29: ('ECDH_ES_A128KW', 'EcdhEsA128KW'),
    -28: ('ECDH_SS_HKDF_512', 'EcdhSsHKDF512'),
    -27: ('ECDH_SS_HKDF_256', 'EcdhSsHKDF256'),
    -26: ('ECDH_ES_HKDF_512', 'EcdhEsHKDF512'),
    -25: ('ECDH_ES_HKDF_256', 'EcdhEsHKDF256'),
    -18: ('SHAKE-128', 'Shake128'),
    -17: ('SHA-512/256', 'Sha512Trunc256'),
    -16: ('SHA-256', 'Sha256'),
    -15: ('SHA-256/64', 'Sha256Trunc64'),
    -14: ('SHA-1', 'Sha1'),
    -13: ('DIRECT_HKDF_AES_256', 'DirectHKDFAES256'),
    -12: ('DIRECT_HKDF_AES_128', 'DirectHKDFAES128'),
    -11: ('DIRECT_HKDF_SHA_512', 'DirecHKDFSHA512'),
    -10: ('DIRECT_HKDF_SHA_256', 'DirectHKDFSHA256'),
    -8: ('EDDSA', 'EdDSA'),
    -7: ('ES256', 'Es256'),
    -6: ('DIRECT', 'Direct'),
    -5: ('A256KW', 'A256KW'),
    -4: ('A192KW', 'A192KW'),
    -3: ('A128KW', 'A128KW'),
    1: ('A128GCM', 'A128GCM'),
    2: ('A192GCM', 'A192GCM'),
    3: ('A256GCM', 'A256GCM'),
    4: ('HMAC_256_64', 'HMAC25664'),
    5: ('HMAC_256', 'HMAC256'),
    6: ('HMAC_384', 'HMAC384'),
    7: ('HMAC_512', 'HMAC512'),
    10: ('AES_CCM_16_64_128', 'AESCCM1664128'),
    11: ('AES_CCM_16_64_256', 'AESCCM1664256'),
    12: ('AES_CCM_64_64_128', 'AESCCM6464128'),
    13: ('AES_CCM_64_64_256', 'AESCCM6464256'),
    14: ('AES_MAC_128_64', 'AESMAC12864'),
    15: ('AES_MAC_256_64', 'AESMAC25664'),
    25: ('AES_MAC_128_128', 'AESMAC128128'),
    26: ('AES_MAC_256_128', 'AESMAC256128'),
    30: ('AES_CCM_16_128_128', 'AESCCM16128128'),
    31: ('AES_CCM_16_128_256', 'AESCCM16128256'),
    32: ('AES_CCM_64_128_128', 'AESCCM64128128'),
    33: ('AES_CCM_64_128_256', 'AESCCM64128256'),
}
KEY_OPS = {
    1: ('SIGN', 'SignOp'),
    2: ('VERIFY', 'VerifyOp'),
    3: ('ENCRYPT', 'EncryptOp'),
    4: ('DECRYPT', 'DecryptOp'),
    5: ('WRAP', 'WrapOp'),
    6: ('UNWRAP', 'UnwrapOp'),
    7: ('DERIVE_KEY', 'DeriveKeyOp'),
    8: ('DERIVE_BITS', 'DeriveBitsOp'),
    9: ('MAC_CREATE', 'MacCreateOp'),
    10: ('MAC_VERIFY', 'MacVerifyOp'),
}
KEY_TYPES = {
    0: ('RESERVED', 'KtyReserved'),
    1: ('OKP', 'KtyOKP'),
    2: ('EC2', 'KtyEC2'),
    3: ('RSA', 'KtyRSA'),
    4: ('SYMMETRIC', 'KtySymmetric'),
}
CURVES = {
    0: ('RESERVED', 'Reserved'),
    1: ('P_256', 'P256'),
    2: ('P_384', 'P384'),
    3: ('P_521', 'P521'),
    4: ('X25519', 'X25519'),
    5: ('X448', 'X448'),
    6: ('ED25519', 'Ed25519'),
    7: ('ED448', 'Ed448'),
    8: ('SECP256K1', 'SECP256K1'),
}
KEY_PARAMS = {
    1: ('KTY', 'KpKty'),
    2: ('KID', 'KpKid'),
    3: ('ALG', 'KpAlg'),
    4: ('KEY_OPS', 'KpKeyOps'),
    5: ('BASE_IV', 'KpBaseIV'),
}
EC2_PARAMS = {
    1: ('KTY', 'KpKty'),
    2: ('KID', 'KpKid'),
    3: ('ALG', 'KpAlg'),
    4: ('KEY_OPS', 'KpKeyOps'),
    5: ('BASE_IV', 'KpBaseIV'),
    -1: ('CURVE', 'EC2KpCurve'),
    -2: ('X', 'EC2KpX'),
    -3: ('Y', 'EC2KpY'),
    -4: ('D', 'EC2KpD'),
}
OKP_PARAMS = {
    1: ('KTY', 'KpKty'),
    2: ('KID', 'KpKid'),
    3: ('ALG', 'KpAlg'),
    4: ('KEY_OPS', 'KpKeyOps'),
    5: ('BASE_IV', 'KpBaseIV'),
    -1: ('CURVE', 'OKPKpCurve'),
    -4: ('D', 'OKPKpD'),
    -2: ('X', 'OKPKpX'),
}
RSA_PARAMS = {
    1: ('KTY', 'KpKty'),
    2: ('KID', 'KpKid'),
    3: ('ALG', 'KpAlg'),
    4: ('KEY_OPS', 'KpKeyOps'),
    5: ('BASE_IV', 'KpBaseIV'),
    -1: ('N', 'RSAKpN'),
    -2: ('E', 'RSAKpE'),
    -3: ('D', 'RSAKpD'),
    -4: ('P', 'RSAKpP'),
    -5: ('Q', 'RSAKpQ'),
    -6: ('DP', 'RSAKpDP'),
    -7: ('DQ', 'RSAKpDQ'),
    -8: ('QINV', 'RSAKpQInv'),
    -9: ('OTHER', 'RSAKpOther'),
    -10: ('R_I', 'RSAKpRi'),
    -11: ('D_I', 'RSAKpDi'),
    -12: ('T_I', 'RSAKpTi'),
}
SYMMETRIC_PARAMS = {
    1: ('KTY', 'KpKty'),
    2: ('KID', 'KpKid'),
    3: ('ALG', 'KpAlg'),
    4: ('KEY_OPS', 'KpKeyOps'),
    5: ('BASE_IV', 'KpBaseIV'),
    -1: ('K', 'SymKpK'),
}

# content encryption: id -> (key length in bytes, tag length in bytes)
GCM = {1: (16, 16), 2: (24, 16), 3: (32, 16)}
CCM = {10: (16, 8), 11: (32, 8), 12: (16, 8), 13: (32, 8), 30: (16, 16), 31: (32, 16), 32: (16, 16), 33: (32, 16)}
# MAC: id -> (hash, length of the tag in bytes)
HMAC = {4: ('sha256', 8), 5: ('sha256', 32), 6: ('sha384', 48), 7: ('sha512', 64)}
# id -> (key length, tag length)
CBCMAC = {14: (16, 8), 15: (32, 8), 25: (16, 16), 26: (32, 16)}
# key wrap: id -> key length
KW = {-3: 16, -4: 24, -5: 32}
# algorithms with a key length
KEYLEN = {**{i: v[0] for t in (GCM, CCM, CBCMAC) for i, v in t.items()}, **KW}
# signatures
ECDSA = {-7: ('sha256', 1, 'secp256r1'), -35: ('sha384', 2, 'secp384r1'), -36: ('sha512', 3, 'secp521r1')}
EDDSA = {-8: 'the curve of the key: Ed25519 or Ed448'}
RSA_SIG = {-37: ('pss:sha256:32', 'sha256'), -38: ('pss:sha384:48', 'sha384'), -39: ('pss:sha512:64', 'sha512'),
           -257: ('pkcs1', 'sha256'), -258: ('pkcs1', 'sha384'), -259: ('pkcs1', 'sha512'), -65535: ('pkcs1', 'sha1')}
RSA_ENC = {-40: 'oaep:sha1:sha1:None', -41: 'oaep:sha256:sha256:None', -42: 'oaep:sha512:sha512:None'}
# key agreement: id -> (hash, id of the key wrap algorithm or None)
ECDH = {-25: ('sha256', None), -26: ('sha512', None), -27: ('sha256', None), -28: ('sha512', None),
        -29: ('sha256', -3), -30: ('sha256', -4), -31: ('sha256', -5),
        -32: ('sha256', -3), -33: ('sha256', -4), -34: ('sha256', -5)}
# hashes: id -> (hash, length of the result)
HASH = {-14: ('sha1', 20), -15: ('sha256', 8), -16: ('sha256', 32), -17: ('sha512', 32), -18: ('shake128:32', 32),
        -43: ('sha384', 48), -44: ('sha512', 64), -45: ('shake256:64', 64)}
# curves: id -> (key type, coordinate length in bytes, canonical name)
CURVE = {1: (2, 32, 'secp256r1'), 2: (2, 48, 'secp384r1'), 3: (2, 66, 'secp521r1'), 8: (2, 32, 'secp256k1'),
         4: (1, 32, 'X25519'), 5: (1, 56, 'X448'), 6: (1, 32, 'Ed25519'), 7: (1, 57, 'Ed448')}
