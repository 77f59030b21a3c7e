"""Models of cbor2, cryptography, ecdsa, os, binascii, certvalidator, and of the primitives of specs/prims.py."""
import binascii
import hashlib
import hmac as _hmac
import os

import cbor2
import z3

from . import ops
from .ext import *
from .ext import _from_bytes
from .ops import *
from .terms import *
from .values import *
from specs import prims as P

import ecdsa
from certvalidator import CertificateValidator
from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes, keywrap, serialization
from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519, padding, rsa, x448, x25519
from cryptography.hazmat.primitives.ciphers import Cipher, modes
from cryptography.hazmat.primitives.ciphers import algorithms as calgs
from cryptography.hazmat.primitives.ciphers.aead import AESCCM, AESGCM
from cryptography.hazmat.primitives.hmac import HMAC
from cryptography.hazmat.primitives.kdf.hkdf import HKDF


# ---- binascii, os ----------------------------------------------------------------------------------------

@model(binascii.hexlify)
def _hexlify(I, b, *a):
    b = need_bytes(I, b)
    if isinstance(b, bytes):
        return binascii.hexlify(b)
    return SHex(b.t)


@model(binascii.unhexlify)
def _unhexlify(I, h):
    h = refine(I, h)
    if isinstance(h, SHex):
        return SBytes(h.t)
    c = concrete(h)
    if c is NO:
        raise Unsupported('unhexlify')
    try:
        return binascii.unhexlify(c)
    except Exception as e:
        raise PyRaise(e)


def urandom(I, n):
    n = refine(I, n)
    if not isint(n):
        I.throw(TypeError, 'an integer is required')
    cx = I.cx
    if not cx.branch(ti(n) >= 0):
        I.throw(ValueError, 'negative argument')
    k = cx.rand.get(cx.phase, 0)
    cx.rand[cx.phase] = k + 1
    t = z3.Const(f'urandom!{k}', BYTES)
    cx.assume(z3.Length(t) == ti(n))
    return SBytes(t)


FUNC[os.urandom] = urandom
FUNC[P.urandom] = urandom
import secrets
FUNC[secrets.token_bytes] = lambda I, n=32: urandom(I, n)


@model(_hmac.compare_digest)
def _compare_digest(I, a, b):
    a, b = need_bytes(I, a, b)
    return eq(I, a, b)


# ---- CBOR ------------------------------------------------------------------------------------------------

MODE_NONE, MODE_HDR, MODE_HDR_T, MODE_ID = 0, 1, 2, 3
san_map = uf('san_map', MP, INT, MP)
san_any = uf('san_any', V, INT, V)
cbor_ = uf('cbor', V, BYTES)
uncbor_ = uf('uncbor', BYTES, V)
ok_uncbor = uf('ok_uncbor', BYTES, BOOL)

_classified = {}


class _Rec:
    def __init__(self):
        self.out = []

    def encode(self, x):
        self.out.append(x)


def _run_default(f, x):
    r = _Rec()
    try:
        f(r, x)
    except Exception as e:
        return ('exc', type(e).__name__)
    return r.out


def _sample_keys():
    from pycose.keys import EC2Key, SymmetricKey
    from pycose.keys.keyparam import KpKeyOps
    from pycose.keys.keyops import SignOp
    k1 = SymmetricKey(k=b'\x01' * 16)
    k2 = SymmetricKey(k=b'\x01' * 16, optional_params={KpKeyOps: [SignOp]})
    k3 = SymmetricKey(k=b'\x01' * 16)
    k3.store[KpKeyOps] = []
    return [(k1, dict(k1)), (k2, dict(k2)), (k3, dict(k1))]


def classify_default(I, f):
    """What a `default=` encoder does with the registered classes and keys: found by running it on all of them."""
    from pycose.algorithms import CoseAlgorithm
    func, obj = None, None
    if isinstance(f, (BoundM,)):
        func, obj = f.func, f.obj
    elif hasattr(f, '__func__'):
        func, obj = f.__func__, f.__self__
    elif isinstance(f, ops.types.FunctionType):
        func = f
    else:
        raise Unsupported('default encoder')
    if isinstance(obj, SEnum):
        obj = obj.members[0]
    key = (func, obj if isinstance(obj, type) else type(obj))
    if key not in _classified:
        us = [u for u in universe() if u is not Foreign]

        def behaviour(flag):
            if obj is None:
                g = func
            elif isinstance(obj, type):
                g = lambda e, x: func(obj, e, x)
            else:
                twin = object.__new__(type(obj))
                try:
                    twin.alg_tstr_encoding = flag
                except Exception:
                    pass
                g = lambda e, x: func(twin, e, x)
            b = []
            for u in us:
                o = _run_default(g, u)
                b.append('id' if o == [u.identifier] else 'name' if o == [u.fullname] else 'weird')
            keys = all(_run_default(g, k) == [d] for k, d in _sample_keys())
            return b, keys
        b0, k0 = behaviour(False)
        b1, k1 = behaviour(True)
        ids = all(x == 'id' for x in b0)
        named = all(x == ('name' if issubclass(u, CoseAlgorithm) else 'id') for x, u in zip(b1, us))
        if ids and named and k0 and k1:
            _classified[key] = 'hdr'
        elif ids and all(x == 'id' for x in b1):
            _classified[key] = 'id'
        else:
            _classified[key] = 'weird'
    c = _classified[key]
    if c == 'hdr':
        if isinstance(obj, type) or obj is None:
            return z3.IntVal(100 + gid(func))
        return z3.If(tbool(truthy(I, I.getattr(obj, 'alg_tstr_encoding'))), z3.IntVal(MODE_HDR_T), z3.IntVal(MODE_HDR))
    if c == 'id':
        return z3.IntVal(MODE_ID)
    return z3.IntVal(100 + gid(func))


def truthy(I, x):
    if isinstance(x, (bool, SBool)):
        return x
    return truth(I, x)


def san(I, x, mode, depth=0):
    """V term of the CBOR item that encoding x with the default encoder of the given mode produces."""
    from pycose.algorithms import CoseAlgorithm
    if depth > 12:
        raise Unsupported('CBOR value too deep')
    if isinstance(x, SAny):
        if x.t.get_id() in I.cx.wire:
            return x.t
        if (x.t.get_id(), I.cx.phase) in I.cx.refined:
            x = I.cx.refined[(x.t.get_id(), I.cx.phase)][1]
        else:
            if I.cx.entails(z3.Or([TESTER[k](x.t) for k in ('none', 'bool', 'int', 'bytes', 'str')])):
                return x.t
            return san_any(x.t, mode)
    if isinstance(x, (SEnum, type)):
        ms = x.members if isinstance(x, SEnum) else (x,)
        if all(hasattr(m, 'identifier') for m in ms):
            if z3.is_int_value(mode) and mode.as_long() == MODE_NONE:
                I.throw(cbor2.CBOREncodeTypeError, 'cannot serialize type')
            if not (z3.is_int_value(mode) and mode.as_long() >= 100):
                t = None
                for m in reversed(ms):
                    v = V.VInt(z3.IntVal(m.identifier))
                    if issubclass(m, CoseAlgorithm):
                        v = z3.If(mode == MODE_HDR_T, V.VStr(z3.StringVal(m.fullname)), v)
                    t = v if t is None else z3.If(x.t == gid(m), v, t)
                return t
        return san_any(tov(I, x), mode)
    if isinstance(x, (PList, list, tuple)):
        items = x.items if isinstance(x, PList) else x
        t = L.nil
        if isinstance(x, PList) and x.tail is not None:
            t = V.vl(san_any(V.VList(x.tail), mode))
        for e in reversed(items):
            t = L.cons(san(I, e, mode, depth + 1), t)
        return V.VList(t)
    if isinstance(x, dict):
        x = SDict([('set', k, v) for k, v in x.items()])
    if isinstance(x, SDict):
        es = entries(x)
        if es is not None:
            t = mnil
            for k, v in es:
                t = mset(t, san(I, k, mode, depth + 1), san(I, v, mode, depth + 1))
            return V.VMap(t)
        return V.VMap(san_map(map_term(I, x), mode))
    if isinstance(x, cbor2.CBORTag):
        return V.VTag(ti(x.tag), san(I, x.value, mode, depth + 1))
    if isinstance(x, ExtObj) and x.kind == 'cbortag':
        return V.VTag(ti(x.attrs['tag']), san(I, x.attrs['value'], mode, depth + 1))
    if is_instance_obj(x):
        if hasattr(type(x), 'keys'):
            return san_any(tov(I, x), mode)
        return san_any(tov(I, x), mode)
    if isinstance(x, (ops.Other, ops.ExtTag)):
        return san_any(x.t, mode)
    return tov(I, x)


def cbor_of(I, v):
    trust('cbor2.dumps')
    t = cbor_(v)
    cx = I.cx
    cx.assume(ok_uncbor(t))
    cx.assume(uncbor_(t) == v)
    cx.assume(z3.Length(t) >= 1)
    return SBytes(t)


@model(cbor2.dumps)
def _dumps(I, x, default=None, **kw):
    if kw:
        raise Unsupported('cbor2.dumps options')
    mode = z3.IntVal(MODE_NONE) if default is None else classify_default(I, default)
    return cbor_of(I, san(I, x, mode))


@model(P.cbor)
def _p_cbor(I, x):
    return cbor_of(I, san(I, x, z3.IntVal(MODE_ID)))


@model(P.cbor_hdr)
def _p_cborhdr(I, x, tstr):
    mode = z3.If(tbool(truthy(I, tstr)), z3.IntVal(MODE_HDR_T), z3.IntVal(MODE_HDR))
    return cbor_of(I, san(I, x, z3.simplify(mode)))


@model(cbor2.loads)
def _loads(I, b, **kw):
    trust('cbor2.loads')
    if kw:
        raise Unsupported('cbor2.loads options')
    b = need_bytes(I, b)
    t = tb(b)
    if not I.cx.branch(ok_uncbor(t)):
        I.throw(cbor2.CBORDecodeValueError, 'cbor2.loads')
    r = uncbor_(t)
    I.cx.assume(I.cx.anywf(r, ops.WIREKINDS))
    ops.wired(I, r)
    if isinstance(b, SBytes) and t.decl().name() == 'cbor':
        return fresh_copy(I, from_v(I, t.arg(0)))
    return fresh_copy(I, from_v(I, r))


def fresh_copy(I, x):
    return x


FUNC[P.uncbor] = _loads


@model(cbor2.CBORTag)
def _cbortag(I, tag, value):
    return xobj(I, 'cbortag', cbor2.CBORTag, [tag], attrs={'tag': tag, 'value': value})


FUNC[P.tagged] = _cbortag


# ---- hashes, MACs, KDF -----------------------------------------------------------------------------------

def p_hash(I, hname, data):
    data = need_bytes(I, data)
    return b_op(I, 'hash', [hname, data], fails=False, length=hash_len(hname))


FUNC[P.hash_] = p_hash


@model(hashes.Hash)
def _Hash(I, algorithm, backend=None):
    n = hash_name(algorithm)
    return xobj(I, 'hash', hashes.Hash, [n], name=n, buf=b'')


@method('hash', 'update')
def _hash_update(I, o, data):
    data = need_bytes(I, data)
    o.buf = binop(I, 'Add', o.buf, data)


@method('hash', 'finalize')
def _hash_finalize(I, o):
    return p_hash(I, o.name, o.buf)


@method('hash', 'copy')
def _hash_copy(I, o):
    return xobj(I, 'hash', hashes.Hash, [o.name], name=o.name, buf=o.buf)


def _hashlib(name):
    def f(I, data=b'', **kw):
        return xobj(I, 'hashlib', object, [name], name=name, buf=need_bytes(I, data))
    return f


for _n in ('sha1', 'sha224', 'sha256', 'sha384', 'sha512'):
    FUNC[getattr(hashlib, _n)] = _hashlib(_n)
METHOD[('hashlib', 'update')] = _hash_update
METHOD[('hashlib', 'digest')] = _hash_finalize


def p_hmac(I, hname, key, data):
    key, data = need_bytes(I, key, data)
    return b_op(I, 'hmac', [hname, key, data], fails=False, length=hash_len(hname))


FUNC[P.hmac_] = p_hmac


@model(HMAC)
def _HMAC(I, key, algorithm, backend=None):
    n = hash_name(algorithm)
    return xobj(I, 'hmac', HMAC, [n, key], name=n, key=need_bytes(I, key), buf=b'')


METHOD[('hmac', 'update')] = _hash_update


@method('hmac', 'finalize')
def _hmac_finalize(I, o):
    return p_hmac(I, o.name, o.key, o.buf)


@method('hmac', 'verify')
def _hmac_verify(I, o, sig):
    if not truth(I, eq(I, p_hmac(I, o.name, o.key, o.buf), need_bytes(I, sig))):
        I.throw(InvalidSignature)


def p_hkdf(I, hname, length, salt, info, secret):
    info, secret = need_bytes(I, info, secret)
    # RFC 5869: no salt is a salt of zeros, and HMAC pads its key with zeros
    salt = b'' if salt is None else need_bytes(I, salt)
    if isinstance(salt, bytes) and len(salt) <= 64 and not any(salt):
        salt = b''
    return b_op(I, 'hkdf', [hname, length, salt, info, secret], length=length)


FUNC[P.hkdf] = p_hkdf


@model(HKDF)
def _HKDF(I, algorithm, length, salt, info, backend=None):
    n = hash_name(algorithm)
    return xobj(I, 'hkdf', HKDF, [n], name=n, length=length, salt=salt, info=info)


@method('hkdf', 'derive')
def _hkdf_derive(I, o, key_material):
    return p_hkdf(I, o.name, o.length, o.salt, b'' if o.info is None else o.info, key_material)


# ---- AES -------------------------------------------------------------------------------------------------

def p_cbc(I, key, iv, data):
    key, iv, data = need_bytes(I, key, iv, data)
    n = z3.Length(tb(data))
    r = b_op(I, 'aes_cbc', [key, iv, data])
    I.cx.assume(z3.Length(r.t) == n)
    return r


FUNC[P.aes_cbc_enc] = p_cbc


def p_cbcmac(I, key, data, n):
    key, data = need_bytes(I, key, data)
    return b_op(I, 'cbc_mac', [key, data, n])


FUNC[P.cbc_mac] = p_cbcmac


@model(calgs.AES)
def _AES(I, key):
    return xobj(I, 'aes', calgs.AES, [key], key=need_bytes(I, key))


@model(modes.CBC)
def _CBC(I, initialization_vector):
    return xobj(I, 'cbc', modes.CBC, [initialization_vector], iv=need_bytes(I, initialization_vector))


@model(Cipher)
def _Cipher(I, algorithm, mode, backend=None):
    if getattr(algorithm, 'kind', 0) != 'aes' or getattr(mode, 'kind', 0) != 'cbc':
        raise Unsupported('cipher')
    return xobj(I, 'cipher', Cipher, [algorithm, mode], alg=algorithm, mode=mode)


@method('cipher', 'encryptor')
def _encryptor(I, o):
    return xobj(I, 'cbcenc', object, [o], c=o, buf=b'', done=False)


@method('cbcenc', 'update')
def _cbc_update(I, o, data):
    # the whole ciphertext is produced by the first update (callers that split the data are outside the model)
    if o.done:
        raise Unsupported('second update')
    o.done = True
    return p_cbc(I, o.c.alg.key, o.c.mode.iv, data)


@method('cbcenc', 'finalize')
def _cbc_finalize(I, o):
    return b''


def aead(name, taglen_arg):
    def enc(I, key, nonce, data, aad, *tl):
        key, nonce, data, aad = need_bytes(I, key, nonce, data, aad)
        vals = [key, nonce, data, aad, *tl]
        c = b_op(I, name + '_enc', vals)
        t = ti(tl[0]) if tl else z3.IntVal(16)
        cx = I.cx
        cx.assume(z3.Length(c.t) == z3.Length(tb(data)) + t)
        back = [key, nonce, c, aad, *tl]
        cx.assume(ok_pred(I, name + '_dec', back))
        v = vs_(I, back)
        cx.assume(uf(name + '_dec', *([V] * len(v)), BYTES)(*v) == tb(data))
        return c

    def dec(I, key, nonce, data, aad, *tl):
        key, nonce, data, aad = need_bytes(I, key, nonce, data, aad)
        return b_op(I, name + '_dec', [key, nonce, data, aad, *tl])
    return enc, dec


gcm_enc, gcm_dec = aead('aesgcm', False)
ccm_enc, ccm_dec = aead('aesccm', True)
FUNC[P.gcm_enc], FUNC[P.gcm_dec] = gcm_enc, gcm_dec
FUNC[P.ccm_enc], FUNC[P.ccm_dec] = ccm_enc, ccm_dec


@model(AESGCM)
def _AESGCM(I, key):
    return xobj(I, 'gcm', AESGCM, [key], key=need_bytes(I, key), extra=())


@model(AESCCM)
def _AESCCM(I, key, tag_length=16):
    return xobj(I, 'ccm', AESCCM, [key], key=need_bytes(I, key), extra=(tag_length,))


@method('gcm', 'encrypt')
def _gcm_encrypt(I, o, nonce, data, associated_data):
    return gcm_enc(I, o.key, nonce, data, b'' if associated_data is None else associated_data)


@method('gcm', 'decrypt')
def _gcm_decrypt(I, o, nonce, data, associated_data):
    return gcm_dec(I, o.key, nonce, data, b'' if associated_data is None else associated_data)


@method('ccm', 'encrypt')
def _ccm_encrypt(I, o, nonce, data, associated_data):
    return ccm_enc(I, o.key, nonce, data, b'' if associated_data is None else associated_data, *o.extra)


@method('ccm', 'decrypt')
def _ccm_decrypt(I, o, nonce, data, associated_data):
    return ccm_dec(I, o.key, nonce, data, b'' if associated_data is None else associated_data, *o.extra)


def kw_wrap(I, wrapping_key, key_to_wrap, backend=None):
    k, d = need_bytes(I, wrapping_key, key_to_wrap)
    r = b_op(I, 'kw_wrap', [k, d])
    I.cx.assume(z3.Length(r.t) == z3.Length(tb(d)) + 8)
    I.cx.assume(ok_pred(I, 'kw_unwrap', [k, r]))
    v = vs_(I, [k, r])
    I.cx.assume(uf('kw_unwrap', V, V, BYTES)(*v) == tb(d))
    return r


def kw_unwrap(I, wrapping_key, wrapped_key, backend=None):
    k, d = need_bytes(I, wrapping_key, wrapped_key)
    return b_op(I, 'kw_unwrap', [k, d])


FUNC[keywrap.aes_key_wrap] = FUNC[P.kw_wrap] = kw_wrap
FUNC[keywrap.aes_key_unwrap] = FUNC[P.kw_unwrap] = kw_unwrap


# ---- elliptic curves -------------------------------------------------------------------------------------

def as_int(I, b):
    """int(hexlify(b), 16)"""
    b = need_bytes(I, b)
    if isinstance(b, bytes):
        if not b:
            I.throw(ValueError, 'empty')
        return int.from_bytes(b, 'big')
    if I.cx.branch(z3.Length(b.t) == 0):
        I.throw(ValueError, 'empty')
    return be_int(I, b)


def p_ecdsa_sign(I, curve, hname, d, data):
    data = need_bytes(I, data)
    return b_op(I, 'ecdsa_sign', [curve, hname, as_int(I, d), data])


def p_ecdsa_verify(I, curve, hname, x, y, data, sig):
    data, sig = need_bytes(I, data, sig)
    xi, yi = as_int(I, x), as_int(I, y)
    may_fail(I, 'ec_point', [curve, xi, yi])
    return bool_op(I, 'ecdsa_verify', [curve, hname, xi, yi, data, sig])


FUNC[P.ecdsa_sign] = p_ecdsa_sign
FUNC[P.ecdsa_verify] = p_ecdsa_verify


def _sk_from(I, secexp, curve=None, hashfunc=hashlib.sha1):
    return xobj(I, 'ecdsa_sk', ecdsa.SigningKey, [secexp], d=secexp, curve=curve_name(curve), h=hashfunc)


STATIC[('SigningKey', 'from_secret_exponent')] = _sk_from
FUNC[ecdsa.SigningKey.from_secret_exponent.__func__] = lambda I, cls, *a, **k: _sk_from(I, *a, **k)


@method('ecdsa_sk', 'sign_deterministic')
def _sign_det(I, o, data, hashfunc=None, sigencode=None, extra_entropy=b''):
    if sigencode is not None or extra_entropy != b'':
        raise Unsupported('signing options')
    data = need_bytes(I, data)
    return b_op(I, 'ecdsa_sign', [o.curve, hash_name(hashfunc or o.h), o.d, data])


from ecdsa.ellipticcurve import Point


def _ecdsa_curve_of(c):
    for k in ecdsa.curves.curves:
        if k.curve is c or k.curve == c:
            return curve_name(k)
    raise Unsupported('curve of point')


@model(Point)
def _Point(I, curve, x, y, order=None):
    return xobj(I, 'point', Point, [x, y], curve=_ecdsa_curve_of(curve), x=x, y=y)


def _vk_from(I, point, curve=None, hashfunc=hashlib.sha1, validate_point=True):
    c = curve_name(curve)
    if c != point.curve:
        raise Unsupported('point of another curve')
    if validate_point is True:
        may_fail(I, 'ec_point', [c, point.x, point.y])
    return xobj(I, 'ecdsa_vk', ecdsa.VerifyingKey, [point], p=point, curve=c, h=hashfunc)


FUNC[ecdsa.VerifyingKey.from_public_point.__func__] = lambda I, cls, *a, **k: _vk_from(I, *a, **k)


@method('ecdsa_vk', 'verify')
def _vk_verify(I, o, signature, data, hashfunc=None, sigdecode=None, allow_truncate=True):
    if sigdecode is not None:
        raise Unsupported('verification options')
    data, signature = need_bytes(I, data, signature)
    r = bool_op(I, 'ecdsa_verify', [o.curve, hash_name(hashfunc or o.h), o.p.x, o.p.y, data, signature])
    if I.cx.branch(r.t):
        return True
    I.throw(ecdsa.BadSignatureError)


ED = {'Ed25519': (ed25519.Ed25519PrivateKey, ed25519.Ed25519PublicKey), 'Ed448': (ed448.Ed448PrivateKey, ed448.Ed448PublicKey),
      'X25519': (x25519.X25519PrivateKey, x25519.X25519PublicKey), 'X448': (x448.X448PrivateKey, x448.X448PublicKey)}
OKPLEN = {'Ed25519': 32, 'Ed448': 57, 'X25519': 32, 'X448': 56}


NEED['okp_priv'] = NEED['okp_point'] = lambda c, d: z3.Length(tb(d)) == OKPLEN[c]
NEED['rsa_pub'] = NEED['rsa_priv'] = lambda *v: z3.And([ti(x) >= 1 for x in v])


def okp_pub(I, c, d):
    return b_op(I, 'okp_pub', [c, d], fails=False, length=OKPLEN[c])


def _okp_static(c):
    skc, pkc = ED[c]

    def priv(I, data):
        data = need_bytes(I, data)
        may_fail(I, 'okp_priv', [c, data])
        return xobj(I, 'okp_sk', skc, [c, data], curve=c, d=data)

    def pub(I, data):
        data = need_bytes(I, data)
        may_fail(I, 'okp_point', [c, data])
        return xobj(I, 'okp_pk', pkc, [c, data], curve=c, x=data)

    def gen(I):
        d = gen_random(I, 'okpgen_' + c)
        I.cx.assume(z3.Length(d.t) == OKPLEN[c])
        return xobj(I, 'okp_sk', skc, [c, d], curve=c, d=d)
    for k, f in (('from_private_bytes', priv), ('generate', gen)):
        STATIC[(skc.__name__, k)] = f
        FUNC[getattr(skc, k).__func__] = lambda I, cls, *a, _f=f, **kw: _f(I, *a, **kw)
    STATIC[(pkc.__name__, 'from_public_bytes')] = pub
    FUNC[pkc.from_public_bytes.__func__] = lambda I, cls, *a, _f=pub, **kw: _f(I, *a, **kw)


def gen_random(I, name, sort=BYTES):
    cx = I.cx
    key = ('gen', cx.phase)
    k = cx.rand.get(key, 0)
    cx.rand[key] = k + 1
    t = z3.Const(f'{name}!{k}', sort)
    return SBytes(t) if sort == BYTES else SInt(t)


for _c in ED:
    _okp_static(_c)


@method('okp_sk', 'sign')
def _okp_sign(I, o, data):
    data = need_bytes(I, data)
    return b_op(I, 'eddsa_sign', [o.curve, o.d, data], fails=False)


@method('okp_pk', 'verify')
def _okp_verify(I, o, signature, data):
    data, signature = need_bytes(I, data, signature)
    r = bool_op(I, 'eddsa_verify', [o.curve, o.x, data, signature])
    if not I.cx.branch(r.t):
        I.throw(InvalidSignature)


@method('okp_sk', 'public_key')
def _okp_pubkey(I, o):
    x = okp_pub(I, o.curve, o.d)
    return xobj(I, 'okp_pk', ED[o.curve][1], [o.curve, x], curve=o.curve, x=x)


@method('okp_sk', 'private_bytes', 'private_bytes_raw')
def _okp_privbytes(I, o, encoding=None, format=None, encryption_algorithm=None):
    S = serialization
    if encoding is not None and (encoding is not S.Encoding.Raw or format is not S.PrivateFormat.Raw):
        raise Unsupported('encoding')
    return o.d


@method('okp_pk', 'public_bytes', 'public_bytes_raw')
def _okp_pubbytes(I, o, encoding=None, format=None):
    S = serialization
    if encoding is not None and (encoding is not S.Encoding.Raw or format is not S.PublicFormat.Raw):
        raise Unsupported('encoding')
    return o.x


@model(P.eddsa_sign)
def _p_eddsa_sign(I, curve, d, data):
    d, data = need_bytes(I, d, data)
    may_fail(I, 'okp_priv', [curve, d])
    return b_op(I, 'eddsa_sign', [curve, d, data], fails=False)


@model(P.eddsa_verify)
def _p_eddsa_verify(I, curve, x, data, sig):
    x, data, sig = need_bytes(I, x, data, sig)
    may_fail(I, 'okp_point', [curve, x])
    return bool_op(I, 'eddsa_verify', [curve, x, data, sig])


def ec_pub(I, c, d):
    """Coordinates (integers) of the public point of private value d."""
    a = vs_(I, [c, d])
    x, y = uf('ec_pub_x', V, V, INT)(*a), uf('ec_pub_y', V, V, INT)(*a)
    I.cx.assume(z3.And(x >= 0, y >= 0))
    # the public point of a private value is on the curve
    I.cx.assume(z3.Implies(ok_pred(I, 'ec_priv', [c, d]), ok_pred(I, 'ec_point', [c, SInt(x), SInt(y)])))
    size = {'secp256r1': 32, 'secp384r1': 48, 'secp521r1': 66, 'secp256k1': 32}.get(c)
    if size:
        I.cx.assume(z3.And(fits_(x, z3.IntVal(size)), fits_(y, z3.IntVal(size))))
    return SInt(x), SInt(y)


from .ext import fits_


@model(ec.derive_private_key)
def _derive(I, private_value, curve, backend=None):
    c = curve_name(curve)
    v = refine(I, private_value)
    if not isint(v):
        I.throw(TypeError, 'private_value')
    may_fail(I, 'ec_priv', [c, v])
    return xobj(I, 'ec_sk', ec.EllipticCurvePrivateKey, [c, v], curve=c, curve_obj=curve, d=v)


@model(ec.generate_private_key)
def _ecgen(I, curve, backend=None):
    c = curve_name(curve)
    d = gen_random(I, 'ecgen_' + c, INT)
    I.cx.assume(d.t > 0)
    size = {'secp256r1': 32, 'secp384r1': 48, 'secp521r1': 66, 'secp256k1': 32}.get(c, 66)
    I.cx.assume(fits_(d.t, z3.IntVal(size)))
    I.cx.assume(ok_pred(I, 'ec_priv', [c, d]))
    return xobj(I, 'ec_sk', ec.EllipticCurvePrivateKey, [c, d], curve=c, curve_obj=curve, d=d)


@method('ec_sk', 'public_key')
def _ec_pk(I, o):
    x, y = ec_pub(I, o.curve, o.d)
    return xobj(I, 'ec_pk', ec.EllipticCurvePublicKey, [o.curve, x, y], curve=o.curve, curve_obj=o.curve_obj, x=x, y=y)


@method('ec_pk', 'public_numbers')
def _ec_nums(I, o):
    return xobj(I, 'ec_nums', ec.EllipticCurvePublicNumbers, [o.curve, o.x, o.y], curve=o.curve,
                attrs={'x': o.x, 'y': o.y, 'curve': o.curve_obj})


@method('ec_sk', 'private_numbers')
def _ec_pnums(I, o):
    n = _ec_nums(I, _ec_pk(I, o))
    return xobj(I, 'ec_pnums', ec.EllipticCurvePrivateNumbers, [o.curve, o.d], curve=o.curve,
                attrs={'private_value': o.d, 'public_numbers': n})


@model(ec.EllipticCurvePublicNumbers)
def _ecpn(I, x, y, curve):
    x, y = refine(I, x), refine(I, y)
    if not isint(x) or not isint(y):
        I.throw(TypeError, 'x and y must be integers')
    return xobj(I, 'ec_nums', ec.EllipticCurvePublicNumbers, [curve_name(curve), x, y], curve=curve_name(curve),
                attrs={'x': x, 'y': y, 'curve': curve})


@method('ec_nums', 'public_key')
def _nums_pk(I, o, backend=None):
    x, y = o.attrs['x'], o.attrs['y']
    may_fail(I, 'ec_point', [o.curve, x, y])
    return xobj(I, 'ec_pk', ec.EllipticCurvePublicKey, [o.curve, x, y], curve=o.curve, curve_obj=o.attrs['curve'], x=x, y=y)


def _from_encoded(I, curve, data):
    data = need_bytes(I, data)
    c = curve_name(curve)
    may_fail(I, 'ec_decompress', [c, data])
    v = vs_(I, [c, data])
    x, y = uf('ec_dec_x', V, V, INT)(*v), uf('ec_dec_y', V, V, INT)(*v)
    size = {'secp256r1': 32, 'secp384r1': 48, 'secp521r1': 66, 'secp256k1': 32}.get(c)
    I.cx.assume(z3.And(x >= 0, y >= 0))
    if size:
        I.cx.assume(z3.And(fits_(x, z3.IntVal(size)), fits_(y, z3.IntVal(size))))
    return xobj(I, 'ec_pk', ec.EllipticCurvePublicKey, [c, SInt(x), SInt(y)], curve=c, curve_obj=curve, x=SInt(x), y=SInt(y))


FUNC[ec.EllipticCurvePublicKey.from_encoded_point.__func__] = lambda I, cls, curve, data: _from_encoded(I, curve, data)


@model(P.ec_decompress)
def _p_dec(I, curve, data, size):
    data = need_bytes(I, data)
    may_fail(I, 'ec_decompress', [curve, data])
    v = vs_(I, [curve, data])
    x, y = uf('ec_dec_x', V, V, INT)(*v), uf('ec_dec_y', V, V, INT)(*v)
    I.cx.assume(z3.And(x >= 0, y >= 0, fits_(x, z3.IntVal(size)), fits_(y, z3.IntVal(size))))
    return (to_bytes(I, SInt(x), size), to_bytes(I, SInt(y), size))


@model(P.ec_public)
def _p_ecpub(I, curve, d, size):
    d = need_bytes(I, d)
    v = be_int(I, d)
    may_fail(I, 'ec_priv', [curve, v])
    x, y = ec_pub(I, curve, v)
    return (to_bytes(I, x, size), to_bytes(I, y, size), mk(ti(y) % 2 == 1))


@model(P.ec_generate)
def _p_ecgen(I, curve, size):
    o = _ecgen(I, P.EC_OBJ[curve]())
    x, y = ec_pub(I, curve, o.d)
    return (to_bytes(I, o.d, size), to_bytes(I, x, size), to_bytes(I, y, size))


@model(P.okp_generate)
def _p_okpgen(I, curve):
    d = gen_random(I, 'okpgen_' + curve)
    I.cx.assume(z3.Length(d.t) == OKPLEN[curve])
    return (d, okp_pub(I, curve, d))


@model(P.okp_public)
def _p_okppub(I, curve, d):
    d = need_bytes(I, d)
    may_fail(I, 'okp_priv', [curve, d])
    return okp_pub(I, curve, d)


@model(P.pem)
def _p_pem(I, key, password=None):
    """The text is opaque; loading it, with the password it was made with, gives the key back (law of the library)."""
    k = ('pem', len(I.cx.memo))
    t = PemText(key, password)
    I.cx.memo[k] = t
    return t


class PemText(str):
    def __new__(cls, key, password):
        return str.__new__(cls, f'-----{id(key)}-----')

    def __init__(self, key, password):
        self.key, self.password = key, password

    def encode(self, *a):
        return PemBytes(self)


class PemBytes(bytes):
    def __new__(cls, text):
        return bytes.__new__(cls, str(text), 'ascii')

    def __init__(self, text):
        self.key, self.password = text.key, text.password


@model(serialization.load_pem_private_key)
def _load_sk(I, data, password=None, backend=None, unsafe_skip_rsa_key_validation=False):
    if not isinstance(data, PemBytes):
        raise Unsupported('PEM')
    if isinstance(password, Sym):
        raise Unsupported('PEM password')
    if not data.key.pycls.__name__.endswith('PrivateKey') or password != data.password:
        I.throw(LibError, 'PEM')
    return data.key


@model(serialization.load_pem_public_key)
def _load_pk(I, data, backend=None):
    if not isinstance(data, PemBytes):
        raise Unsupported('PEM')
    if not data.key.pycls.__name__.endswith('PublicKey'):
        I.throw(LibError, 'PEM')
    return data.key


def ecdh_(I, curve, d, x, y):
    """ECDH, with the law that both parties have the same secret, for the agreements made on this path."""
    cx = I.cx
    r = b_op(I, 'ecdh', [curve, d, x, y], fails=False)
    log = cx.rand.setdefault('ecdh', [])
    v, (px, py) = None, ec_pub(I, curve, d)
    for c, d2, x2, y2, px2, py2, r2 in log:
        if c == curve:
            cx.assume(z3.Implies(z3.And(ti(x) == ti(px2), ti(y) == ti(py2), ti(x2) == ti(px), ti(y2) == ti(py)), r.t == r2.t))
    log.append((curve, d, x, y, px, py, r))
    return r


@method('ec_sk', 'exchange')
def _exchange(I, o, algorithm, peer):
    if not isinstance(algorithm, ec.ECDH):
        raise Unsupported('exchange')
    if o.curve != peer.curve:
        I.throw(LibError, 'curves differ')
    return ecdh_(I, o.curve, o.d, peer.x, peer.y)


@model(P.ecdh)
def _p_ecdh(I, curve, d, x, y):
    di, xi, yi = as_int(I, d), as_int(I, x), as_int(I, y)
    may_fail(I, 'ec_priv', [curve, di])
    may_fail(I, 'ec_point', [curve, xi, yi])
    return ecdh_(I, curve, di, xi, yi)


# ---- RSA -------------------------------------------------------------------------------------------------

RSAN = ('n', 'e', 'd', 'p', 'q', 'dmp1', 'dmq1', 'iqmp')


@model(rsa.RSAPublicNumbers)
def _rsapn(I, e, n):
    e, n = refine(I, e), refine(I, n)
    if not isint(e) or not isint(n):
        I.throw(TypeError, 'integers')
    return xobj(I, 'rsa_pn', rsa.RSAPublicNumbers, [n, e], attrs={'e': e, 'n': n})


@model(rsa.RSAPrivateNumbers)
def _rsan(I, p, q, d, dmp1, dmq1, iqmp, public_numbers):
    a = {'n': public_numbers.attrs['n'], 'e': public_numbers.attrs['e'], 'd': d, 'p': p, 'q': q, 'dmp1': dmp1,
         'dmq1': dmq1, 'iqmp': iqmp}
    return xobj(I, 'rsa_n', rsa.RSAPrivateNumbers, [a[k] for k in RSAN], nums=a,
                attrs=dict(d=d, p=p, q=q, dmp1=dmp1, dmq1=dmq1, iqmp=iqmp, public_numbers=public_numbers))


@method('rsa_pn', 'public_key')
def _rsapk(I, o, backend=None):
    vals = [o.attrs['n'], o.attrs['e']]
    may_fail(I, 'rsa_pub', vals)
    return xobj(I, 'rsa_pk', rsa.RSAPublicKey, vals, nums=vals)


@method('rsa_n', 'private_key')
def _rsask(I, o, backend=None, unsafe_skip_rsa_key_validation=False):
    vals = [o.nums[k] for k in RSAN]
    may_fail(I, 'rsa_priv', vals)
    return xobj(I, 'rsa_sk', rsa.RSAPrivateKey, vals, nums=vals)


def _h(h):
    return hash_name(h)


@method('rsa_sk', 'sign')
def _rsa_sign(I, o, data, padding, algorithm):
    data = need_bytes(I, data)
    return b_op(I, 'rsa_sign', [pad_name(padding), _h(algorithm), *o.nums, data])


@method('rsa_pk', 'verify')
def _rsa_verify(I, o, signature, data, padding, algorithm):
    data, signature = need_bytes(I, data, signature)
    vals = [pad_name(padding), _h(algorithm), *o.nums, data, signature]
    r = bool_op(I, 'rsa_verify', vals)
    if not I.cx.branch(r.t):
        I.throw(InvalidSignature)


def rsa_enc_(I, pad, nums, data):
    r = b_op(I, 'rsa_encrypt', [pad, *nums, data, gen_random(I, 'oaep')])
    I.cx.rand.setdefault('rsa', []).append((pad, nums[0], nums[1], data, r))
    return r


def rsa_dec_(I, pad, nums, data):
    """Decryption, with the law that it inverts encryption: a private key that could be loaded is consistent."""
    vals = [pad, *nums, data]
    v = vs_(I, vals)
    for p, n, e, plain, c in I.cx.rand.get('rsa', []):
        if p == pad:
            I.cx.assume(z3.Implies(z3.And(ti(n) == ti(nums[0]), ti(e) == ti(nums[1]), tb(c) == tb(data)),
                                   z3.And(ok_pred(I, 'rsa_decrypt', vals), uf('rsa_decrypt', *([V] * len(v)), BYTES)(*v) == tb(plain))))
    return b_op(I, 'rsa_decrypt', vals)


@method('rsa_pk', 'encrypt')
def _rsa_enc(I, o, plaintext, padding):
    data = need_bytes(I, plaintext)
    # OAEP is randomised: the ciphertext is some function of the arguments and of fresh randomness
    return rsa_enc_(I, pad_name(padding), o.nums, data)


@method('rsa_sk', 'decrypt')
def _rsa_dec(I, o, ciphertext, padding):
    data = need_bytes(I, ciphertext)
    return rsa_dec_(I, pad_name(padding), o.nums, data)


def _ints(I, bs):
    return [be_int(I, need_bytes(I, b)) for b in bs]


@model(P.rsa_sign)
def _p_rsa_sign(I, pad, hname, nums, data):
    data = need_bytes(I, data)
    v = _ints(I, nums)
    may_fail(I, 'rsa_priv', v)
    return b_op(I, 'rsa_sign', [pad, hname, *v, data])


@model(P.rsa_verify)
def _p_rsa_verify(I, pad, hname, n, e, data, sig):
    data, sig = need_bytes(I, data, sig)
    v = _ints(I, [n, e])
    may_fail(I, 'rsa_pub', v)
    return bool_op(I, 'rsa_verify', [pad, hname, *v, data, sig])


@model(P.rsa_encrypt)
def _p_rsa_encrypt(I, pad, n, e, data):
    data = need_bytes(I, data)
    v = _ints(I, [n, e])
    may_fail(I, 'rsa_pub', v)
    return rsa_enc_(I, pad, v, data)


@model(P.rsa_decrypt)
def _p_rsa_decrypt(I, pad, nums, data):
    data = need_bytes(I, data)
    v = _ints(I, nums)
    may_fail(I, 'rsa_priv', v)
    return rsa_dec_(I, pad, v, data)


@model(rsa.generate_private_key)
def _rsagen(I, public_exponent, key_size, backend=None):
    ks = refine(I, key_size)
    if not isint(ks):
        I.throw(TypeError, 'key_size')
    may_fail(I, 'rsa_gen', [public_exponent, ks])
    a = {k: gen_random(I, 'rsagen_' + k, INT) for k in RSAN}
    for k in RSAN:
        I.cx.assume(a[k].t > 1)
    a['e'] = public_exponent
    o = xobj(I, 'rsa_sk', rsa.RSAPrivateKey, [a[k] for k in RSAN], nums=[a[k] for k in RSAN])
    return o


@model(P.rsa_generate)
def _p_rsagen(I, bits):
    o = _rsagen(I, 65537, bits)
    return PList([_p_min(I, v) for v in o.nums])


@model(P.rsa_valid)
def _p_rsavalid(I, nums):
    nums = list(nums.items if isinstance(nums, PList) else nums)
    may_fail(I, 'rsa_pub' if len(nums) == 2 else 'rsa_priv', nums)


@method('rsa_sk', 'private_numbers')
def _rsask_nums(I, o):
    a = dict(zip(RSAN, o.nums))
    return _rsan(I, a['p'], a['q'], a['d'], a['dmp1'], a['dmq1'], a['iqmp'], _rsapn(I, a['e'], a['n']))


@method('rsa_sk', 'public_key')
def _rsask_pk(I, o):
    return xobj(I, 'rsa_pk', rsa.RSAPublicKey, o.nums[:2], nums=o.nums[:2])


@method('rsa_pk', 'public_numbers')
def _rsapk_nums(I, o):
    return _rsapn(I, o.nums[1], o.nums[0])


# ---- other primitives of the specifications --------------------------------------------------------------

@model(P.xor_pad)
def _p_xor(I, base, part):
    base, part = need_bytes(I, base, part)
    a, b = be_int(I, part), be_int(I, base)
    ln = length(I, base)
    return to_bytes(I, binop(I, 'BitXor', a, b), ln)


@model(P.min_bytes)
def _p_min(I, n):
    bl = sym_method(I, n, 'bit_length', [], {})
    ln = binop(I, 'FloorDiv', binop(I, 'Add', bl, 7), 8)
    return to_bytes(I, n, ln)


@model(CertificateValidator)
def _certval(I, end_entity_cert, intermediate_certs=None, validation_context=None):
    if validation_context is not None:
        raise Unsupported('validation context')
    return xobj(I, 'certval', CertificateValidator, [end_entity_cert, intermediate_certs],
                args=[end_entity_cert, intermediate_certs])


@method('certval', 'validate_usage')
def _validate(I, o, key_usage, extended_key_usage=None, extended_optional=False):
    vals = [*o.args, key_usage if isinstance(key_usage, PSet) else PSet(list(key_usage))]
    may_fail(I, 'certval', vals)
    return xobj(I, 'certpath', object, vals)


@model(P.cose_key)
def p_cose_key(I, d):
    from pycose.keys import CoseKey
    t = tov(I, d)
    if not I.cx.branch(uf('ok_cose_key', V, BOOL)(t)):
        I.throw(ValueError, 'no COSE key')
    return ExtObj(CoseKey, uf('cose_key', V, EXT)(t))


def plain(v):
    if isinstance(v, ops.SAny):
        return v.t.decl().name() in ('VInt', 'VBytes', 'VStr', 'VMap', 'VNone')
    return not isinstance(v, (list, PList))


@model(P.parse)
def p_parse(I, hdr, allow=True):
    from pycose import headers as H
    from specs.shapes import ALGS
    if isinstance(hdr, ops.SAny) and (hdr.t.get_id(), I.cx.phase) not in I.cx.refined and not I.cx.branch(V.is_VMap(hdr.t)):
        I.throw(AttributeError, 'items')
    hdr = ops.refine(I, hdr)
    if not isinstance(hdr, (SDict, dict)):
        I.throw(AttributeError, 'items')
    if isinstance(hdr, dict):
        hdr = SDict([('set', k, v) for k, v in hdr.items()])
    if not hdr.layers:
        return SDict()
    from specs import headers as HD
    if all(l[0] == 'set' and type(l[1]) in (int, str) and (plain(l[2]) or HD.label(l[1]) is not H.Algorithm) for l in hdr.layers):
        return I.call(HD.parse, [hdr, allow], {})
    if not truth(I, hdr):
        return SDict()
    t = ops.map_term(I, hdr)
    a = tbool(truthy(I, allow))
    if not I.cx.branch(uf('ok_header', MP, BOOL, BOOL)(t, a)):
        I.throw(ValueError, 'header')
    r = uf('header', MP, BOOL, MP)(t, a)
    I.cx.assume(msize(r) > 0)
    name = f'header({t},{a})'
    I.cx.touched.setdefault(name, [])
    return SDict([('base', r, {H.Algorithm: ('enum', ALGS)}, name)])


@model(P.validate_chain)
def _p_validate(I, first, rest, usage):
    vals = [first, rest, usage if isinstance(usage, PSet) else PSet(list(usage))]
    may_fail(I, 'certval', vals)
    return xobj(I, 'certpath', object, vals)
