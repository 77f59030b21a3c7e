"""Shapes: arbitrary states of the objects of /repo, built the same way symbolically and natively.

Objects are made by their own constructors (or, for keys, filled directly) and their state attributes are then given
arbitrary values.  If an attribute does not exist in the code, the shape does not match (ShapeMismatch) and the
contract is not decided by proof."""
from pycose import algorithms as A
from pycose import headers as H
from pycose.keys import keyops as KO
from pycose.keys import curves as CU
from pycose.keys import keyparam as KP
from pycose.keys.keytype import KtyEC2, KtyOKP, KtyRSA, KtySymmetric
from pycose.keys import EC2Key, OKPKey, RSAKey, SymmetricKey
from pycose.keys.cosekey import CoseKey
from pyvc.contract import ShapeMismatch, State

__all__ = ['State']

KNOWN = {'_phdr', '_phdr_encoded', '_uhdr', '_payload', '_local_attrs', 'alg_tstr_encoding', '_external_aad', '_key',
         '_signature', 'auth_tag', '_recipients', '_signers', '_context', 'store', 'algorithm', 'hash', 'certificate',
         'certificates', 'certs', 'cert', 'alg', 'hash_value', '_hash', '_alg', '_certs', '_cert', '_certificates'}
CLOSED = ('pycose.messages', 'pycose.keys')


def known_attrs(x):
    from pyvc.ops import attr_names
    if type(x).__module__.startswith(CLOSED) and not type(x).__module__.endswith('.context'):
        return [n for n in attr_names(x) if n in KNOWN]
    return attr_names(x)


def put(obj, **kw):
    for n, v in kw.items():
        if n not in obj.__dict__:
            raise ShapeMismatch(f'{type(obj).__name__} has no attribute {n}')
        object.__setattr__(obj, n, v)
    return obj


def registered(reg):
    out = []
    for c in reg.get_registered_classes().values():
        if c not in out:
            out.append(c)
    return out


KEYOPS = registered(KO.KeyOps)
ALGS = registered(A.CoseAlgorithm)
HEADERS = registered(H.CoseHeaderAttribute)

# ---- keys ------------------------------------------------------------------------------------------------

MATERIAL = [KP.EC2KpCurve, KP.EC2KpX, KP.EC2KpY, KP.EC2KpD, KP.OKPKpCurve, KP.OKPKpX, KP.OKPKpD, KP.RSAKpN, KP.RSAKpE,
            KP.RSAKpD, KP.RSAKpP, KP.RSAKpQ, KP.RSAKpDP, KP.RSAKpDQ, KP.RSAKpQInv, KP.RSAKpOther, KP.RSAKpRi,
            KP.RSAKpDi, KP.RSAKpTi, KP.SymKpK]

COMMON = {KP.KpAlg: ('enum', ALGS), KP.KpKeyOps: ('oplist', KEYOPS), KP.KpKid: 'bytes', KP.KpBaseIV: 'bytes'}


def store(cx, name, fixed, schema=None, limit=None):
    """Key store: the type and key material fixed (to arbitrary values), everything else arbitrary."""
    sch = dict(COMMON if schema is None else schema)
    have = [k for k, v in fixed]
    for p in MATERIAL:
        if p not in have:
            sch.setdefault(p, 'absent')
    d = cx.dict(name, sch, extra=True)
    for k, v in fixed:
        if cx.symbolic:
            from pyvc import ops
            d.layers.append(('set', k, v))
        else:
            d[k] = v
    return d


def blank(cls, st):
    k = object.__new__(cls)
    k.store = st
    return k


def sym_key(cx, name, lens=(16, 24, 32), schema=None):
    probe = SymmetricKey(k=bytes(16))
    if list(probe.__dict__) != ['store']:
        raise ShapeMismatch('state of SymmetricKey')
    k = cx.bytes(name + '.k', lens=lens)
    return blank(SymmetricKey, store(cx, name + '.store', [(KP.KpKty, KtySymmetric), (KP.SymKpK, k)], schema))


def pool_key(cx, name, curves):
    """Native runs: a real key pair for one of the curves."""
    from specs import pool
    crv = cx.enum(name + '.crv', curves)
    i = cx.choice(name + '.pool', list(range(pool.SIZE)))
    return crv, pool.pair(crv, i)


def ec2_key(cx, name, curves=(CU.P256, CU.P384, CU.P521, CU.SECP256K1), private=None, public=None, schema=None):
    if cx.symbolic:
        crv = cx.enum(name + '.crv', curves)
        x, y, d = cx.bytes(name + '.x'), cx.bytes(name + '.y'), cx.bytes(name + '.d')
    else:
        crv, (x, y, d) = pool_key(cx, name, curves)
    has_d = cx.choice(name + '.has_d', [True, False]) if private is None else private
    fixed = [(KP.KpKty, KtyEC2), (KP.EC2KpCurve, crv), (KP.EC2KpX, x), (KP.EC2KpY, y)]
    if has_d:
        fixed.append((KP.EC2KpD, d))
    return blank(EC2Key, store(cx, name + '.store', fixed, schema))


SIZES = {CU.P256: 32, CU.P384: 48, CU.P521: 66, CU.SECP256K1: 32}


def ec2_pair(cx, name, crv, schema=None):
    """A private key with its matching public point, and the public key alone."""
    if cx.symbolic:
        import types
        from pyvc import ext, extlib
        from pyvc.ops import ti
        I = types.SimpleNamespace(cx=cx)
        x, y, d = cx.bytes(name + '.x', lens=(SIZES[crv],)), cx.bytes(name + '.y', lens=(SIZES[crv],)), cx.bytes(name + '.d', minlen=1)
        curve, n = R.CURVE[crv.identifier][2], ext.be_int(I, d)
        cx.assume(ext.ok_pred(I, 'ec_priv', [curve, n]))
        px, py = extlib.ec_pub(I, curve, n)
        cx.assume(ti(ext.be_int(I, x)) == ti(px))
        cx.assume(ti(ext.be_int(I, y)) == ti(py))
    else:
        from specs import pool
        x, y, d = pool.pair(crv, cx.choice(name + '.pool', list(range(pool.SIZE))))
    fixed = [(KP.KpKty, KtyEC2), (KP.EC2KpCurve, crv), (KP.EC2KpX, x), (KP.EC2KpY, y)]
    return (blank(EC2Key, store(cx, name + '.store', fixed + [(KP.EC2KpD, d)], schema)),
            blank(EC2Key, store(cx, name + '.pub', fixed, schema)))


def okp_key(cx, name, curves=(CU.Ed25519, CU.Ed448, CU.X25519, CU.X448), private=None, schema=None):
    if cx.symbolic:
        crv = cx.enum(name + '.crv', curves)
        x, d = cx.bytes(name + '.x'), cx.bytes(name + '.d')
    else:
        crv, (x, _, d) = pool_key(cx, name, curves)
    form = cx.choice(name + '.form', ['xd', 'x', 'd']) if private is None else ('xd' if private else 'x')
    fixed = [(KP.KpKty, KtyOKP), (KP.OKPKpCurve, crv)]
    if 'x' in form:
        fixed.append((KP.OKPKpX, x))
    if 'd' in form:
        fixed.append((KP.OKPKpD, d))
    return blank(OKPKey, store(cx, name + '.store', fixed, schema))


RSA_PRIV = (KP.RSAKpD, KP.RSAKpP, KP.RSAKpQ, KP.RSAKpDP, KP.RSAKpDQ, KP.RSAKpQInv)


def rsa_key(cx, name, private=None, schema=None):
    has_d = cx.choice(name + '.has_d', [True, False]) if private is None else private
    if cx.symbolic:
        vals = {p: cx.bytes(f'{name}.{p.__name__}') for p in (KP.RSAKpN, KP.RSAKpE) + RSA_PRIV}
    else:
        from specs import pool
        vals = pool.rsa(cx.choice(name + '.pool', [0, 1]))
    fixed = [(KP.KpKty, KtyRSA), (KP.RSAKpN, vals[KP.RSAKpN]), (KP.RSAKpE, vals[KP.RSAKpE])]
    if has_d:
        fixed += [(p, vals[p]) for p in RSA_PRIV]
    return blank(RSAKey, store(cx, name + '.store', fixed, schema))


# ---- messages --------------------------------------------------------------------------------------------

def hdr(cx, name, algs=None, schema=None):
    s = {H.Algorithm: ('enum', tuple(algs)) if algs else 'any', H.KID: 'any', H.IV: 'any', H.PartialIV: 'any'}
    s.update(schema or {})
    return cx.dict(name, s)


def opt(cx, name, mk):
    return mk() if cx.choice(name, [True, False]) else None


def received(cx, pe, ph):
    """Received protected bytes are zero-length only when there are no protected parameters."""
    if pe is None:
        return None
    if cx.symbolic:
        import z3
        from pyvc import ops
        from pyvc.terms import V, BYTES
        n = ops.has_items(ph)
        cx.assume(z3.Implies(pe.t == V.VBytes(z3.Empty(BYTES)), z3.Not(n)))
    elif pe == b'' and len(ph):
        return b'\xa1\x01\x01'
    return pe


def msg(cx, cls, name, algs=None, schema=None, payload='opt', key=None, enc='opt', ph=None, uh=None, **kw):
    """A message object in an arbitrary state: header buckets, received protected bytes, payload, external data, key."""
    m = cls()
    ph = hdr(cx, name + '.phdr', algs, schema) if ph is None else ph
    uh = hdr(cx, name + '.uhdr', algs, schema) if uh is None else uh
    pe = cx.any(name + '.phdr_encoded', ('none', 'bytes')) if enc == 'opt' else None
    pe = received(cx, pe, ph)
    pl = None
    if payload == 'opt':
        pl = cx.any(name + '.payload', ('none', 'bytes'))
    elif payload == 'bytes':
        pl = cx.bytes(name + '.payload')
    put(m, _phdr=ph, _uhdr=uh, _phdr_encoded=pe, _payload=pl, _external_aad=cx.bytes(name + '.external_aad'),
        _key=key, alg_tstr_encoding=cx.bool(name + '.tstr'))
    put(m, **kw)
    return m


# ---- fixtures of the message contracts -------------------------------------------------------------------

def of_ids(ids):
    out = []
    for i in ids:
        for c in ALGS:
            if c.identifier == i:
                out.append(c)
    return tuple(out)


from specs import registry as R                     # noqa: E402
AEADS = of_ids(list(R.GCM) + list(R.CCM))
MACS = of_ids(list(R.HMAC) + list(R.CBCMAC))
SIGS = of_ids(list(R.ECDSA) + list(R.EDDSA) + list(R.RSA_SIG))
KWS = of_ids(R.KW)
ECDHS = of_ids(R.ECDH)


def plain_key(cx, name='key', lens=(16, 24, 32)):
    """A symmetric key without policy attributes (identification aside)."""
    return sym_key(cx, name, lens=lens, schema={KP.KpAlg: 'absent', KP.KpKeyOps: 'absent', KP.KpBaseIV: 'absent',
                                                KP.KpKid: 'bytes'})


PLAIN = {KP.KpAlg: 'absent', KP.KpKeyOps: 'absent', KP.KpBaseIV: 'bytes', KP.KpKid: 'bytes'}
SIGKINDS = {-7: 'EC2', -35: 'EC2', -36: 'EC2', -8: 'OKP', -37: 'RSA', -38: 'RSA', -39: 'RSA', -257: 'RSA', -258: 'RSA',
            -259: 'RSA', -65535: 'RSA'}


def sig_pair(cx, name, ids, private=True):
    """A signature algorithm and a key that fits it, without policy attributes."""
    i = cx.choice(name + '.alg', list(ids))
    alg = of_ids([i])[0]
    if SIGKINDS[i] == 'EC2':
        crv = {-7: CU.P256, -35: CU.P384, -36: CU.P521}[i]
        return alg, ec2_key(cx, name, (crv,), private, schema=PLAIN)
    if SIGKINDS[i] == 'OKP':
        return alg, okp_key(cx, name, (CU.Ed25519, CU.Ed448), private, schema=PLAIN)
    return alg, rsa_key(cx, name, private, schema=PLAIN)
