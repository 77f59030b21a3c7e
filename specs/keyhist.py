"""Random keys and histories on keys, through the public interface."""
import copy

import cbor2

from pycose.keys import CoseKey
from pycose.keys import keyparam as KP
from pycose.keys import keyops as KO
from pycose.keys import curves as CU
from pyvc.contract import State, Violation
from pyvc.native import rand_any
from specs import keys as K
from specs import pool
from specs import registry as R
from specs import shapes as SH
from specs.c18 import CLASS, REGS

CURVES = {'EC2': (CU.P256, CU.P384, CU.P521, CU.SECP256K1), 'OKP': (CU.Ed25519, CU.Ed448, CU.X25519, CU.X448)}
OPS = {'symmetric': (KO.MacCreateOp, KO.MacVerifyOp, KO.EncryptOp, KO.DecryptOp, KO.UnwrapOp, KO.WrapOp)}
SIGN_OPS = (KO.SignOp, KO.VerifyOp, KO.DeriveKeyOp, KO.DeriveBitsOp)


def byts(r, lo=0, hi=20):
    return bytes(r.choice((0, r.randrange(256))) for _ in range(r.randint(lo, hi)))


def material(r, t):
    """Key material of a valid key."""
    if t == 'symmetric':
        n = r.choice((16, 24, 32))
        return {KP.SymKpK: byts(r, n, n)}
    if t == 'RSA':
        v = dict(pool.rsa(r.choice([0, 1])))
        form = r.choice(['public', 'two', 'two', 'many'])
        if form == 'public':
            return {p: v[p] for p in (KP.RSAKpN, KP.RSAKpE)}
        v = {p: v[p] for p in K.MATERIAL['RSA'][:8]}
        if form == 'many':
            v[KP.RSAKpOther] = [{-10: byts(r, 1), -11: byts(r, 1), -12: byts(r, 1)}]
            for p in (KP.RSAKpRi, KP.RSAKpDi, KP.RSAKpTi):
                v[p] = byts(r, 1)
        return v
    c = r.choice(CURVES[t])
    x, y, d = pool.pair(c, r.randrange(pool.SIZE))
    if t == 'EC2':
        out = {KP.EC2KpCurve: c, KP.EC2KpX: x, KP.EC2KpY: y}
        if r.random() < .6:
            out[KP.EC2KpD] = d
        return out
    form = r.choice(['xd', 'x', 'd'])
    out = {KP.OKPKpCurve: c}
    if 'x' in form:
        out[KP.OKPKpX] = x
    if 'd' in form:
        out[KP.OKPKpD] = d
    return out


def unknown(r):
    return r.choice([-70000, 99, 2 ** 40, 'subject', 'x-label', 'Kty', -100, b'raw'])


def plain(r):
    return r.choice([None, True, 7, -7, 'text', b'bytes', [1, 'a', b'c'], {1: 2, 'k': [b'v']}, 1.5, 2 ** 70, [], {}])


def optional(r, t):
    out = {}
    if r.random() < .5:
        out[KP.KpKid] = byts(r)
    if r.random() < .5:
        out[KP.KpAlg] = r.choice(SH.ALGS)
    if r.random() < .5:
        out[KP.KpKeyOps] = [r.choice(SH.KEYOPS) for _ in range(r.randint(1, 4))]
    if r.random() < .4:
        out[KP.KpBaseIV] = byts(r)
    for _ in range(r.choice([0, 0, 1, 3])):
        u = unknown(r)
        if u != 'Kty':
            out[u] = plain(r)
    items = list(out.items())
    r.shuffle(items)
    return dict(items)


def spell(r, c):
    """A registered value by class, integer or name."""
    return r.choice([c, c.identifier, c.fullname, c.fullname.lower()])


def spelled(r, t, params, exact=True, how=None):
    """The parameters with labels and values in other spellings."""
    out = {}
    for p, v in params.items():
        if isinstance(p, type):
            lab = r.choice([p, p.identifier, p.fullname]) if how is None else how(p)
        else:
            lab = p
        if p is KP.KpKty:
            v = r.choice([v, v.identifier, v.fullname])
        elif p is KP.KpAlg or p in (KP.EC2KpCurve, KP.OKPKpCurve):
            v = spell(r, v)
        elif p is KP.KpKeyOps:
            v = [spell(r, o) for o in v]
        out[lab] = copy.deepcopy(v)
    return out


def build(r, t, mat, opt):
    """A key by its constructor."""
    attr = {'symmetric': {KP.SymKpK: 'k'}, 'RSA': {p: n for n, p in K.RSA_BY_NAME.items()},
            'OKP': {KP.OKPKpCurve: 'crv', KP.OKPKpX: 'x', KP.OKPKpD: 'd'},
            'EC2': {KP.EC2KpCurve: 'crv', KP.EC2KpX: 'x', KP.EC2KpY: 'y', KP.EC2KpD: 'd'}}[t]
    return K.CLS[t](**{attr[p]: copy.deepcopy(v) for p, v in mat.items()}, optional_params=spelled(r, t, opt) if opt else None)


def stored(t, mat, opt):
    out = {KP.KpKty: K.KTY[t]}
    out.update(opt)
    out.update(mat)
    return out


def strict(x):
    """A form in which True and 1, and lists and tuples, differ."""
    if isinstance(x, dict):
        return 'map', sorted((repr(strict(k)), repr(strict(v))) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return type(x).__name__, [strict(v) for v in x]
    return type(x).__name__, x


def same(a, b, text):
    if strict(a) != strict(b):
        raise Violation(f'{text}: {a!r} instead of {b!r}')


def attempt(f, *a):
    try:
        return f(*a), None
    except Violation:
        raise
    except Exception as e:
        return None, e
