"""COSE keys (RFC 8152 sections 7 and 13, RFC 8230): construction, parameters, validity; independent of the code."""
from pycose.keys import keyparam as KP
from pycose.keys.keytype import KtyEC2, KtyOKP, KtyRSA, KtySymmetric
from pycose.keys import EC2Key, OKPKey, RSAKey, SymmetricKey
from specs import prims as P
from specs import registry as R
from specs.c18 import lookup
from specs.common import Refused

REG = {'EC2': 'EC2 key parameters', 'OKP': 'OKP key parameters', 'RSA': 'RSA key parameters', 'symmetric': 'symmetric key parameters'}
KTY = {'EC2': KtyEC2, 'OKP': KtyOKP, 'RSA': KtyRSA, 'symmetric': KtySymmetric}
CLS = {'EC2': EC2Key, 'OKP': OKPKey, 'RSA': RSAKey, 'symmetric': SymmetricKey}
MATERIAL = {'EC2': (KP.EC2KpCurve, KP.EC2KpX, KP.EC2KpY, KP.EC2KpD), 'OKP': (KP.OKPKpCurve, KP.OKPKpX, KP.OKPKpD),
            'RSA': (KP.RSAKpN, KP.RSAKpE, KP.RSAKpD, KP.RSAKpP, KP.RSAKpQ, KP.RSAKpDP, KP.RSAKpDQ, KP.RSAKpQInv,
                    KP.RSAKpOther, KP.RSAKpRi, KP.RSAKpDi, KP.RSAKpTi), 'symmetric': (KP.SymKpK,)}
COMMON = (KP.KpKid, KP.KpAlg, KP.KpKeyOps, KP.KpBaseIV)


def kind_of(key):
    for t, c in CLS.items():
        if isinstance(key, c):
            return t
    raise Refused('not a key')


def value(p, v):
    """The value of a parameter as kept."""
    if p is KP.KpKty:
        return lookup('key types', v, False)
    if p is KP.KpAlg:
        return lookup('algorithms', v, False)
    if p is KP.KpKeyOps:
        return lookup('key operations', v, False)
    return v


def params(t, optional, allow=True):
    """The parameters other than the key material."""
    out = {KP.KpKty: KTY[t]}
    if optional is not None:
        for label, v in optional.items():
            p = lookup(REG[t], label, allow)
            need(p not in MATERIAL[t], 'key material')
            out[p] = value(p, v)
    if out[KP.KpKty] is not KTY[t]:
        raise Refused('key type')
    if KP.KpKeyOps in out:
        if len(out[KP.KpKeyOps]) == 0:
            del out[KP.KpKeyOps]
    return out


def is_bytes(v):
    return isinstance(v, bytes)


def need(cond, what=''):
    if not cond:
        raise Refused(what)


def symmetric(k):
    need(is_bytes(k) and len(k) in (16, 24, 32), 'k')
    return {KP.SymKpK: k}


def curve(crv, kty):
    c = lookup('curves', crv, False)
    need(isinstance(c, type) and c.identifier in R.CURVE and R.CURVE[c.identifier][0] == kty, 'curve')
    return c


def okp(crv, x, d):
    c = curve(crv, 1)
    need(is_bytes(x) and is_bytes(d) and (x != b'' or d != b''), 'values')
    out = {KP.OKPKpCurve: c}
    if x != b'':
        out[KP.OKPKpX] = x
    if d != b'':
        out[KP.OKPKpD] = d
    return out


def ec2(crv, x, y, d):
    """y may be the sign bit; missing (empty) public coordinates are computed."""
    c = curve(crv, 2)
    _, size, name = R.CURVE[c.identifier]
    need(is_bytes(d), 'd')
    if d != b'':
        px, py, odd = P.ec_public(name, d, size)
        need(not x or is_bytes(x) and x == px, 'x')
        if isinstance(y, bool):
            need(y == odd, 'sign')
        else:
            need(not y or is_bytes(y) and y == py, 'y')
        return {KP.EC2KpCurve: c, KP.EC2KpX: px, KP.EC2KpY: py, KP.EC2KpD: d}
    need(is_bytes(x) and x != b'', 'x')
    if isinstance(y, bool) or not y:
        even = isinstance(y, bool) and not y
        px, y = P.ec_decompress(name, (b'\x02' if even else b'\x03') + x, size)
        need(px == x, 'x')
    need(is_bytes(y), 'y')
    return {KP.EC2KpCurve: c, KP.EC2KpX: x, KP.EC2KpY: y}


RSA_NAMES = ('n', 'e', 'd', 'p', 'q', 'dp', 'dq', 'qinv', 'other', 'r_i', 'd_i', 't_i')
RSA_BY_NAME = dict(zip(RSA_NAMES, MATERIAL['RSA']))


def filled(vals, n):
    return n in vals and vals[n] is not None and len(vals[n]) != 0


def every(vals, names):
    for n in names:
        if not filled(vals, n):
            return False
    return True


def rsa(vals):
    """vals: name -> value, those given."""
    for n, v in vals.items():
        need(not v or isinstance(v, list) if n == 'other' else is_bytes(v), n)
    need(filled(vals, 'n') and filled(vals, 'e'), 'public')
    given = ['n', 'e']
    if filled(vals, 'd'):
        need(every(vals, RSA_NAMES[3:8]), 'two primes')
        given += list(RSA_NAMES[2:8])
    if filled(vals, 'other'):
        need('d' in given and every(vals, RSA_NAMES[9:]), 'more primes')
        given += list(RSA_NAMES[8:])
    for n in RSA_NAMES:
        need(n in given or not filled(vals, n), 'incomplete')
    return {RSA_BY_NAME[n]: vals[n] for n in given}


def joined(a, b):
    out = dict(a)
    out.update(b)
    return out
