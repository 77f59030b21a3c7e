"""Header parameters: labels and values (RFC 8152 section 3.1), independent of the code."""
from pycose import headers as H
from specs import common as S
from specs import prims as P
from specs import registry as R
from specs import shapes as SH

BY_ID = {c.identifier: c for c in SH.HEADERS}
BY_NAME = {c.fullname: c for c in SH.HEADERS}
ALG_BY_ID = {c.identifier: c for c in SH.ALGS}
ALG_BY_NAME = {c.fullname: c for c in SH.ALGS}
BSTR = (H.KID, H.IV, H.PartialIV, H.CounterSignature0, H.KIDContext)


def label(k):
    """The registered parameter a label stands for; other labels stand for themselves."""
    if isinstance(k, int):
        return BY_ID[k] if k in BY_ID else k
    if isinstance(k, str):
        return BY_NAME[k.upper()] if k.upper() in BY_NAME else k
    if isinstance(k, type) and hasattr(k, 'identifier') and k.identifier in BY_ID:
        return BY_ID[k.identifier]
    return k


def algorithm(v):
    if isinstance(v, int):
        if v in ALG_BY_ID:
            return ALG_BY_ID[v]
    elif isinstance(v, str):
        if v.upper() in ALG_BY_NAME:
            return ALG_BY_NAME[v.upper()]
    elif isinstance(v, list):
        return [algorithm(x) for x in v]
    elif isinstance(v, type) and hasattr(v, 'identifier') and v.identifier in ALG_BY_ID:
        return ALG_BY_ID[v.identifier]
    raise S.Refused('no algorithm')


def value(h, v):
    """The value as kept; an exception if it does not have the type of the parameter."""
    if h in BSTR:
        if not isinstance(v, bytes):
            raise S.Refused('byte string')
    elif h is H.Critical:
        if not isinstance(v, list) or len(v) == 0 or not all([isinstance(x, (int, str)) for x in v]):
            raise S.Refused('crit')
    elif h is H.ContentType:
        if not isinstance(v, (int, str)) or (isinstance(v, int) and v < 0):
            raise S.Refused('content type')
    elif h is H.Algorithm:
        return algorithm(v)
    elif h is H.EphemeralKey or h is H.StaticKey:
        return P.cose_key(v)
    return v


def known(k):
    h = label(k)
    if not (isinstance(h, type) and hasattr(h, 'identifier') and h.identifier in BY_ID):
        raise S.Refused('unknown label')
    return h


def parse(hdr, allow=True):
    out = {}
    for k, v in hdr.items():
        h = label(k) if allow else known(k)
        out[h] = value(h, v)
    return out
