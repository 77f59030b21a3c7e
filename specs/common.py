"""Specification functions shared by the properties (RFC 8152), over the state of a message object.

Written independently of the code: header maps are looked up by registered class, bytes are built with the primitives of
specs/prims.py."""
from pycose import algorithms as A
from pycose import headers as H
from pycose.exceptions import CoseException
from pycose.keys import keyops as KO
from pycose.keys import keyparam as KP
from pycose.keys import EC2Key, OKPKey, RSAKey, SymmetricKey
from specs import prims as P


class Refused(Exception):
    """The specification demands an exception."""


def header(m, h, default=None):
    """Header parameter from either bucket; in both is an error (RFC 8152 section 3)."""
    p = m._phdr.get(h)
    u = m._uhdr.get(h)
    if p is not None and u is not None:
        raise Refused('header parameter in both buckets')
    if p is not None:
        return p
    if u is not None:
        return u
    return default


def protected(m):
    """Protected header bytes as transmitted: as received, else the encoding of the map, zero-length when empty."""
    if m._phdr_encoded is not None:
        return m._phdr_encoded
    if len(m._phdr) == 0:
        return b''
    return P.cbor_hdr(m._phdr, m.alg_tstr_encoding)


def protected_auth(m):
    """Protected bytes inside the structures that are authenticated: zero-length when there are no parameters."""
    if len(m._phdr) == 0:
        return b''
    return protected(m)


def nonce(m):
    iv = header(m, H.IV)
    if iv is not None:
        return iv
    base = m._key.store[KP.KpBaseIV] if KP.KpBaseIV in m._key.store else b''
    if base == b'':
        raise Refused('no IV')
    part = header(m, H.PartialIV)
    if part is None:
        raise Refused('no partial IV')
    if len(part) > len(base):
        raise Refused('partial IV too long')
    return P.xor_pad(base, part)


def check_key(k, kinds, alg, ops):
    """Key policy of RFC 8152 sections 7 and 8: present, of an admitted type, same algorithm, an admitted operation."""
    if k is None:
        raise Refused('no key')
    if not isinstance(k, kinds):
        raise Refused('key type')
    if KP.KpAlg in k.store and k.store[KP.KpAlg] is not None:
        if k.store[KP.KpAlg].identifier != alg.identifier:
            raise Refused('key is for another algorithm')
    if KP.KpKeyOps in k.store:
        kops = k.store[KP.KpKeyOps]
        if len(kops) > 0:
            found = False
            for o in ops:
                if o in kops:
                    found = True
            if not found:
                raise Refused('operation not allowed')


def enc_structure(context, m):
    return P.cbor([context, protected_auth(m), m._external_aad])


def mac_structure(context, m):
    if m._payload is None:
        raise Refused('no payload')
    return P.cbor([context, protected_auth(m), m._external_aad, m._payload])


def signed_payload(embedded, detached):
    if embedded is None and detached is None:
        raise Refused('nothing to sign')
    if embedded is not None and detached is not None:
        raise Refused('embedded and detached payload')
    return detached if embedded is None else embedded


def sig_structure1(m, detached):
    return P.cbor(['Signature1', protected_auth(m), m._external_aad, signed_payload(m._payload, detached)])


def sig_structure(signer, parent, detached):
    return P.cbor(['Signature', protected_auth(parent), protected_auth(signer), signer._external_aad,
                   signed_payload(parent._payload, detached)])
