"""Contracts of helper functions, used in place of their bodies when a caller is verified.

Each is proved in the check that uses it; if it cannot be proved, the body is executed symbolically instead."""
from pycose.keys import keyparam as KP
from pyvc.contract import Contract, State
from specs import algs as A
from specs import prims as P
from specs import registry as R
from specs import shapes as SH

CBC = SH.of_ids(R.CBCMAC)


def _shape_cbc(cx):
    return State(alg=cx.enum('alg', CBC), key=SH.plain_key(cx), data=cx.bytes('data'))


def _i_cbc(s):
    return s.alg.compute_tag(s.key, s.data)


def _s_cbc(s):
    return A.cbc_mac_def(s.key.store[KP.SymKpK], s.data, R.CBCMAC[s.alg.identifier][1])


def _m_cbc(cls, key, data):
    return P.cbc_mac(key.store[KP.SymKpK], data, R.CBCMAC[cls.identifier][1])


def aes_mac(soft=False):
    f = 'pycose.algorithms._AesMac.compute_tag'
    return Contract('_AesMac.compute_tag', _shape_cbc, _i_cbc, _s_cbc, funcs=[f], lemma=(f, _m_cbc), soft=soft)


# ---- header parsing --------------------------------------------------------------------------------------

NOLIST = ('kinds', ('none', 'bool', 'int', 'bytes', 'str', 'cls', 'map', 'tag', 'other'))


def _shape_parse(cx):
    from pycose import headers as H
    d = {h.identifier: NOLIST if h is H.Algorithm else 'any' for h in SH.HEADERS}
    d['__keys__'] = ('int',)
    return State(hdr=cx.dict('hdr', d), allow=cx.bool('allow'))


def _i_parse(s):
    from pycose.messages.cosebase import CoseBase
    return CoseBase._parse_header(s.hdr, s.allow)


def _s_parse(s):
    from specs import headers as HD
    return HD.parse(s.hdr, s.allow)


def _m_parse(cls, hdr, allow):
    return P.parse(hdr, allow)


def parse_header():
    f = 'pycose.messages.cosebase.CoseBase._parse_header'
    return Contract('_parse_header', _shape_parse, _i_parse, _s_parse, funcs=[f], lemma=(f, _m_parse), soft=True)


KEY_OF_DICT = ('pycose.keys.cosekey.CoseKey.from_dict', lambda cls, received: P.cose_key(received),
               'a function of the dictionary (verified in C16 and C17)')
PARSE_TEXT = ('the contract of _parse_header is proved here for integer labels and in C22 for labels of the other kinds; '
              'lists as algorithm values are excluded')
