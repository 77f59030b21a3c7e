"""C05: MAC tags are exactly the named MAC and are compared in full."""
from pycose import headers as H
from pycose.messages import Mac0Message, MacMessage
from pyvc.contract import Contract, State
from specs import algs as A
from specs import common as S
from specs import lemmas as L
from specs import shapes as SH
from specs.c02 import direct
from specs import hist


def shape0(cx):
    alg = cx.enum('alg', SH.MACS)
    m = SH.msg(cx, Mac0Message, 'm', payload='bytes', enc=None, key=SH.plain_key(cx),
               ph=cx.dict('m.phdr', {H.Algorithm: 'absent'}), uh=cx.pydict([(H.Algorithm, alg)]),
               auth_tag=cx.bytes('m.auth_tag'))
    return State(m=m, alg=alg)


def shape1(cx):
    alg = cx.enum('alg', SH.MACS)
    m = SH.msg(cx, MacMessage, 'm', payload='bytes', enc=None, key=SH.plain_key(cx),
               ph=cx.dict('m.phdr', {H.Algorithm: 'absent'}), uh=cx.pydict([(H.Algorithm, alg)]),
               auth_tag=cx.bytes('m.auth_tag'), _recipients=cx.lst([direct(cx)]))
    return State(m=m, alg=alg)


def compute(s):
    return s.m.compute_tag(), s.m.auth_tag


def verify(s):
    return s.m.verify_tag()


def tag(s, context):
    return A.mac(s.alg, s.m._key.store[S.KP.SymKpK], S.mac_structure(context, s.m))


def spec_compute0(s):
    t = tag(s, 'MAC0')
    return t, t


def spec_compute1(s):
    t = tag(s, 'MAC')
    return t, t


def spec_verify0(s):
    return tag(s, 'MAC0') == s.m.auth_tag


def spec_verify1(s):
    return tag(s, 'MAC') == s.m.auth_tag


# the genuine tag is accepted

def own_tag(s):
    s.m.compute_tag()
    return s.m.verify_tag()


def spec_own_tag(s):
    tag(s, 'MAC0')
    return True


C = 'pycose.messages.maccommon.MacCommon.'
G = 'pycose.algorithms.'
FC = [C + 'compute_tag', G + '_HMAC.compute_tag', G + '_AesMac.compute_tag']
FV = [C + 'verify_tag', G + '_HMAC.verify_tag', G + '_AesMac.verify_tag']
CONTRACTS = [
    L.aes_mac(),
    Contract('Mac0Message.compute_tag for every algorithm', shape0, compute, spec_compute0, funcs=FC, watch=False),
    Contract('Mac0Message.verify_tag for every algorithm', shape0, verify, spec_verify0, funcs=FV, watch=False),
    Contract('MacMessage.compute_tag for every algorithm', shape1, compute, spec_compute1, funcs=FC, watch=False),
    Contract('MacMessage.verify_tag for every algorithm', shape1, verify, spec_verify1, funcs=FV, watch=False),
    Contract('Mac0Message.verify_tag of its own tag', shape0, own_tag, spec_own_tag, funcs=FC + FV, watch=False),
]
HISTORIES = hist.of('mac0', tries=400)
