"""C02: the bytes that are MACed."""
from pycose import headers as H
from pycose.messages import Mac0Message, MacMessage
from pycose.messages.recipient import DirectEncryption
from pyvc.contract import Contract, State
from specs import algs as A
from specs import lemmas as L
from specs import common as S
from specs import shapes as SH
from specs import hist

ALGS = SH.of_ids([5, 7, 14, 26])
PH, UH = {H.Algorithm: ('has', ('enum', ALGS))}, {H.Algorithm: 'absent'}


def message(cx, cls, algs=ALGS, **kw):
    ph, uh = {H.Algorithm: ('has', ('enum', algs))}, {H.Algorithm: 'absent'}
    if cx.choice('algorithm in', ['protected', 'unprotected']) == 'unprotected':
        ph, uh = uh, ph
    return SH.msg(cx, cls, 'm', key=SH.plain_key(cx), ph=cx.dict('m.phdr', ph), uh=cx.dict('m.uhdr', uh),
                  auth_tag=cx.bytes('m.auth_tag'), **kw)


def direct(cx):
    return SH.put(DirectEncryption(), _uhdr=cx.pydict([(H.Algorithm, SH.of_ids([-6])[0])]), _payload=b'')


def shape0(cx):
    return State(m=message(cx, Mac0Message))


def shape1(cx):
    n = cx.choice('recipients', [1, 2])
    return State(m=message(cx, MacMessage, _recipients=cx.lst([direct(cx) for i in range(n)])))


def tag(m, context):
    return A.mac(S.header(m, H.Algorithm), m._key.store[S.KP.SymKpK], S.mac_structure(context, m))


def compute(s):
    return s.m.compute_tag()


def verify(s):
    return s.m.verify_tag()


def spec_compute0(s):
    return tag(s.m, 'MAC0')


def spec_verify0(s):
    return tag(s.m, 'MAC0') == s.m.auth_tag


def spec_compute1(s):
    return tag(s.m, 'MAC')


def spec_verify1(s):
    return tag(s.m, 'MAC') == s.m.auth_tag


# ---- earlier calls have no influence -------------------------------------------------------------------

def shape2(cx):
    m = message(cx, Mac0Message, ALGS[:1])
    return State(m=m, first=cx.choice('first', ['compute', 'verify']), p2=cx.any('payload2', ('none', 'bytes')),
                 x2=cx.bytes('aad2'), h2=cx.dict('phdr2', {H.Algorithm: 'absent'}),
                 how=cx.choice('then', ['phdr=', 'phdr_update', 'nothing']))


def again(s):
    try:
        if s.first == 'compute':
            s.m.compute_tag()
        else:
            s.m.verify_tag()
    except Exception:
        pass
    s.m.payload = s.p2
    s.m.external_aad = s.x2
    if s.how == 'phdr=':
        s.m.phdr = s.h2
        s.m.uhdr = {H.Algorithm: ALGS[0]}
    elif s.how == 'phdr_update':
        s.m.phdr_update({H.KID: b'x'})
    return s.m.compute_tag()


def spec_again(s):
    s.m._payload = s.p2
    s.m._external_aad = s.x2
    if s.how == 'phdr=':
        s.m._phdr = s.h2
        s.m._phdr_encoded = None
    elif s.how == 'phdr_update':
        s.m._phdr[H.KID] = b'x'
        s.m._phdr_encoded = None
    return A.mac(ALGS[0], s.m._key.store[S.KP.SymKpK], S.mac_structure('MAC0', s.m))


C = 'pycose.messages.maccommon.MacCommon.'
B = [C + '_mac_structure', 'pycose.messages.cosemessage.CoseMessage._base_structure',
     'pycose.messages.cosebase.CoseBase.phdr_encoded']
CONTRACTS = [
    L.aes_mac(soft=True),
    Contract('Mac0Message.compute_tag', shape0, compute, spec_compute0, funcs=[C + 'compute_tag'] + B, watch=False),
    Contract('Mac0Message.verify_tag', shape0, verify, spec_verify0, funcs=[C + 'verify_tag'] + B, watch=False),
    Contract('MacMessage.compute_tag', shape1, compute, spec_compute1,
             funcs=['pycose.messages.macmessage.MacMessage.compute_tag', C + 'compute_tag'] + B, watch=False),
    Contract('MacMessage.verify_tag', shape1, verify, spec_verify1, funcs=[C + 'verify_tag'] + B, watch=False),
    Contract('Mac0Message.compute_tag after other calls', shape2, again, spec_again, funcs=[C + 'compute_tag'] + B,
             watch=False),
]
HISTORIES = hist.of('mac0', 'mac')
