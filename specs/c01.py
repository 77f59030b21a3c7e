"""C01: the bytes that are signed and verified."""
from pycose import headers as H
from pycose.messages import Sign1Message, SignMessage
from pycose.messages.signer import CoseSignature
from pyvc.contract import Contract, State
from specs import algs as A
from specs import common as S
from specs import shapes as SH
from specs import hist


def buckets(cx, name, alg):
    """The signing algorithm in one of the buckets, everything else arbitrary."""
    a, b = {H.Algorithm: ('has', ('enum', (alg,)))}, {H.Algorithm: 'absent'}
    if cx.choice(name + ': algorithm in', ['protected', 'unprotected']) == 'unprotected':
        a, b = b, a
    return cx.dict(name + '.phdr', a), cx.dict(name + '.uhdr', b)


def detached(cx):
    return cx.any('detached', ('none', 'bytes'))


def shape1(cx):
    alg, key = SH.sig_pair(cx, 'key', [-7, -8, -37])
    ph, uh = buckets(cx, 'm', alg)
    m = SH.msg(cx, Sign1Message, 'm', key=key, ph=ph, uh=uh, _signature=cx.bytes('m.signature'))
    return State(m=m, alg=alg, d=detached(cx))


def sign1(s):
    return s.m.compute_signature(s.d)


def spec_sign1(s):
    return A.sign(s.alg, s.m._key, S.sig_structure1(s.m, s.d))


def verify1(s):
    return s.m.verify_signature(s.d)


def spec_verify1(s):
    return A.verify(s.alg, s.m._key, S.sig_structure1(s.m, s.d), s.m._signature)


def shape2(cx):
    m = SH.msg(cx, SignMessage, 'm')
    alg, key = SH.sig_pair(cx, 'key', [-7, -8, -37])
    ph, uh = buckets(cx, 's', alg)
    sg = SH.msg(cx, CoseSignature, 's', payload='bytes', key=key, ph=ph, uh=uh)
    n = cx.choice('signers before', [0, 1])
    first = [CoseSignature(uhdr={H.KID: b'1'}, key=None) for i in range(n)]
    return State(m=m, alg=alg, sg=sg, first=first, d=detached(cx))


def sign(s):
    s.m.signers = s.first + [s.sg]
    return s.sg.compute_signature(s.d)


def spec_sign(s):
    return A.sign(s.alg, s.sg._key, S.sig_structure(s.sg, s.m, s.d))


def verify(s):
    s.m.signers = s.first + [s.sg]
    return s.sg.verify_signature(s.d)


def spec_verify(s):
    return A.verify(s.alg, s.sg._key, S.sig_structure(s.sg, s.m, s.d), s.sg._payload)


# ---- earlier calls have no influence -------------------------------------------------------------------

def shape3(cx):
    alg, key = SH.sig_pair(cx, 'key', [-7], True)
    m = SH.msg(cx, Sign1Message, 'm', key=key, ph=cx.dict('m.phdr', {H.Algorithm: ('has', ('enum', (alg,)))}),
               uh=cx.dict('m.uhdr', {H.Algorithm: 'absent'}), _signature=cx.bytes('m.signature'))
    return State(m=m, alg=alg, d=detached(cx), first=cx.choice('first', ['sign', 'verify']),
                 p2=cx.any('payload2', ('none', 'bytes')), x2=cx.bytes('aad2'), h2=cx.dict('phdr2', {H.Algorithm: 'absent'}),
                 how=cx.choice('then', ['phdr=', 'phdr_update', 'nothing']))


def again1(s):
    try:
        if s.first == 'sign':
            s.m.compute_signature(s.d)
        else:
            s.m.verify_signature(s.d)
    except Exception:
        pass
    s.m.payload = s.p2
    s.m.external_aad = s.x2
    if s.how == 'phdr=':
        s.m.phdr = s.h2
        s.m.uhdr = {H.Algorithm: s.alg}
    elif s.how == 'phdr_update':
        s.m.phdr_update({H.KID: b'x'})
    return s.m.compute_signature(s.d)


def spec_again1(s):
    s.m._payload = s.p2
    s.m._external_aad = s.x2
    if s.how == 'phdr=':
        s.m._phdr = s.h2
        s.m._phdr_encoded = None
    elif s.how == 'phdr_update':
        s.m._phdr[H.KID] = b'x'
        s.m._phdr_encoded = None
    return A.sign(s.alg, s.m._key, S.sig_structure1(s.m, s.d))


C = 'pycose.messages.signcommon.SignCommon.'
B = ['pycose.messages.cosemessage.CoseMessage._base_structure', 'pycose.messages.cosebase.CoseBase.phdr_encoded']
S1 = ['pycose.messages.sign1message.Sign1Message._create_sig_structure'] + B
S2 = ['pycose.messages.signer.CoseSignature._create_sig_structure', 'pycose.messages.signmessage._SignMessage.signers'] + B
CONTRACTS = [
    Contract('Sign1Message.compute_signature', shape1, sign1, spec_sign1, funcs=[C + 'compute_signature'] + S1, watch=False),
    Contract('Sign1Message.verify_signature', shape1, verify1, spec_verify1, funcs=[C + 'verify_signature'] + S1, watch=False),
    Contract('CoseSignature.compute_signature', shape2, sign, spec_sign, funcs=[C + 'compute_signature'] + S2, watch=False),
    Contract('CoseSignature.verify_signature', shape2, verify, spec_verify, funcs=[C + 'verify_signature'] + S2, watch=False),
    Contract('Sign1Message.compute_signature after other calls', shape3, again1, spec_again1,
             funcs=[C + 'compute_signature'] + S1, watch=False),
]
HISTORIES = hist.of('sign1', 'sign')
