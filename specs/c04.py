"""C04: signatures are made and judged by exactly the named algorithm and key."""
from pycose import headers as H
from pycose.messages import Sign1Message, SignMessage
from pycose.messages.signer import CoseSignature
from pyvc.contract import Contract, State
from specs import algs as A
from specs import common as S
from specs import shapes as SH
from specs.c01 import buckets
from specs import hist

EC, OKP, RSA = SH.of_ids(A.R.ECDSA), SH.of_ids(A.R.EDDSA), SH.of_ids(A.R.RSA_SIG)


def any_key(cx, private):
    k = cx.choice('key type', ['EC2', 'OKP', 'RSA'])
    if k == 'EC2':
        return SH.ec2_key(cx, 'key', private=None if private else False, schema=SH.PLAIN)
    if k == 'OKP':
        return SH.okp_key(cx, 'key', private=None, schema=SH.PLAIN)
    return SH.rsa_key(cx, 'key', private=None if private else False, schema=SH.PLAIN)


def signing(private):
    def shape(cx):
        alg = cx.enum('alg', SH.SIGS)
        key = any_key(cx, private)
        ph, uh = cx.pydict([(H.Algorithm, alg)]), cx.dict('m.uhdr', {H.Algorithm: 'absent'})
        if cx.choice('algorithm in', ['protected', 'unprotected']) == 'unprotected':
            ph, uh = uh, ph
        m = SH.msg(cx, Sign1Message, 'm', payload='bytes', enc=None, key=key, ph=ph, uh=uh,
                   _signature=cx.bytes('m.signature'))
        return State(m=m, alg=alg)
    return shape


def sign1(s):
    return s.m.compute_signature()


def spec_sign1(s):
    return A.sign(s.alg, s.m._key, S.sig_structure1(s.m, None))


def verify1(s):
    return s.m.verify_signature()


def spec_verify1(s):
    return A.verify(s.alg, s.m._key, S.sig_structure1(s.m, None), s.m._signature)


def signer(private):
    def shape(cx):
        alg = cx.enum('alg', SH.SIGS)
        key = any_key(cx, private)
        sg = SH.msg(cx, CoseSignature, 's', payload='bytes', enc=None, key=key,
                    ph=cx.dict('s.phdr', {H.Algorithm: 'absent'}), uh=cx.pydict([(H.Algorithm, alg)]))
        m = SignMessage(phdr={}, payload=b'')
        SH.put(m, _payload=cx.bytes('payload'))
        return State(m=m, sg=sg, alg=alg)
    return shape


def sign(s):
    s.m.signers = [s.sg]
    return s.sg.compute_signature()


def spec_sign(s):
    return A.sign(s.alg, s.sg._key, S.sig_structure(s.sg, s.m, None))


def verify(s):
    s.m.signers = [s.sg]
    return s.sg.verify_signature()


def spec_verify(s):
    return A.verify(s.alg, s.sg._key, S.sig_structure(s.sg, s.m, None), s.sg._payload)


# what was signed verifies under the public key (axiom of the primitives: verify(pub(d), sign(d, x), x))

G = 'pycose.algorithms.'
FS = [G + '_Ecdsa.sign', G + 'EdDSA.sign', G + '_Rsa.sign', 'pycose.messages.signcommon.SignCommon.compute_signature']
FV = [G + '_Ecdsa.verify', G + 'EdDSA.verify', G + '_Rsa.verify', 'pycose.messages.signcommon.SignCommon.verify_signature']
CONTRACTS = [
    Contract('Sign1Message.compute_signature for every algorithm and key', signing(True), sign1, spec_sign1, funcs=FS,
             watch=False, tries=150),
    Contract('Sign1Message.verify_signature for every algorithm and key', signing(False), verify1, spec_verify1, funcs=FV,
             watch=False, tries=150),
    Contract('CoseSignature.compute_signature for every algorithm and key', signer(True), sign, spec_sign, funcs=FS,
             watch=False),
    Contract('CoseSignature.verify_signature for every algorithm and key', signer(False), verify, spec_verify, funcs=FV,
             watch=False),
]
HISTORIES = hist.of('sign1', 'sign')
