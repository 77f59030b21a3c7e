"""C06: content encryption uses exactly the named AEAD and is inverted by decryption."""
from pycose import headers as H
from pycose.messages import Enc0Message, EncMessage
from pyvc.contract import Contract, State
from specs import algs as A
from specs import common as S
from specs import shapes as SH
from specs.c03 import direct
from specs import hist


def parts(cx):
    alg = cx.enum('alg', SH.AEADS)
    ph, uh = cx.dict('m.phdr', {H.Algorithm: 'absent', H.IV: 'absent'}), cx.pydict([(H.Algorithm, alg), (H.IV, cx.bytes('iv'))])
    return alg, ph, uh


def shape0(cx):
    alg, ph, uh = parts(cx)
    return State(m=SH.msg(cx, Enc0Message, 'm', payload='bytes', enc=None, key=SH.plain_key(cx), ph=ph, uh=uh), alg=alg)


def shape1(cx):
    alg, ph, uh = parts(cx)
    r = direct(cx)
    m = SH.msg(cx, EncMessage, 'm', payload='bytes', enc=None, key=SH.plain_key(cx), ph=ph, uh=uh,
               _recipients=cx.lst([r]))
    return State(m=m, alg=alg, r=r)


def encrypt(s):
    return s.m.encrypt()


def decrypt0(s):
    return s.m.decrypt()


def decrypt1(s):
    return s.m.decrypt(s.r)


def _enc(s, context):
    return A.aead_enc(s.alg, s.m._key.store[S.KP.SymKpK], s.m._uhdr[H.IV], s.m._payload, S.enc_structure(context, s.m))


def _dec(s, context):
    return A.aead_dec(s.alg, s.m._key.store[S.KP.SymKpK], s.m._uhdr[H.IV], s.m._payload, S.enc_structure(context, s.m))


def s_enc0(s):
    return _enc(s, 'Encrypt0')


def s_enc1(s):
    return _enc(s, 'Encrypt')


def s_dec0(s):
    return _dec(s, 'Encrypt0')


def s_dec1(s):
    return _dec(s, 'Encrypt')


def back0(s):
    s.m.payload = s.m.encrypt()
    return s.m.decrypt()


def back1(s):
    s.m.payload = s.m.encrypt()
    return s.m.decrypt(s.r)


def s_back0(s):
    _enc(s, 'Encrypt0')         # may refuse
    return s.m._payload


def s_back1(s):
    _enc(s, 'Encrypt')
    return s.m._payload


G = 'pycose.algorithms.'
FE = [G + '_AesGcm.encrypt', G + '_AesCcm.encrypt', 'pycose.messages.enccommon.EncCommon.encrypt']
FD = [G + '_AesGcm.decrypt', G + '_AesCcm.decrypt', 'pycose.messages.enccommon.EncCommon.decrypt']
CONTRACTS = [
    Contract('Enc0Message.encrypt for every algorithm', shape0, encrypt, s_enc0, funcs=FE, watch=False),
    Contract('Enc0Message.decrypt for every algorithm', shape0, decrypt0, s_dec0, funcs=FD, watch=False),
    Contract('EncMessage.encrypt for every algorithm', shape1, encrypt, s_enc1, funcs=FE, watch=False),
    Contract('EncMessage.decrypt for every algorithm', shape1, decrypt1, s_dec1, funcs=FD, watch=False),
    Contract('Enc0Message.decrypt inverts encrypt', shape0, back0, s_back0, funcs=FE + FD, watch=False),
    Contract('EncMessage.decrypt inverts encrypt', shape1, back1, s_back1, funcs=FE + FD, watch=False),
]
HISTORIES = hist.of('enc0', 'enc')
