"""C03: the additional authenticated data of COSE_Encrypt and COSE_Encrypt0."""
from pycose import headers as H
from pycose.messages import Enc0Message, EncMessage
from pycose.messages.recipient import DirectEncryption
from pyvc.contract import Contract, State
from specs import algs as A
from specs import common as S
from specs import shapes as SH
from specs import hist

PH = {H.Algorithm: ('has', ('enum', SH.AEADS)), H.IV: ('has', 'bytes')}
UH = {H.Algorithm: 'absent', H.IV: 'absent'}


def message(cx, cls, **kw):
    """Algorithm and IV in one of the buckets, everything else in the message arbitrary."""
    swap = cx.choice('algorithm in', ['protected', 'unprotected']) == 'unprotected'
    ph, uh = cx.dict('m.phdr', UH if swap else PH), cx.dict('m.uhdr', PH if swap else UH)
    return SH.msg(cx, cls, 'm', payload='bytes', key=SH.plain_key(cx), ph=ph, uh=uh, **kw)


def direct(cx):
    r = DirectEncryption()
    return SH.put(r, _uhdr=cx.pydict([(H.Algorithm, SH.of_ids([-6])[0])]), _payload=b'')


def shape0(cx):
    return State(m=message(cx, Enc0Message))


def shape1(cx):
    n = cx.choice('recipients', [1, 2])
    rs = [direct(cx) for i in range(n)]
    return State(m=message(cx, EncMessage, _recipients=cx.lst(rs)), r=rs[0])


def enc(s, context):
    alg, iv = S.header(s.m, H.Algorithm), S.header(s.m, H.IV)
    return A.aead_enc(alg, s.m._key.store[S.KP.SymKpK], iv, s.m._payload, S.enc_structure(context, s.m))


def dec(s, context):
    alg, iv = S.header(s.m, H.Algorithm), S.header(s.m, H.IV)
    return A.aead_dec(alg, s.m._key.store[S.KP.SymKpK], iv, s.m._payload, S.enc_structure(context, s.m))


def i_enc(s):
    return s.m.encrypt()


def i_dec0(s):
    return s.m.decrypt()


def i_dec1(s):
    return s.m.decrypt(s.r)


def s_enc0(s):
    return enc(s, 'Encrypt0')


def s_dec0(s):
    return dec(s, 'Encrypt0')


def s_enc1(s):
    return enc(s, 'Encrypt')


def s_dec1(s):
    return dec(s, 'Encrypt')


# ---- earlier calls have no influence -------------------------------------------------------------------

GCM = SH.of_ids([1])


def shape2(cx):
    m = SH.msg(cx, Enc0Message, 'm', payload='bytes', key=SH.plain_key(cx),
               ph=cx.dict('m.phdr', {H.Algorithm: 'absent', H.IV: 'absent'}),
               uh=cx.dict('m.uhdr', {H.Algorithm: ('has', ('enum', GCM)), H.IV: ('has', 'bytes')}))
    return State(m=m, first=cx.choice('first', ['encrypt', 'decrypt']), p2=cx.bytes('payload2'), x2=cx.bytes('aad2'),
                 h2=cx.dict('phdr2', {H.Algorithm: 'absent', H.IV: 'absent'}),
                 how=cx.choice('then', ['phdr=', 'phdr_update', 'nothing']), last=cx.choice('last', ['encrypt', 'decrypt']))


def again(s):
    try:
        if s.first == 'encrypt':
            s.m.encrypt()
        else:
            s.m.decrypt()
    except Exception:
        pass
    s.m.payload = s.p2
    s.m.external_aad = s.x2
    if s.how == 'phdr=':
        s.m.phdr = s.h2
    elif s.how == 'phdr_update':
        s.m.phdr_update({H.KID: b'x'})
    return s.m.encrypt() if s.last == 'encrypt' else s.m.decrypt()


def spec_again(s):
    s.m._payload = s.p2
    s.m._external_aad = s.x2
    if s.how == 'phdr=':
        s.m._phdr = s.h2
        s.m._phdr_encoded = None
    elif s.how == 'phdr_update':
        s.m._phdr[H.KID] = b'x'
        s.m._phdr_encoded = None
    if s.last == 'encrypt':
        return enc(s, 'Encrypt0')
    return dec(s, 'Encrypt0')


E = 'pycose.messages.enccommon.EncCommon.'
B = ['pycose.messages.cosemessage.CoseMessage._base_structure', 'pycose.messages.cosebase.CoseBase.phdr_encoded',
     E + '_enc_structure']
CONTRACTS = [
    Contract('Enc0Message.encrypt', shape0, i_enc, s_enc0, funcs=[E + 'encrypt'] + B, watch=False),
    Contract('Enc0Message.decrypt', shape0, i_dec0, s_dec0, funcs=[E + 'decrypt'] + B, watch=False),
    Contract('EncMessage.encrypt', shape1, i_enc, s_enc1, funcs=['pycose.messages.encmessage.EncMessage.encrypt'] + B, watch=False),
    Contract('EncMessage.decrypt', shape1, i_dec1, s_dec1, funcs=['pycose.messages.encmessage.EncMessage.decrypt'] + B, watch=False),
    Contract('Enc0Message.encrypt and decrypt after other calls', shape2, again, spec_again,
             funcs=[E + 'encrypt', E + 'decrypt'] + B, watch=False),
]
HISTORIES = hist.of('enc0', 'enc')
