"""C11: messages have the RFC 8152 wire form and survive encode then decode."""
from pycose import headers as H
from pycose.keys import keyparam as KP
from pycose.keys import curves as CU
from pycose.messages import CoseMessage, Enc0Message, EncMessage, Mac0Message, MacMessage, Sign1Message, SignMessage
from pycose.messages.recipient import DirectEncryption, DirectKeyAgreement, KeyAgreementWithKeyWrap, KeyWrap
from pycose.messages.signer import CoseSignature
from pyvc.contract import Contract, State
from specs import algs as A
from specs import common as S
from specs import gen as G
from specs import lemmas as L
from specs import prims as P
from specs import rcpt as RC
from specs import registry as R
from specs import shapes as SH
from specs import wire as W
from specs.c15 import BARE
from specs import hist

FREE = {H.Algorithm: 'any', H.KID: 'any', H.EphemeralKey: 'any'}
NOALG = {H.Algorithm: 'absent', H.KID: 'any', H.IV: 'absent'}


def wire(m, tag, items):
    """The array, under the tag of the type unless an untagged encoding is asked for."""
    return P.cbor_hdr(P.tagged(W.tag_of(type(m)), items) if tag else items, m.alg_tstr_encoding)


def head(m):
    return [S.protected(m), m._uhdr, m._payload]


# ---- encoding without protection: every header, every payload --------------------------------------------

def bare(cx):
    cls = cx.choice('class', [Enc0Message, EncMessage, Sign1Message])
    kw = {}
    if cls is Sign1Message:
        kw['_signature'] = cx.bytes('m.signature', minlen=1)
    if cls is EncMessage:
        kw['_recipients'] = cx.lst([SH.msg(cx, DirectEncryption, 'r', payload='bytes', enc=None, ph=cx.pydict([]), uh=cx.pydict([(H.Algorithm, DIRECT)]))])
    m = SH.msg(cx, cls, 'm', ph=cx.dict('m.phdr', FREE), uh=cx.dict('m.uhdr', FREE) if cls is not EncMessage else cx.dict('m.uhdr', NOALG), **kw)
    return State(m=m, tag=cx.choice('tag', [True, False, None]))


DIRECT = SH.of_ids([-6])[0]


def i_bare(s):
    if isinstance(s.m, Sign1Message):
        return s.m.encode(sign=False) if s.tag is None else s.m.encode(tag=s.tag, sign=False)
    return s.m.encode(encrypt=False) if s.tag is None else s.m.encode(tag=s.tag, encrypt=False)


def s_bare(s):
    items = head(s.m)
    if isinstance(s.m, Sign1Message):
        items = items + [s.m._signature]
    elif isinstance(s.m, EncMessage):
        S.header(s.m, H.Algorithm)
        items = items + [[[b'', r._uhdr, b''] for r in s.m._recipients]]
    return wire(s.m, s.tag is not False, items)


# ---- encoding with protection ----------------------------------------------------------------------------

def buckets(cx, fixed):
    """The fixed parameters in one of the buckets, everything else arbitrary."""
    a = {k: ('has', v) for k, v in fixed.items()}
    b = {k: 'absent' for k in fixed}
    if cx.choice('algorithm in', ['protected', 'unprotected']) == 'unprotected':
        a, b = b, a
    return cx.dict('m.phdr', a), cx.dict('m.uhdr', b)


def message(cx, cls, **kw):
    if cls in (Enc0Message, EncMessage):
        ph, uh = buckets(cx, {H.Algorithm: ('enum', SH.of_ids([1, 10])), H.IV: 'bytes'})
    else:
        ph, uh = buckets(cx, {H.Algorithm: ('enum', SH.of_ids([5, 15]))})
    return SH.msg(cx, cls, 'm', payload='bytes' if cls in (Enc0Message, EncMessage) else 'opt', ph=ph, uh=uh, **kw)


def single(cx):
    cls = cx.choice('class', [Enc0Message, Mac0Message])
    return State(m=message(cx, cls, key=SH.plain_key(cx)), tag=cx.choice('tag', [True, False, None]))


def i_enc(s):
    return s.m.encode() if s.tag is None else s.m.encode(tag=s.tag)


def protect(m, key):
    """Elements three and four: what the message carries instead of and after the payload."""
    alg = S.header(m, H.Algorithm)
    if isinstance(m, (Enc0Message, EncMessage)):
        ctx = 'Encrypt0' if isinstance(m, Enc0Message) else 'Encrypt'
        return [A.aead_enc(alg, key, S.header(m, H.IV), m._payload, S.enc_structure(ctx, m))]
    return [m._payload, A.mac(alg, key, S.mac_structure('MAC0' if isinstance(m, Mac0Message) else 'MAC', m))]


def s_single(s):
    m = s.m
    return wire(m, s.tag is not False, [S.protected(m), m._uhdr] + protect(m, m._key.store[KP.SymKpK]))


def sign1(cx):
    alg, key = SH.sig_pair(cx, 'key', [-7, -8, -257], True)
    ph, uh = buckets(cx, {H.Algorithm: ('enum', (alg,))})
    return State(m=SH.msg(cx, Sign1Message, 'm', key=key, ph=ph, uh=uh), alg=alg, d=cx.any('detached', ('none', 'bytes')),
                 tag=cx.choice('tag', [True, False]))


def i_sign1(s):
    return s.m.encode(tag=s.tag, detached_payload=s.d)


def s_sign1(s):
    return wire(s.m, s.tag, head(s.m) + [A.sign(s.alg, s.m._key, S.sig_structure1(s.m, s.d))])


def sign(cx):
    """One to three signers, in any order of algorithms."""
    n = cx.choice('signers', [1, 2, 3])
    m = SH.msg(cx, SignMessage, 'm', ph=cx.dict('m.phdr', FREE), uh=cx.dict('m.uhdr', FREE), payload='opt' if n == 1 else 'bytes')
    sg = []
    for i in range(n):
        alg, key = SH.sig_pair(cx, f'key{i}', [-7, -8] if n == 1 else [-8] if i else [-7], True)
        sg.append(SH.msg(cx, CoseSignature, f's{i}', payload='bytes', key=key, enc='opt' if i == 0 else None,
                         ph=cx.pydict([(H.Algorithm, alg)]) if i == 0 else cx.pydict([]),
                         uh=cx.pydict([(H.KID, cx.bytes(f's{i}.kid'))] if i == 0 else [(H.Algorithm, alg)])))
    return State(m=m, sg=sg, d=cx.any('detached', ('none', 'bytes')) if n == 1 else None, tag=cx.choice('tag', [True, False] if n == 1 else [True]))


def i_sign(s):
    s.m.signers = s.sg
    return s.m.encode(tag=s.tag, detached_payload=s.d)


def s_sign(s):
    out = []
    for g in s.sg:
        out = out + [[S.protected(g), g._uhdr, A.sign(S.header(g, H.Algorithm), g._key, S.sig_structure(g, s.m, s.d))]]
    return wire(s.m, s.tag, head(s.m) + [out])


# ---- recipients ------------------------------------------------------------------------------------------

def rcpt(cx, name, cls, cek, enc='opt'):
    """A recipient ready for use; key wrapping ones with the content key preset."""
    kid = (H.KID, cx.bytes(name + '.kid'))
    if cls is DirectEncryption:
        return SH.msg(cx, cls, name, payload='bytes', enc=None, ph=cx.pydict([]), uh=cx.pydict([(H.Algorithm, DIRECT), kid]))
    if cls is KeyWrap:
        r = SH.msg(cx, cls, name, payload='bytes', enc=None, key=SH.sym_key(cx, name + '.key', lens=(16,), schema=BARE),
                   ph=cx.pydict([]), uh=cx.pydict([(H.Algorithm, SH.of_ids([-3])[0]), kid]))
        return SH.put(r, _payload=cek)
    alg = SH.of_ids([-27 if cls is DirectKeyAgreement else -32])[0]
    own, peer = (SH.ec2_key(cx, name + n, (CU.P256,), private=n == 'own', schema=BARE) for n in ('own', 'peer'))
    r = SH.msg(cx, cls, name, payload='bytes', enc=enc, key=own, ph=cx.pydict([(H.Algorithm, alg)]), uh=cx.pydict([kid]),
               _local_attrs=cx.pydict([(H.StaticKey, peer)]))
    return SH.put(r, _payload=b'' if cls is DirectKeyAgreement else cek)


MIXES = [[DirectEncryption], [KeyWrap], [DirectKeyAgreement], [KeyAgreementWithKeyWrap], [DirectEncryption, DirectEncryption],
         [KeyWrap, KeyWrap], [KeyWrap, KeyAgreementWithKeyWrap], [KeyAgreementWithKeyWrap, KeyWrap]]


def layered(cls, mixes):
    def shape(cx):
        mix = mixes[cx.choice('recipients', list(range(len(mixes))))]
        cek = cx.bytes('cek', lens=(16,))
        rs = [rcpt(cx, f'r{i}', c, cek) for i, c in enumerate(mix)]
        fixed = {H.Algorithm: ('enum', SH.of_ids([1 if cls is EncMessage else 5]))}
        if cls is EncMessage:
            fixed[H.IV] = 'bytes'
        ph, uh = cx.dict('m.phdr', {k: ('has', v) for k, v in fixed.items()}), cx.dict('m.uhdr', {k: 'absent' for k in fixed})
        m = SH.msg(cx, cls, 'm', payload='bytes', key=SH.plain_key(cx) if mix[0] is DirectEncryption else None, ph=ph, uh=uh,
                   _recipients=cx.lst(rs))
        return State(m=m, rs=rs, cek=cek, tag=cx.choice('tag', [True, False]))
    return shape


def sent(r):
    """A recipient on the wire."""
    if isinstance(r, KeyWrap):
        return [S.protected(r), r._uhdr, RC.wrap(r)]
    if isinstance(r, KeyAgreementWithKeyWrap):
        return [S.protected(r), r._uhdr, RC.agree_wrap(r)]
    return [S.protected(r), r._uhdr, b'']


def s_layered(s):
    m, r = s.m, s.m._recipients[0]
    if isinstance(r, DirectEncryption):
        key = m._key.store[KP.SymKpK]
    elif isinstance(r, DirectKeyAgreement):
        key = RC.agree(r, S.header(m, H.Algorithm), True)
    else:
        key = s.cek
    body = protect(m, key)
    return wire(m, s.tag, [S.protected(m), m._uhdr] + body + [[sent(x) for x in m._recipients]])


# ---- encode then decode ----------------------------------------------------------------------------------

LABELS = [h for h in SH.HEADERS if h not in (H.Reserved, H.Algorithm, H.EphemeralKey, H.StaticKey)]


def val(cx, name, h):
    """A value that the parameter may have."""
    if h in (H.KID, H.IV, H.PartialIV, H.CounterSignature0, H.KIDContext):
        return cx.bytes(name)
    if h is H.ContentType:
        return cx.int(name, 0) if cx.choice(name + '.kind', ['int', 'str']) == 'int' else cx.str(name)
    if h is H.Critical:
        return cx.lst([cx.any(name, ('int', 'str'))])
    return cx.any(name, G.WIRE, wire=True)


def one_header(cx):
    """A message with any one registered parameter (and an algorithm) in one of the buckets, and another label besides."""
    cls = cx.choice('class', [Enc0Message, EncMessage, Sign1Message])
    h = cx.choice('parameter', LABELS)
    tstr = cx.choice('tstr', [False, True])
    a = [(h, val(cx, 'value', h)), ('label' if tstr else -70001, cx.any('other', G.WIRE, wire=True))]
    b = [(H.Algorithm, SH.of_ids([1 if tstr else -7])[0])]
    if cx.choice('in', ['protected', 'unprotected']) == 'unprotected':
        a, b = b, a
    kw = {}
    if cls is Sign1Message:
        kw['_signature'] = cx.bytes('m.signature', minlen=1)
    if cls is EncMessage:
        kw['_recipients'] = cx.lst([SH.msg(cx, DirectEncryption, 'r', payload='bytes', enc=None, ph=cx.pydict([]),
                                           uh=cx.pydict([(H.Algorithm, DIRECT), (H.KID, cx.bytes('r.kid'))]))])
    m = SH.msg(cx, cls, 'm', enc=None, ph=cx.pydict(a), uh=cx.pydict(b), **kw)
    return State(m=SH.put(m, alg_tstr_encoding=tstr))


def i_back(s):
    b = s.m.encode(sign=False) if isinstance(s.m, Sign1Message) else s.m.encode(encrypt=False)
    return W.view(CoseMessage.decode(b))


def s_back(s):
    m = s.m
    auth, parts = None, []
    if isinstance(m, Sign1Message):
        auth = m._signature
    if isinstance(m, EncMessage):
        parts = [(type(r), {}, r._uhdr, b'', b'', None, []) for r in m._recipients]
    return (type(m), m._phdr, m._uhdr, S.protected(m), m._payload, auth, parts)


def protected(cls):
    """Whole messages: header, payload and parts arbitrary, algorithms fixed."""
    def shape(cx):
        kw, alg, key = {}, 5, None
        rs, sg = [], []
        if cls in (Enc0Message, Mac0Message):
            key = SH.plain_key(cx)
        if cls in (EncMessage, MacMessage):
            mix = MIXES[cx.choice('recipients', list(range(len(MIXES))))]
            cek = cx.bytes('cek', lens=(16,))
            rs = [SH.put(rcpt(cx, f'r{i}', c, cek, None), alg_tstr_encoding=False) for i, c in enumerate(mix)]
            kw['_recipients'] = cx.lst(rs)
            if mix[0] is DirectEncryption:
                key = SH.plain_key(cx)
        if cls in (Enc0Message, EncMessage):
            alg = 1
        if cls is Sign1Message:
            alg, key = -8, SH.okp_key(cx, 'key', (CU.Ed25519,), True, schema=SH.PLAIN)
        if cls is SignMessage:
            for i in range(cx.choice('signers', [1, 2])):
                k = SH.okp_key(cx, f'key{i}', (CU.Ed25519,), True, schema=SH.PLAIN)
                g = SH.msg(cx, CoseSignature, f's{i}', payload='bytes', key=k, enc=None, ph=cx.pydict([(H.Algorithm, SH.of_ids([-8])[0])]),
                           uh=cx.pydict([(H.KID, cx.bytes(f's{i}.kid'))]))
                sg.append(SH.put(g, alg_tstr_encoding=False))
        a, b = [(H.Algorithm, SH.of_ids([alg])[0])], [(H.KID, cx.bytes('kid')), (H.IV, cx.bytes('iv'))]
        if cx.choice('algorithm in', ['protected', 'unprotected']) == 'unprotected':
            a, b = b, a
        m = SH.msg(cx, cls, 'm', payload='bytes', enc=None, key=key, ph=cx.pydict(a), uh=cx.pydict(b), **kw)
        return State(m=SH.put(m, alg_tstr_encoding=False), cls=cls, sg=sg, rs=rs, cek=cek if rs else None)
    return shape


def i_sent(s):
    if s.cls is SignMessage:
        s.m.signers = s.sg
    return W.view(CoseMessage.decode(s.m.encode()))


def s_sent(s):
    m, r = s.m, s.m._recipients[0] if s.rs else None
    alg = S.header(m, H.Algorithm)
    auth, payload, parts = None, m._payload, []
    if s.cls is Sign1Message:
        auth = A.sign(alg, m._key, S.sig_structure1(m, None))
    elif s.cls is SignMessage:
        parts = [(CoseSignature, g._phdr, g._uhdr, S.protected(g), A.sign(S.header(g, H.Algorithm), g._key, S.sig_structure(g, m, None)), None, [])
                 for g in s.sg]
    else:
        if r is None or isinstance(r, DirectEncryption):
            key = m._key.store[KP.SymKpK]
        elif isinstance(r, DirectKeyAgreement):
            key = RC.agree(r, alg, True)
        else:
            key = s.cek
        body = protect(m, key)
        if s.cls in (Enc0Message, EncMessage):
            payload = body[0]
        else:
            auth = body[1]
        parts = [(type(x), x._phdr, x._uhdr, S.protected(x), sent(x)[2], None, []) for x in s.rs]
    return (type(m), m._phdr, m._uhdr, S.protected(m), payload, auth, parts)


M = 'pycose.messages.'
FB = [M + 'cosebase.CoseBase.phdr_encoded', M + 'cosebase.CoseBase.uhdr_encoded', M + 'cosebase.CoseBase._custom_cbor_encoder',
      M + 'cosemessage.CoseMessage.encode']
F0 = FB + [M + 'enc0message.Enc0Message.encode', M + 'encmessage.EncMessage.encode', M + 'sign1message.Sign1Message.encode']
FR = [M + 'recipient.%s.encode' % c.__name__ for c in W.RECIPIENTS]
FD = [M + 'cosemessage.CoseMessage.decode', M + 'cosemessage.CoseMessage.from_cose_obj', M + 'cosebase.CoseBase.from_cose_obj']
ASSUMED = [L.KEY_OF_DICT]
ASSUMPTIONS = [L.PARSE_TEXT]
CONTRACTS = [
    L.aes_mac(),
    L.parse_header(),
    Contract('encoding as it is', bare, i_bare, s_bare, funcs=F0, watch=False),
    Contract('Enc0Message and Mac0Message.encode', single, i_enc, s_single, funcs=F0 + [M + 'mac0message.Mac0Message.encode'], watch=False),
    Contract('Sign1Message.encode', sign1, i_sign1, s_sign1, funcs=F0, watch=False),
    Contract('SignMessage.encode', sign, i_sign, s_sign, funcs=FB + [M + 'signmessage._SignMessage.encode', M + 'signer.CoseSignature.encode'],
             watch=False, bounded='at most three signers'),
    Contract('EncMessage.encode', layered(EncMessage, MIXES), i_enc, s_layered, funcs=FB + [M + 'encmessage.EncMessage.encode'] + FR,
             watch=False, bounded='at most two recipients'),
    Contract('MacMessage.encode', layered(MacMessage, MIXES), i_enc, s_layered, funcs=FB + [M + 'macmessage.MacMessage.encode'] + FR,
             watch=False, bounded='at most two recipients'),
    Contract('decoding what was encoded: every header', one_header, i_back, s_back, funcs=F0 + FD, watch=False),
] + [
    Contract('decoding what was encoded: ' + c.__name__, protected(c), i_sent, s_sent, funcs=FB + FD + [f'{c.__module__}.{c.__name__}.from_cose_obj'],
             watch=False, bounded=None if c in (Enc0Message, Mac0Message, Sign1Message) else 'at most two signers or recipients')
    for c in W.CLASSES
]
HISTORIES = hist.of('sign1', 'sign', 'enc0', 'mac0', 'enc', 'mac')
