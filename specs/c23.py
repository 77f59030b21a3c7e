"""C23: using a message or key has no side effects on inputs or later results."""
import copy

from pycose import algorithms as AL
from pycose import headers as H
from pycose.keys import CoseKey, EC2Key, OKPKey, RSAKey, SymmetricKey
from pycose.keys import curves as CU
from pycose.keys import keyparam as KP
from pycose.messages import CoseMessage, Enc0Message, EncMessage, Mac0Message, MacMessage, Sign1Message, SignMessage
from pycose.messages.recipient import DirectEncryption, DirectKeyAgreement, KeyAgreementWithKeyWrap, KeyWrap
from pycose.messages.signer import CoseSignature
from pyvc.contract import Contract, History, State, Violation
from specs import c02, c11, c14, c17
from specs import hist as HI
from specs import keyhist as KH
from specs import keys as K
from specs import lemmas as L
from specs import pool
from specs import registry as R
from specs import shapes as SH
from specs.c15 import BARE

TARGET = AL.A128GCM


def spec(s):
    """Nothing happens (the whole state is compared with the initial one) and the results agree."""
    return True


# ---- operations: performed, another one in between, performed again ----------------------------------------

def do(m, op, d=None, other=None):
    try:
        if op == 'sign':
            return 'value', m.compute_signature(d)
        if op == 'verify':
            return 'value', m.verify_signature(d)
        if op == 'tag':
            return 'value', m.compute_tag()
        if op == 'check':
            return 'value', m.verify_tag()
        if op == 'encrypt':
            return 'value', m.encrypt()
        if op == 'decrypt':
            return 'value', m.decrypt() if other is None else m.decrypt(other)
        if op == 'encode':
            return 'value', m.encode()
        if op == 'signed':
            return 'value', m.encode(tag=False, detached_payload=d)
        if op == 'headers':
            return 'value', (m.phdr_encoded, m.get_attr(H.KID), m.get_attr(H.Algorithm))
        if op == 'wrap':
            return 'value', m.encrypt(TARGET)
        if op == 'unwrap':
            return 'value', m.decrypt(TARGET)
        if op == 'derive':
            return 'value', m.compute_cek(TARGET, 'encrypt').k
        if op == 'cek':
            return 'value', m.compute_cek(TARGET, 'decrypt').k
        if op == 'send':
            return 'value', m.encode(target_alg=TARGET)
    except Exception:
        return 'refused', None


def repeated(s):
    a = do(s.m, s.op, s.d)
    do(s.m, s.between, s.d)
    return a == do(s.m, s.op, s.d)


def pair(cx, *pairs):
    return pairs[cx.choice('operations', list(range(len(pairs))))]


def sign1(cx):
    alg, key = SH.sig_pair(cx, 'key', [-7, -8, -257])
    a, b = {H.Algorithm: ('has', ('enum', (alg,)))}, {H.Algorithm: 'absent'}
    m = SH.msg(cx, Sign1Message, 'm', key=key, ph=cx.dict('m.phdr', a), uh=cx.dict('m.uhdr', b), _signature=cx.bytes('m.signature'))
    op, between = pair(cx, ('sign', 'verify'), ('verify', 'sign'), ('signed', 'signed'), ('headers', 'signed'))
    return State(m=m, op=op, between=between, d=cx.any('detached', ('none', 'bytes')))


def signer(cx):
    """A signer of a message: the message and the other signer stay as they are as well."""
    m = SH.msg(cx, SignMessage, 'm')
    alg, key = SH.sig_pair(cx, 'key', [-7, -8])
    ph, uh = cx.dict('s.phdr', {H.Algorithm: ('has', ('enum', (alg,)))}), cx.dict('s.uhdr', {H.Algorithm: 'absent'})
    sg = SH.msg(cx, CoseSignature, 's', payload='bytes', key=key, ph=ph, uh=uh, _parent=m)
    first = SH.put(CoseSignature(uhdr={H.KID: b'1'}), _parent=m)
    SH.put(m, _signers=cx.lst([first, sg]))
    op, between = pair(cx, ('sign', 'verify'), ('verify', 'sign'), ('headers', 'sign'))
    return State(m=sg, parent=m, first=first, op=op, between=between, d=cx.any('detached', ('none', 'bytes')))


def signing(cx):
    """Encoding a message of one or two signers."""
    n = cx.choice('signers', [1, 2])
    m = SH.msg(cx, SignMessage, 'm', ph=cx.dict('m.phdr', c11.FREE), uh=cx.dict('m.uhdr', c11.FREE))
    sg = []
    for i in range(n):
        alg, key = SH.sig_pair(cx, f'key{i}', [-8] if i else [-7])
        sg.append(SH.msg(cx, CoseSignature, f's{i}', payload='bytes', key=key, enc=None, _parent=m,
                         ph=cx.dict(f's{i}.phdr', {H.Algorithm: ('has', ('enum', (alg,)))}), uh=cx.dict(f's{i}.uhdr', {H.Algorithm: 'absent'})))
    SH.put(m, _signers=cx.lst(sg))
    return State(m=m, op='signed', between='signed', d=cx.any('detached', ('none', 'bytes')))


def mac(cls):
    def shape(cx):
        kw = {'_recipients': cx.lst([c02.direct(cx) for i in range(cx.choice('recipients', [1, 2]))])} if cls is MacMessage else {}
        op, between = pair(cx, ('tag', 'check'), ('check', 'tag'), ('encode', 'encode'), ('headers', 'encode'))
        return State(m=c02.message(cx, cls, c02.ALGS[::2], **kw), op=op, between=between, d=None)
    return shape


def repeated_mac(s):
    """Computing a tag is documented to set it."""
    before = s.m.auth_tag
    a = do(s.m, s.op)
    if s.op == 'check' or s.op == 'headers':
        if s.m.auth_tag != before:
            return 'checking changes the tag'
    do(s.m, s.between)
    s.m.auth_tag = before
    b = do(s.m, s.op)
    s.m.auth_tag = before
    return a == b


def enc0(cx):
    from specs import c03
    op, between = pair(cx, ('encrypt', 'decrypt'), ('decrypt', 'encrypt'), ('encode', 'encode'), ('headers', 'encode'))
    return State(m=c03.message(cx, Enc0Message), op=op, between=between, d=None)


def enc(cx):
    """Direct encryption: the key of the message is the caller's."""
    from specs import c03
    rs = [c03.direct(cx) for i in range(cx.choice('recipients', [1, 2]))]
    op, between = pair(cx, ('encrypt', 'decrypt'), ('decrypt', 'encrypt'), ('encode', 'encode'), ('headers', 'encode'))
    return State(m=c03.message(cx, EncMessage, _recipients=cx.lst(rs)), r=rs[0], op=op, between=between, d=None)


def repeated_enc(s):
    a = do(s.m, s.op, None, s.r)
    do(s.m, s.between, None, s.r)
    return a == do(s.m, s.op, None, s.r)


# ---- recipients ------------------------------------------------------------------------------------------

def kw(cx):
    """AES key wrap."""
    if cx.choice('policy', [True, False]):
        alg = AL.A128KW
        key = SH.sym_key(cx, 'key', lens=(16,), schema={KP.KpAlg: 'absent', KP.KpKeyOps: ('oplist', SH.KEYOPS)})
    else:
        alg = SH.of_ids([cx.choice('alg', [-3, -5])])[0]
        key = SH.sym_key(cx, 'key', schema=BARE)
    r = SH.msg(cx, KeyWrap, 'r', payload='bytes', key=key, ph=cx.dict('r.phdr', {H.Algorithm: 'absent'}),
               uh=cx.dict('r.uhdr', {H.Algorithm: ('has', ('enum', (alg,)))}))
    op, between = pair(cx, ('wrap', 'unwrap'), ('unwrap', 'wrap'), ('cek', 'send'), ('send', 'cek'))
    return State(m=r, op=op, between=between, d=None)


def rsa(cx):
    """RSA key transport (wrapping is randomised)."""
    alg = SH.of_ids([cx.choice('alg', [-40, -41])])[0]
    r = SH.msg(cx, KeyWrap, 'r', payload='bytes', key=SH.rsa_key(cx, 'key', True, schema=BARE), ph=cx.dict('r.phdr', {H.Algorithm: 'absent'}),
               uh=cx.dict('r.uhdr', {H.Algorithm: ('has', ('enum', (alg,)))}))
    op, between = pair(cx, ('unwrap', 'wrap'), ('cek', 'send'), ('headers', 'send'))
    return State(m=r, op=op, between=between, d=None)


def agree(cls, ids, sending):
    """Key agreement with keys of both sides at hand."""
    def shape(cx):
        alg = SH.of_ids([cx.choice('alg', list(ids))])[0]
        own, peer = (SH.ec2_key(cx, n, (CU.P256,), private=n == 'own', schema=BARE) for n in ('own', 'peer'))
        uh, loc = [(H.Algorithm, alg), (H.PartyUID, cx.bytes('identity')), (H.PartyVNonce, cx.bytes('nonce'))], []
        if sending:
            loc = [(H.StaticKey, peer), (H.SuppPubOther, cx.bytes('supp'))]
        else:
            uh.append((H.EphemeralKey if alg.identifier in (-25, -26, -29, -30, -31) else H.StaticKey, peer))
        r = SH.msg(cx, cls, 'r', payload='bytes', key=own, ph=cx.dict('r.phdr', {'__keys__': ('int',), H.Algorithm: 'absent', H.EphemeralKey: 'absent', H.StaticKey: 'absent',
                                                                                **{p: 'absent' for p in PARTY}}), uh=cx.pydict(uh), _local_attrs=cx.pydict(loc))
        if cls is KeyAgreementWithKeyWrap:
            op, between = pair(cx, *([('wrap', 'send'), ('send', 'wrap')] if sending else [('unwrap', 'cek'), ('cek', 'unwrap')]))
        else:
            op, between = pair(cx, *([('derive', 'send'), ('send', 'derive')] if sending else [('cek', 'headers'), ('headers', 'cek')]))
        return State(m=r, op=op, between=between, d=None)
    return shape


# ---- messages with recipients that convey the key ----------------------------------------------------------

def sending(s):
    """Protecting is documented to set the content key in the message and its recipients, and the tag."""
    m = s.m
    key, payloads = m.key, [r.payload for r in m.recipients]
    preset = [p for p in payloads if p != b'']
    a = do(m, 'encode')
    restore(m, key, payloads)
    if not preset and not isinstance(m.recipients[0], DirectKeyAgreement):
        return True
    b = do(m, 'encode')
    restore(m, key, payloads)
    return a == b


def restore(m, key, payloads):
    m.key = key
    if isinstance(m, MacMessage):
        m.auth_tag = b''
    for r, p in zip(m.recipients, payloads):
        r.payload = p


def opening(s):
    """Opening is documented to set the key of the message."""
    m, r = s.m, s.m.recipients[s.who]
    key = m.key
    a = do(m, 'decrypt', None, r)
    m.key = key
    b = do(m, 'decrypt', None, r)
    m.key = key
    return a == b


# ---- objects that share inputs ---------------------------------------------------------------------------

def shared(cx):
    """Two messages of the same key, headers given by the same dictionaries."""
    cls = cx.choice('class', [Sign1Message, Mac0Message, Enc0Message, SignMessage])
    ph, uh = (cx.dict(n, {**{h.identifier: 'absent' for h in SH.HEADERS}, 4: 'any', 3: 'any', '__keys__': ('int',)}) for n in ('phdr', 'uhdr'))
    return State(cls=cls, ph=ph, uh=uh, value=cx.any('value'), payload=cx.bytes('payload'), how=cx.choice('how', ['update', 'assign', 'both']))


def i_shared(s):
    try:
        return apart(s)
    except Exception:
        return True


def seen(m):
    return m.phdr.get(H.KID), m.uhdr.get(H.KID), m.phdr.get(H.ContentType), m.uhdr.get(H.ContentType), len(m.phdr), len(m.uhdr), m.payload


def apart(s):
    a = s.cls(phdr=s.ph, uhdr=s.uh, payload=s.payload)
    b = s.cls(phdr=s.ph, uhdr=s.uh, payload=s.payload)
    before = seen(b)
    if s.how == 'assign' or s.how == 'both':
        a.phdr = s.ph
        a.uhdr = s.uh
    if s.how == 'update' or s.how == 'both':
        a.phdr_update({H.KID: s.value, 'x': 1})
        a.uhdr_update({H.ContentType: s.value})
        a.payload = b'other'
    return before == seen(b)


def keyed(t):
    """Encoding, reading and comparing a key."""
    def shape(cx):
        return State(key=c17.a_key(cx, t))
    return shape


def values(k):
    return k.kty, k.alg, k.kid, k.key_ops, k.base_iv, len(k), KP.KpKid in k


def encoded(k):
    try:
        return k.encode()
    except Exception:
        return None


def i_keyed(s):
    k = s.key
    a, v = encoded(k), values(k)
    return a == encoded(k) and v == values(k)


def made(t):
    """Two keys of the same optional parameters."""
    def shape(cx):
        opt = [(KP.KpKid, cx.bytes('kid')), (KP.KpAlg, cx.enum('alg', SH.ALGS[:4])), (KP.KpKeyOps, cx.oplist('ops', SH.KEYOPS)), (KP.KpBaseIV, cx.bytes('iv')), ('x', cx.any('x'))]
        lab = cx.choice('labels', [lambda p: p, lambda p: p if isinstance(p, str) else p.identifier])
        return State(t=t, args=c17.good(cx, t), opt=cx.pydict([(lab(p), v) for p, v in opt]), other=cx.bytes('other kid'))
    return shape


def i_made(s):
    try:
        return apart_keys(s)
    except Exception:
        return True


def apart_keys(s):
    a = c17.build(s.t, s.args, s.opt, True)
    b = c17.build(s.t, s.args, s.opt, True)
    before, e = values(b), b.encode()
    a.kid = s.other
    a.base_iv = b'x'
    a.alg = AL.A128GCM
    a.key_ops = []
    return before == values(b) and e == b.encode()


PARTY = (H.PartyUID, H.PartyUNonce, H.PartyUOther, H.PartyVID, H.PartyVNonce, H.PartyVOther)

M = 'pycose.messages.'
C = M + 'cosebase.CoseBase.'
HD_ = [C + 'get_attr', C + 'phdr_encoded', C + 'uhdr_encoded', M + 'cosemessage.CoseMessage._base_structure']
R_ = M + 'recipient.'
KA = ('encrypt', 'decrypt', 'compute_cek', 'encode')
KV = ['pycose.keys.cosekey.CoseKey.verify']
CONTRACTS = [
    L.aes_mac(),
    Contract('Sign1Message', sign1, repeated, spec, funcs=[M + 'signcommon.SignCommon.compute_signature', M + 'signcommon.SignCommon.verify_signature',
                                                         M + 'sign1message.Sign1Message.encode'] + HD_ + KV),
    Contract('CoseSignature', signer, repeated, spec, funcs=[M + 'signcommon.SignCommon.compute_signature', M + 'signcommon.SignCommon.verify_signature',
                                                           M + 'signer.CoseSignature._create_sig_structure'] + HD_ + KV),
    Contract('SignMessage.encode', signing, repeated, spec, funcs=[M + 'signmessage._SignMessage.encode', M + 'signer.CoseSignature.encode'] + HD_ + KV,
             bounded='at most two signers'),
    Contract('Mac0Message', mac(Mac0Message), repeated_mac, spec, funcs=[M + 'maccommon.MacCommon.compute_tag', M + 'maccommon.MacCommon.verify_tag',
                                                                       M + 'mac0message.Mac0Message.encode'] + HD_ + KV),
    Contract('MacMessage with direct recipients', mac(MacMessage), repeated_mac, spec,
             funcs=[M + 'macmessage.MacMessage.compute_tag', M + 'macmessage.MacMessage.encode'] + HD_ + KV, bounded='at most two recipients'),
    Contract('Enc0Message', enc0, repeated, spec, funcs=[M + 'enccommon.EncCommon.encrypt', M + 'enccommon.EncCommon.decrypt',
                                                       M + 'enccommon.EncCommon._get_nonce', M + 'enc0message.Enc0Message.encode'] + HD_ + KV),
    Contract('EncMessage with direct recipients', enc, repeated_enc, spec,
             funcs=[M + 'encmessage.EncMessage.encrypt', M + 'encmessage.EncMessage.decrypt', M + 'encmessage.EncMessage.encode'] + HD_ + KV,
             bounded='at most two recipients'),
    Contract('AES key wrap recipient', kw, repeated, spec, funcs=[R_ + 'KeyWrap.' + n for n in ('encrypt', 'decrypt', 'compute_cek', 'encode', '_compute_kek')] + HD_ + KV),
    Contract('RSA key transport recipient', rsa, repeated, spec, funcs=[R_ + 'KeyWrap.' + n for n in ('encrypt', 'decrypt', 'compute_cek', 'encode')] + HD_ + KV),
    Contract('key agreement with key wrap, sending', agree(KeyAgreementWithKeyWrap, (-29, -32), True), repeated, spec,
             funcs=[R_ + 'KeyAgreementWithKeyWrap.' + n for n in KA] + HD_ + KV),
    Contract('key agreement with key wrap, receiving', agree(KeyAgreementWithKeyWrap, (-29, -34), False), repeated, spec,
             funcs=[R_ + 'KeyAgreementWithKeyWrap.' + n for n in KA] + HD_ + KV),
    Contract('direct key agreement, sending', agree(DirectKeyAgreement, (-25, -27), True), repeated, spec,
             funcs=[R_ + 'DirectKeyAgreement.' + n for n in ('compute_cek', 'encode')] + HD_ + KV),
    Contract('direct key agreement, receiving', agree(DirectKeyAgreement, (-26, -28), False), repeated, spec,
             funcs=[R_ + 'DirectKeyAgreement.' + n for n in ('compute_cek', 'encode')] + HD_ + KV),
    Contract('messages of one wrapping recipient', c14.one, sending, spec, funcs=c14.FP + HD_ + KV),
    Contract('messages of two wrapping recipients', c14.some(c14.W2), sending, spec, funcs=c14.FP + HD_ + KV, bounded='at most two recipients'),
    Contract('messages of a direct key agreement recipient', c14.direct, sending, spec, funcs=c14.FP + HD_ + KV),
    Contract('opening a message for one of its recipients', c14.opening, opening, spec, funcs=c14.FR + [M + 'encmessage.EncMessage.decrypt'] + HD_ + KV,
             bounded='at most two recipients'),
    L.parse_header(),
    Contract('messages made of the same dictionaries', shared, i_shared, spec, funcs=[C + '__init__', C + 'phdr_update', C + 'uhdr_update', C + 'get_attr']),
] + [Contract(f'reading a key ({t})', keyed(t), i_keyed, spec, funcs=['pycose.keys.cosekey.CoseKey.encode']) for t in ('symmetric', 'OKP', 'EC2', 'RSA')] + [
    Contract(f'keys made of the same parameters ({t})', made(t), i_made, spec, funcs=['pycose.keys.cosekey.CoseKey.__init__']) for t in ('symmetric', 'OKP', 'EC2', 'RSA')]
ASSUMED = [L.KEY_OF_DICT]
ASSUMPTIONS = [L.PARSE_TEXT]


# ---- histories: several objects of shared inputs, operations in any order ------------------------------------

import random                                            # noqa: E402

ENCRYPTING = (1, 2, 3, 10, 11, 30, 33)
TAGGING = (4, 5, 6, 7, 14, 15, 25, 26)
SIGNING = (-7, -35, -8, -257, -259)


class World:
    """The inputs of the caller: each is made once and used for several objects, or anew for every object."""

    def __init__(self, seed, share):
        self.seed, self.share, self.inputs = seed, share, {}

    def given(self, name, make):
        if self.share and name in self.inputs:
            return self.inputs[name][0]
        x = make(random.Random(f'{self.seed} {name}'))
        self.inputs.setdefault(name, (x, make(random.Random(f'{self.seed} {name}'))))
        return x

    def unchanged(self):
        for name, (x, was) in self.inputs.items():
            KH.same(shown(x), shown(was), f'{name} was changed')


def shown(x):
    """What an input is, by value."""
    if isinstance(x, CoseKey):
        return {'key': type(x).__name__, 'store': shown(dict(x.store) if hasattr(x, 'store') else dict(x))}
    if isinstance(x, dict):
        return {k: shown(v) for k, v in x.items()}
    if isinstance(x, list):
        return [shown(v) for v in x]
    if hasattr(x, 'uhdr'):
        return [type(x).__name__, shown(x.phdr), shown(x.uhdr), x.payload, shown(x.key)]
    return x


def symmetric(w, n, base=0):
    def make(r):
        opt = {KP.KpKid: HI.byts(r)}
        if base:
            opt[KP.KpBaseIV] = HI.byts(r, base)
        return SymmetricKey(k=HI.byts(r, n), optional_params=opt)
    return w.given(f'symmetric key {n} {base}', make)


def signature_key(w, i):
    return w.given(f'signature key {i}', lambda r: HI.signing(r, [i])[2])


def headers(w, must):
    """Dictionaries for the headers, one for every need."""
    def make(r):
        return [HI.given(r, h) for h in HI.headers(r, {k: v if v is not None else HI.byts(r, 7 if i in (12, 13, 32, 33) else 12 if i < 10 else 13) for k, v in must.items()})]
    i = must[1]
    ph, uh = w.given(f'headers {i} {sorted(must)}', make)
    return ph, uh


def recipient(w, r, cek):
    kind = r.choice(['kw', 'ka'])
    if kind == 'kw':
        return KeyWrap(uhdr=w.given('kw headers', lambda q: {'ALG': 'A128KW', H.KID: HI.byts(q)}), payload=cek, key=symmetric(w, 16))
    own, peer = w.given('own key', lambda q: HI.ec2(q, 1)[1]), w.given('peer key', lambda q: HI.ec2(q, 1)[2])
    x = KeyAgreementWithKeyWrap(phdr=w.given('ka headers', lambda q: {H.Algorithm: -32, H.PartyUNonce: HI.byts(q)}), payload=cek, key=own,
                                uhdr={H.StaticKey: {1: 2, -1: 1, -2: own.x, -3: own.y}})
    x.local_attrs = w.given('local attributes', lambda q: {H.StaticKey: HI.ec2(q, 1)[2], H.SuppPubOther: HI.byts(q)})
    del peer
    return x


def build(w, seed):
    """An object and its operations; the object depends on the seeds alone."""
    r = random.Random(f'{w.seed} object {seed}')
    kind = r.choice(['sign1', 'sign', 'mac0', 'enc0', 'mac', 'enc', 'received', 'key', 'recipient'])
    payload, aad = HI.byts(r), r.choice([b'', HI.byts(r)])
    if kind == 'sign1':
        i = r.choice(SIGNING)
        ph, uh = headers(w, {1: i})
        m = Sign1Message(phdr=ph, uhdr=uh, payload=payload, external_aad=aad, key=signature_key(w, i))
        return m, [('sign', m.compute_signature), ('encode', m.encode), ('bare', lambda: m.encode(sign=False, tag=False))]
    if kind == 'sign':
        ids = [r.choice(SIGNING) for _ in range(r.choice([1, 2]))]
        sg = []
        for i in ids:
            ph, uh = headers(w, {1: i})
            sg.append(CoseSignature(phdr=ph, uhdr=uh, external_aad=aad, key=signature_key(w, i)))
        ph, uh = headers(w, {1: -8})
        m = SignMessage(phdr=ph, uhdr=uh, payload=payload, signers=sg)
        return m, [('encode', m.encode), ('one', sg[0].compute_signature), ('encode signer', lambda: sg[-1].encode(None))]
    if kind in ('mac0', 'mac'):
        i = r.choice(TAGGING)
        ph, uh = headers(w, {1: i})
        n = R.CBCMAC[i][0] if i in R.CBCMAC else 32
        if kind == 'mac0':
            m = Mac0Message(phdr=ph, uhdr=uh, payload=payload, external_aad=aad, key=symmetric(w, n))
        elif r.random() < .5:
            d = w.given('direct recipient', lambda q: DirectEncryption(uhdr={H.Algorithm: 'direct', H.KID: HI.byts(q)}))
            m = MacMessage(phdr=ph, uhdr=uh, payload=payload, external_aad=aad, key=symmetric(w, n), recipients=[d])
        else:
            cek = HI.byts(r, n)
            m = MacMessage(phdr=ph, uhdr=uh, payload=payload, external_aad=aad, recipients=[recipient(w, r, cek) for _ in range(r.choice([1, 2]))])
        return m, [('tag', m.compute_tag), ('encode', m.encode)]
    if kind in ('enc0', 'enc'):
        i = r.choice(ENCRYPTING)
        must = r.choice([{1: i, 5: None}, {1: i, 6: None}])
        ph, uh = headers(w, must)
        n = 7 if i in (12, 13, 32, 33) else 12 if i < 10 else 13
        key = symmetric(w, R.KEYLEN[i], n)
        if kind == 'enc0':
            m = Enc0Message(phdr=ph, uhdr=uh, payload=payload, external_aad=aad, key=key)
        elif r.random() < .5:
            d = w.given('direct recipient', lambda q: DirectEncryption(uhdr={H.Algorithm: 'direct', H.KID: HI.byts(q)}))
            m = EncMessage(phdr=ph, uhdr=uh, payload=payload, external_aad=aad, key=key, recipients=[d])
        else:
            ph, uh = headers(w, {1: i, 5: None})
            cek = HI.byts(r, R.KEYLEN[i])
            m = EncMessage(phdr=ph, uhdr=uh, payload=payload, external_aad=aad, recipients=[recipient(w, r, cek) for _ in range(r.choice([1, 2]))])
        return m, [('encrypt', m.encrypt), ('encode', m.encode)]
    if kind == 'received':
        # by the tag: a COSE_Mac0, opened with the shared key
        i = r.choice(TAGGING)
        n = R.CBCMAC[i][0] if i in R.CBCMAC else 32
        key = symmetric(w, n)
        data = w.given(f'received {i}', lambda q: Mac0Message(phdr={H.Algorithm: i}, uhdr={H.KID: HI.byts(q), 'list': [1, [2]]}, payload=HI.byts(q),
                                                             key=SymmetricKey(k=key.k)).encode())
        m = CoseMessage.decode(data)
        m.key = key
        return m, [('check', m.verify_tag), ('forward', lambda: m.encode(mac=False)), ('decode', lambda: shown(CoseMessage.decode(data).uhdr))]
    if kind == 'key':
        t = r.choice(['symmetric', 'OKP', 'EC2', 'RSA'])
        q = random.Random(f'{w.seed} {t}')
        mat, opt = KH.material(q, t), KH.optional(q, t)
        d = w.given(f'{t} dictionary', lambda q: copy.deepcopy({KP.KpKty: K.KTY[t], **{k: v for k, v in opt.items() if k is not KP.KpKty}, **mat}))
        p = w.given(f'{t} parameters', lambda q: copy.deepcopy(opt))
        if r.random() < .5:
            m = CoseKey.from_dict(d)
        else:
            m = {'symmetric': lambda: SymmetricKey(mat[KP.SymKpK], optional_params=p),
                 'OKP': lambda: OKPKey(mat[KP.OKPKpCurve], mat.get(KP.OKPKpX, b''), mat.get(KP.OKPKpD, b''), optional_params=p),
                 'EC2': lambda: EC2Key(mat[KP.EC2KpCurve], mat[KP.EC2KpX], mat[KP.EC2KpY], mat.get(KP.EC2KpD, b''), optional_params=p),
                 'RSA': lambda: RSAKey(**{n: mat[K.RSA_BY_NAME[n]] for n in K.RSA_NAMES if K.RSA_BY_NAME[n] in mat}, optional_params=p)}[t]()
        return m, [('encode', m.encode), ('items', lambda: shown(dict(m))), ('again', lambda: CoseKey.decode(m.encode()).encode())]
    cek = HI.byts(r, 16)
    m = recipient(w, r, cek)
    return m, [('wrap', lambda: m.encrypt(TARGET)), ('encode', lambda: m.encode(target_alg=TARGET)), ('key', lambda: m.compute_cek(TARGET, 'encrypt').k)]


def changes(m, seed):
    """Changes of one object through its interface."""
    r = random.Random(seed)
    if isinstance(m, CoseKey):
        return [('kid=', lambda: setattr(m, 'kid', b'new')), ('ops=', lambda: setattr(m, 'key_ops', ['SIGN'])), ('item', lambda: m.__setitem__('x', [1])),
                ('delete', lambda: m.__delitem__(KP.KpKid))]
    v = HI.byts(r)
    out = [('phdr_update', lambda: m.phdr_update({H.KID: v})), ('uhdr_update', lambda: m.uhdr_update({'extra': v})), ('external_aad=', lambda: setattr(m, 'external_aad', v)),
           ('phdr=', lambda: setattr(m, 'phdr', {k: x for k, x in m.phdr.items() if k is not H.KID}))]
    if not isinstance(m, SignMessage):
        out.append(('key ids', lambda: m.get_attr(H.KID)))
    return out


def outcome(f):
    try:
        return 'value', shown(f())
    except Exception as e:
        return 'refused', type(e).__name__


def look(m):
    """What there is to see, without an operation."""
    try:
        repr(m)
    except Exception:
        pass
    if isinstance(m, CoseKey):
        return shown(m)
    return [shown(m.phdr), shown(m.uhdr), m.payload, m.external_aad, shown(dict(m.local_attrs))]


def run(w, seeds, order, check):
    """The results of every object, its operations performed in the given order."""
    objs = {s: build(w, s) for s in set(seeds)}
    out = {s: [] for s in objs}
    for s, kind, j, v in order:
        m, ops = objs[s]
        was = look(m)
        if kind == 'change':
            f = changes(m, v)
            name, f = f[j % len(f)]
            out[s].append((name, outcome(f)))
            continue
        name, f = ops[j % len(ops)]
        x = outcome(f)
        y = outcome(f)
        if x[0] == y[0] == 'value' and check:
            KH.same(y, x, f'{type(m).__name__}: repeating {name}')
            KH.same(look(m), was, f'{type(m).__name__}: {name} changes the object')
        out[s].append((name, x))
    return out


def interleaved(r):
    seed, n = r.randrange(2 ** 30), r.choice([1, 2, 3, 4])
    order = [(r.randrange(n), 'change' if r.random() < .25 else 'operation', r.randrange(12), r.randrange(1000)) for _ in range(r.choice([3, 6, 10]))]
    w = World(seed, True)
    together = run(w, range(n), order, True)
    w.unchanged()
    for s in range(n):
        alone = run(World(seed, False), [s], [o for o in order if o[0] == s], False)
        KH.same(together[s], alone[s], 'an object among others, against the same object alone')


HISTORIES = [History('several messages and keys of the same inputs, operations in any order', interleaved, tries=250)]
