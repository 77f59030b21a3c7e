"""C14: all recipients of a message obtain the one content encryption key."""
from pycose import algorithms as AL
from pycose import headers as H
from pycose.keys import curves as CU
from pycose.keys import EC2Key, SymmetricKey
from pycose.keys import keyparam as KP
from pycose.messages import CoseMessage, EncMessage, MacMessage
from pycose.messages.recipient import DirectKeyAgreement, KeyAgreementWithKeyWrap, KeyWrap
from pyvc.contract import Contract, State
from specs import algs as A
from specs import common as S
from specs import lemmas as L
from specs import prims as P
from specs import rcpt as RC
from specs import registry as R
from specs import shapes as SH
from specs.c11 import protect, rcpt, sent, wire
from specs.c15 import ALL, BARE
from specs import hist

CONTENT = {EncMessage: (1, 2, 3, 10, 30), MacMessage: (14, 26, 5)}


# ---- protecting: one content key, wrapped for every recipient --------------------------------------------

def wrapping(cx, name, cls, ids, lens=(16, 24, 32)):
    """A wrapping recipient, ready for use, with or without a preset key."""
    preset = cx.bytes(name + '.cek') if cx.choice(name + '.preset', [False, True]) else b''
    kid = (H.KID, cx.bytes(name + '.kid'))
    alg = SH.of_ids([cx.choice(name + '.alg', list(ids[cls]))])[0]
    if cls is KeyWrap:
        r = SH.msg(cx, cls, name, payload='bytes', enc=None, key=SH.sym_key(cx, name + '.key', lens=lens, schema=BARE),
                   ph=cx.pydict([]), uh=cx.pydict([(H.Algorithm, alg), kid]))
    else:
        own, peer = (SH.ec2_key(cx, name + n, (CU.P256,), private=n == 'own', schema=BARE) for n in ('own', 'peer'))
        r = SH.msg(cx, cls, name, payload='bytes', enc=None, key=own, ph=cx.pydict([(H.Algorithm, alg)]), uh=cx.pydict([kid]),
                   _local_attrs=cx.pydict([(H.StaticKey, peer)]))
    return SH.put(r, _payload=preset)


def message(cx, cls, rs, ids):
    alg = SH.of_ids([cx.choice('content', list(ids))])[0]
    a, b = [(H.Algorithm, alg)], [(H.IV, cx.bytes('iv'))]
    return SH.msg(cx, cls, 'm', payload='bytes', ph=cx.pydict(a), uh=cx.pydict(b), enc=None, _recipients=cx.lst(rs))


def one(cx):
    """One recipient: every key wrap and content algorithm."""
    cls = cx.choice('message', [EncMessage, MacMessage])
    kind = cx.choice('class', [KeyWrap, KeyAgreementWithKeyWrap])
    if cx.choice('vary', ['content', 'wrap']) == 'content':
        rs, ids = [wrapping(cx, 'r0', kind, {KeyWrap: [-3], KeyAgreementWithKeyWrap: [-32]}, (16,))], CONTENT[cls]
    else:
        rs, ids = [wrapping(cx, 'r0', kind, {KeyWrap: [-3, -4, -5], KeyAgreementWithKeyWrap: [-32, -33, -34]})], CONTENT[cls][:1]
    return State(m=message(cx, cls, rs, ids))


def some(mixes):
    """Several recipients with equal, different, some or no preset keys."""
    def shape(cx):
        cls = cx.choice('message', [EncMessage, MacMessage])
        mix = mixes[cx.choice('recipients', list(range(len(mixes))))]
        rs = [wrapping(cx, f'r{i}', c, {KeyWrap: [-3], KeyAgreementWithKeyWrap: [-32]}, (16,)) for i, c in enumerate(mix)]
        return State(m=message(cx, cls, rs, CONTENT[cls][:1]))
    return shape


def i_protect(s):
    b = s.m.encode()
    return b, s.m.key.k, s.m.key.alg, [r.payload for r in s.m.recipients]


def content_key(m, alg):
    key = b''
    for r in m._recipients:
        if r._payload != b'':
            if key != b'' and key != r._payload:
                raise S.Refused('different content keys')
            key = r._payload
    if key == b'':
        key = P.urandom(A.key_length(alg))
    if len(key) not in (16, 24, 32):
        raise S.Refused('length of the content key')
    return key


def wrapped(r, key):
    return RC.wrap(r, key) if isinstance(r, KeyWrap) else RC.agree_wrap(r, key)


def s_protect(s):
    m = s.m
    alg = S.header(m, H.Algorithm)
    key = content_key(m, alg)
    rs = [[S.protected(r), r._uhdr, wrapped(r, key)] for r in m._recipients]
    return wire(m, True, [S.protected(m), m._uhdr] + protect(m, key) + [rs]), key, alg, [key for r in m._recipients]


def direct(cx):
    """Direct key agreement: the content key is the agreed one."""
    cls = cx.choice('message', [EncMessage, MacMessage])
    r = SH.put(rcpt(cx, 'r', DirectKeyAgreement, b'', None), _uhdr=cx.pydict([(H.PartyUID, cx.bytes('identity'))]))
    return State(m=message(cx, cls, [r], CONTENT[cls]))


def i_direct(s):
    b = s.m.encode()
    return b, s.m.key.k, s.m.key.alg


def s_direct(s):
    m, r = s.m, s.m._recipients[0]
    alg = S.header(m, H.Algorithm)
    key = RC.agree(r, alg, True)
    return wire(m, True, [S.protected(m), m._uhdr] + protect(m, key) + [[[S.protected(r), r._uhdr, b'']]]), key, alg


# ---- recovering the key ----------------------------------------------------------------------------------

TARGET = AL.A128GCM


def kw_pair(cx):
    alg = SH.of_ids([cx.choice('alg', [-3, -4, -5])])[0]
    return State(r=wrapper(cx, alg, SH.sym_key(cx, 'key', schema=BARE)), target=TARGET)


def rsa_pair(cx):
    alg = SH.of_ids([cx.choice('alg', [-40, -41, -42])])[0]
    return State(r=wrapper(cx, alg, SH.rsa_key(cx, 'key', True, schema=BARE)), target=TARGET)


def wrapper(cx, alg, key):
    r = SH.msg(cx, KeyWrap, 'r', enc=None, key=key, ph=cx.pydict([]), uh=cx.pydict([(H.Algorithm, alg)]))
    return SH.put(r, _payload=cx.bytes('cek', lens=(16, 24, 32)))


def i_kw(s):
    s.r.payload = s.r.encrypt(s.target)
    k = s.r.compute_cek(s.target, 'decrypt')
    return k.k, k.alg


def s_kw(s):
    RC.wrap(s.r)
    return s.r._payload, s.target


def s_rsa(s):
    w = RC.wrap(s.r)
    P.rsa_decrypt(R.RSA_ENC[S.header(s.r, H.Algorithm).identifier], A.rsa_private(s.r._key), w)
    return s.r._payload, s.target


def agreed_pair(cls, ids, curves=ALL):
    """The recipient structure as the sender has it, and as the receiver has it; same headers, each with its own key."""
    def shape(cx):
        crv = cx.choice('curve', list(curves))
        (ka, pa), (kb, pb) = SH.ec2_pair(cx, 'a', crv, BARE), SH.ec2_pair(cx, 'b', crv, BARE)
        alg = SH.of_ids([cx.choice('alg', list(ids))])[0]
        es = alg.identifier in RC.EPHEMERAL
        ident, out = (H.PartyUID, cx.bytes('identity')), []
        for n, key, loc in (('sender', ka, [(H.StaticKey, pb)]), ('receiver', kb, [])):
            r = SH.msg(cx, cls, n, enc=None, key=key, ph=cx.pydict([(H.Algorithm, alg)]),
                       uh=cx.pydict([ident, (H.EphemeralKey if es else H.StaticKey, pa)]), _local_attrs=cx.pydict(loc))
            out.append(SH.put(r, alg_tstr_encoding=False))
        a, b = out
        return State(a=SH.put(a, _payload=cx.bytes('cek', lens=(16, 24, 32)) if cls is KeyAgreementWithKeyWrap else b''), b=b, target=TARGET)
    return shape


def i_both_wrap(s):
    s.b.payload = s.a.encrypt(s.target)
    k = s.b.compute_cek(s.target, 'decrypt')
    return k.k, k.alg


def s_both_wrap(s):
    RC.agree_wrap(s.a)
    return s.a._payload, s.target


def i_both_direct(s):
    a = s.a.compute_cek(s.target, 'encrypt')
    b = s.b.compute_cek(s.target, 'decrypt')
    return a.k == b.k, a.k


def s_both_direct(s):
    return True, RC.agree(s.a, s.target, True)


# ---- opening a message -----------------------------------------------------------------------------------

def opening(cx):
    """A received message of one or two recipients, opened for one of them."""
    n = cx.choice('number', [1, 2])
    rs = []
    kinds = [KeyWrap, KeyAgreementWithKeyWrap] + ([DirectKeyAgreement] if n == 1 else [])
    for i in range(n):
        cls = cx.choice(f'class{i}', kinds)
        if cls is KeyWrap:
            r = SH.msg(cx, cls, f'r{i}', payload='bytes', key=SH.sym_key(cx, f'key{i}', lens=(16,), schema=BARE),
                       ph=cx.pydict([]), uh=cx.pydict([(H.Algorithm, AL.A128KW)]))
        else:
            own, peer = (SH.ec2_key(cx, f'{w}{i}', (CU.P256,), private=w == 'own', schema=BARE) for w in ('own', 'peer'))
            alg = SH.of_ids([cx.choice(f'alg{i}', [-29, -32] if cls is KeyAgreementWithKeyWrap else [-25, -27])])[0]
            r = SH.msg(cx, cls, f'r{i}', payload='bytes', key=own, ph=cx.pydict([(H.Algorithm, alg)]),
                       uh=cx.pydict([(H.EphemeralKey if alg.identifier in RC.EPHEMERAL else H.StaticKey, peer)]))
        rs.append(r)
    return State(m=message(cx, EncMessage, rs, (1, 10)), who=cx.choice('who', list(range(n))))


def i_opening(s):
    return s.m.decrypt(s.m.recipients[s.who])


def s_opening(s):
    m, r = s.m, s.m._recipients[s.who]
    alg = S.header(m, H.Algorithm)
    if isinstance(r, DirectKeyAgreement):
        key = RC.agree(r, alg, False)
    else:
        key = RC.unwrap(r) if isinstance(r, KeyWrap) else RC.agree_unwrap(r)
        if len(key) not in (16, 24, 32):
            raise S.Refused('length of the content key')
    return A.aead_dec(alg, key, S.header(m, H.IV), m._payload, S.enc_structure('Encrypt', m))


def whole(cx):
    """A message for one or two key wrap recipients, sent, decoded and opened by one of them."""
    n = cx.choice('number', [1, 2])
    rs, keys = [], []
    for i in range(n):
        k = SH.sym_key(cx, f'key{i}', lens=(16,), schema=BARE)
        r = SH.msg(cx, KeyWrap, f'r{i}', payload='bytes', enc=None, key=k, ph=cx.pydict([]),
                   uh=cx.pydict([(H.Algorithm, AL.A128KW), (H.KID, cx.bytes(f'kid{i}'))]))
        rs.append(SH.put(r, _payload=b'', alg_tstr_encoding=False))
        keys.append(k)
    m = message(cx, EncMessage, rs, (1, 10))
    return State(m=SH.put(m, alg_tstr_encoding=False), keys=keys, who=cx.choice('who', list(range(n))))


def i_whole(s):
    d = CoseMessage.decode(s.m.encode())
    d.external_aad = s.m.external_aad
    r = d.recipients[s.who]
    r.key = s.keys[s.who]
    return d.decrypt(r), d.key.k == s.m.key.k


def s_whole(s):
    m = s.m
    key = content_key(m, S.header(m, H.Algorithm))
    for r in m._recipients:
        wrapped(r, key)
    protect(m, key)
    return m._payload, True


M = 'pycose.messages.'
R_ = M + 'recipient.'
FP = [M + 'encmessage.EncMessage.encode', M + 'encmessage.EncMessage.encrypt', M + 'macmessage.MacMessage.compute_tag',
      R_ + 'KeyWrap.encrypt', R_ + 'KeyAgreementWithKeyWrap.encrypt', R_ + 'DirectKeyAgreement.compute_cek']
FR = [R_ + 'KeyWrap.decrypt', R_ + 'KeyWrap.compute_cek', R_ + 'KeyAgreementWithKeyWrap.decrypt', R_ + 'KeyAgreementWithKeyWrap.compute_cek',
      R_ + 'DirectKeyAgreement.compute_cek']
W2 = [[KeyWrap, KeyWrap], [KeyWrap, KeyAgreementWithKeyWrap], [KeyAgreementWithKeyWrap, KeyAgreementWithKeyWrap]]
W3 = [[KeyWrap, KeyWrap, KeyWrap]]
ASSUMED = [L.KEY_OF_DICT]
ASSUMPTIONS = [L.PARSE_TEXT]
CONTRACTS = [
    L.aes_mac(),
    L.parse_header(),
    Contract('one wrapping recipient', one, i_protect, s_protect, funcs=FP, watch=False),
    Contract('two wrapping recipients', some(W2), i_protect, s_protect, funcs=FP, watch=False, bounded='at most three recipients'),
    Contract('three wrapping recipients', some(W3), i_protect, s_protect, funcs=FP, watch=False, bounded='at most three recipients'),
    Contract('direct key agreement', direct, i_direct, s_direct, funcs=FP, watch=False),
    Contract('unwrapping inverts AES key wrap', kw_pair, i_kw, s_kw, funcs=FR, watch=False),
    Contract('unwrapping inverts RSA key transport', rsa_pair, i_kw, s_rsa, funcs=FR, watch=False),
    Contract('unwrapping inverts key agreement with key wrap', agreed_pair(KeyAgreementWithKeyWrap, (-29, -30, -31, -32, -33, -34)),
             i_both_wrap, s_both_wrap, funcs=FR, watch=False),
    Contract('both parties of a direct key agreement have the same key', agreed_pair(DirectKeyAgreement, (-25, -26, -27, -28)),
             i_both_direct, s_both_direct, funcs=FR, watch=False),
    Contract('opening a message for one of its recipients', opening, i_opening, s_opening, funcs=FR + [M + 'encmessage.EncMessage.decrypt'],
             watch=False, bounded='at most two recipients'),
    Contract('encrypting, sending and opening', whole, i_whole, s_whole, funcs=FP + FR, watch=False, bounded='at most two recipients'),
]
HISTORIES = hist.of('enc', 'mac')
