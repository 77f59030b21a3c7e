"""C13: recipient structures follow the rules of their algorithm class."""
from pycose import algorithms as AL
from pycose import headers as H
from pycose.keys import curves as CU
from pycose.messages import Enc0Message, EncMessage, MacMessage
from pycose.messages.recipient import DirectEncryption, DirectKeyAgreement, KeyAgreementWithKeyWrap, KeyWrap
from pycose.messages.signer import CoseSignature
from pyvc.contract import Contract, State
from specs import algs as A
from specs import common as S
from specs import lemmas as L
from specs import rcpt as RC
from specs import shapes as SH
from specs import wire as W
from specs.c11 import rcpt, sent
from specs.c12 import F, FR, head, i_arr, nested, nested2, one, s_arr, three, two
from specs.c15 import BARE, PARTY
from specs import hist


def algorithms(cx, ids):
    """No algorithm, one of the class in one of the buckets, or in both; other parameters arbitrary."""
    algs = SH.of_ids(ids)
    ph = cx.dict('r.phdr', {H.Algorithm: ('enum', algs), H.EphemeralKey: 'absent', H.KID: 'any', **{p: 'absent' for p in PARTY}})
    uh = cx.dict('r.uhdr', {H.Algorithm: ('enum', algs), H.EphemeralKey: 'absent', H.KID: 'any', **{p: 'absent' for p in PARTY}})
    return ph, uh


def further(cx, cls=DirectEncryption):
    if cx.choice('further', [False, True]):
        return cx.lst([cls()])
    return cx.lst([])


def i_encode(s):
    return s.r.encode(target_alg=s.target)


# ---- direct encryption -----------------------------------------------------------------------------------

def direct(cx):
    ph, uh = algorithms(cx, W.DIRECT)
    r = SH.msg(cx, DirectEncryption, 'r', payload='bytes', ph=ph, uh=uh, _recipients=further(cx))
    return State(r=r, target=AL.A128GCM)


def s_direct(s):
    alg = S.header(s.r, H.Algorithm)
    if alg is None:
        raise S.Refused('no algorithm')
    if alg.identifier == -6 and len(s.r._phdr) > 0:
        raise S.Refused('protected header')
    if len(s.r._recipients) > 0:
        raise S.Refused('further recipients')
    return [S.protected(s.r), s.r._uhdr, b'']


# ---- key wrap --------------------------------------------------------------------------------------------

def wrap(cx):
    ph, uh = algorithms(cx, W.AESKW)
    r = SH.msg(cx, KeyWrap, 'r', payload='bytes', ph=ph, uh=uh, key=SH.sym_key(cx, 'key', schema=BARE))
    inner = []
    if cx.choice('further', [False, True]):
        inner = [rcpt(cx, 'i', cx.choice('class', [KeyWrap, KeyAgreementWithKeyWrap]), cx.bytes('kek', lens=(16, 24, 32)), None)]
    return State(r=SH.put(r, _recipients=cx.lst(inner)), target=AL.A128GCM)


def s_wrap(s):
    out = [S.protected(s.r), s.r._uhdr, RC.wrap(s.r)]
    if len(s.r._recipients) > 0:
        out = out + [[sent(x) for x in s.r._recipients]]
    return out


# ---- key agreement ---------------------------------------------------------------------------------------

def agreement(cls, ids):
    def shape(cx):
        algs = SH.of_ids(ids)
        ph, uh = algorithms(cx, ids)
        own = SH.ec2_key(cx, 'own', (CU.P256,), private=True, schema=BARE) if cx.choice('own', [True, False]) else None
        loc = []
        if cx.choice('peer', [True, False]):
            loc = [(H.StaticKey, SH.ec2_key(cx, 'peer', (CU.P256,), private=False, schema=BARE))]
        r = SH.msg(cx, cls, 'r', payload='bytes', ph=ph, uh=uh, key=own, _local_attrs=cx.pydict(loc))
        if cls is DirectKeyAgreement:
            SH.put(r, _recipients=further(cx))
        return State(r=r, target=AL.A128GCM)
    return shape


def with_ephemeral(cls, ids):
    """The ephemeral key in one of the buckets or in both."""
    def shape(cx):
        alg = SH.of_ids([cx.choice('alg', list(ids))])[0]
        k = SH.ec2_key(cx, 'ephemeral', (CU.P256,), private=False, schema=BARE)
        where = cx.choice('ephemeral in', ['protected', 'unprotected', 'both', 'neither'])
        ph, uh = [(H.Algorithm, alg)], [(H.KID, cx.bytes('kid'))]
        if where in ('protected', 'both'):
            ph.append((H.EphemeralKey, k))
        if where in ('unprotected', 'both'):
            uh.append((H.EphemeralKey, k))
        own = SH.ec2_key(cx, 'own', (CU.P256,), private=True, schema=BARE) if where == 'neither' or cx.choice('own', [True, False]) else None
        peer = SH.ec2_key(cx, 'peer', (CU.P256,), private=False, schema=BARE)
        r = SH.msg(cx, cls, 'r', payload='bytes', enc=None, ph=cx.pydict(ph), uh=cx.pydict(uh), key=own,
                   _local_attrs=cx.pydict([(H.StaticKey, peer)]))
        return State(r=r, target=AL.A128GCM)
    return shape


def s_agreement(s):
    alg = S.header(s.r, H.Algorithm)
    if alg is None:
        raise S.Refused('no algorithm')
    if H.StaticKey not in s.r._local_attrs:
        raise S.Refused('no key of the peer')
    if len(s.r._recipients) > 0:
        raise S.Refused('further recipients')
    e = S.header(s.r, H.EphemeralKey)
    if s.r._key is None:
        # an ephemeral-static agreement would make a key of its own, beside the one that is there
        raise S.Refused('no own key')
    if alg.identifier in W.DKA_ES and e is None:
        raise S.Refused('no ephemeral key')
    return [S.protected(s.r), s.r._uhdr, b'']


def s_agreed_wrap(s):
    alg = S.header(s.r, H.Algorithm)
    if alg is None or s.r._key is None:
        raise S.Refused('no algorithm or own key')
    return [S.protected(s.r), s.r._uhdr, RC.agree_wrap(s.r)]


# ---- the recipients of a message -------------------------------------------------------------------------

ALL = W.RECIPIENTS


def ready(cx, name, cls, cek):
    return rcpt(cx, name, cls, cek, None)


def mix_of(cx, n):
    """A forbidden combination."""
    m = []
    for i in range(n - 1):
        m.append(cx.choice(f'class{i}', ALL))
    if DirectKeyAgreement in m:
        m.append(cx.choice(f'class{n - 1}', ALL))
    elif DirectEncryption in m:
        if all(c is DirectEncryption for c in m):
            m.append(cx.choice(f'class{n - 1}', [KeyWrap, DirectKeyAgreement, KeyAgreementWithKeyWrap]))
        else:
            m.append(cx.choice(f'class{n - 1}', ALL))
    else:
        m.append(cx.choice(f'class{n - 1}', [DirectEncryption, DirectKeyAgreement]))
    return m


def layered(n):
    def shape(cx):
        cls = cx.choice('message', [EncMessage, MacMessage])
        cek = cx.bytes('cek', lens=(16,))
        rs = [ready(cx, f'r{i}', c, cek) for i, c in enumerate(mix_of(cx, n))]
        alg = AL.A128GCM if cls is EncMessage else AL.HMAC256
        m = SH.msg(cx, cls, 'm', payload='bytes', key=SH.plain_key(cx), ph=cx.pydict([(H.Algorithm, alg)]),
                   uh=cx.pydict([(H.IV, cx.bytes('iv'))]), _recipients=cx.lst(rs))
        how = cx.choice('how', ['encode', 'protect', 'decrypt'] if cls is EncMessage else ['encode', 'protect'])
        return State(m=m, how=how, who=cx.choice('who', list(range(n))) if how == 'decrypt' else 0)
    return shape


def i_layered(s):
    try:
        if s.how == 'encode':
            s.m.encode()
        elif s.how == 'decrypt':
            s.m.decrypt(s.m.recipients[s.who])
        elif isinstance(s.m, EncMessage):
            s.m.encrypt()
        else:
            s.m.compute_tag()
    except Exception:
        return 'refused'
    return 'done'


def s_layered(s):
    return 'refused'


def stranger(cx):
    """A recipient that the message does not have, and a recipient of a recipient of another message."""
    cek = cx.bytes('cek', lens=(16,))
    cls = cx.choice('class', ALL)
    rs = [ready(cx, 'r', cls, cek)] if cx.choice('recipients', [1, 0]) else []
    other = ready(cx, 'o', cls, cek)
    if cx.choice('nested', [False, True]):
        inner = ready(cx, 'i', KeyWrap, cek)
        other = SH.put(other, _recipients=cx.lst([inner]))
    m = SH.msg(cx, EncMessage, 'm', payload='bytes', key=SH.plain_key(cx), ph=cx.pydict([(H.Algorithm, AL.A128GCM)]),
               uh=cx.pydict([(H.IV, cx.bytes('iv'))]), _recipients=cx.lst(rs))
    return State(m=m, other=other)


def i_stranger(s):
    try:
        s.m.decrypt(s.other)
    except Exception:
        return 'refused'
    return 'done'


# ---- assigning recipients --------------------------------------------------------------------------------

class Foreign:
    pass


OTHERS = ['signature', 'message', 'dict', 'bytes', 'none', 'class', 'object', 'int']


def element(cx, name):
    k = cx.choice(name, ['recipient', 'same'] + OTHERS if name == 'e0' else ['recipient', 'none', 'signature'])
    if k == 'recipient':
        return cx.choice(name + '.class', ALL)(), True
    return {'same': None, 'signature': CoseSignature(), 'message': Enc0Message(), 'dict': {}, 'bytes': b'r', 'none': None,
            'class': KeyWrap, 'object': Foreign(), 'int': 4}[k], k == 'same'


def assign(cx):
    cls = cx.choice('class', [EncMessage, MacMessage, KeyWrap, KeyAgreementWithKeyWrap])
    old = KeyWrap()
    n = cx.choice('number', [None, 0, 1, 2, 3])
    items, good = [], True
    for i in range(n or 0):
        e, g = (KeyWrap(), True) if i == 1 and n == 3 else element(cx, f'e{i}')
        if e is None and g:
            e = old
        items.append(e)
        good = good and g
    m = cls()
    SH.put(m, _recipients=cx.lst([old]), _phdr=cx.pydict([]), _uhdr=cx.pydict([]))
    return State(m=m, old=old, items=None if n is None else cx.lst(items), good=good)


def which(r, s):
    if r is s.old:
        return 'old'
    if s.items is not None:
        for i in range(len(s.items)):
            if r is s.items[i]:
                return i
    return 'another'


def i_assign(s):
    try:
        s.m.recipients = s.items
        done = True
    except Exception:
        done = False
    return done, [which(r, s) for r in s.m.recipients]


def s_assign(s):
    if not s.good:
        return False, ['old']
    return True, [] if s.items is None else [which(r, s) for r in s.items]


def i_own_list(s):
    """The list of the caller stays the caller's."""
    s.m.recipients = s.items
    s.items.append(Foreign())
    return len(s.m.recipients)


def s_own_list(s):
    return len(s.items)


def own_list(cx):
    cls = cx.choice('class', [EncMessage, MacMessage, KeyWrap])
    return State(m=cls(), items=cx.lst([KeyWrap() for i in range(cx.choice('number', [0, 1, 2]))]))


M = 'pycose.messages.'
R = M + 'recipient.'
FE = [R + c.__name__ + '.encode' for c in ALL]
FL = [M + 'encmessage.EncMessage.encrypt', M + 'encmessage.EncMessage.decrypt', M + 'macmessage.MacMessage.compute_tag',
      R + 'CoseRecipient.verify_recipients', R + 'CoseRecipient.has_recipient']
FS = [M + 'encmessage.EncMessage.recipients', M + 'macmessage.MacMessage.recipients', R + 'CoseRecipient.recipients']
ASSUMED = [L.KEY_OF_DICT]
ASSUMPTIONS = [L.PARSE_TEXT]
CONTRACTS = [
    L.parse_header(),
    Contract('decoding one recipient', one, i_arr, s_arr, funcs=FR, bounded='lists of recipients of at most three, nested at most once'),
    Contract('decoding two recipients', two, i_arr, s_arr, funcs=FR, bounded='lists of recipients of at most three, nested at most once'),
    Contract('decoding nested recipients', nested, i_arr, s_arr, funcs=FR, bounded='lists of recipients of at most three, nested at most once'),
    Contract('encoding direct encryption', direct, i_encode, s_direct, funcs=FE, watch=False, bounded='at most one further recipient'),
    Contract('encoding key wrap', wrap, i_encode, s_wrap, funcs=FE, watch=False, bounded='at most one further recipient'),
    Contract('encoding direct key agreement', agreement(DirectKeyAgreement, [-27, -28]), i_encode, s_agreement, funcs=FE, watch=False,
             bounded='at most one further recipient'),
    Contract('encoding direct key agreement with ephemeral key', with_ephemeral(DirectKeyAgreement, W.DKA), i_encode, s_agreement, funcs=FE,
             watch=False),
    Contract('encoding key agreement with key wrap', agreement(KeyAgreementWithKeyWrap, [-32, -33, -34]), i_encode, s_agreed_wrap,
             funcs=FE, watch=False),
    Contract('encoding key agreement with key wrap and ephemeral key', with_ephemeral(KeyAgreementWithKeyWrap, [-29, -30, -31]), i_encode,
             s_agreed_wrap, funcs=FE, watch=False),
    Contract('two recipients that do not go together', layered(2), i_layered, s_layered, funcs=FL, bounded='two or three recipients'),
    Contract('three recipients that do not go together', layered(3), i_layered, s_layered, funcs=FL, bounded='two or three recipients'),
    Contract('decrypting for a recipient of another message', stranger, i_stranger, s_layered, funcs=FL,
             bounded='at most one recipient'),
    Contract('assigning recipients', assign, i_assign, s_assign, funcs=FS, watch=False, bounded='at most three recipients'),
    Contract('the assigned list is copied', own_list, i_own_list, s_own_list, funcs=FS, watch=False, bounded='at most two recipients'),
]
HISTORIES = hist.of('enc', 'mac', tries=40)
