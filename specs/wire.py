"""COSE structures on the wire (RFC 8152): what decoding yields, independent of the code."""
from pycose import algorithms as A
from pycose import headers as H
from pycose.messages import Enc0Message, EncMessage, Mac0Message, MacMessage, Sign1Message, SignMessage
from pycose.messages.recipient import CoseRecipient, DirectEncryption, DirectKeyAgreement, KeyAgreementWithKeyWrap, KeyWrap
from pycose.messages.signer import CoseSignature
from specs import common as S
from specs import prims as P
from specs import rcpt as RC
from specs import registry as R

TAGS = {16: Enc0Message, 17: Mac0Message, 18: Sign1Message, 96: EncMessage, 97: MacMessage, 98: SignMessage}
CLASSES = [Enc0Message, Mac0Message, Sign1Message, EncMessage, MacMessage, SignMessage]
RECIPIENTS = [DirectEncryption, KeyWrap, DirectKeyAgreement, KeyAgreementWithKeyWrap]
DIRECT = (-6, -10, -13)       # the other two of the class are not implemented: an exception
AESKW = (-3, -4, -5)
RSAKW = (-40, -41, -42)
DKA = (-25, -26, -27, -28)
DKA_ES = (-25, -26)
KAWKW = (-29, -30, -31, -32, -33, -34)


def tag_of(c):
    for t in TAGS:
        if TAGS[t] is c:
            return t
    return None


# ---- what is observed of a message -----------------------------------------------------------------------

def view(m):
    if isinstance(m, CoseRecipient):
        return (type(m), m.phdr, m.uhdr, m.phdr_encoded, m.payload, None, [view(r) for r in m.recipients])
    if isinstance(m, CoseSignature):
        return (type(m), m.phdr, m.uhdr, m.phdr_encoded, m.signature, None, [])
    auth = None
    parts = []
    if isinstance(m, Sign1Message):
        auth = m.signature
    elif isinstance(m, (Mac0Message, MacMessage)):
        auth = m.auth_tag
    if isinstance(m, (EncMessage, MacMessage)):
        parts = [view(r) for r in m.recipients]
    elif isinstance(m, SignMessage):
        parts = [view(r) for r in m.signers]
    return (type(m), m.phdr, m.uhdr, m.phdr_encoded, m.payload, auth, parts)


# ---- decoding --------------------------------------------------------------------------------------------

def buckets(pe, uh, allow):
    if type(pe) is not bytes:
        raise S.Refused('protected header')
    if type(uh) is not dict:
        raise S.Refused('unprotected header')
    ph = {} if pe == b'' else P.uncbor(pe)
    if type(ph) is not dict:
        raise S.Refused('protected header')
    return P.parse(ph, allow), P.parse(uh, allow)


def opt_bytes(x):
    if x is not None and type(x) is not bytes:
        raise S.Refused('not a byte string')
    return x


def must_bytes(x):
    if type(x) is not bytes:
        raise S.Refused('not a byte string')
    return x


def signature(arr, allow):
    if not isinstance(arr, list) or len(arr) != 3:
        raise S.Refused('signature')
    ph, uh = buckets(arr[0], arr[1], allow)
    return (CoseSignature, ph, uh, arr[0], must_bytes(arr[2]), None, [])


def algorithm_class(alg):
    if alg is None:
        raise S.Refused('no algorithm')
    i = alg.identifier
    if i in DIRECT:
        return DirectEncryption
    if i in AESKW or i in RSAKW:
        return KeyWrap
    if i in DKA:
        return DirectKeyAgreement
    if i in KAWKW:
        return KeyAgreementWithKeyWrap
    raise S.Refused('not a recipient algorithm')


def recipient(arr, allow):
    if not isinstance(arr, list) or len(arr) < 3 or len(arr) > 4:
        raise S.Refused('recipient')
    ph, uh = buckets(arr[0], arr[1], allow)
    p, u = ph.get(H.Algorithm), uh.get(H.Algorithm)
    alg = p if p is not None else u
    cls = algorithm_class(alg)
    if p is not None and u is not None and cls is not KeyAgreementWithKeyWrap:
        raise S.Refused('algorithm in both buckets')
    ct = opt_bytes(arr[2])
    nested = []
    if len(arr) == 4:
        if not isinstance(arr[3], list):
            raise S.Refused('recipients')
        nested = [recipient(r, allow) for r in arr[3]]
    if cls is DirectEncryption:
        if ct != b'' or len(nested) > 0:
            raise S.Refused('direct encryption')
        if alg.identifier == -6 and len(ph) > 0:
            raise S.Refused('protected header')
    elif cls is KeyWrap:
        if not ct:
            raise S.Refused('no ciphertext')
        if alg.identifier in AESKW and len(ph) > 0:
            raise S.Refused('protected header')
    elif cls is DirectKeyAgreement:
        if len(nested) > 0:
            raise S.Refused('further recipients')
        if alg.identifier in DKA_ES:
            if ph.get(H.EphemeralKey) is None and uh.get(H.EphemeralKey) is None:
                raise S.Refused('no ephemeral key')
            if ph.get(H.EphemeralKey) is not None and uh.get(H.EphemeralKey) is not None:
                raise S.Refused('two ephemeral keys')
    elif not ct:
        raise S.Refused('no ciphertext')
    return (cls, ph, uh, arr[0], ct, None, nested)


def message(c, arr, allow):
    n = len(arr)
    lens = {Enc0Message: (3,), Mac0Message: (4,), Sign1Message: (4,), EncMessage: (3, 4), MacMessage: (4, 5), SignMessage: (4,)}
    if n not in lens[c]:
        raise S.Refused('number of elements')
    ph, uh = buckets(arr[0], arr[1], allow)
    payload = opt_bytes(arr[2])
    auth = None
    parts = []
    if c in (Mac0Message, MacMessage, Sign1Message):
        auth = must_bytes(arr[3])
    k = 4 if c is MacMessage else 3
    if c in (EncMessage, MacMessage) and n > k:
        if not isinstance(arr[k], list):
            raise S.Refused('recipients')
        parts = [recipient(r, allow) for r in arr[k]]
    if c is SignMessage:
        if not isinstance(arr[3], list):
            raise S.Refused('signatures')
        parts = [signature(r, allow) for r in arr[3]]
    return (c, ph, uh, arr[0], payload, auth, parts)


def decode(on, data, allow=True):
    """View of the message that `on.decode(data)` yields."""
    x = P.uncbor(data)
    if not P.is_tag(x):
        raise S.Refused('not tagged')
    if x.tag not in TAGS:
        raise S.Refused('unknown tag')
    c = TAGS[x.tag]
    if not issubclass(c, on):
        raise S.Refused('another type')
    if not isinstance(x.value, list):
        raise S.Refused('not an array')
    return message(c, x.value, allow)
