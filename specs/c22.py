"""C22: header parameters and arguments of wrong types are rejected, good ones kept."""
from pycose import headers as H
from pycose.keys import EC2Key, OKPKey, RSAKey, SymmetricKey
from pycose.keys import keyparam as KP
from pycose.messages import Enc0Message, EncMessage, Mac0Message, MacMessage, Sign1Message, SignMessage
from pycose.messages.recipient import DirectEncryption, DirectKeyAgreement, KeyAgreementWithKeyWrap, KeyWrap
from pycose.messages.signer import CoseSignature
from pyvc.contract import Contract, State
from specs import common as S
from specs import headers as HD
from specs import prims as P
from specs import shapes as SH

MESSAGES = [Sign1Message, SignMessage, Mac0Message, MacMessage, Enc0Message, EncMessage]
NOLIST = ('kinds', ('none', 'bool', 'int', 'bytes', 'str', 'cls', 'map', 'tag', 'other'))


def every(c, **kw):
    d = {f(h): NOLIST if h is H.Algorithm else 'any' for h in SH.HEADERS for f in c}
    d.update(kw)
    return d


BY_INT = every([lambda h: h.identifier], __keys__=('int',))
BY_CLASS = every([lambda h: h], __keys__=('cls',))
BY_CLASS['*'] = NOLIST      # a class of another registry with the id of a header counts as that header
BY_STR = {k: NOLIST for k in [h.fullname for h in SH.HEADERS] + ['alg', 'Kid', '*']}
BY_STR['__keys__'] = ('str',)
BUCKETS = ['phdr', 'uhdr']


def labels(schema, classes=MESSAGES[:1], allow=(True,)):
    def make(cx):
        d = cx.dict('hdr', schema)
        return State(cls=cx.choice('class', classes), bucket=cx.choice('bucket', BUCKETS), hdr=d,
                     allow=cx.choice('allow', allow))
    return make


def build(s):
    kw = {} if s.allow else {'allow_unknown_attributes': False}
    if s.bucket == 'phdr':
        m = s.cls(phdr=s.hdr, **kw)
        return m.phdr, m.uhdr
    m = s.cls(uhdr=s.hdr, **kw)
    return m.uhdr, m.phdr


def s_build(s):
    return HD.parse(s.hdr, s.allow), {}


# ---- arguments -------------------------------------------------------------------------------------------

NOTMAP = ('none', 'bool', 'int', 'bytes', 'str', 'cls', 'list', 'tag', 'other')
SIGNER = [CoseSignature]
RECIPIENTS = [DirectEncryption, KeyWrap, DirectKeyAgreement, KeyAgreementWithKeyWrap]


def keyish(cx, name):
    k = cx.choice(name + '.kind', ['none', 'symmetric', 'ec2', 'okp', 'rsa', 'map', 'other'])
    if k == 'symmetric':
        return SH.plain_key(cx, name)
    if k == 'ec2':
        return SH.ec2_key(cx, name, schema=SH.PLAIN)
    if k == 'okp':
        return SH.okp_key(cx, name, schema=SH.PLAIN)
    if k == 'rsa':
        return SH.rsa_key(cx, name, schema=SH.PLAIN)
    if k == 'map':
        return {1: 4, -1: bytes(16)}
    return None if k == 'none' else cx.any(name, NOTMAP[1:])


def is_key(k):
    return isinstance(k, (EC2Key, OKPKey, RSAKey, SymmetricKey))


def value_of(cx, arg):
    if arg in ('phdr', 'uhdr'):
        if cx.choice(arg + '.map', [True, False]):
            return {H.KID: cx.bytes('kid')}
        return cx.any(arg, NOTMAP)
    if arg == 'key':
        return keyish(cx, 'key')
    return cx.any(arg)


def check_arg(arg, v, new=False):
    if arg in ('phdr', 'uhdr') and v is not None and type(v) is not dict:
        raise S.Refused('header')
    if arg == 'payload' and v is not None and type(v) is not bytes:
        raise S.Refused('payload')
    if arg == 'signature' and type(v) is not bytes and (v is not None or not new):
        raise S.Refused('signature')
    if arg == 'external_aad' and type(v) is not bytes:
        raise S.Refused('external data')
    if arg == 'key' and v is not None and not is_key(v):
        raise S.Refused('key')


def arguments(classes, args):
    def make(cx):
        arg = cx.choice('argument', args)
        return State(cls=cx.choice('class', classes), arg=arg, v=value_of(cx, arg))
    return make


def i_args(s):
    m = s.cls(**{s.arg: s.v})
    if s.arg == 'signature':
        return m.signature, m.phdr, m.uhdr, m.external_aad, m.key
    r = m.payload if s.arg == 'payload' else None
    return r, m.phdr, m.uhdr, m.external_aad, m.key


def s_args(s):
    check_arg(s.arg, s.v, True)
    pick = lambda a, d: s.v if s.arg == a else d
    hd = lambda a: {} if s.arg != a or s.v is None else s.v
    return s.v if s.arg in ('signature', 'payload') else None, hd('phdr'), hd('uhdr'), pick('external_aad', b''), pick('key', None)


def setting(classes, args, **kw):
    def make(cx):
        cls = cx.choice('class', classes)
        m = SH.msg(cx, cls, 'm', ph=cx.dict('m.phdr', {}), uh=cx.dict('m.uhdr', {}), key=SH.plain_key(cx, 'old key'), **kw)
        arg = cx.choice('argument', args)
        return State(m=m, arg=arg, v=value_of(cx, arg))
    return make


def i_set(s):
    if s.arg == 'phdr':
        s.m.phdr = s.v
    elif s.arg == 'uhdr':
        s.m.uhdr = s.v
    elif s.arg == 'payload':
        s.m.payload = s.v
    elif s.arg == 'external_aad':
        s.m.external_aad = s.v
    elif s.arg == 'signature':
        s.m.signature = s.v
    else:
        s.m.key = s.v


def s_set(s):
    if s.arg in ('phdr', 'uhdr') and s.v is None:
        raise S.Refused('header')
    check_arg(s.arg, s.v)
    if s.arg == 'phdr':
        s.m._phdr = s.v
        s.m._phdr_encoded = None
    elif s.arg == 'uhdr':
        s.m._uhdr = s.v
    elif s.arg == 'payload':
        s.m._payload = s.v
    elif s.arg == 'external_aad':
        s.m._external_aad = s.v
    elif s.arg == 'signature':
        if isinstance(s.m, CoseSignature):
            s.m._payload = s.v
        else:
            s.m._signature = s.v
    else:
        s.m._key = s.v


def updating(cx):
    s = setting([Sign1Message, KeyWrap, CoseSignature], ['phdr', 'uhdr'], payload='bytes')(cx)
    return s


def i_update(s):
    if s.arg == 'phdr':
        s.m.phdr_update(s.v)
    else:
        s.m.uhdr_update(s.v)


def s_update(s):
    if type(s.v) is not dict:
        raise S.Refused('header')
    if s.arg == 'phdr':
        s.m._phdr.update(s.v)
        s.m._phdr_encoded = None
    else:
        s.m._uhdr.update(s.v)


def key_attr(cx):
    k = [SH.sym_key, SH.ec2_key, SH.okp_key, SH.rsa_key][cx.choice('key', [0, 1, 2, 3])](cx, 'key')
    return State(k=k, attr=cx.choice('attr', ['kid', 'base_iv']), v=cx.any('v'))


def i_key_attr(s):
    if s.attr == 'kid':
        s.k.kid = s.v
    else:
        s.k.base_iv = s.v


def s_key_attr(s):
    if type(s.v) is not bytes:
        raise S.Refused('bytes')
    s.k.store[KP.KpKid if s.attr == 'kid' else KP.KpBaseIV] = s.v


F = ['pycose.messages.cosebase.CoseBase._parse_header', 'pycose.messages.cosebase.CoseBase.__init__',
     'pycose.utils._CoseAttribute.from_id', 'pycose.headers.is_bstr', 'pycose.headers.crit_is_array',
     'pycose.headers.content_type_is_uint_or_tstr']
ASSUMED = [('pycose.keys.cosekey.CoseKey.from_dict', lambda cls, received: P.cose_key(received),
            'a function of the dictionary (verified in C16 and C17)')]
B, M = 'pycose.messages.cosebase.CoseBase.', 'pycose.messages.cosemessage.CoseMessage.'
FA = [B + '__init__', M + '__init__', M + 'payload', M + 'external_aad', M + 'key']
FS = [B + 'phdr', B + 'uhdr', B + 'phdr_update', B + 'uhdr_update'] + FA[2:]
CONTRACTS = [
    Contract('headers with integer labels', labels(BY_INT), build, s_build, funcs=F),
    Contract('headers with integer labels, unknown labels disallowed', labels(BY_INT, [Enc0Message], (False,)), build, s_build, funcs=F),
    Contract('headers with text labels, unknown labels disallowed', labels(BY_STR, [MacMessage], (False,)), build, s_build, funcs=F),
    Contract('headers with text labels', labels(BY_STR), build, s_build, funcs=F),
    Contract('headers with classes as labels', labels(BY_CLASS), build, s_build, funcs=F),
    Contract('headers of the other classes', labels({4: 'any', 'KID': 'any', '__keys__': ('int',), '*': NOLIST},
                                                    MESSAGES[1:] + SIGNER + RECIPIENTS), build, s_build, funcs=F),
    Contract('arguments of messages', arguments([c for c in MESSAGES if c is not SignMessage], ['phdr', 'uhdr', 'payload', 'external_aad', 'key']),
             i_args, s_args, funcs=FA),
    Contract('arguments of COSE_Sign', arguments([SignMessage], ['phdr', 'uhdr', 'payload']), i_args, s_args, funcs=FA),
    Contract('arguments of signers', arguments(SIGNER, ['phdr', 'uhdr', 'signature', 'external_aad', 'key']), i_args, s_args, funcs=FA),
    Contract('arguments of recipients', arguments(RECIPIENTS, ['phdr', 'uhdr', 'payload', 'external_aad', 'key']), i_args, s_args, funcs=FA),
    Contract('assignments to messages', setting(MESSAGES, ['phdr', 'uhdr', 'payload', 'external_aad', 'key']), i_set, s_set, funcs=FS, raise_same=True),
    Contract('assignments to signers', setting([CoseSignature], ['phdr', 'uhdr', 'signature', 'external_aad', 'key'], payload='bytes'),
             i_set, s_set, funcs=FS, raise_same=True),
    Contract('assignments to Sign1 signatures', setting([Sign1Message], ['signature']), i_set, s_set, funcs=FS, raise_same=True),
    Contract('assignments to recipients', setting(RECIPIENTS, ['phdr', 'uhdr', 'payload', 'external_aad', 'key'], payload='bytes'),
             i_set, s_set, funcs=FS, raise_same=True),
    Contract('header updates', updating, i_update, s_update, funcs=FS, raise_same=True),
    Contract('kid and Base IV of keys', key_attr, i_key_attr, s_key_attr, funcs=['pycose.keys.cosekey.CoseKey.kid', 'pycose.keys.cosekey.CoseKey.base_iv'], raise_same=True),
]
