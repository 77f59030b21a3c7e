"""C09: header lookup."""
from pycose import headers as H
from pycose.messages import Enc0Message, EncMessage, Mac0Message, MacMessage, Sign1Message, SignMessage
from pycose.messages.recipient import DirectEncryption, DirectKeyAgreement, KeyAgreementWithKeyWrap, KeyWrap
from pycose.messages.signer import CoseSignature
from pyvc.contract import Contract, State
from specs import common as S
from specs import shapes as SH

MESSAGES = [Sign1Message, SignMessage, Mac0Message, MacMessage, Enc0Message, EncMessage]
OTHERS = [CoseSignature, DirectEncryption, KeyWrap, DirectKeyAgreement, KeyAgreementWithKeyWrap]


def shape(classes, label):
    def make(cx):
        cls = cx.choice('class', classes)
        kw = {}
        if cls in OTHERS:
            kw['payload'] = 'bytes'
        m = SH.msg(cx, cls, 'm', ph=cx.dict('m.phdr', {}), uh=cx.dict('m.uhdr', {}), **kw)
        return State(m=m, h=label(cx))
    return make


def registered(cx):
    return cx.enum('h', SH.HEADERS)


def unregistered(cx):
    return cx.any('label', ('int', 'str'))


def get(s):
    return s.m.get_attr(s.h)


def get_default(s):
    return s.m.get_attr(s.h, s.default)


def s_get(s):
    return S.header(s.m, s.h)


def s_get_default(s):
    return S.header(s.m, s.h, s.default)


def with_default(f):
    def make(cx):
        s = f(cx)
        s.default = cx.any('default')
        return s
    return make


def falsy(cx):
    """A falsy value counts as present."""
    v = cx.choice('value', [0, False, '', b'', (), 0.0])
    w = cx.choice('other', ['absent', 'none', 'any'])
    a = cx.pydict([(H.KID, v)])
    b = {'absent': [], 'none': [(H.KID, None)], 'any': [(H.KID, cx.any('other value'))]}[w]
    b = cx.pydict(b)
    if cx.choice('bucket', [0, 1]):
        a, b = b, a
    return State(m=SH.msg(cx, Sign1Message, 'm', ph=a, uh=b), h=H.KID, default=cx.any('default'))


def again(cx):
    s = shape([Sign1Message], registered)(cx)
    s.h2 = cx.enum('h2', SH.HEADERS)
    s.v = cx.any('v')
    return s


def i_again(s):
    try:
        s.m.get_attr(s.h, s.v)
    except Exception:
        pass
    a = s.m.get_attr(s.h2)
    s.m.uhdr_update({s.h2: s.v})
    return a, s.m.get_attr(s.h2)


def s_again(s):
    a = S.header(s.m, s.h2)
    s.m._uhdr[s.h2] = s.v
    return a, S.header(s.m, s.h2)


F = ['pycose.messages.cosebase.CoseBase.get_attr']
CONTRACTS = [
    Contract('get_attr of registered parameters, messages', shape(MESSAGES, registered), get, s_get, funcs=F, raise_same=True),
    Contract('get_attr of registered parameters, signers and recipients', shape(OTHERS, registered), get, s_get, funcs=F, raise_same=True),
    Contract('get_attr of other labels', shape(MESSAGES[:1] + OTHERS[1:2], unregistered), get, s_get, funcs=F, raise_same=True),
    Contract('get_attr with a default', with_default(shape(MESSAGES[1:2] + OTHERS[2:3], registered)), get_default, s_get_default,
             funcs=F, raise_same=True),
    Contract('get_attr of falsy values', falsy, get_default, s_get_default, funcs=F, raise_same=True),
    Contract('get_attr looks anew every time', again, i_again, s_again, funcs=F, raise_same=True),
]
