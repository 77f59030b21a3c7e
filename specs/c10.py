"""C10: protected header bytes are kept as received, and follow every update."""
import cbor2

from pycose import algorithms as A
from pycose import headers as H
from pycose.messages import CoseMessage, Enc0Message, EncMessage, Mac0Message, MacMessage, Sign1Message, SignMessage
from pycose.messages.signer import CoseSignature
from pyvc.contract import Contract, State
from specs import common as S
from specs import gen as G
from specs import lemmas as L
from specs import prims as P
from specs import shapes as SH
from specs import wire as W
from specs.c22 import MESSAGES, RECIPIENTS
from specs import hist

PARTS = [CoseSignature] + RECIPIENTS
OPS = ['phdr=', 'phdr_update', 'phdr[]', 'uhdr=', 'uhdr_update', 'uhdr[]', 'payload', 'external_aad', 'key', 'lookup', 'local_attrs',
       'uhdr_encoded']


def message(cx, cls, enc='opt'):
    return SH.msg(cx, cls, 'm', payload='opt' if cls is not CoseSignature else 'bytes', key=None, enc=enc, _local_attrs=cx.pydict([]))


def state(cx):
    return State(m=message(cx, cx.choice('class', MESSAGES + PARTS)))


def i_state(s):
    return s.m.phdr_encoded


def s_state(s):
    return S.protected(s.m)


def do(m, op, hdr, key):
    if op == 'phdr=':
        m.phdr = hdr
    elif op == 'phdr_update':
        m.phdr_update(hdr)
    elif op == 'phdr[]':
        m.phdr[H.KID] = b'direct'
    elif op == 'uhdr=':
        m.uhdr = hdr
    elif op == 'uhdr_update':
        m.uhdr_update(hdr)
    elif op == 'uhdr[]':
        m.uhdr[H.KID] = b'direct'
    elif op == 'payload':
        if isinstance(m, CoseSignature):
            m.signature = b'other'
        else:
            m.payload = b'other'
    elif op == 'external_aad':
        m.external_aad = b'other'
    elif op == 'key':
        m.key = key
    elif op == 'lookup':
        m.get_attr(H.KID)
    elif op == 'local_attrs':
        m.local_attrs = {H.StaticKey: b'other'}
    else:
        m.uhdr_encoded


def s_do(s, op, hdr):
    m = s.m
    if op == 'phdr=':
        m._phdr = dict(hdr)
        m._phdr_encoded = None
    elif op == 'phdr_update':
        m._phdr.update(hdr)
        m._phdr_encoded = None
    elif op == 'phdr[]':
        m._phdr[H.KID] = b'direct'
    elif op == 'lookup':
        S.header(m, H.KID)


def i_ops(s):
    first = s.m.phdr_encoded
    do(s.m, s.op, s.hdr, s.key)
    second = s.m.phdr_encoded
    if s.op2 is not None:
        do(s.m, s.op2, {H.KID: s.v}, s.key)
    return first, second, s.m.phdr_encoded


def s_ops(s):
    first = S.protected(s.m)
    s_do(s, s.op, s.hdr)
    second = S.protected(s.m)
    if s.op2 is not None:
        s_do(s, s.op2, {H.KID: s.v})
    return first, second, S.protected(s.m)


def ops(classes, two):
    def shape(cx):
        op = cx.choice('operation', OPS)
        m = message(cx, cx.choice('class', classes), None if op == 'phdr[]' else 'opt')
        return State(m=m, op=op, hdr=cx.dict('hdr', {H.Algorithm: 'any', H.KID: 'any'}), v=cx.bytes('kid'), key=SH.plain_key(cx),
                     op2=cx.choice('then', [o for o in OPS if o != 'phdr[]' and o != 'lookup']) if two else None)
    return shape


# ---- built by the constructor ----------------------------------------------------------------------------

def new(cx):
    return State(cls=cx.choice('class', MESSAGES + PARTS), ph=cx.dict('phdr', {'*': 'any', '__keys__': ('int',), 1: SH_NOLIST, 4: 'bytes'}),
                 uh=cx.dict('uhdr', {H.KID: 'bytes'}), tstr=cx.bool('tstr'))


SH_NOLIST = ('kinds', ('none', 'bool', 'int', 'bytes', 'str', 'cls', 'map', 'tag', 'other'))


def i_new(s):
    m = s.cls(phdr=s.ph, uhdr=s.uh, alg_tstr_encoding=s.tstr)
    return m.phdr_encoded, m.phdr


def s_new(s):
    p = P.parse(s.ph, True)
    P.parse(s.uh, True)
    return b'' if len(p) == 0 else P.cbor_hdr(p, s.tstr), p


# ---- received --------------------------------------------------------------------------------------------

def gen_received(r):
    h = G.header(r, r.choice([None, 1, 3, -7, 'A128GCM']), .1)
    return G.encoded(r, h)


def received(classes):
    def shape(cx):
        c = cx.choice('class', classes)
        e = [cx.bytes('protected', gen=gen_received), cx.any('unprotected', ('map',), gen=lambda r: G.header(r, None, .1), wire=True),
             cx.any('payload', ('none', 'bytes'), wire=True)]
        if c in (Mac0Message, MacMessage, Sign1Message):
            e.append(cx.bytes('auth', minlen=1))
        if c is SignMessage:
            e.append([[cx.bytes('protected2', gen=gen_received), {4: cx.bytes('kid')}, b'signature']])
        return State(cls=c, arr=cx.lst(e), op=cx.choice('operation', [o for o in OPS if o not in ('phdr[]', 'lookup', 'phdr=')] + ['none']),
                     hdr={H.KID: b'other'}, key=SH.plain_key(cx))
    return shape


def i_received(s):
    m = CoseMessage.decode(P.cbor(P.tagged(s.cls.cbor_tag, s.arr)))
    first = m.phdr_encoded
    if s.op != 'none':
        do(m, s.op, s.hdr, s.key)
    return first, m.phdr_encoded, [x.phdr_encoded for x in m.signers] if s.cls is SignMessage else []


def s_received(s):
    v = W.message(s.cls, s.arr, True)
    ph, pe = v[1], v[3]
    if s.op == 'phdr_update':
        ph = dict(ph)
        ph.update(s.hdr)
        return pe, P.cbor_hdr(ph, False), [x[3] for x in v[6]]
    return pe, pe, [x[3] for x in v[6]]


def i_again(s):
    m = CoseMessage.decode(P.cbor(P.tagged(s.cls.cbor_tag, s.arr)))
    if s.op == 'phdr_update':
        m.phdr_update({H.KID: b'other'})
    if s.cls is Sign1Message:
        return m.encode(sign=False)
    return m.encode(encrypt=False)


def s_again(s):
    v = W.message(s.cls, s.arr, True)
    pe, ph = v[3], v[1]
    if s.op == 'phdr_update':
        ph = dict(ph)
        ph.update({H.KID: b'other'})
        pe = P.cbor_hdr(ph, False)
    a = [pe, v[2], v[4]]
    if s.cls is Sign1Message:
        a = a + [v[5]]
    return P.cbor_hdr(P.tagged(W.tag_of(s.cls), a), False)


B = 'pycose.messages.cosebase.CoseBase.'
F = [B + 'phdr_encoded', B + 'phdr', B + 'phdr_update', B + 'uhdr', B + 'uhdr_update', B + 'uhdr_encoded', B + 'local_attrs']
FD = [B + 'phdr_encoded', B + 'from_cose_obj', B + '__init__']
ASSUMED = [L.KEY_OF_DICT]
ASSUMPTIONS = [L.PARSE_TEXT]
CONTRACTS = [
    L.parse_header(),
    Contract('protected bytes in any state', state, i_state, s_state, funcs=F),
    Contract('protected bytes after an operation', ops(MESSAGES + PARTS, False), i_ops, s_ops, funcs=F, watch=False),
    Contract('protected bytes after two operations', ops([Enc0Message], True), i_ops, s_ops, funcs=F, watch=False),
    Contract('protected bytes of new messages', new, i_new, s_new, funcs=FD),
    Contract('protected bytes as received', received(MESSAGES), i_received, s_received, funcs=FD, tries=200),
    Contract('protected bytes sent on', received([Enc0Message, EncMessage, Sign1Message]), i_again, s_again, funcs=FD, tries=200),
]
HISTORIES = hist.of('sign1', tries=60)
