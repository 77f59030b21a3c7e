"""C12: decoding dispatches on the tag and rejects everything malformed."""
from pycose.messages import CoseMessage, Enc0Message, EncMessage, Mac0Message, MacMessage, Sign1Message, SignMessage
from pyvc.contract import Contract, State
from specs import gen as G
from specs import lemmas as L
from specs import prims as P
from specs import wire as W

PLAIN = (16, 17, 18)


def i_decode(s):
    data = s.item if s.raw else P.cbor(s.item)
    if s.allow:
        return W.view(s.on.decode(data))
    return W.view(s.on.decode(data, allow_unknown_attributes=False))


def s_decode(s):
    return W.decode(s.on, s.item if s.raw else P.cbor(s.item), s.allow)


def i_arr(s):
    data = P.cbor(P.tagged(s.tag, s.arr))
    if s.allow:
        return W.view(s.on.decode(data))
    return W.view(s.on.decode(data, allow_unknown_attributes=False))


def s_arr(s):
    return W.decode(s.on, P.cbor(P.tagged(s.tag, s.arr)), s.allow)


def el(cx, name, gen, kinds=G.WIRE):
    return cx.any(name, kinds, gen=gen, wire=True)


def elements(cx, name, n, gens, lists=True):
    kinds = [k for k in G.WIRE if k != 'list']
    return cx.lst([el(cx, f'{name}[{i}]', gens[min(i, len(gens) - 1)], G.WIRE if lists or i < 3 else kinds) for i in range(n)])


TOP = [G.protected, G.unprotected, G.ciphertext, G.auth, G.scalar]


def untagged(cx):
    """Anything but an array under a tag; the valid empty Encrypt0 for comparison."""
    k = cx.choice('form', ['item', 'tagged item', 'valid'])
    if k == 'item':
        item = cx.any('item', [x for x in G.WIRE if x != 'tag'], wire=True)
    elif k == 'tagged item':
        t = cx.int('tag', 0, 2 ** 32)
        return State(on=CoseMessage, tag=t, arr=cx.any('item', [x for x in G.WIRE if x != 'list'], wire=True), allow=True)
    else:
        return State(on=CoseMessage, tag=16, arr=cx.lst([b'', {}, b'']), allow=True)
    return State(on=CoseMessage, item=item, raw=False, allow=True)


def i_untagged(s):
    return i_arr(s) if hasattr(s, 'tag') else i_decode(s)


def s_untagged(s):
    return s_arr(s) if hasattr(s, 'tag') else s_decode(s)


def plain(tags, on, allow):
    """Arrays of any elements, of every length around the right one."""
    def make(cx):
        n = cx.choice('length', [4, 3, 5, 2, 1, 0, 6])
        tag = cx.choice('tag', tags) if tags else cx.int('tag', 0, 2 ** 32)
        return State(on=cx.choice('on', on), tag=tag, arr=elements(cx, 'e', n, TOP, bool(tags) and tag in PLAIN), allow=cx.choice('allow', allow))
    return make


def full(cx):
    """The right number of elements of any kind, unknown attributes disallowed."""
    tag = cx.choice('tag', [16, 17, 18, 96])
    return State(on=cx.choice('on', [CoseMessage, W.TAGS[tag]]), tag=tag, arr=elements(cx, 'e', 4 if tag in (17, 18) else 3, TOP), allow=False)


def dispatch(cx):
    """Every class against every tag."""
    tag = cx.choice('tag', list(W.TAGS))
    e = [b'', {}, cx.bytes('payload')]
    if tag in (17, 18, 97):
        e.append(cx.bytes('auth'))
    if tag == 98:
        e.append([[b'', {}, cx.bytes('signature')]])
    return State(on=cx.choice('on', [CoseMessage] + W.CLASSES), tag=tag, arr=cx.lst(e), allow=True)


def signatures(cx):
    n = cx.choice('signers', [0, 1, 2])
    arr = [el(cx, f'e[{i}]', g) for i, g in enumerate(TOP[:3])] if n == 0 else [b'', {}, cx.bytes('payload')]
    sigs = [elements(cx, 's', cx.choice('s.length', [3, 2, 4]), [G.protected, G.unprotected, G.auth, G.scalar])] if n else []
    if n == 2:
        sigs.insert(cx.choice('place', [0, 1]), cx.lst([b'', {4: cx.bytes('kid')}, cx.bytes('signature')]))
    return State(on=CoseMessage, tag=98, arr=cx.lst(arr + [cx.lst(sigs)]), allow=cx.choice('allow', [True, False]) if n == 1 else True)


def signature_items(cx):
    return State(on=CoseMessage, tag=98, arr=cx.lst([b'', {}, None, cx.lst([cx.lst([b'', {}, b'']), cx.any('item', [x for x in G.WIRE if x != 'list'], wire=True)])]),
                 allow=True) if cx.choice('form', [0, 1]) else State(on=CoseMessage, tag=98, arr=cx.lst([b'', {}, None, cx.lst([])]), allow=True)


def rcpt(cx, name, lens=(3, 4, 2, 5)):
    """Any recipient without (or with malformed) further recipients."""
    n = cx.choice(name + '.length', list(lens))
    if cx.symbolic:
        e = [el(cx, f'{name}[{i}]', None) for i in range(min(n, 3))]
    else:
        pe, uh, ct = cx.get(name, lambda: G.recipient_headers(cx.rng))
        e = [pe, dict(uh), ct][:n]
    if n > 3:
        k = cx.choice(name + '.recipients', ['none', 'other'])
        e.append(cx.lst([]) if k == 'none' else cx.any(name + '[3]', [x for x in G.WIRE if x != 'list'], wire=True))
    if n > 4:
        e.append(cx.any(name + '[4]', G.WIRE, wire=True))
    return cx.lst(e)


def good(cx, name, nested=(), algs=(-3, -6, -25, -29)):
    """A recipient of one of the classes."""
    alg = cx.choice(name + '.alg', list(algs))
    uh = {1: alg, 4: cx.bytes(name + '.kid')}
    if alg == -25:
        uh[-1] = dict(G.EC)
    ct = b'' if alg in (-6, -25) else cx.bytes(name + '.ciphertext', minlen=1)
    return cx.lst([b'', uh, ct] + ([cx.lst(list(nested))] if nested else []))


def head(cx, tag):
    return [b'', {}, cx.bytes('payload')] + ([cx.bytes('auth')] if tag == 97 else [])


def one(cx):
    tag = cx.choice('tag', [96, 97])
    return State(on=CoseMessage, tag=tag, arr=cx.lst(head(cx, tag) + [cx.lst([rcpt(cx, 'r0', (3, 4, 2, 5) if tag == 96 else (3,))])]),
                 allow=cx.choice('allow', [True, False]) if tag == 97 else True)


def two(cx):
    if cx.choice('order', [0, 1]):
        rs = [rcpt(cx, 'b', (3,)), good(cx, 'a', algs=(-3,))]
    else:
        rs = [good(cx, 'a', algs=(-6,)), rcpt(cx, 'b', (3,))]
    return State(on=CoseMessage, tag=96, arr=cx.lst(head(cx, 96) + [cx.lst(rs)]), allow=True)


def nested(cx):
    k = cx.choice('form', ['one', 'before', 'after'])
    n = rcpt(cx, 'b', (3,))
    if k == 'one':
        rs = [good(cx, 'a', [n], algs=(-3, -6, -25))]
    else:
        c = good(cx, 'c', algs=(-3,) if k == 'before' else (-29,))
        rs = [good(cx, 'a', [n, c] if k == 'before' else [c, n], algs=(-3,))]
    return State(on=CoseMessage, tag=96, arr=cx.lst(head(cx, 96) + [cx.lst(rs)]), allow=True)


def nested2(cx):
    """A recipient of a recipient of a recipient."""
    b = good(cx, 'b', [rcpt(cx, 'c', (3,))], algs=(-29,))
    return State(on=CoseMessage, tag=97, arr=cx.lst(head(cx, 97) + [cx.lst([good(cx, 'a', [b], algs=(-5, -29))])]), allow=True)


def three(cx):
    rs = [good(cx, n) for n in 'abc']
    return State(on=CoseMessage, tag=97, arr=cx.lst(head(cx, 97) + [cx.lst(rs)]), allow=True)


def recipient_items(cx):
    tag = cx.choice('tag', [96, 97])
    e = [b'', {}, cx.bytes('payload')] + ([cx.bytes('auth')] if tag == 97 else [])
    k = cx.choice('form', ['none', 'item'])
    return State(on=CoseMessage, tag=tag, arr=cx.lst(e + [cx.lst([] if k == 'none' else [cx.any('item', [x for x in G.WIRE if x != 'list'], wire=True)])]), allow=True)


def raw(cx):
    return State(on=cx.choice('on', [CoseMessage] + W.CLASSES), item=cx.bytes('data', gen=G.data), raw=True, allow=cx.choice('allow', [True, True, False]))


M = 'pycose.messages.'
F = [M + 'cosemessage.CoseMessage.decode', M + 'cosemessage.CoseMessage.from_cose_obj', M + 'cosebase.CoseBase.from_cose_obj',
     M + 'cosebase.CoseBase.__init__', M + 'cosemessage.CoseMessage.__init__']
FM = F + [M + 'sign1message.Sign1Message.from_cose_obj', M + 'mac0message.Mac0Message.from_cose_obj', M + 'enc0message.Enc0Message.from_cose_obj',
          M + 'signmessage._SignMessage.from_cose_obj', M + 'encmessage.EncMessage.from_cose_obj', M + 'macmessage.MacMessage.from_cose_obj']
FS = F + [M + 'signmessage._SignMessage.from_cose_obj', M + 'signer.CoseSignature.from_cose_obj', M + 'signmessage._SignMessage.signers']
R = M + 'recipient.'
FR = F + [R + 'CoseRecipient.create_recipient', R + 'CoseRecipient.from_cose_obj', R + 'DirectEncryption.from_cose_obj', R + 'KeyWrap.from_cose_obj',
          R + 'DirectKeyAgreement.from_cose_obj', R + 'KeyAgreementWithKeyWrap.from_cose_obj']
ASSUMED = [L.KEY_OF_DICT]
ASSUMPTIONS = [L.PARSE_TEXT]
CONTRACTS = [
    L.parse_header(),
    Contract('every class against every tag', dispatch, i_arr, s_arr, funcs=FM),
    Contract('other items', untagged, i_untagged, s_untagged, funcs=F),
    Contract('any tag, any elements', plain(None, [CoseMessage], [True]), i_arr, s_arr, funcs=FM),
    Contract('elements of the types', plain(list(W.TAGS), [CoseMessage], [True]), i_arr, s_arr, funcs=FM),
    Contract('elements of the types, unknown attributes disallowed', full, i_arr, s_arr, funcs=FM),
    Contract('signatures', signatures, i_arr, s_arr, funcs=FS, bounded='at most two signatures'),
    Contract('signatures that are no arrays', signature_items, i_arr, s_arr, funcs=FS, bounded='at most two signatures'),
    Contract('one recipient', one, i_arr, s_arr, funcs=FR, bounded='lists of recipients of at most three, nested at most once'),
    Contract('two recipients', two, i_arr, s_arr, funcs=FR, bounded='lists of recipients of at most three, nested at most once'),
    Contract('three recipients', three, i_arr, s_arr, funcs=FR, bounded='lists of recipients of at most three, nested at most once'),
    Contract('nested recipients', nested, i_arr, s_arr, funcs=FR, bounded='lists of recipients of at most three, nested at most once'),
    Contract('doubly nested recipients', nested2, i_arr, s_arr, funcs=FR, bounded='lists of recipients of at most three, nested at most twice'),
    Contract('recipients that are no arrays', recipient_items, i_arr, s_arr, funcs=FR, bounded='one recipient'),
    Contract('arbitrary bytes', raw, i_decode, s_decode, funcs=FM, native_only=True, tries=600),
]
