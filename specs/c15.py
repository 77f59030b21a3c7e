"""C15: key agreement derives the key from the exact COSE_KDF_Context."""
from pycose import headers as H
from pycose.keys import keyparam as KP
from pycose.keys import curves as CU
from pycose.messages.context import CoseKDFContext, PartyInfo, SuppPubInfo
from pycose.messages.recipient import DirectKeyAgreement, KeyAgreementWithKeyWrap
from pyvc.contract import Contract, State
from specs import algs as A
from specs import common as S
from specs import prims as P
from specs import rcpt as RC
from specs import registry as R
from specs import shapes as SH
from specs import hist

PARTY = (H.PartyUID, H.PartyUNonce, H.PartyUOther, H.PartyVID, H.PartyVNonce, H.PartyVOther)
BARE = {KP.KpAlg: 'absent', KP.KpKeyOps: 'absent', KP.KpKid: 'absent', KP.KpBaseIV: 'absent'}
DIRECT, WRAPPED = (-25, -26, -27, -28), (-29, -30, -31, -32, -33, -34)
TARGETS = SH.of_ids(list(R.GCM) + list(R.CCM) + list(R.CBCMAC) + list(R.HMAC) + list(R.KW))
ALL = (CU.P256, CU.P384, CU.P521, CU.SECP256K1)


def recipient(cx, cls, alg, sending, own, peer, ph, uh, loc=(), **kw):
    uh = list(uh)
    loc = list(loc)
    if sending:
        loc.append((H.StaticKey, peer))
        if alg.identifier in RC.EPHEMERAL:
            uh.append((H.EphemeralKey, cx.any('ephemeral', ('map',))))
    else:
        uh.append((H.EphemeralKey if alg.identifier in RC.EPHEMERAL else H.StaticKey, peer))
    return SH.msg(cx, cls, 'r', payload='bytes', key=own, ph=ph, uh=cx.pydict(uh), _local_attrs=cx.pydict(loc))


# ---- every algorithm and curve; every target -------------------------------------------------------------

def agreement(cls, ids, sending):
    def shape(cx):
        alg = SH.of_ids([cx.choice('alg', list(ids))])[0]
        own = SH.ec2_key(cx, 'own', ALL, schema=BARE)
        peer = SH.ec2_key(cx, 'peer', ALL, private=False, schema=BARE)
        r = recipient(cx, cls, alg, sending, own, peer, cx.pydict([]), [(H.Algorithm, alg)])
        return State(r=r, target=SH.of_ids([1])[0])
    return shape


def targets(cx):
    alg = cx.enum('alg', SH.of_ids([-25]))
    own, peer = (SH.ec2_key(cx, n, (CU.P256,), private=True, schema=BARE) for n in ('own', 'peer'))
    sending = cx.choice('sending', [True, False])
    r = recipient(cx, DirectKeyAgreement, alg, sending, own, peer, cx.pydict([]), [(H.Algorithm, alg)])
    return State(r=r, target=cx.enum('target', TARGETS), ops='encrypt' if sending else 'decrypt', sending=sending)


def i_targets(s):
    k = s.r.compute_cek(s.target, s.ops)
    return k.k, k.alg


def s_targets(s):
    return RC.agree(s.r, s.target, s.sending), s.target


# ---- every header and supplementary information ----------------------------------------------------------

def keys(cx):
    return [SH.ec2_key(cx, n, (CU.P256,), private=n == 'own', schema=BARE) for n in ('own', 'peer')]


NOKEYS = {H.Algorithm: 'absent', H.EphemeralKey: 'absent', H.StaticKey: 'absent'}


def party(cls, alg, sending, names):
    """The information of one party in any bucket, arbitrary; the other party's given in the unprotected header."""
    def shape(cx):
        own, peer = keys(cx)
        kinds = ('none', 'bytes', 'int')
        ph = cx.dict('r.phdr', {**NOKEYS, **{p: ('kinds', kinds) if p in names else 'absent' for p in PARTY}})
        uh = [(H.Algorithm, alg)] + [(p, cx.any('u' + str(p.identifier), kinds) if p in names else
                                      cx.bytes('u' + str(p.identifier))) for p in PARTY]
        r = recipient(cx, cls, alg, sending, own, peer, ph, uh)
        SH.put(r, _phdr_encoded=None)
        return State(r=r, target=SH.of_ids([3])[0])
    return shape


def supp(cls, alg, sending):
    """The protected header, as received or built, and the supplementary information."""
    def shape(cx):
        own, peer = keys(cx)
        ph = cx.dict('r.phdr', {**NOKEYS, **{p: 'absent' for p in PARTY}})
        loc = []
        if cx.choice('public information', [True, False]):
            loc.append((H.SuppPubOther, cx.bytes('supp_pub')))
        if cx.choice('private information', [True, False]):
            loc.append((H.SuppPrivOther, cx.bytes('supp_priv')))
        uh = [(H.Algorithm, alg)] + [(p, cx.bytes('u' + str(p.identifier))) for p in PARTY if p is not H.PartyUOther]
        r = recipient(cx, cls, alg, sending, own, peer, ph, uh, loc)
        return State(r=r, target=SH.of_ids([1])[0])
    return shape


def i_agree_e(s):
    k = s.r.compute_cek(s.target, 'encrypt')
    return k.k, k.alg


def i_agree_d(s):
    k = s.r.compute_cek(s.target, 'decrypt')
    return k.k, k.alg


def s_agree_e(s):
    return RC.agree(s.r, s.target, True), s.target


def s_agree_d(s):
    return RC.agree(s.r, s.target, False), s.target


def i_wrap(s):
    return s.r.encrypt(s.target)


def i_unwrap(s):
    return s.r.decrypt(s.target)


def s_wrap(s):
    return RC.agree_wrap(s.r)


def s_unwrap(s):
    return RC.agree_unwrap(s.r)


# ---- ephemeral keys --------------------------------------------------------------------------------------

def fresh(cls, ids, curves):
    def shape(cx):
        alg = SH.of_ids([cx.choice('alg', list(ids))])[0]
        peer = SH.ec2_key(cx, 'peer', curves, private=False, schema=BARE)
        r = SH.msg(cx, cls, 'r', payload='bytes', enc=None, key=None, ph=cx.pydict([]), uh=cx.pydict([(H.Algorithm, alg)]),
                   _local_attrs=cx.pydict([(H.StaticKey, peer)]))
        return State(r=r, target=SH.of_ids([2])[0])
    return shape


class Ephemeral:
    """A key pair as seen by the specification."""
    def __init__(self, crv, d, x, y):
        self.store = {KP.EC2KpCurve: crv, KP.EC2KpX: x, KP.EC2KpY: y, KP.EC2KpD: d}


def own_key(r, alg):
    peer = RC.peer_of(r, alg, True)
    crv = peer.store[KP.EC2KpCurve]
    _, size, name = R.CURVE[crv.identifier]
    d, x, y = P.ec_generate(name, size)
    return Ephemeral(crv, d, x, y), peer


def public_of(eph):
    """What must be in the recipient's header: the public part of the ephemeral key."""
    st = eph.store
    return [st[KP.EC2KpCurve], st[KP.EC2KpX], st[KP.EC2KpY], False]


def seen(r):
    e = r.get_attr(H.EphemeralKey)
    return [e[KP.EC2KpCurve], e[KP.EC2KpX], e[KP.EC2KpY], KP.EC2KpD in e]


def i_fresh_direct(s):
    return s.r.compute_cek(s.target, 'encrypt').k, seen(s.r)


def s_fresh_direct(s):
    alg = S.header(s.r, H.Algorithm)
    eph, peer = own_key(s.r, alg)
    return RC.derive(s.r, alg, eph, peer, s.target), public_of(eph)


def i_fresh_wrap(s):
    return s.r.encrypt(s.target), seen(s.r)


def s_fresh_wrap(s):
    alg = S.header(s.r, H.Algorithm)
    eph, peer = own_key(s.r, alg)
    kw = RC.KWALG[R.ECDH[alg.identifier][1]]
    return A.kw_wrap(kw, RC.derive(s.r, alg, eph, peer, kw), s.r._payload), public_of(eph)


# ---- the context structure itself ------------------------------------------------------------------------

def ctx_shape(cx):
    vals = {n: cx.any(n, ('none', 'bytes', 'int')) for n in ('ui', 'un', 'uo', 'vi', 'vn', 'vo')}
    if cx.choice('protected', ['map', 'bytes']) == 'map':
        prot = cx.dict('prot', {H.Algorithm: ('enum', SH.ALGS), H.KID: 'bytes'})
    else:
        prot = cx.bytes('prot_bytes')
    return State(alg=cx.enum('alg', SH.ALGS), n=cx.int('n', 0, 64), n2=cx.int('n2', 0, 64), prot=prot, pub=cx.bytes('pub'),
                 priv=cx.bytes('priv'), change=cx.choice('change length', [True, False]), **vals)


def i_ctx(s):
    sp = SuppPubInfo(s.n, s.prot, s.pub)
    if s.change:
        sp.key_data_length = s.n2
    return CoseKDFContext(s.alg, sp, PartyInfo(s.ui, s.un, s.uo), PartyInfo(s.vi, s.vn, s.vo), s.priv).encode()


def s_ctx(s):
    n = s.n2 if s.change else s.n
    if s.n not in (16, 24, 32) or n not in (16, 24, 32):
        raise S.Refused('key length')
    if isinstance(s.prot, bytes):
        prot = s.prot
    else:
        prot = P.cbor(s.prot) if len(s.prot) else b''
    pub = [n * 8, prot]
    if s.pub != b'':
        pub = pub + [s.pub]
    ctx = [s.alg.identifier, [s.ui, s.un, s.uo], [s.vi, s.vn, s.vo], pub]
    if s.priv != b'':
        ctx = ctx + [s.priv]
    return P.cbor(ctx)


X = 'pycose.messages.context.'
RR = 'pycose.messages.recipient.'
FB = [RR + 'CoseRecipient.get_kdf_context', X + 'CoseKDFContext.encode', X + 'SuppPubInfo.encode', X + 'PartyInfo.encode',
      'pycose.algorithms._EcdhHkdf.derive_kek', 'pycose.algorithms._EcdhHkdf._ecdh']
FDE = [RR + 'DirectKeyAgreement.compute_cek'] + FB
FWE, FWD = [RR + 'KeyAgreementWithKeyWrap.encrypt'] + FB, [RR + 'KeyAgreementWithKeyWrap.decrypt'] + FB
D1, D2, W1, W2 = SH.of_ids([-26, -27, -31, -32])
D, W = DirectKeyAgreement, KeyAgreementWithKeyWrap


def con(name, shape, impl, spec, funcs, **kw):
    return Contract(name, shape, impl, spec, funcs=funcs, watch=False, **kw)


CONTRACTS = [
    con('direct agreement, sending: all algorithms and curves', agreement(D, DIRECT, True), i_agree_e, s_agree_e, FDE),
    con('direct agreement, receiving: all algorithms and curves', agreement(D, DIRECT, False), i_agree_d, s_agree_d, FDE),
    con('agreement with key wrap, sending: all algorithms and curves', agreement(W, WRAPPED, True), i_wrap, s_wrap, FWE),
    con('agreement with key wrap, receiving: all algorithms and curves', agreement(W, WRAPPED, False), i_unwrap, s_unwrap, FWD),
    con('direct agreement: all targets', targets, i_targets, s_targets, FDE),
    con('direct agreement, sending: any PartyU', party(D, D1, True, PARTY[:3]), i_agree_e, s_agree_e, FDE),
    con('direct agreement, sending: any PartyV', party(D, D1, True, PARTY[3:]), i_agree_e, s_agree_e, FDE),
    con('direct agreement, receiving: any PartyU', party(D, D2, False, PARTY[:3]), i_agree_d, s_agree_d, FDE),
    con('direct agreement, receiving: any PartyV', party(D, D2, False, PARTY[3:]), i_agree_d, s_agree_d, FDE),
    con('agreement with key wrap, sending: any PartyU', party(W, W1, True, PARTY[:3]), i_wrap, s_wrap, FWE),
    con('agreement with key wrap, sending: any PartyV', party(W, W1, True, PARTY[3:]), i_wrap, s_wrap, FWE),
    con('agreement with key wrap, receiving: any PartyU', party(W, W2, False, PARTY[:3]), i_unwrap, s_unwrap, FWD),
    con('agreement with key wrap, receiving: any PartyV', party(W, W2, False, PARTY[3:]), i_unwrap, s_unwrap, FWD),
    con('direct agreement, sending: any protected header and supplementary information', supp(D, D2, True), i_agree_e, s_agree_e, FDE),
    con('direct agreement, receiving: any protected header and supplementary information', supp(D, D1, False), i_agree_d, s_agree_d, FDE),
    con('agreement with key wrap, sending: any protected header and supplementary information', supp(W, W2, True), i_wrap, s_wrap, FWE),
    con('agreement with key wrap, receiving: any protected header and supplementary information', supp(W, W1, False), i_unwrap, s_unwrap, FWD),
    con('direct agreement with a new ephemeral key', fresh(D, (-25, -26), ALL), i_fresh_direct, s_fresh_direct,
        FDE + [RR + 'CoseRecipient._setup_ephemeral_key', 'pycose.keys.ec2.EC2Key.generate_key'], native=False),
    con('agreement with key wrap with a new ephemeral key', fresh(W, (-29, -30, -31), ALL[1:3]), i_fresh_wrap, s_fresh_wrap,
        FWE + [RR + 'CoseRecipient._setup_ephemeral_key', 'pycose.keys.ec2.EC2Key.generate_key'], native=False),
    con('CoseKDFContext.encode', ctx_shape, i_ctx, s_ctx, [X + 'CoseKDFContext.encode', X + 'SuppPubInfo.encode', X + 'PartyInfo.encode']),
]
HISTORIES = hist.of('enc', 'mac')
