"""C08: no cryptographic operation with a key that its own attributes forbid.

The key is arbitrary: absent, or of any type with arbitrary alg, key operations, key id and base IV (the latter where
they matter).  The specification demands the policy of RFC 8152 section 7.1 before the operation; after an exception
the whole state must be what it was."""
from pycose import headers as H
from pycose.messages import Enc0Message, EncMessage, Mac0Message, MacMessage, Sign1Message, SignMessage
from pycose.messages.recipient import DirectKeyAgreement, KeyAgreementWithKeyWrap, KeyWrap
from pycose.messages.signer import CoseSignature
from pycose.keys import keyops as KO
from pycose.keys import keyparam as KP
from pycose.keys import EC2Key, OKPKey, RSAKey, SymmetricKey
from pycose.keys import curves as CU
from pyvc.contract import Contract, State
from specs import algs as A
from specs import common as S
from specs import lemmas as L
from specs import rcpt as RC
from specs import shapes as SH

POLICY = {KP.KpAlg: ('kinds', ('none', 'cls')), KP.KpKeyOps: ('oplist', SH.KEYOPS), KP.KpKid: 'bytes',
          KP.KpBaseIV: 'absent'}
POLICY[KP.KpAlg] = ('enum', SH.ALGS)
SIGNERS = (EC2Key, OKPKey, RSAKey)


def any_key(cx, name, curve=CU.P256):
    kind = cx.choice(name + '.type', ['none', 'EC2', 'OKP', 'RSA', 'symmetric'])
    if kind == 'none':
        return None
    if kind == 'EC2':
        return SH.ec2_key(cx, name, (curve,), schema=POLICY)
    if kind == 'OKP':
        return SH.okp_key(cx, name, (CU.Ed25519,), schema=POLICY)
    if kind == 'RSA':
        return SH.rsa_key(cx, name, schema=POLICY)
    return SH.sym_key(cx, name, lens=(16,), schema=POLICY)


def alg_of(cx, ids):
    return SH.of_ids([cx.choice('alg', list(ids))])[0]


def buckets(cx, alg, iv=False, protected=True):
    """Algorithm in either bucket."""
    h = [(H.Algorithm, alg)] + ([(H.IV, cx.bytes('iv', lens=(12,)))] if iv else [])
    ph, uh = cx.pydict(h), cx.dict('uhdr', {H.Algorithm: 'absent', H.IV: 'absent'})
    if not protected:
        return cx.pydict([]), cx.pydict(h)
    if cx.choice('algorithm in', ['protected', 'unprotected']) == 'unprotected':
        ph, uh = uh, ph
    return ph, uh


# ---- signatures ------------------------------------------------------------------------------------------

SIGN_IDS = (-7, -8, -37, -257)


def sign1(cx):
    alg = alg_of(cx, SIGN_IDS)
    ph, uh = buckets(cx, alg)
    return State(m=SH.msg(cx, Sign1Message, 'm', payload='bytes', enc=None, key=any_key(cx, 'key'), ph=ph, uh=uh,
                          _signature=cx.bytes('m.signature')))


def signer(cx):
    alg = alg_of(cx, SIGN_IDS)
    ph, uh = buckets(cx, alg)
    sg = SH.msg(cx, CoseSignature, 's', payload='bytes', enc=None, key=any_key(cx, 'key'), ph=ph, uh=uh)
    m = SignMessage(phdr={}, payload=b'')
    SH.put(m, _payload=cx.bytes('payload'), _signers=cx.lst([sg]))
    SH.put(sg, _parent=m)
    return State(m=m, sg=sg)


def i_sign1(s):
    return s.m.compute_signature()


def s_sign1(s):
    alg = S.header(s.m, H.Algorithm)
    S.check_key(s.m._key, SIGNERS, alg, [KO.SignOp])
    return A.sign(alg, s.m._key, S.sig_structure1(s.m, None))


def i_verify1(s):
    return s.m.verify_signature()


def s_verify1(s):
    alg = S.header(s.m, H.Algorithm)
    S.check_key(s.m._key, SIGNERS, alg, [KO.VerifyOp])
    return A.verify(alg, s.m._key, S.sig_structure1(s.m, None), s.m._signature)


def i_sign(s):
    return s.sg.compute_signature()


def s_sign(s):
    alg = S.header(s.sg, H.Algorithm)
    S.check_key(s.sg._key, SIGNERS, alg, [KO.SignOp])
    return A.sign(alg, s.sg._key, S.sig_structure(s.sg, s.m, None))


def i_verify(s):
    return s.sg.verify_signature()


def s_verify(s):
    alg = S.header(s.sg, H.Algorithm)
    S.check_key(s.sg._key, SIGNERS, alg, [KO.VerifyOp])
    return A.verify(alg, s.sg._key, S.sig_structure(s.sg, s.m, None), s.sg._payload)


# ---- MAC and encryption ----------------------------------------------------------------------------------

def mac(cls, direct):
    def shape(cx):
        alg = alg_of(cx, (5, 14))
        ph, uh = buckets(cx, alg)
        m = SH.msg(cx, cls, 'm', payload='bytes', enc=None, key=any_key(cx, 'key'), ph=ph, uh=uh,
                   auth_tag=cx.bytes('m.auth_tag'))
        if direct:
            from specs.c02 import direct as d
            SH.put(m, _recipients=cx.lst([d(cx)]))
        return State(m=m)
    return shape


def i_mac(s):
    return s.m.compute_tag()


def _tag(s, op):
    alg = S.header(s.m, H.Algorithm)
    S.check_key(s.m._key, SymmetricKey, alg, [op])
    return A.mac(alg, s.m._key.store[KP.SymKpK], S.mac_structure(type(s.m).context, s.m))


def s_mac(s):
    s.m.auth_tag = _tag(s, KO.MacCreateOp)
    return s.m.auth_tag


def i_vmac(s):
    return s.m.verify_tag()


def s_vmac(s):
    return _tag(s, KO.MacVerifyOp) == s.m.auth_tag


def enc(cls, direct):
    def shape(cx):
        alg = alg_of(cx, (1, 10))
        ph, uh = buckets(cx, alg, iv=True)
        m = SH.msg(cx, cls, 'm', payload='bytes', enc=None, key=any_key(cx, 'key'), ph=ph, uh=uh)
        r = None
        if direct:
            from specs.c03 import direct as d
            r = d(cx)
            SH.put(m, _recipients=cx.lst([r]))
        return State(m=m, r=r)
    return shape


def i_enc(s):
    return s.m.encrypt()


def s_enc(s):
    alg = S.header(s.m, H.Algorithm)
    S.check_key(s.m._key, SymmetricKey, alg, [KO.EncryptOp])
    return A.aead_enc(alg, s.m._key.store[KP.SymKpK], S.header(s.m, H.IV), s.m._payload, S.enc_structure(type(s.m).context, s.m))


def i_dec0(s):
    return s.m.decrypt()


def i_dec1(s):
    return s.m.decrypt(s.r)


def s_dec(s):
    alg = S.header(s.m, H.Algorithm)
    S.check_key(s.m._key, SymmetricKey, alg, [KO.DecryptOp])
    return A.aead_dec(alg, s.m._key.store[KP.SymKpK], S.header(s.m, H.IV), s.m._payload, S.enc_structure(type(s.m).context, s.m))


# ---- recipients ------------------------------------------------------------------------------------------

def keywrap(cx):
    alg = alg_of(cx, (-3, -41))
    ph, uh = buckets(cx, alg, protected=False)
    r = SH.msg(cx, KeyWrap, 'r', payload='bytes', enc=None, key=any_key(cx, 'key'), ph=ph, uh=uh)
    return State(r=r)


def i_wrap(s):
    return s.r.encrypt(None)


def s_wrap(s):
    return RC.wrap(s.r)


def i_unwrap(s):
    return s.r.decrypt(None)


def s_unwrap(s):
    return RC.unwrap(s.r)


def agreement(cls, ids, sending, own=None, peer=None):
    """Own or peer key arbitrary; the other one an EC2 key without policy."""
    def shape(cx):
        alg = alg_of(cx, ids)
        plain = dict(POLICY)
        plain[KP.KpAlg] = plain[KP.KpKeyOps] = 'absent'
        which = cx.choice('arbitrary key', ['own', 'peer'])
        if which == 'own':
            own, peer = any_key(cx, 'own'), SH.ec2_key(cx, 'peer', (CU.P256,), schema=plain)
        else:
            own, peer = SH.ec2_key(cx, 'own', (CU.P256,), private=True, schema=plain), any_key(cx, 'peer')
        if own is None and sending and alg.identifier in RC.EPHEMERAL:
            own = SH.ec2_key(cx, 'own', (CU.P256,), private=True, schema=plain)       # see C15: ephemeral keys
        uh = [(H.Algorithm, alg)]
        loc = cx.pydict([(H.StaticKey, peer)] if sending and peer is not None else [])
        if not sending and peer is not None:
            uh.append((H.EphemeralKey if alg.identifier in RC.EPHEMERAL else H.StaticKey, peer))
        r = SH.msg(cx, cls, 'r', payload='bytes', enc=None, key=own, ph=cx.pydict([]), uh=cx.pydict(uh), _local_attrs=loc)
        return State(r=r, target=SH.of_ids([1])[0])
    return shape


def i_agree_e(s):
    return s.r.compute_cek(s.target, 'encrypt').k


def i_agree_d(s):
    return s.r.compute_cek(s.target, 'decrypt').k


def s_agree_e(s):
    return RC.agree(s.r, s.target, True)


def s_agree_d(s):
    return RC.agree(s.r, s.target, False)


def s_awrap(s):
    return RC.agree_wrap(s.r)


def s_aunwrap(s):
    return RC.agree_unwrap(s.r)


# ---- earlier calls do not unlock a key -------------------------------------------------------------------

ONLY_OPS = {KP.KpAlg: 'absent', KP.KpKeyOps: ('oplist', SH.KEYOPS), KP.KpKid: 'absent', KP.KpBaseIV: 'absent'}


def later(cx):
    """An operation, then the same message with another key, the key's attributes changed, or another algorithm."""
    kind = cx.choice('kind', ['Mac0', 'Enc0'])
    cls = {'Mac0': Mac0Message, 'Enc0': Enc0Message}[kind]
    alg, other = SH.of_ids({'Mac0': [5, 7], 'Enc0': [1, 30]}[kind])
    k1 = SH.sym_key(cx, 'key1', lens=(16,), schema=ONLY_OPS)
    k2 = SH.sym_key(cx, 'key2', lens=(16,), schema={**ONLY_OPS, KP.KpAlg: ('enum', (alg, other))})
    m = SH.msg(cx, cls, 'm', payload='bytes', enc=None, key=k1, ph=cx.pydict([]),
               uh=cx.pydict([(H.Algorithm, alg), (H.IV, cx.bytes('iv', lens=(12,)))]))
    return State(m=m, k1=k1, k2=k2, ops=cx.oplist('ops', SH.KEYOPS), then=cx.choice('then', ['key', 'ops', 'alg']),
                 first=cx.choice('first', ['make', 'check']), second=cx.choice('second', ['make', 'check']), other=other)


def _do(m, what):
    if isinstance(m, Mac0Message):
        return m.compute_tag() if what == 'make' else m.verify_tag()
    return m.encrypt() if what == 'make' else m.decrypt()


def i_later(s):
    try:
        _do(s.m, s.first)
    except Exception:
        pass
    if s.then == 'key':
        s.m.key = s.k2
    elif s.then == 'ops':
        s.k1.store[KP.KpKeyOps] = s.ops
    else:
        s.m.uhdr_update({H.Algorithm: s.other})
        s.k1.store[KP.KpAlg] = s.other
    return _do(s.m, s.second)


def _spec_do(s, what):
    if isinstance(s.m, Mac0Message):
        t = _tag(s, KO.MacCreateOp if what == 'make' else KO.MacVerifyOp)
        if what == 'make':
            s.m.auth_tag = t
            return t
        return t == s.m.auth_tag
    return s_enc(s) if what == 'make' else s_dec(s)


def s_later(s):
    try:
        _spec_do(s, s.first)
    except Exception:
        pass
    if s.then == 'key':
        s.m._key = s.k2
    elif s.then == 'ops':
        s.k1.store[KP.KpKeyOps] = s.ops
    else:
        s.m._uhdr[H.Algorithm] = s.other
        s.k1.store[KP.KpAlg] = s.other
    return _spec_do(s, s.second)


V = 'pycose.keys.cosekey.CoseKey.verify'
M = 'pycose.messages.'
RR = M + 'recipient.'


def con(name, shape, impl, spec, *funcs, **kw):
    return Contract(name, shape, impl, spec, funcs=[V] + [M + f for f in funcs], raise_same=True, tries=120, **kw)


SC, MC, EC = 'signcommon.SignCommon.', 'maccommon.MacCommon.', 'enccommon.EncCommon.'
CONTRACTS = [
    L.aes_mac(soft=True),
    con('Sign1Message.compute_signature with any key', sign1, i_sign1, s_sign1, SC + 'compute_signature', SC + '_key_verification'),
    con('Sign1Message.verify_signature with any key', sign1, i_verify1, s_verify1, SC + 'verify_signature', SC + '_key_verification'),
    con('CoseSignature.compute_signature with any key', signer, i_sign, s_sign, SC + 'compute_signature', SC + '_key_verification'),
    con('CoseSignature.verify_signature with any key', signer, i_verify, s_verify, SC + 'verify_signature', SC + '_key_verification'),
    con('Mac0Message.compute_tag with any key', mac(Mac0Message, False), i_mac, s_mac, MC + 'compute_tag'),
    con('Mac0Message.verify_tag with any key', mac(Mac0Message, False), i_vmac, s_vmac, MC + 'verify_tag'),
    con('MacMessage.compute_tag with any key', mac(MacMessage, True), i_mac, s_mac, 'macmessage.MacMessage.compute_tag'),
    con('MacMessage.verify_tag with any key', mac(MacMessage, True), i_vmac, s_vmac, MC + 'verify_tag'),
    con('Enc0Message.encrypt with any key', enc(Enc0Message, False), i_enc, s_enc, EC + 'encrypt'),
    con('Enc0Message.decrypt with any key', enc(Enc0Message, False), i_dec0, s_dec, EC + 'decrypt'),
    con('EncMessage.encrypt with any key', enc(EncMessage, True), i_enc, s_enc, 'encmessage.EncMessage.encrypt'),
    con('EncMessage.decrypt with any key', enc(EncMessage, True), i_dec1, s_dec, 'encmessage.EncMessage.decrypt'),
    con('a key is judged anew by every operation', later, i_later, s_later, MC + 'compute_tag', MC + 'verify_tag', EC + 'encrypt',
        EC + 'decrypt'),
    con('KeyWrap.encrypt with any key', keywrap, i_wrap, s_wrap, 'recipient.KeyWrap.encrypt'),
    con('KeyWrap.decrypt with any key', keywrap, i_unwrap, s_unwrap, 'recipient.KeyWrap.decrypt'),
    con('DirectKeyAgreement.compute_cek for sending with any keys', agreement(DirectKeyAgreement, (-25, -28), True),
        i_agree_e, s_agree_e, 'recipient.DirectKeyAgreement.compute_cek'),
    con('DirectKeyAgreement.compute_cek for receiving with any keys', agreement(DirectKeyAgreement, (-25, -28), False),
        i_agree_d, s_agree_d, 'recipient.DirectKeyAgreement.compute_cek'),
    con('KeyAgreementWithKeyWrap.encrypt with any keys', agreement(KeyAgreementWithKeyWrap, (-29, -34), True),
        i_wrap, s_awrap, 'recipient.KeyAgreementWithKeyWrap.encrypt'),
    con('KeyAgreementWithKeyWrap.decrypt with any keys', agreement(KeyAgreementWithKeyWrap, (-29, -34), False),
        i_unwrap, s_aunwrap, 'recipient.KeyAgreementWithKeyWrap.decrypt'),
]
