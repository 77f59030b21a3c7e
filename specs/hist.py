"""Histories through the public interface only: whole messages built, protected, encoded, decoded and opened at random,
against an oracle that uses nothing but the CBOR and cryptography libraries.  They accompany the proofs and decide where
the verifier does not (for instance after internals of the code were renamed)."""
import copy

import cbor2

from pycose import headers as H
from pycose.keys import CoseKey, EC2Key, OKPKey, RSAKey, SymmetricKey
from pycose.keys import keyparam as KP
from pycose.messages import CoseMessage, Enc0Message, EncMessage, Mac0Message, MacMessage, Sign1Message, SignMessage
from pycose.messages.recipient import DirectEncryption, DirectKeyAgreement, KeyAgreementWithKeyWrap, KeyWrap
from pycose.messages.signer import CoseSignature
from pyvc.contract import Violation
from specs import prims as P
from specs import registry as R

NAMES = {v[0]: k for k, v in R.ALGORITHMS.items()}


def byts(r, n=None):
    return r.randbytes(r.choice([1, 7, 16, 33, 200]) if n is None else n)


# ---- keys ------------------------------------------------------------------------------------------------

def sym(r, n, **opt):
    k = byts(r, n)
    return k, SymmetricKey(k=k, optional_params={getattr(KP, p): v for p, v in opt.items()})


def ec2(r, crv):
    """(numbers, private key, public key)"""
    from pycose.keys.curves import CoseCurve
    from specs import pool
    c = CoseCurve.from_id(crv)
    x, y, d = pool.pair(c, r.randrange(pool.SIZE))
    return (x, y, d), EC2Key(crv=crv, x=x, y=y, d=d), EC2Key(crv=crv, x=x, y=y)


def okp(r, crv):
    from pycose.keys.curves import CoseCurve
    from specs import pool
    x, _, d = pool.pair(CoseCurve.from_id(crv), r.randrange(pool.SIZE))
    return (x, b'', d), OKPKey(crv=crv, x=x, d=d), OKPKey(crv=crv, x=x)


def rsa(r):
    from specs import pool
    v = pool.rsa(r.choice([0, 1]))
    n, e, d, p, q, dp, dq, qi = (v[getattr(KP, 'RSAKp' + s)] for s in ('N', 'E', 'D', 'P', 'Q', 'DP', 'DQ', 'QInv'))
    return (n, e, d, p, q, dp, dq, qi), RSAKey(n=n, e=e, d=d, p=p, q=q, dp=dp, dq=dq, qinv=qi), RSAKey(n=n, e=e)


def signing(r, ids=None):
    """(algorithm, numbers, private, public)"""
    i = r.choice(ids or [-7, -8, -8, -35, -36, -37, -257, -258])
    if i in R.ECDSA:
        return (i,) + ec2(r, R.ECDSA[i][1])
    if i == -8:
        crv = r.choice([6, 7])
        return (i,) + okp(r, crv)
    return (i,) + rsa(r)


def accepts(i, nums, data, sig):
    """What the named algorithm says of a signature."""
    try:
        if i in R.ECDSA:
            return P.ecdsa_verify(R.ECDSA[i][2], R.ECDSA[i][0], nums[0], nums[1], data, sig)
        if i == -8:
            return P.eddsa_verify('Ed25519' if len(nums[0]) == 32 else 'Ed448', nums[0], data, sig)
        pad, h = R.RSA_SIG[i]
        return P.rsa_verify(pad, h, nums[0], nums[1], data, sig)
    except Exception:
        return False


def exact(i, nums, data):
    """The signature of a deterministic algorithm."""
    if i in R.ECDSA:
        return P.ecdsa_sign(R.ECDSA[i][2], R.ECDSA[i][0], nums[2], data)
    if i == -8:
        return P.eddsa_sign('Ed25519' if len(nums[0]) == 32 else 'Ed448', nums[2], data)
    pad, h = R.RSA_SIG[i]
    return P.rsa_sign(pad, h, nums, data) if pad == 'pkcs1' else None


# ---- headers ---------------------------------------------------------------------------------------------

def headers(r, must, forbid=()):
    """Two header maps with integer labels; each of `must` in one of them."""
    ph, uh = {}, {}
    for k, v in must.items():
        (ph if r.random() < .6 else uh)[k] = v
    for k, v in ((2, [1]), (3, r.choice([0, 50, 'text/plain'])), (4, byts(r)), (33, [b'cert']), (35, 'uri'), (1000, r.choice([1, 'x', b'y', None, {1: 2}, [1, b'']])),
                 ('label', [1, 2]), (-70001, b''), (10, b'ctx')):
        if r.random() < .15 and k not in forbid:
            (ph if r.random() < .5 else uh)[k] = v
    return ph, uh


def given(r, h):
    """The same map with labels and algorithms named in one of the other ways."""
    out = {}
    for k, v in h.items():
        if k in R.HEADERS and r.random() < .6:
            k2 = getattr(H, R.HEADERS[k][1]) if r.random() < .7 else R.HEADERS[k][0]
            if k == 1 and v in R.ALGORITHMS:
                import pycose.algorithms as A
                v = r.choice([v, R.ALGORITHMS[v][0], getattr(A, R.ALGORITHMS[v][1])])
            out[k2] = v
        else:
            out[k] = v
    return out


def classes(h):
    """The map as the library shows it."""
    import pycose.algorithms as A
    return {(getattr(H, R.HEADERS[k][1]) if k in R.HEADERS else k): (getattr(A, R.ALGORITHMS[v][1]) if k == 1 and type(v) is int else v)
            for k, v in h.items()}


def pe(h):
    return cbor2.dumps(h) if h else b''


def need(ok, text):
    if not ok:
        raise Violation(text)


def same(a, b, text):
    if a != b or type(a) is not type(b):
        raise Violation(f'{text}: {a!r:.300} instead of {b!r:.300}')


def refuses(f, text):
    try:
        x = f()
    except Exception:
        return
    raise Violation(f'{text}: gives {x!r:.200} instead of an exception')


def flip(r, b):
    i = r.randrange(len(b) * 8)
    return b[:i // 8] + bytes([b[i // 8] ^ (1 << i % 8)]) + b[i // 8 + 1:]


# ---- signatures ------------------------------------------------------------------------------------------

def sign1(r):
    i, nums, priv, pub = signing(r)
    ph, uh = headers(r, {1: i})
    payload, aad = byts(r, r.choice([0, 1, 40])), r.choice([b'', byts(r)])
    detached = r.random() < .4
    tag = r.random() < .7
    m = Sign1Message(phdr=given(r, ph), uhdr=given(r, uh), payload=None if detached else payload, external_aad=aad, key=priv)
    d = payload if detached else None
    out = m.encode(tag=tag, detached_payload=d)
    x = cbor2.loads(out)
    if tag:
        same(x.tag, 18, 'tag')
        x = x.value
    same(x[:3], [pe(ph), uh, None if detached else payload], 'COSE_Sign1')
    need(len(x) == 4, 'COSE_Sign1 has four elements')
    tbs = cbor2.dumps(['Signature1', pe(ph), aad, payload])
    need(accepts(i, nums, tbs, x[3]), f'algorithm {i} does not accept the signature of {ph} {uh} {payload!r} {aad!r}')
    e = exact(i, nums, tbs)
    if e is not None:
        same(x[3], e, f'signature of algorithm {i}')
    if r.random() < .5:
        again = m.encode(tag=tag, detached_payload=d)
        if e is not None:
            same(again, out, 'a second encoding')
    # another encoding of the protected header, as a peer might send it
    pe2 = pe(ph)
    if ph and r.random() < .5:
        pe2 = b'\xbf' + pe(ph)[1:] + b'\xff' if len(ph) < 24 else pe2
    if ph and len(ph) < 24 and r.random() < .2:
        pe2 = b'\xb8' + bytes([len(ph)]) + pe(ph)[1:]
    tbs2 = cbor2.dumps(['Signature1', pe2, aad, payload])
    sig = x[3] if pe2 == pe(ph) else (exact(i, nums, tbs2) or x[3])
    m2 = CoseMessage.decode(cbor2.dumps(cbor2.CBORTag(18, [pe2, uh, x[2], sig])))
    need(type(m2) is Sign1Message, 'type of the decoded message')
    same(m2.phdr, classes(ph), 'decoded protected header')
    same(m2.uhdr, classes(uh), 'decoded unprotected header')
    same(m2.payload, x[2], 'decoded payload')
    same(m2.signature, sig, 'decoded signature')
    m2.key, m2.external_aad = pub, aad
    if r.random() < .3:
        try:
            m2.verify_signature(b'other')
        except Exception:
            pass
    need(m2.verify_signature(d) is accepts(i, nums, tbs2, sig), f'verdict on the signature (algorithm {i})')
    same(m2.encode(sign=False), cbor2.dumps(cbor2.CBORTag(18, [pe2, uh, x[2], sig])), 'a message sent on')
    k = r.random()
    if k < .25:
        m2.signature = flip(r, sig)
    elif k < .5:
        m2.external_aad = aad + b'x'
    elif k < .75 and not detached:
        m2.payload = payload + b'x'
    else:
        m2.phdr_update({1000: 'changed'})
        tbs2 = cbor2.dumps(['Signature1', cbor2.dumps({**ph, 1000: 'changed'}), aad, payload])
        need(m2.verify_signature(d) is accepts(i, nums, tbs2, sig), 'verdict after a change of the protected header')
        if ph.get(1000) == 'changed':
            return
    need(m2.verify_signature(d) is False, f'algorithm {i}: a changed message is accepted')


def sign(r):
    ph, uh = headers(r, {})
    payload = byts(r, r.choice([0, 1, 40]))
    detached = r.random() < .4
    d = payload if detached else None
    parts = []
    for j in range(r.choice([1, 1, 2, 3])):
        i, nums, priv, pub = signing(r, [-7, -8, -35, -257, -37])
        sph, suh = headers(r, {1: i})
        aad = r.choice([b'', byts(r)])
        s = CoseSignature(phdr=given(r, sph), uhdr=given(r, suh), external_aad=aad, key=priv)
        parts.append((i, nums, pub, sph, suh, aad, s))
    m = SignMessage(phdr=given(r, ph), uhdr=given(r, uh), payload=None if detached else payload, signers=[p[6] for p in parts])
    out = m.encode(detached_payload=d)
    x = cbor2.loads(out)
    same(x.tag, 98, 'tag')
    x = x.value
    same(x[:3], [pe(ph), uh, None if detached else payload], 'COSE_Sign')
    need(len(x) == 4 and len(x[3]) == len(parts), 'COSE_Sign has its signatures')
    m2 = CoseMessage.decode(out)
    need(type(m2) is SignMessage and len(m2.signers) == len(parts), 'decoded COSE_Sign')
    for (i, nums, pub, sph, suh, aad, s), w, s2 in zip(parts, x[3], m2.signers):
        same(w[:2], [pe(sph), suh], 'COSE_Signature')
        tbs = cbor2.dumps(['Signature', pe(ph), pe(sph), aad, payload])
        need(accepts(i, nums, tbs, w[2]), f'algorithm {i} does not accept the signature of a signer')
        same([s2.phdr, s2.uhdr, s2.signature], [classes(sph), classes(suh), w[2]], 'decoded signer')
        s2.key, s2.external_aad = pub, aad
        need(s2.verify_signature(d) is True, f'signature of a signer (algorithm {i}) refused')
    s2 = r.choice(m2.signers)
    k = r.random()
    if k < .3:
        m2.phdr_update({1001: 1})
    elif k < .6:
        s2.external_aad = s2.external_aad + b'x'
    else:
        s2.signature = flip(r, s2.signature)
    need(s2.verify_signature(d) is False, 'a changed signature is accepted')


# ---- MACs and encryption ---------------------------------------------------------------------------------

def mac_of(i, k, data):
    if i in R.HMAC:
        return P.hmac_(R.HMAC[i][0], k, data)[:R.HMAC[i][1]]
    return P.cbc_mac(k, data, R.CBCMAC[i][1])


def seal(i, k, iv, data, aad):
    return P.gcm_enc(k, iv, data, aad) if i in R.GCM else P.ccm_enc(k, iv, data, aad, R.CCM[i][1])


def content(r, enc):
    """(algorithm, key length, headers that must be there, nonce, what the key needs)"""
    if not enc:
        i = r.choice(list(R.HMAC) + list(R.CBCMAC))
        return i, R.CBCMAC[i][0] if i in R.CBCMAC else r.choice([16, 24, 32]), {1: i}, None, {}
    i = r.choice(list(R.GCM) + list(R.CCM))
    n = 12 if i in R.GCM else 7 if i in (12, 13, 32, 33) else 13
    if r.random() < .35:
        base = byts(r, n)
        part = byts(r, r.randrange(0, n + 1))
        iv = bytes(a ^ b for a, b in zip(base, part.rjust(n, b'\0')))
        return i, R.KEYLEN[i], {1: i, 6: part}, iv, {'KpBaseIV': base}
    iv = byts(r, n)
    return i, R.KEYLEN[i], {1: i, 5: iv}, iv, r.choice([{}, {'KpBaseIV': byts(r, n)}])


def single(r, enc):
    i, n, must, iv, kopt = content(r, enc)
    k, key = sym(r, n, **kopt)
    ph, uh = headers(r, must)
    payload, aad = byts(r, r.choice([0, 1, 40])), r.choice([b'', byts(r)])
    cls, tag = (Enc0Message, 16) if enc else (Mac0Message, 17)
    m = cls(phdr=given(r, ph), uhdr=given(r, uh), payload=payload, external_aad=aad, key=key)
    out = m.encode()
    x = cbor2.loads(out)
    same(x.tag, tag, 'tag')
    x = x.value
    if enc:
        want = [pe(ph), uh, seal(i, k, iv, payload, cbor2.dumps(['Encrypt0', pe(ph), aad]))]
    else:
        want = [pe(ph), uh, payload, mac_of(i, k, cbor2.dumps(['MAC0', pe(ph), aad, payload]))]
    same(x, want, f'{cls.__name__} with algorithm {i}')
    same(m.encode(), out, 'a second encoding')
    same(cbor2.loads(m.encode(tag=False)), want, 'untagged encoding')
    m2 = CoseMessage.decode(out)
    need(type(m2) is cls, 'type of the decoded message')
    same([m2.phdr, m2.uhdr, m2.payload], [classes(ph), classes(uh), x[2]], 'decoded message')
    m2.key, m2.external_aad = key, aad
    change = r.choice(['aad', 'body', 'header', 'key', 'short'])
    if enc:
        same(m2.decrypt(), payload, 'decrypted payload')
        same(m2.decrypt(), payload, 'payload decrypted twice')
    else:
        same(m2.auth_tag, x[3], 'decoded tag')
        need(m2.verify_tag() is True, f'tag of algorithm {i} refused')
    if change == 'aad':
        m2.external_aad = aad + b'x'
    elif change == 'header':
        m2.phdr_update({1002: 1})
    elif change == 'key':
        m2.key = SymmetricKey(k=flip(r, k), optional_params={getattr(KP, p): v for p, v in kopt.items()})
    elif enc:
        m2.payload = flip(r, x[2]) if change == 'body' else x[2][:-1]
    elif change == 'body':
        m2.auth_tag = flip(r, x[3])
    else:
        m2.auth_tag = r.choice([x[3][:-1], x[3] + b'\0', b''])
    if enc:
        refuses(m2.decrypt, f'algorithm {i}, changed {change}')
    else:
        need(m2.verify_tag() is False, f'algorithm {i}: accepted with changed {change}')


def enc0(r):
    single(r, True)


def mac0(r):
    single(r, False)


# ---- recipients ------------------------------------------------------------------------------------------

def kdf_info(alg, bits, ph, uh, local):
    g = {**ph, **uh}
    pub = [bits, pe(ph)] + ([local['pub']] if local.get('pub') else [])
    ctx = [alg, [g.get(-21), g.get(-22), g.get(-23)], [g.get(-24), g.get(-25), g.get(-26)], pub]
    return cbor2.dumps(ctx + ([local['priv']] if local.get('priv') else []))


class Party:
    """One recipient: the object to send with, what must be on the wire and the object to receive with."""

    def __init__(self, r, kind, cek):
        self.kind, self.cek = kind, cek
        must = {}
        self.local = {}
        if kind == 'direct':
            self.ph, self.uh = {}, {1: -6, 4: byts(r)}
            self.obj = DirectEncryption(uhdr=given(r, self.uh))
            return
        if kind == 'kw':
            self.alg = r.choice([-3, -4, -5])
            self.k, self.key = sym(r, R.KW[self.alg])
            self.ph, self.uh = {}, {1: self.alg, 4: byts(r)}
            self.obj = KeyWrap(uhdr=given(r, self.uh), payload=cek, key=self.key)
            return
        self.alg = r.choice([-25, -26, -27, -28] if kind == 'dka' else [-29, -30, -31, -32, -33, -34])
        crv = r.choice([1, 2, 3, 8])
        self.crv = R.CURVE[crv][2]
        self.peer, self.peer_priv, self.peer_pub = ec2(r, crv)
        for k in (-21, -22, -23, -24, -25, -26):
            if r.random() < .3:
                must[k] = byts(r)
        must[1] = self.alg
        self.ph, self.uh = headers(r, must)
        opt = {H.StaticKey: self.peer_pub}
        if r.random() < .3:
            self.local['pub'] = opt[H.SuppPubOther] = byts(r)
        if r.random() < .3:
            self.local['priv'] = opt[H.SuppPrivOther] = byts(r)
        self.own = None
        cls = DirectKeyAgreement if kind == 'dka' else KeyAgreementWithKeyWrap
        self.static = self.alg in (-27, -28, -32, -33, -34)
        if self.static:
            self.own, own, pub = ec2(r, crv)
            self.uh[-2] = {1: 2, -1: crv, -2: self.own[0], -3: self.own[1]}
            self.obj = cls(phdr=given(r, self.ph), uhdr=given(r, self.uh), key=own)
        else:
            self.obj = cls(phdr=given(r, self.ph), uhdr=given(r, self.uh))
        if kind == 'kakw':
            self.obj.payload = cek
        self.obj.local_attrs = opt

    def check(self, w, target):
        """The transmitted recipient; returns the content key it conveys."""
        same(w[0], pe(self.ph), 'protected header of a recipient')
        uh = dict(self.uh)
        pub = None
        if self.kind in ('dka', 'kakw'):
            pub = w[1].get(-2 if self.static else -1)
            need(isinstance(pub, dict) and -4 not in pub, 'public key in a recipient')
            if not self.static:
                uh[-1] = pub
        same(w[1], uh, 'unprotected header of a recipient')
        if self.kind == 'direct':
            same(w[2:], [b''], 'direct recipient')
            return None
        if self.kind == 'kw':
            return P.kw_unwrap(self.k, w[2])
        secret = P.ecdh(self.crv, self.peer[2], pub[-2], pub[-3])
        h, kw = R.ECDH[self.alg]
        if kw is None:
            same(w[2:], [b''], 'direct key agreement')
            n = R.KEYLEN[target]
            return P.hkdf(h, n, b'', kdf_info(target, n * 8, self.ph, uh, self.local), secret)
        n = R.KW[kw]
        return P.kw_unwrap(P.hkdf(h, n, b'', kdf_info(kw, n * 8, self.ph, uh, self.local), secret), w[2])

    def receive(self, o):
        cls = {'direct': DirectEncryption, 'kw': KeyWrap, 'dka': DirectKeyAgreement, 'kakw': KeyAgreementWithKeyWrap}[self.kind]
        need(type(o) is cls, f'class of a decoded recipient: {type(o)}')
        if self.kind == 'kw':
            o.key = self.key
        elif self.kind != 'direct':
            o.key = self.peer_priv
            o.local_attrs = {k: v for k, v in ((H.SuppPubOther, self.local.get('pub')), (H.SuppPrivOther, self.local.get('priv'))) if v}


def layered(r, enc):
    mode = r.choice(['direct', 'dka', 'wrap', 'wrap', 'wrap'])
    while True:
        i, n, must, iv, kopt = content(r, enc)
        if (mode == 'direct' or 5 in must or not enc) and (mode == 'direct' or i in R.KEYLEN):
            break
    kopt = kopt if mode == 'direct' else {}
    preset = byts(r, n) if r.random() < .4 else b''
    kinds = ['direct'] * r.choice([1, 2]) if mode == 'direct' else ['dka'] if mode == 'dka' else [r.choice(['kw', 'kakw']) for _ in range(r.choice([1, 2, 3]))]
    some = r.randrange(len(kinds))
    parties = [Party(r, kind, preset if j == some or r.random() < .5 else b'') for j, kind in enumerate(kinds)]
    ph, uh = headers(r, must)
    payload, aad = byts(r, r.choice([0, 1, 40])), r.choice([b'', byts(r)])
    k, key = sym(r, n, **kopt) if mode == 'direct' else (None, None)
    cls, tag = (EncMessage, 96) if enc else (MacMessage, 97)
    m = cls(phdr=given(r, ph), uhdr=given(r, uh), payload=payload, external_aad=aad, recipients=[p.obj for p in parties], key=key)
    out = m.encode()
    x = cbor2.loads(out)
    same(x.tag, tag, 'tag')
    x = x.value
    same(x[:2], [pe(ph), uh], f'headers of {cls.__name__}')
    need(len(x) == (4 if enc else 5) and len(x[-1]) == len(parties), f'elements of {cls.__name__}')
    for p, w in zip(parties, x[-1]):
        cek = p.check(w, i)
        if mode != 'direct':
            need(k is None or k == cek, 'recipients convey different content keys')
            k = cek
    if mode == 'wrap':
        need(not preset or k == preset, 'the preset content key is not used')
        need(len(k) == R.KEYLEN[i] or preset, 'length of the content key')
    if enc:
        same(x[2], seal(i, k, iv, payload, cbor2.dumps(['Encrypt', pe(ph), aad])), f'ciphertext of algorithm {i}')
    else:
        same(x[2:4], [payload, mac_of(i, k, cbor2.dumps(['MAC', pe(ph), aad, payload]))], f'tag of algorithm {i}')
    m2 = CoseMessage.decode(out)
    need(type(m2) is cls and len(m2.recipients) == len(parties), 'decoded message')
    same([m2.phdr, m2.uhdr, m2.payload], [classes(ph), classes(uh), x[2]], 'decoded message')
    m2.external_aad = aad
    for p, o in zip(parties, m2.recipients):
        p.receive(o)
    if mode == 'direct':
        m2.key = key
    o = r.choice(m2.recipients)
    if enc:
        same(m2.decrypt(o), payload, f'decrypted payload ({mode})')
    else:
        if mode != 'direct':
            from pycose.algorithms import CoseAlgorithm
            got = o.compute_cek(CoseAlgorithm.from_id(i), 'decrypt')
            same(got.k, k, 'content key of a recipient')
            m2.key = SymmetricKey(k=got.k)
        need(m2.verify_tag() is True, f'tag refused ({mode})')
    if r.random() < .5:
        m2.external_aad = aad + b'x'
    elif mode != 'direct' and r.random() < .5 and o.payload:
        o.payload = flip(r, o.payload)
        if enc:
            refuses(lambda: m2.decrypt(o), 'changed recipient')
        return
    elif mode in ('dka', 'wrap') and not isinstance(o, KeyWrap):
        o.uhdr_update({H.PartyUID: b'someone else'} if H.PartyUID not in o.phdr else {1003: 1})
        if H.PartyUID in o.phdr:
            return
        if enc:
            refuses(lambda: m2.decrypt(o), 'changed party information')
        return
    else:
        m2.phdr_update({1002: 1})
    if enc:
        refuses(lambda: m2.decrypt(o), 'changed message')
    else:
        need(m2.verify_tag() is False, 'a changed message is accepted')


def enc(r):
    layered(r, True)


def mac(r):
    layered(r, False)


def of(*names, tries=120):
    from pyvc.contract import History
    text = {'sign1': 'COSE_Sign1', 'sign': 'COSE_Sign', 'enc0': 'COSE_Encrypt0', 'mac0': 'COSE_Mac0', 'enc': 'COSE_Encrypt', 'mac': 'COSE_Mac'}
    return [History(f'{text[n]} messages through the public interface', globals()[n], tries=tries) for n in names]
