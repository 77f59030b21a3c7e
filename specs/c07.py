"""C07: the AEAD nonce."""
from pycose import headers as H
from pycose.keys import keyparam as KP
from pycose.messages import Enc0Message, EncMessage
from pyvc.contract import Contract, State
from specs import algs as A
from specs import common as S
from specs import shapes as SH
from specs.c03 import direct
from specs import hist

IVS = {H.Algorithm: 'absent', H.IV: ('kinds', ('none', 'bytes')), H.PartialIV: ('kinds', ('none', 'bytes'))}
KEY = {KP.KpAlg: 'absent', KP.KpKeyOps: 'absent', KP.KpBaseIV: 'bytes', KP.KpKid: 'bytes'}
GCM, CCM = SH.of_ids([1, 30])


def message(cx, cls, protected=True, **kw):
    """Any IV headers and Base IV; the algorithm in one of the buckets."""
    alg = cx.choice('alg', [GCM, CCM])
    ph = cx.dict('m.phdr', {**IVS, H.Algorithm: ('has', ('enum', (alg,)))}) if protected else cx.pydict([])
    uh = cx.dict('m.uhdr', IVS if protected else {**IVS, H.Algorithm: ('has', ('enum', (alg,)))})
    return alg, SH.msg(cx, cls, 'm', payload='bytes', key=SH.sym_key(cx, 'key', schema=KEY), ph=ph, uh=uh, **kw)


def shape0(cx):
    alg, m = message(cx, Enc0Message)
    return State(m=m, alg=alg, context='Encrypt0', args=())


def shape1(cx):
    r = direct(cx)
    alg, m = message(cx, EncMessage, _recipients=cx.lst([r]))
    return State(m=m, alg=alg, context='Encrypt', args=(r,))


def encrypt(s):
    return s.m.encrypt()


def decrypt(s):
    return s.m.decrypt(*s.args)


def s_encrypt(s):
    n = S.nonce(s.m)
    return A.aead_enc(s.alg, s.m._key.store[KP.SymKpK], n, s.m._payload, S.enc_structure(s.context, s.m))


def s_decrypt(s):
    n = S.nonce(s.m)
    return A.aead_dec(s.alg, s.m._key.store[KP.SymKpK], n, s.m._payload, S.enc_structure(s.context, s.m))


BASE = {KP.KpAlg: 'absent', KP.KpKeyOps: 'absent', KP.KpBaseIV: ('has', 'bytes'), KP.KpKid: 'absent'}


# ---- the nonce follows the headers and the key at the time of the call ----------------------------------

def shape2(cx):
    m = SH.msg(cx, Enc0Message, 'm', payload='bytes', enc=None, key=SH.sym_key(cx, 'key', lens=(16,), schema=BASE), ph=cx.pydict([]),
               uh=cx.pydict([(H.Algorithm, GCM), (H.IV, cx.any('iv', ('none', 'bytes'))), (H.PartialIV, cx.bytes('part'))]))
    first, last = cx.choice('calls', [('encrypt', 'encrypt'), ('decrypt', 'decrypt'), ('encrypt', 'decrypt')])
    return State(m=m, alg=GCM, context='Encrypt0', args=(), key2=SH.sym_key(cx, 'key2', lens=(16,), schema=BASE),
                 iv=cx.any('iv2', ('none', 'bytes')), part=cx.bytes('part2'), base=cx.bytes('base2'),
                 first=first, then=cx.choice('then', ['header', 'base', 'key']), last=last)


def again(s):
    try:
        if s.first == 'encrypt':
            s.m.encrypt()
        else:
            s.m.decrypt()
    except Exception:
        pass
    if s.then == 'header':
        s.m.uhdr_update({H.IV: s.iv, H.PartialIV: s.part})
    elif s.then == 'base':
        s.m.key.base_iv = s.base
    else:
        s.m.key = s.key2
    return s.m.encrypt() if s.last == 'encrypt' else s.m.decrypt()


def s_again(s):
    if s.then == 'header':
        s.m._uhdr[H.IV] = s.iv
        s.m._uhdr[H.PartialIV] = s.part
    elif s.then == 'base':
        s.m._key.store[KP.KpBaseIV] = s.base
    else:
        s.m._key = s.key2
    return s_encrypt(s) if s.last == 'encrypt' else s_decrypt(s)


E = 'pycose.messages.enccommon.EncCommon.'
CONTRACTS = [
    Contract('Enc0Message.encrypt under every nonce', shape0, encrypt, s_encrypt, funcs=[E + '_get_nonce', E + 'encrypt'], raise_same=True),
    Contract('Enc0Message.decrypt under every nonce', shape0, decrypt, s_decrypt, funcs=[E + '_get_nonce', E + 'decrypt'], raise_same=True),
    Contract('EncMessage.encrypt under every nonce', shape1, encrypt, s_encrypt, funcs=[E + '_get_nonce', E + 'encrypt'], raise_same=True),
    Contract('EncMessage.decrypt under every nonce', shape1, decrypt, s_decrypt, funcs=[E + '_get_nonce', E + 'decrypt'], raise_same=True),
    Contract('the nonce is determined anew by every call', shape2, again, s_again,
             funcs=[E + '_get_nonce', E + 'encrypt', E + 'decrypt'], watch=False),
]
HISTORIES = hist.of('enc0', tries=400)
