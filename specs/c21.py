"""C21: imported and generated keys carry exactly the external key's values."""
import copy

from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519, rsa, x448, x25519

from pycose.keys import curves as CU
from pycose.keys import keyparam as KP
from pycose.keys import CoseKey, EC2Key, OKPKey, RSAKey, SymmetricKey
from pyvc.contract import Contract, History, State, Violation
from specs import common as S
from specs import keyhist as KH
from specs import keys as K
from specs import lemmas as L
from specs import pool
from specs import prims as P
from specs import registry as R
from specs import shapes as SH
from specs.c16 import PLAIN, of_type, schema, spelling
from specs.c17 import MODS
from specs.c18 import CLASS, REGS, lookup

EC = {CU.P256: ec.SECP256R1, CU.P384: ec.SECP384R1, CU.P521: ec.SECP521R1, CU.SECP256K1: ec.SECP256K1}
ED = {CU.Ed25519: ed25519.Ed25519PrivateKey, CU.Ed448: ed448.Ed448PrivateKey, CU.X25519: x25519.X25519PrivateKey, CU.X448: x448.X448PrivateKey}
OTHER = (ec.BrainpoolP256R1, ec.BrainpoolP384R1, ec.SECP192R1, ec.SECP224R1, ec.SECT163K1)
FORMS = ('private', 'public')


def options(cx, t, kinds=('int',)):
    """Optional parameters: none, or any, with labels of the given kinds."""
    if not cx.choice('with optional', [True, False]):
        return None
    if kinds == 'few':
        return cx.pydict([(KP.KpKid, cx.any('kid')), (4, cx.lst([cx.enum('op', SH.KEYOPS)])), (3, cx.any('alg', PLAIN)), (-70001, cx.any('own'))])
    if kinds == 'one':
        label = cx.choice('label', ['kid', 'ALG', 'Kty', 'base_IV', 'own', b'KID', None, KP.KpKid, KP.KpAlg])
        return cx.pydict([(label, cx.any('value', PLAIN))])
    return cx.dict('optional', schema(t, kinds))


def with_options(cx, t, kinds):
    o = options(cx, t, kinds)
    return {'optional': o, 'via': CoseKey if o is not None else cx.choice('via', [CoseKey, K.CLS[t]])}


# ---- import ----------------------------------------------------------------------------------------------

def ec_import(crv, kinds):
    def shape(cx):
        n = SH.SIZES[crv]
        return State(crv=crv, cls=EC[crv], d=cx.bytes('d', lens=(n,)), form=cx.choice('form', FORMS), **with_options(cx, 'EC2', kinds))
    return shape


def ec_ext(s):
    k = ec.derive_private_key(int.from_bytes(s.d, 'big'), s.cls())
    return k if s.form == 'private' else k.public_key()


def i_ec(s):
    ext = ec_ext(s)
    k = s.via._from_cryptography_key(ext, s.optional)
    return type(k), k.store, s.optional


def s_ec(s):
    _, size, name = R.CURVE[s.crv.identifier]
    x, y, _ = P.ec_public(name, s.d, size)
    out = {KP.EC2KpCurve: s.crv, KP.EC2KpX: x, KP.EC2KpY: y}
    if s.form == 'private':
        out[KP.EC2KpD] = s.d
    return EC2Key, K.joined(K.params('EC2', s.optional), out), s.optional


def okp_import(crv, kinds):
    def shape(cx):
        n = R.CURVE[crv.identifier][1]
        return State(crv=crv, cls=ED[crv], d=cx.bytes('d', lens=(n,)), form=cx.choice('form', FORMS), **with_options(cx, 'OKP', kinds))
    return shape


def i_okp(s):
    ext = s.cls.from_private_bytes(s.d)
    if s.form == 'public':
        ext = ext.public_key()
    k = s.via._from_cryptography_key(ext, s.optional)
    return type(k), k.store, s.optional


def s_okp(s):
    out = {KP.OKPKpCurve: s.crv, KP.OKPKpX: P.okp_public(R.CURVE[s.crv.identifier][2], s.d)}
    if s.form == 'private':
        out[KP.OKPKpD] = s.d
    return OKPKey, K.joined(K.params('OKP', s.optional), out), s.optional


NUMS = ('n', 'e', 'd', 'p', 'q', 'dmp1', 'dmq1', 'iqmp')


def rsa_import(kinds):
    def shape(cx):
        if cx.symbolic:
            v = {n: cx.int(n, lo=1) for n in NUMS}
        else:
            r = pool.rsa(cx.choice('pool', [0, 1]))
            v = {n: int.from_bytes(r[p], 'big') for n, p in zip(NUMS, K.MATERIAL['RSA'])}
        return State(form=cx.choice('form', FORMS), **with_options(cx, 'RSA', kinds), **v)
    return shape


def i_rsa(s):
    pub = rsa.RSAPublicNumbers(s.e, s.n)
    if s.form == 'private':
        ext = rsa.RSAPrivateNumbers(s.p, s.q, s.d, s.dmp1, s.dmq1, s.iqmp, pub).private_key()
    else:
        ext = pub.public_key()
    k = s.via._from_cryptography_key(ext, s.optional)
    return type(k), k.store, s.optional


def s_rsa(s):
    vals = [s.n, s.e]
    if s.form == 'private':
        vals = [s.n, s.e, s.d, s.p, s.q, s.dmp1, s.dmq1, s.iqmp]
    P.rsa_valid(vals)
    return RSAKey, K.joined(K.params('RSA', s.optional), {p: P.min_bytes(v) for p, v in zip(K.MATERIAL['RSA'], vals)}), s.optional


def unsupported(cx):
    return State(cls=cx.choice('cls', list(OTHER)), d=cx.bytes('d', lens=(20,)), form=cx.choice('form', FORMS),
                 via=cx.choice('via', [CoseKey, EC2Key]), optional=cx.choice('optional', [None, {KP.EC2KpCurve: CU.P256}]))


def i_unsupported(s):
    ext = ec_ext(s)
    try:
        s.via._from_cryptography_key(ext, s.optional)
    except Exception:
        return 'refused'
    return 'accepted'


def s_unsupported(s):
    ec_ext(s)
    return 'refused'


def s_refused(s):
    return 'refused'


def s_crossed(s):
    if s.cls is ec:
        ec.derive_private_key(int.from_bytes(s.d, 'big'), ec.SECP256R1())
    else:
        s.cls.from_private_bytes(s.d)
    return 'refused'


def no_key(cx):
    return State(key=cx.any('key', ('none', 'int', 'bytes', 'str')), via=cx.choice('via', [CoseKey, EC2Key, OKPKey, RSAKey]))


def i_no_key(s):
    try:
        s.via._from_cryptography_key(s.key)
    except Exception:
        return 'refused'
    return 'accepted'


def crossed(cx):
    """A key of one type is refused by the classes of the others."""
    cls, crv = cx.choice('curve', [(ec, CU.P256), (ED[CU.X448], CU.X448)])
    return State(cls=cls, crv=crv, d=cx.bytes('d', lens=(R.CURVE[crv.identifier][1],)), form=cx.choice('form', FORMS),
                 via=cx.choice('via', [RSAKey, OKPKey if cls is ec else EC2Key]))


def i_crossed(s):
    if s.cls is ec:
        ext = ec.derive_private_key(int.from_bytes(s.d, 'big'), ec.SECP256R1())
    else:
        ext = s.cls.from_private_bytes(s.d)
    if s.form == 'public':
        ext = ext.public_key()
    try:
        s.via._from_cryptography_key(ext)
    except Exception:
        return 'refused'
    return 'accepted'


# ---- material among the optional parameters --------------------------------------------------------------

def material(cx):
    """The external key wins, or the parameters are refused."""
    crv, form = CU.P256, cx.choice('form', FORMS)
    p = cx.choice('p', [KP.EC2KpCurve, KP.EC2KpX, KP.EC2KpY] + [KP.EC2KpD] * (form == 'private'))
    label = cx.choice('label', list(spelling(p)) + [p.fullname.lower()])
    return State(crv=crv, cls=EC[crv], d=cx.bytes('d', lens=(32,)), form=form, via=CoseKey, label=label,
                 optional=cx.pydict([(label, cx.any('value', ('none', 'int', 'bytes', 'str', 'cls')))]))


def i_material(s):
    ext = ec_ext(s)
    try:
        k = CoseKey._from_cryptography_key(ext, s.optional)
    except Exception:
        return 'fine'
    want = CoseKey._from_cryptography_key(ext)
    return 'fine' if k.store == want.store else 'replaced'


def s_material(s):
    P.ec_public(R.CURVE[s.crv.identifier][2], s.d, 32)
    return 'fine'


# ---- PEM -------------------------------------------------------------------------------------------------

def pem(cx):
    pw = cx.choice('password', [None, b'secret'])
    return State(crv=CU.P384, cls=EC[CU.P384], d=cx.bytes('d', lens=(48,)), form=cx.choice('form', FORMS), password=pw, optional=options(cx, 'EC2', 'few'))


def i_pem(s):
    text = P.pem(ec_ext(s), s.password)
    k = CoseKey.from_pem_private_key(text, s.password, s.optional) if s.form == 'private' else CoseKey.from_pem_public_key(text, s.optional)
    return type(k), k.store, s.optional


# ---- generation ------------------------------------------------------------------------------------------

def generated(t):
    def shape(cx):
        crv = cx.any('crv', PLAIN) if cx.choice('any curve', [True, False]) else cx.enum('curve', list(EC if t == 'EC2' else ED))
        return State(t=t, crv=crv, optional=None)
    return shape


def i_generated(s):
    k = K.CLS[s.t].generate_key(s.crv, s.optional)
    return type(k), k.store, s.optional


def s_generated(s):
    c = K.curve(s.crv, K.KTY[s.t].identifier)
    _, size, name = R.CURVE[c.identifier]
    if s.t == 'EC2':
        d, x, y = P.ec_generate(name, size)
        m = {KP.EC2KpCurve: c, KP.EC2KpX: x, KP.EC2KpY: y, KP.EC2KpD: d}
    else:
        d, x = P.okp_generate(name)
        m = {KP.OKPKpCurve: c, KP.OKPKpX: x, KP.OKPKpD: d}
    return K.CLS[s.t], K.joined(K.params(s.t, s.optional), m), s.optional


def gen_with(t):
    """One curve, any optional parameters."""
    def shape(cx):
        return State(t=t, crv=CU.P256 if t == 'EC2' else CU.X25519, optional=options(cx, t))
    return shape


def gen_rsa(cx):
    return State(bits=cx.choice('bits', [2048]) if not cx.symbolic else cx.int('bits'), optional=options(cx, 'RSA'))


def i_gen_rsa(s):
    k = RSAKey.generate_key(s.bits, s.optional)
    return type(k), k.store, s.optional


def s_gen_rsa(s):
    return RSAKey, K.joined(K.params('RSA', s.optional), dict(zip(K.MATERIAL['RSA'], P.rsa_generate(s.bits)))), s.optional


def gen_sym(cx):
    return State(n=cx.any('n', ('none', 'int', 'bytes', 'str')), optional=options(cx, 'symmetric'))


def i_gen_sym(s):
    k = SymmetricKey.generate_key(s.n, s.optional)
    return type(k), k.store, s.optional


def s_gen_sym(s):
    K.need(isinstance(s.n, int) and (s.n == 16 or s.n == 24 or s.n == 32), 'length')
    return SymmetricKey, K.joined(K.params('symmetric', s.optional), K.symmetric(P.urandom(s.n))), s.optional


FROM = ['pycose.keys.cosekey.CoseKey._from_cryptography_key']
CONTRACTS = [
    Contract(f'EC2 key of a {c.fullname} key, {k if isinstance(k, str) else k[0]} labels', ec_import(c, k), i_ec, s_ec,
             funcs=FROM + [MODS['EC2'] + '_from_cryptography_key', MODS['EC2'] + '_supports_cryptography_key_type'])
    for c, k in ((CU.P256, ('int',)), (CU.P256, 'one'), (CU.P384, 'few'), (CU.P521, 'few'), (CU.SECP256K1, 'few'))
] + [
    Contract(f'OKP key of a {c.fullname} key', okp_import(c, ('int',) if c is CU.X25519 else 'few'), i_okp, s_okp,
             funcs=FROM + [MODS['OKP'] + n for n in ('_from_cryptography_key', '_curve_from_cryptography_key', '_supports_cryptography_key_type')])
    for c in ED
] + [
    Contract('RSA key of a key', rsa_import(('int',)), i_rsa, s_rsa,
             funcs=FROM + [MODS['RSA'] + '_from_cryptography_key', MODS['RSA'] + '_supports_cryptography_key_type', 'pycose.keys.rsa.to_bstr']),
    Contract('unsupported curves', unsupported, i_unsupported, s_unsupported, funcs=FROM + [MODS['EC2'] + '_from_cryptography_key']),
    Contract('no key', no_key, i_no_key, s_refused, funcs=FROM),
    Contract('key of another type', crossed, i_crossed, s_crossed, funcs=[MODS[t] + '_from_cryptography_key' for t in ('EC2', 'OKP', 'RSA')]),
    Contract('material among the optional parameters', material, i_material, s_material, funcs=[MODS['EC2'] + '_from_cryptography_key']),
    Contract('PEM', pem, i_pem, s_ec, funcs=['pycose.keys.cosekey.CoseKey.from_pem_private_key', 'pycose.keys.cosekey.CoseKey.from_pem_public_key']),
    Contract('EC2Key.generate_key', generated('EC2'), i_generated, s_generated, funcs=[MODS['EC2'] + 'generate_key'], native=False),
    Contract('OKPKey.generate_key', generated('OKP'), i_generated, s_generated, funcs=[MODS['OKP'] + 'generate_key'], native=False),
    Contract('EC2Key.generate_key with parameters', gen_with('EC2'), i_generated, s_generated, funcs=[MODS['EC2'] + 'generate_key'], native=False),
    Contract('OKPKey.generate_key with parameters', gen_with('OKP'), i_generated, s_generated, funcs=[MODS['OKP'] + 'generate_key'], native=False),
    Contract('RSAKey.generate_key', gen_rsa, i_gen_rsa, s_gen_rsa, funcs=[MODS['RSA'] + 'generate_key'], native=False),
    Contract('SymmetricKey.generate_key', gen_sym, i_gen_sym, s_gen_sym, funcs=[MODS['symmetric'] + 'generate_key']),
]


# ---- histories -------------------------------------------------------------------------------------------

def ext_key(r, t):
    """A private key of the library, with numbers that have leading zero bytes more often than chance has it."""
    if t == 'RSA':
        key = pool.rsa(r.choice([0, 1]))
        v = [int.from_bytes(key[p], 'big') for p in K.MATERIAL['RSA'][:8]]
        n, e, d, p, q, dp, dq, qi = v
        if r.random() < .3:
            p, q, dp, dq = q, p, dq, dp
            qi = pow(q, -1, p)
        return rsa.RSAPrivateNumbers(p, q, d, dp, dq, qi, rsa.RSAPublicNumbers(e, n)).private_key(), None, \
            dict(zip(K.MATERIAL['RSA'], (n, e, d, p, q, dp, dq, qi)))
    if t == 'OKP':
        c = r.choice(list(ED))
        n = R.CURVE[c.identifier][1]
        d = r.choice([bytes(n - 1) + b'\x01', KH.byts(r, n, n), bytes(2) + KH.byts(r, n - 2, n - 2)])
        return ED[c].from_private_bytes(d), c, d
    c = r.choice(list(EC))
    n = SH.SIZES[c]
    d = r.choice([r.randrange(1, 3000), int.from_bytes(pool.pair(c, r.randrange(pool.SIZE))[2], 'big'), r.randrange(1, 256 ** (n - 2))])
    return ec.derive_private_key(d, EC[c]()), c, d


def numbers(t, crv, d, public):
    """What the library's own numbers say."""
    if t == 'RSA':
        return {p: P.min_bytes(v) for p, v in d.items() if not public or p in (KP.RSAKpN, KP.RSAKpE)}
    if t == 'OKP':
        out = {KP.OKPKpCurve: crv, KP.OKPKpX: P.okp_public(R.CURVE[crv.identifier][2], d), KP.OKPKpD: d}
    else:
        _, n, name = R.CURVE[crv.identifier]
        x, y, _ = P.ec_public(name, d.to_bytes(n, 'big'), n)
        out = {KP.EC2KpCurve: crv, KP.EC2KpX: x, KP.EC2KpY: y, KP.EC2KpD: d.to_bytes(n, 'big')}
    if public:
        out.popitem()
    return out


def optional(r, t):
    opt = KH.optional(r, t)
    return opt, KH.spelled(r, t, opt)


def history(r):
    """Keys through PEM, as private and as public key, with optional parameters."""
    t = r.choice(['EC2', 'EC2', 'OKP', 'OKP', 'RSA'])
    ext, crv, d = ext_key(r, t)
    public = r.random() < .4
    if public:
        ext = ext.public_key()
    pw = r.choice([None, None, b'password']) if not public else None
    opt, given = optional(r, t) if r.random() < .6 else ({}, r.choice([None, {}]))
    text = P.pem(ext, pw)
    before = copy.deepcopy(given)
    for _ in range(2):
        k = CoseKey.from_pem_public_key(text, given) if public else CoseKey.from_pem_private_key(text, pw, given)
        want = {KP.KpKty: K.KTY[t], **opt, **numbers(t, crv, d, public)}
        KH.same((type(k).__name__, k.store), (K.CLS[t].__name__, want), 'key of PEM')
        KH.same(given, before, 'optional parameters')
        if t == 'EC2' and not public:
            KH.same((k.x, k.y, k.d, k.crv), tuple(want[p] for p in (KP.EC2KpX, KP.EC2KpY, KP.EC2KpD, KP.EC2KpCurve)), 'attributes')
        KH.same(CoseKey.decode(k.encode()).store, want, 'encoded and decoded')
    if pw is not None:
        for bad in (None, b'', b'other'):
            if KH.attempt(CoseKey.from_pem_private_key, text, bad)[1] is None:
                raise Violation(f'a key encrypted with {pw!r} is read with {bad!r}')
    other = CoseKey.from_pem_public_key if not public else CoseKey.from_pem_private_key
    if KH.attempt(other, text)[1] is None:
        raise Violation('private and public keys are confused')


def generate(r):
    """Generated keys are valid keys of the requested kind, and different from each other."""
    t = r.choice(['EC2', 'OKP', 'symmetric'] * 8 + ['RSA'])
    opt, given = optional(r, t) if r.random() < .6 else ({}, r.choice([None, {}]))
    before = copy.deepcopy(given)
    c = None
    if t in ('EC2', 'OKP'):
        c = r.choice(list(EC if t == 'EC2' else ED))
        arg = KH.spell(r, c)
    elif t == 'RSA':
        arg = 2048
    else:
        arg = r.choice([16, 24, 32])
    keys = [K.CLS[t].generate_key(arg, given) for _ in range(1 if t == 'RSA' else 2)]
    KH.same(given, before, 'optional parameters')
    for k in keys:
        KH.same(type(k).__name__, K.CLS[t].__name__, 'type')
        rest = {p: v for p, v in k.store.items() if p not in K.MATERIAL[t]}
        KH.same(rest, {KP.KpKty: K.KTY[t], **opt}, 'other parameters')
        m = {p: v for p, v in k.store.items() if p in K.MATERIAL[t]}
        if t == 'symmetric':
            KH.same((list(m), len(m[KP.SymKpK])), ([KP.SymKpK], arg), 'k')
        elif t == 'RSA':
            v = [int.from_bytes(m[p], 'big') for p in K.MATERIAL['RSA'][:8]]
            n, e, d, p, q, dp, dq, qi = v
            KH.same(m, {x: P.min_bytes(y) for x, y in zip(K.MATERIAL['RSA'], v)}, 'parameters')
            if n != p * q or n.bit_length() != arg or dp != d % (p - 1) or dq != d % (q - 1) or qi * q % p != 1 or e * d % (p - 1) != 1:
                raise Violation('the generated RSA parameters are inconsistent')
        else:
            d = m[KP.OKPKpD if t == 'OKP' else KP.EC2KpD]
            KH.same(m, numbers(t, c, d if t == 'OKP' else int.from_bytes(d, 'big'), False), 'values')
    if len(keys) == 2 and keys[0].store == keys[1].store:
        raise Violation('the same key twice')


def foreign(r):
    """Keys without a COSE counterpart, and arguments that name none."""
    what = r.randrange(5)
    if what == 0:
        k = ec.derive_private_key(r.randrange(1, 2 ** 100), r.choice(OTHER)())
    elif what == 1:
        k = dsa_key()
    else:
        k = None
    if k is not None:
        for key in (k, k.public_key()):
            text = P.pem(key)
            f = CoseKey.from_pem_private_key if key is k else CoseKey.from_pem_public_key
            for o in (None, {KP.EC2KpCurve: CU.P256}, {'CURVE': 'P_256'}):
                if KH.attempt(f, text, o)[1] is None:
                    raise Violation(f'{type(key).__name__} is accepted')
        return
    t = r.choice(['EC2', 'OKP', 'symmetric'])
    bad = {'EC2': [4, 5, 6, 7, 9, 'ED25519', 'X25519', CU.Ed448, None, b'', 'P-256', -1, 'RSA'],
           'OKP': [1, 2, 3, 8, 'P_256', 'SECP256K1', CU.P521, None, b'', 'Ed-25519', 99],
           'symmetric': [0, 1, 8, 15, 17, 31, 33, 64, 128, 256, -16, None, '16', b'', 15.9]}[t]
    v = r.choice(bad)
    if KH.attempt(K.CLS[t].generate_key, v)[1] is None:
        raise Violation(f'{t} key of {v!r}')


_DSA = []


def dsa_key():
    from cryptography.hazmat.primitives.asymmetric import dsa
    if not _DSA:
        _DSA.append(dsa.generate_private_key(1024))
    return _DSA[0]


HISTORIES = [History('PEM', history, tries=500, doc='PEM keys of all types with optional parameters'),
             History('generation', generate, tries=300, doc='generated keys'),
             History('foreign keys', foreign, tries=200, doc='keys, curves and lengths without COSE counterpart')]
