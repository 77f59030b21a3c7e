"""C16: COSE keys survive encode then decode."""
import copy

import cbor2

from pycose.keys import curves as CU
from pycose.keys import keyparam as KP
from pycose.keys import CoseKey, EC2Key, OKPKey, RSAKey, SymmetricKey
from pyvc.contract import Contract, History, State, Violation
from specs import common as S
from specs import keyhist as KH
from specs import keys as K
from specs import lemmas as L
from specs import prims as P
from specs import registry as R
from specs import shapes as SH
from specs.c17 import EC2_CURVES, MODS, a_key
from specs.c18 import CLASS, REGS, lookup

TYPES = ('symmetric', 'OKP', 'EC2', 'RSA')
PLAIN = ('none', 'bool', 'int', 'bytes', 'str', 'cls', 'map', 'tag')
SIMPLE = ('none', 'bool', 'int', 'bytes', 'str')
SCALAR = ('none', 'bool', 'int', 'bytes', 'str', 'map')


# ---- encoding --------------------------------------------------------------------------------------------

def encoding(t):
    def shape(cx):
        return State(key=a_key(cx, t))
    return shape


def i_encode(s):
    return s.key.encode()


def s_encode(s):
    return P.cbor(s.key.store)


# ---- from a dictionary -----------------------------------------------------------------------------------

def spelling(p):
    return (p, p.identifier, p.fullname)


def get(d, p, default=b''):
    """By class, integer or name."""
    for l in spelling(p):
        if l in d:
            return d[l]
    return default


def rest(d, t):
    out = dict(d)
    for p in K.MATERIAL[t]:
        for l in spelling(p):
            out.pop(l, None)
    return out


def of_type(t, d):
    """The parameters of the key of type t that a dictionary describes."""
    more = K.params(t, rest(d, t))
    if t == 'symmetric':
        return K.joined(more, K.symmetric(get(d, KP.SymKpK)))
    if t == 'OKP':
        return K.joined(more, K.okp(get(d, KP.OKPKpCurve, None), get(d, KP.OKPKpX), get(d, KP.OKPKpD)))
    if t == 'EC2':
        return K.joined(more, K.ec2(get(d, KP.EC2KpCurve, None), get(d, KP.EC2KpX), get(d, KP.EC2KpY), get(d, KP.EC2KpD)))
    return K.joined(more, K.rsa({n: get(d, K.RSA_BY_NAME[n], [] if n == 'other' else b'') for n in K.RSA_NAMES}))


def type_of(v):
    """The key type by class, integer or name."""
    for t in TYPES:
        if v is K.KTY[t] or (isinstance(v, int) and v == K.KTY[t].identifier) or (isinstance(v, str) and v == K.KTY[t].fullname):
            return t
    raise S.Refused('key type')


def key_of(d):
    K.need(isinstance(d, dict), 'map')
    for l in spelling(KP.KpKty):
        if l in d:
            t = type_of(d[l])
            return t, of_type(t, d)
    raise S.Refused('no key type')


def schema(t, kinds, lists=False):
    """Parameters that are not key material, by labels of the given kinds."""
    sch = {}
    for i, (name, _) in REGS[K.REG[t]][1].items():
        c = CLASS[K.REG[t]][i]
        s = 'absent' if c in K.MATERIAL[t] or c is KP.KpKeyOps or c is KP.KpKty else L.NOLIST
        sch[i] = s
        sch[c] = s
        sch[name] = s
    sch['__keys__'] = kinds
    return sch


def layered(cx, name, sch, fixed):
    d = cx.dict(name, sch)
    for k, v in fixed:
        if cx.symbolic:
            d.layers.append(('set', k, v))
        else:
            d[k] = v
    return d


def mat(cx, t, odd=None, curves=None):
    """Material of a key of type t: (parameter, value) pairs; the value of `odd` is arbitrary."""
    def b(n):
        return cx.any(n, SCALAR if t == 'EC2' else PLAIN) if n == odd else cx.bytes(n)
    if t == 'symmetric':
        return [(KP.SymKpK, b('k'))]
    if t == 'OKP':
        crv = cx.any('crv', PLAIN) if odd == 'crv' else cx.enum('crv', curves or [CU.Ed25519, CU.Ed448, CU.X25519, CU.X448])
        return [(KP.OKPKpCurve, crv), (KP.OKPKpX, b('x')), (KP.OKPKpD, b('d'))]
    if t == 'EC2':
        crv = cx.any('crv', PLAIN) if odd == 'crv' else CU.P256
        y = cx.bool('sign') if odd not in ('crv', 'y') and not curves and cx.choice('compressed', [False, True]) else b('y')
        return [(KP.EC2KpCurve, crv), (KP.EC2KpX, b('x')), (KP.EC2KpY, y)]
    return [(KP.RSAKpN, b('n')), (KP.RSAKpE, b('e'))]


def dictionary(t, how):
    """Labels of the material in one of the spellings; any further parameters."""
    def shape(cx):
        fixed = [(spelling(KP.KpKty)[how], spelling(K.KTY[t])[how])] + [(spelling(p)[how], v) for p, v in mat(cx, t, curves=[CU.X25519])]
        return State(t=t, d=layered(cx, 'received', schema(t, ('int',)), fixed))
    return shape


def missing(t):
    """Every subset of the parameters of the material."""
    def shape(cx):
        how = cx.choice('how', [0, 1, 2])
        fixed = [(spelling(KP.KpKty)[how], spelling(K.KTY[t])[how])]
        if t == 'RSA':
            m = [(K.RSA_BY_NAME[n], cx.any(n, ('list',)) if n == 'other' else cx.bytes(n, minlen=1)) for n in K.RSA_NAMES]
        else:
            m = mat(cx, t)
        gone = cx.choice('without', [None] + [p for p, _ in m] + ([KP.RSAKpD, 'others', 'private'] if t == 'RSA' else ['all']))
        few = {'all': [p for p, _ in m], 'others': list(K.MATERIAL['RSA'][8:]), 'private': list(K.MATERIAL['RSA'][2:])}.get(gone, [gone])
        return State(t=t, d=cx.pydict(fixed + [(spelling(p)[how], v) for p, v in m if p not in few]))
    return shape


def i_dict(s):
    k = CoseKey.from_dict(s.d)
    return type(k), k.store


def s_dict(s):
    t, st = key_of(s.d)
    return K.CLS[t], st


def odd_values(t, odds):
    """One value of any type, another spelling for the curve."""
    def shape(cx):
        odd = cx.choice('odd', odds)
        how = cx.choice('how', [0, 1, 2])
        fixed = [(spelling(KP.KpKty)[how], K.KTY[t].identifier)] + [(spelling(p)[how], v) for p, v in mat(cx, t, odd)]
        return State(t=t, d=cx.pydict(fixed))
    return shape


def both_spellings(t):
    """A parameter under two labels: the class counts before the integer, the integer before the name."""
    def shape(cx):
        m = mat(cx, t)
        p = cx.choice('p', [p for p, _ in m if p not in (KP.EC2KpCurve, KP.OKPKpCurve, KP.EC2KpY)])
        a, b = cx.choice('labels', [(0, 1), (1, 0), (1, 2), (2, 1), (0, 2)])
        fixed = [(1, K.KTY[t].identifier)] + [(spelling(q)[a], v) for q, v in m] + [(spelling(p)[b], cx.bytes('second'))]
        return State(t=t, d=cx.pydict(fixed))
    return shape


def i_class(s):
    return K.CLS[s.t].from_dict(s.d).store, s.d


def s_class(s):
    return of_type(s.t, s.d), s.d


def any_kty(cx):
    label = cx.choice('label', list(spelling(KP.KpKty)) + ['kty', 'none'])
    kty = cx.any('kty', ('none', 'int', 'bytes', 'str', 'cls', 'list', 'map', 'tag'))
    fixed = [] if label == 'none' else [(label, kty)]
    return State(d=cx.pydict(fixed + [(-1, cx.bytes('k', lens=(16,))), (KP.KpKid, cx.any('kid'))]))


# ---- from bytes ------------------------------------------------------------------------------------------

def received(cx):
    return State(d=cx.any('x', ('none', 'bool', 'int', 'str', 'tag'), wire=True))


def i_received(s):
    try:
        CoseKey.decode(cbor2.dumps(s.d))
    except Exception:
        return 'refused'
    return 'accepted'


def s_received(s):
    return 'refused'


def trip(t, what):
    """A key with its other parameters in any combination, and two unknown ones."""
    def shape(cx):
        if t == 'symmetric':
            m = [(KP.SymKpK, cx.bytes('k', lens=(16, 24, 32)))]
        elif t == 'OKP':
            f = cx.choice('form', ['xd', 'x', 'd'])
            m = [(KP.OKPKpCurve, cx.enum('crv', [CU.Ed25519, CU.Ed448, CU.X25519, CU.X448]))]
            m += [(p, cx.bytes(n, minlen=1)) for n, p in (('x', KP.OKPKpX), ('d', KP.OKPKpD)) if n in f]
        elif t == 'EC2':
            crv = cx.choice('crv', EC2_CURVES)
            a, b = SH.ec2_pair(cx, 'k', crv, {})
            st = (a if cx.choice('private', [True, False]) else b).store
            m = [(p, st[p]) if not cx.symbolic else (p, raw(st, p)) for p in K.MATERIAL['EC2'] if has(cx, st, p)]
        else:
            n = {'public': 2, 'two': 8, 'many': 12}[cx.choice('form', ['public', 'two', 'many'])]
            m = [(K.RSA_BY_NAME[x], cx.lst([cx.bytes('other')]) if x == 'other' else cx.bytes(x, minlen=1)) for x in K.RSA_NAMES[:n]]
        more = []
        if 'a' in what and cx.choice('with alg', [False, True]):
            more.append((KP.KpAlg, cx.enum('alg', SH.ALGS)))
        if 'o' in what and cx.choice('with ops', [False, True]):
            more.append((KP.KpKeyOps, cx.lst([cx.enum(f'op{i}', SH.KEYOPS) for i in range(cx.choice('n', [1, 2]))])))
        if 'k' in what and cx.choice('with kid', [False, True]):
            more += [(KP.KpKid, cx.bytes('kid')), (KP.KpBaseIV, cx.bytes('iv'))]
        if 'u' in what and cx.choice('with unknown', [False, True]):
            more += [(-70001, cx.any('u1', SIMPLE)), ('label', cx.any('u2', SIMPLE))]
        return State(key=SH.blank(K.CLS[t], cx.pydict([(KP.KpKty, K.KTY[t])] + more + m)))
    return shape


def raw(d, p):
    for l in d.layers:
        if l[0] == 'set' and l[1] is p:
            return l[2]


def has(cx, d, p):
    return (raw(d, p) is not None) if cx.symbolic else p in d


def i_trip(s):
    k = CoseKey.decode(s.key.encode())
    return type(k), k.store


def s_trip(s):
    return type(s.key), s.key.store


FUNCS = ['pycose.keys.cosekey.CoseKey.from_dict', 'pycose.keys.cosekey.CoseKey._extract_from_dict',
         'pycose.keys.cosekey.CoseKey._remove_from_dict']
ODD = {'symmetric': ['k'], 'OKP': ['crv', 'x', 'd'], 'EC2': ['crv', 'x', 'y'], 'RSA': ['n', 'e']}
CONTRACTS = [c for t in TYPES for c in (
    Contract(f'{t} key: encode', encoding(t), i_encode, s_encode, funcs=['pycose.keys.cosekey.CoseKey.encode',
                                                                        'pycose.keys.cosekey.CoseKey._custom_cbor_encoder']),
    Contract(f'{t} key: from_dict by class', dictionary(t, 0), i_dict, s_dict, funcs=FUNCS + [MODS[t] + 'from_dict', MODS[t] + '__init__']),
    Contract(f'{t} key: from_dict by integer', dictionary(t, 1), i_dict, s_dict, funcs=FUNCS + [MODS[t] + 'from_dict', MODS[t] + '__init__']),
    Contract(f'{t} key: from_dict by name', dictionary(t, 2), i_dict, s_dict, funcs=FUNCS + [MODS[t] + 'from_dict', MODS[t] + '__init__']),
    Contract(f'{t} key: from_dict, missing values', missing(t), i_class, s_class, funcs=[MODS[t] + 'from_dict', MODS[t] + '__init__']),
    Contract(f'{t} key: from_dict, two labels', both_spellings(t), i_class, s_class, funcs=[MODS[t] + 'from_dict']))
] + [Contract(f'{t} key: from_dict, any {v}', odd_values(t, [v]), i_class, s_class, funcs=[MODS[t] + 'from_dict', MODS[t] + '__init__'])
     for t in TYPES for v in ODD[t]
] + [Contract('from_dict: any key type', any_kty, i_dict, s_dict, funcs=FUNCS),
     Contract('decode: no map', received, i_received, s_received, funcs=['pycose.keys.cosekey.CoseKey.decode'])
] + [Contract(f'{t} key: decode(encode), {w}', trip(t, w), i_trip, s_trip, funcs=['pycose.keys.cosekey.CoseKey.decode', 'pycose.keys.cosekey.CoseKey.encode'] + FUNCS + [MODS[t] + 'from_dict', MODS[t] + '__init__'])
     for t in TYPES for w in ('aok', 'ku')]


# ---- histories -------------------------------------------------------------------------------------------

def history(r):
    """Any valid key: its encoding, what decode makes of it, and the same key given by a dictionary in any spelling."""
    t = r.choice(TYPES)
    m, opt = KH.material(r, t), KH.optional(r, t)
    key = KH.build(r, t, m, opt)
    want = KH.stored(t, m, opt)
    data = key.encode()
    if data != P.cbor(key.store):
        raise Violation(f'{key.store!r} is encoded as {data.hex()}')
    wire = cbor2.loads(data)
    KH.same(wire, {K_id(k): on_wire(k, v) for k, v in want.items()}, f'encoding of {key!r}')
    for _ in range(2):
        got = CoseKey.decode(data)
        if type(got) is not K.CLS[t]:
            raise Violation(f'{data.hex()} is decoded as {type(got).__name__}')
        KH.same(got.store, want, f'decoding of {data.hex()}')
        KH.same(got.encode(), data, 'encoding of the decoded key')
    given = KH.spelled(r, t, want)
    items = list(given.items())
    r.shuffle(items)
    given = dict(items)
    before = copy.deepcopy(given)
    got = r.choice([CoseKey, K.CLS[t]]).from_dict(given)
    KH.same((type(got).__name__, got.store), (K.CLS[t].__name__, want), f'key of {given!r}')
    KH.same(given, before, 'the dictionary')
    KH.same(got.encode() if list(got.store) == list(want) else data, data, 'encoding')
    # the decoded key and the dictionary are not connected
    changed = r.choice([p for p in want if p is not KP.KpKty])
    bad = dict(before)
    for k in list(bad):
        if k in ids(changed):
            bad[k] = r.choice([BAD.get(changed, bad[k])])
    if changed in BAD:
        k, e = KH.attempt(CoseKey.from_dict, bad)
        if e is None:
            raise Violation(f'{bad!r} is accepted as {k!r}')


def K_id(k):
    return k.identifier if isinstance(k, type) else k


def ids(p):
    return (p, p.identifier, p.fullname) if isinstance(p, type) else (p,)


def on_wire(p, v):
    if isinstance(v, type):
        return v.identifier
    if p is KP.KpKeyOps:
        return [o.identifier for o in v]
    return v


BAD = {KP.KpAlg: 'NOALG', KP.EC2KpCurve: 77, KP.OKPKpCurve: 1, KP.SymKpK: b'short', KP.EC2KpX: 'x', KP.KpKeyOps: ['nothing'], KP.RSAKpN: b'',
       KP.RSAKpE: 3, KP.RSAKpP: b'', KP.RSAKpQInv: None, KP.OKPKpX: 'x', KP.EC2KpD: 9}


def near(r):
    """Wire forms next to a valid key: each is accepted with the parameters it has, or refused."""
    t = r.choice(TYPES)
    m, opt = KH.material(r, t), KH.optional(r, t)
    d = {K_id(k): on_wire(k, v) for k, v in KH.stored(t, m, opt).items()}
    for _ in range(r.randint(0, 3)):
        k = r.choice(list(d) + [1, 3, 4, -1, -2, -3, -4, 'KTY', 'K', 'CURVE', 'ALG', 70000])
        what = r.choice(['del', 'value', 'value', 'empty', 'again'])
        if what == 'del':
            d.pop(k, None)
        elif what == 'value':
            d[k] = r.choice([None, True, False, 0, 1, 2, 3, 4, 5, 8, -7, -8, 'P_384', 'ED448', 'EC2', 'SYMMETRIC', b'', b'x', 1.0, [1], [9, 10], {}, {1: 2}, cbor2.CBORTag(6, 1)])
        elif what == 'empty':
            d[k] = r.choice([b'', [], ''])
        elif k in d:
            v = d.pop(k)
            d[k] = v
    data = cbor2.dumps(d)
    got, e = KH.attempt(CoseKey.decode, data)
    want, f = KH.attempt(key_of, cbor2.loads(data))
    if (e is None) != (f is None):
        raise Violation(f'{d!r} is {"accepted" if e is None else "refused: " + repr(e)}')
    if e is None:
        KH.same((type(got).__name__, got.store), (K.CLS[want[0]].__name__, want[1]), f'key of {d!r}')
        KH.same(CoseKey.decode(got.encode()).store, got.store, f'{d!r} encoded and decoded')


def no_map(r):
    v = r.choice([[], [1], [0, 4], [0, 1, 4], [[1, 4]], [[1, 4], [-1, bytes(16)]], b'', bytes(range(20)), 'kty', '', 'KTY', None, 1, 1.5, cbor2.CBORTag(1, 1),
                  cbor2.CBORTag(61, {1: 4, -1: bytes(16)}), [{1: 4, -1: bytes(16)}], {2, 1}, frozenset([1]), True])
    k, e = KH.attempt(CoseKey.decode, cbor2.dumps(v))
    if e is None:
        raise Violation(f'{v!r} is accepted as {k!r}')


HISTORIES = [History('encode and decode', history, tries=1200, doc='encoding, decoding and dictionaries of random keys of all types'),
             History('wire forms', near, tries=2500, doc='maps next to the encoding of a valid key'),
             History('no map', no_map, tries=60, doc='CBOR data that is no map')]
