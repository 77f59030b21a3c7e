"""C17: a COSE key object stays a valid key through every operation."""
import copy

from pycose.keys import curves as CU
from pycose.keys import keyops as KO
from pycose.keys import keyparam as KP
from pycose.keys import EC2Key, OKPKey, RSAKey, SymmetricKey
from pyvc.contract import Contract, History, State, Violation
from pyvc.native import clone, rand_any
from specs import common as S
from specs import keyhist as KH
from specs import keys as K
from specs import prims as P
from specs import registry as R
from specs import shapes as SH
from specs import lemmas as L
from specs.c18 import CLASS, REGS, lookup

ANY = ('none', 'bool', 'int', 'bytes', 'str', 'cls', 'list', 'map', 'tag', 'other')
PLAIN = ('none', 'bool', 'int', 'bytes', 'str', 'cls', 'map', 'tag', 'other')


# ---- construction ----------------------------------------------------------------------------------------

def new_sym(cx):
    return State(k=cx.any('k', ANY))


def i_sym(s):
    return SymmetricKey(k=s.k).store


def s_sym(s):
    return K.joined(K.params('symmetric', None), K.symmetric(s.k))


def new_okp(cx):
    vary = cx.choice('vary', ['curve', 'x', 'd'])
    crv = cx.any('crv', PLAIN) if vary == 'curve' else cx.enum('curve', [CU.Ed25519, CU.Ed448, CU.X25519, CU.X448])
    x = cx.any('x', ANY) if vary == 'x' else cx.bytes('x')
    d = cx.any('d', ANY) if vary == 'd' else cx.bytes('d')
    return State(crv=crv, x=x, d=d)


def i_okp(s):
    return OKPKey(crv=s.crv, x=s.x, d=s.d).store


def s_okp(s):
    return K.joined(K.params('OKP', None), K.okp(s.crv, s.x, s.d))


EC2_CURVES = [CU.P256, CU.P384, CU.P521, CU.SECP256K1]


EC2_KINDS = {'x': ('none', 'bool', 'int', 'bytes', 'str', 'list', 'map'),
             'y': ('none', 'bool', 'int', 'bytes', 'str', 'list', 'map', 'tag'),
             'd': ('none', 'bool', 'int', 'bytes', 'str', 'map', 'tag')}


def new_ec2(vary, curve):
    def shape(cx):
        crv = cx.any('crv', PLAIN) if vary == 'curve' else curve
        v = {n: cx.any(n, EC2_KINDS[n]) if vary == n else cx.bytes(n) for n in EC2_KINDS}
        if vary == 'curve':
            cx.assume(v['d'] != b'' if not cx.symbolic else cx.truth(v['d']))
        return State(crv=crv, **v)
    return shape


def i_ec2(s):
    return EC2Key(crv=s.crv, x=s.x, y=s.y, d=s.d).store


def s_ec2(s):
    return K.joined(K.params('EC2', None), K.ec2(s.crv, s.x, s.y, s.d))


def new_rsa(odds, kinds):
    """All combinations of parameters given and not given; one of any type."""
    def shape(cx):
        vals = {}
        odd = cx.choice('odd', odds)
        for n in K.RSA_NAMES:
            vals[n] = cx.any(n, kinds) if n == odd else cx.any(n, ('list',)) if n == 'other' else cx.bytes(n)
        return State(vals=cx.pydict(list(vals.items())))
    return shape


def i_rsa(s):
    return RSAKey(**s.vals).store


def s_rsa(s):
    return K.joined(K.params('RSA', None), K.rsa(s.vals))


# ---- the optional parameters -----------------------------------------------------------------------------

MAKE = {'symmetric': ('pycose.keys.symmetric.SymmetricKey.__init__', K.symmetric), 'OKP': ('pycose.keys.okp.OKPKey.__init__', K.okp),
        'EC2': ('pycose.keys.ec2.EC2Key.__init__', K.ec2), 'RSA': ('pycose.keys.rsa.RSAKey.__init__', None)}


def good(cx, t):
    """Some valid key material."""
    if t == 'symmetric':
        return (cx.bytes('k', lens=(16, 24, 32)),)
    if t == 'OKP':
        return (CU.Ed25519, cx.bytes('x', minlen=1), cx.bytes('d', minlen=1))
    if t == 'EC2':
        return (CU.P256, cx.bytes('x', minlen=1), cx.bytes('y', minlen=1), b'')
    return (cx.bytes('n', minlen=1), cx.bytes('e', minlen=1))


def build(t, args, opt, allow):
    if t == 'symmetric':
        return SymmetricKey(args[0], optional_params=opt, allow_unknown_key_attrs=allow)
    if t == 'OKP':
        return OKPKey(args[0], args[1], args[2], optional_params=opt, allow_unknown_key_attrs=allow)
    if t == 'EC2':
        return EC2Key(args[0], args[1], args[2], args[3], optional_params=opt, allow_unknown_key_attrs=allow)
    return RSAKey(args[0], args[1], optional_params=opt, allow_unknown_key_attrs=allow)


def material(t, args):
    if t == 'RSA':
        return {KP.RSAKpN: args[0], KP.RSAKpE: args[1]}
    if t == 'symmetric':
        return K.symmetric(args[0])
    return K.okp(args[0], args[1], args[2]) if t == 'OKP' else K.ec2(args[0], args[1], args[2], args[3])


def opt_any(t, kinds):
    """Any number of parameters with labels of the given kinds (no operations: those are below)."""
    def shape(cx):
        sch = {}
        for i, (_, _) in REGS[K.REG[t]][1].items():
            c = CLASS[K.REG[t]][i]
            s = 'absent' if c is KP.KpKeyOps else L.NOLIST
            sch[i] = s
            sch[c] = s
        sch['__keys__'] = kinds
        return State(t=t, args=good(cx, t), opt=cx.dict('opt', sch), allow=cx.bool('allow'))
    return shape


def opt_one(t):
    """One parameter, with any other label."""
    def shape(cx):
        label = cx.any('label', ('str', 'int', 'none', 'bytes', 'bool'))
        return State(t=t, args=good(cx, t), opt=cx.pydict([(label, cx.any('value', PLAIN))]), allow=cx.bool('allow'))
    return shape


class Unregistered:
    pass


def opt_class(t):
    """Two parameters by class."""
    def shape(cx):
        classes = [c for c in CLASS[K.REG[t]].values()] + [Unregistered]
        a = cx.choice('a', classes)
        b = cx.choice('b', [KP.KpKid, KP.KpKty, a])
        return State(t=t, args=good(cx, t), opt=cx.pydict([(a, cx.any('va', PLAIN)), (b, cx.any('vb', PLAIN))]),
                     allow=cx.bool('allow'))
    return shape


def opt_ops(t):
    """A list of operations, with an identifier, an algorithm and any other integer-labelled parameters."""
    def shape(cx):
        label = cx.choice('label', [KP.KpKeyOps, 'key_ops'])
        form = cx.choice('form', ['many', 'few'])
        if form == 'many':
            ops = cx.oplist('ops', SH.KEYOPS)
        else:
            ops = cx.lst([cx.any(f'op{i}', ('int', 'str', 'cls', 'none') if i == 0 else ('int', 'str')) for i in range(cx.choice('n', [1, 2, 3]))])
        return State(t=t, args=good(cx, t), opt=cx.pydict([(label, ops), (KP.KpKid, cx.any('kid'))]), allow=cx.bool('allow'))
    return shape


def i_opt(s):
    return build(s.t, s.args, s.opt, s.allow).store, s.opt


def s_opt(s):
    return K.joined(K.params(s.t, s.opt, s.allow), material(s.t, s.args)), s.opt


OPTIONAL = [Contract(f'{t} key with parameters', opt_any(t, ('int',)), i_opt, s_opt, funcs=[MAKE[t][0]]) for t in MAKE] + \
           [Contract(f'{t} key with two parameters', opt_class(t), i_opt, s_opt, funcs=[MAKE[t][0]]) for t in MAKE] + \
           [Contract(f'{t} key with one parameter', opt_one(t), i_opt, s_opt, funcs=[MAKE[t][0]]) for t in MAKE] + \
           [Contract(f'{t} key with operations', opt_ops(t), i_opt, s_opt, funcs=[MAKE[t][0]]) for t in MAKE]


# ---- assignment and deletion -----------------------------------------------------------------------------

EC2_FORMS = ('xyd', 'd', 'xy', 'x')
OKP_FORMS = ('xd', 'x', 'd')
RSA_FORMS = ('public', 'two', 'many')


def a_key(cx, t):
    """Any valid key of the type."""
    if t == 'symmetric':
        return SH.sym_key(cx, 'key')
    if t == 'EC2':
        form = cx.choice('form', EC2_FORMS)
        fixed = [(KP.KpKty, K.KTY[t]), (KP.EC2KpCurve, cx.enum('crv', EC2_CURVES))]
        fixed += [(p, cx.bytes('key.' + n)) for n, p in (('x', KP.EC2KpX), ('y', KP.EC2KpY), ('d', KP.EC2KpD)) if n in form]
    elif t == 'OKP':
        form = cx.choice('form', OKP_FORMS)
        fixed = [(KP.KpKty, K.KTY[t]), (KP.OKPKpCurve, cx.enum('crv', [CU.Ed25519, CU.Ed448, CU.X25519, CU.X448]))]
        fixed += [(p, cx.bytes('key.' + n)) for n, p in (('x', KP.OKPKpX), ('d', KP.OKPKpD)) if n in form]
    else:
        form = cx.choice('form', RSA_FORMS)
        n = {'public': 2, 'two': 8, 'many': 12}[form]
        fixed = [(KP.KpKty, K.KTY[t])] + [(K.RSA_BY_NAME[x], cx.any('key.' + x, ('list',)) if x == 'other' else cx.bytes('key.' + x))
                                          for x in K.RSA_NAMES[:n]]
    return SH.blank(K.CLS[t], SH.store(cx, 'key.store', fixed))


ATTRS = {'symmetric': {'k': KP.SymKpK}, 'OKP': {'crv': KP.OKPKpCurve, 'x': KP.OKPKpX, 'd': KP.OKPKpD},
         'EC2': {'crv': KP.EC2KpCurve, 'x': KP.EC2KpX, 'y': KP.EC2KpY, 'd': KP.EC2KpD}, 'RSA': K.RSA_BY_NAME}
GENERAL = {'kty': KP.KpKty, 'alg': KP.KpAlg, 'kid': KP.KpKid, 'base_iv': KP.KpBaseIV}
OPS = {'symmetric': (KO.MacCreateOp, KO.MacVerifyOp, KO.EncryptOp, KO.DecryptOp, KO.UnwrapOp, KO.WrapOp)}
SIGN_OPS = (KO.SignOp, KO.VerifyOp, KO.DeriveKeyOp, KO.DeriveBitsOp)


def assigning(t):
    def shape(cx):
        name = cx.choice('name', list(GENERAL) + list(ATTRS[t]))
        return State(t=t, key=a_key(cx, t), name=name, value=cx.any('value', PLAIN if name in ('kty', 'alg', 'crv') else ANY))
    return shape


def i_assign(s):
    setattr(s.key, s.name, s.value)
    return getattr(s.key, s.name)


def s_assign(s):
    v = s.value
    if s.name in GENERAL:
        p = GENERAL[s.name]
        if s.name == 'kty':
            v = lookup('key types', v, False)
            K.need(v is K.KTY[s.t], 'kty')
        elif s.name == 'alg':
            v = lookup('algorithms', v, False)
        else:
            K.need(isinstance(v, bytes), 'type')
    else:
        p = ATTRS[s.t][s.name]
        if s.name == 'crv':
            v = K.curve(v, K.KTY[s.t].identifier)
        elif s.name == 'other':
            K.need(isinstance(v, list), 'type')
        else:
            K.need(isinstance(v, bytes), 'type')
            K.need(s.name != 'k' or len(v) in (16, 24, 32), 'length')
    s.key.store[p] = v
    return v


def assigning_ops(t):
    def shape(cx):
        form = cx.choice('ops', ['any list', 'many', 'few', 'none'])
        if form == 'any list':
            return State(t=t, key=a_key(cx, t), value=cx.any('value', ('list',)))
        if form == 'none':
            v = cx.any('value', ('none', 'bool', 'int'))
        elif form == 'many':
            v = cx.oplist('value', SH.KEYOPS)
        else:
            v = cx.lst([cx.any(f'op{i}', ('int', 'str', 'none', 'bytes', 'list') if i == 0 else ('int', 'str'))
                        for i in range(cx.choice('n', [0, 1, 2]))])
        return State(t=t, key=a_key(cx, t), value=v)
    return shape


def i_assign_ops(s):
    s.key.key_ops = s.value
    return s.key.key_ops


def s_assign_ops(s):
    K.need(isinstance(s.value, list), 'list')
    allowed = OPS.get(s.t, SIGN_OPS)
    out = [operation(x, allowed) for x in s.value]
    s.key.store[KP.KpKeyOps] = out
    return out


def operation(x, allowed):
    for o in allowed:
        if x is o or isinstance(x, int) and x == o.identifier or isinstance(x, str) and x == o.fullname:
            return lookup('key operations', x, False)
    raise S.Refused('operation')


def deleting(t):
    def shape(cx):
        reg = CLASS[K.REG[t]]
        by = cx.choice('by', ['class', 'id', 'name', 'lower case', 'other'])
        if by == 'other':
            return State(t=t, key=a_key(cx, t), label=cx.any('label', ('none', 'int', 'bytes', 'str')))
        i = cx.choice('i', list(reg))
        name = R_NAME(t, i)
        return State(t=t, key=a_key(cx, t), label={'class': reg[i], 'id': i, 'name': name, 'lower case': name.lower()}[by])
    return shape


def R_NAME(t, i):
    return REGS[K.REG[t]][1][i][0]


def i_delete(s):
    del s.key[s.label]


def s_delete(s):
    p = lookup(K.REG[s.t], s.label, True)
    st = s.key.store
    K.need(p in st, 'absent')
    K.need(p is not KP.KpKty and p not in ESSENTIAL[s.t], 'mandatory')
    if p in VALUES:
        public, private = VALUES[p]
        if p in private:
            K.need(public[0] in st, 'the only value')
        else:
            K.need(p is not public[0] or private[0] in st, 'the only value')
            if private[0] in st:
                for q in public:
                    if q in st:
                        del st[q]
                return None
    del st[p]


ESSENTIAL = {'symmetric': (KP.SymKpK,), 'RSA': K.MATERIAL['RSA'], 'EC2': (KP.EC2KpCurve,), 'OKP': (KP.OKPKpCurve,)}
EC2_VALUES = ((KP.EC2KpX, KP.EC2KpY), (KP.EC2KpD,))
OKP_VALUES = ((KP.OKPKpX,), (KP.OKPKpD,))
VALUES = {KP.EC2KpX: EC2_VALUES, KP.EC2KpY: EC2_VALUES, KP.EC2KpD: EC2_VALUES, KP.OKPKpX: OKP_VALUES, KP.OKPKpD: OKP_VALUES}


def item(t):
    def shape(cx):
        return State(t=t, key=a_key(cx, t), label=cx.any('label', ('none', 'int', 'bytes', 'str', 'bool')))
    return shape


def i_item(s):
    return s.label in s.key, s.key[s.label]


def s_item(s):
    p = lookup(K.REG[s.t], s.label, True)
    return p in s.key.store, s.key.store[p]


def reading(t):
    def shape(cx):
        return State(t=t, key=a_key(cx, t))
    return shape


def i_read(s):
    return [s.key.kty, s.key.alg, s.key.kid, s.key.base_iv, s.key.key_ops] + [getattr(s.key, n) for n in ATTRS[s.t]]


def s_read(s):
    st = s.key.store
    out = [st.get(KP.KpKty), st.get(KP.KpAlg), st.get(KP.KpKid, b''), st.get(KP.KpBaseIV, b''), st.get(KP.KpKeyOps, [])]
    return out + [st.get(p, [] if p is KP.RSAKpOther else b'') for p in ATTRS[s.t].values()]


MODS = {'symmetric': 'pycose.keys.symmetric.SymmetricKey.', 'OKP': 'pycose.keys.okp.OKPKey.', 'EC2': 'pycose.keys.ec2.EC2Key.',
        'RSA': 'pycose.keys.rsa.RSAKey.'}
COSEKEY = 'pycose.keys.cosekey.CoseKey.'
STATE = [c for t in MODS for c in (
    Contract(f'{t} key: assign an attribute', assigning(t), i_assign, s_assign, raise_same=True,
             funcs=[MODS[t] + n for n in ATTRS[t]] + [COSEKEY + n for n in GENERAL]),
    Contract(f'{t} key: assign operations', assigning_ops(t), i_assign_ops, s_assign_ops, raise_same=True,
             funcs=[MODS[t] + 'key_ops', COSEKEY + 'key_ops']),
    Contract(f'{t} key: delete a parameter', deleting(t), i_delete, s_delete, raise_same=True,
             funcs=[MODS[t] + '__delitem__', COSEKEY + '__delitem__']),
    Contract(f'{t} key: look up a parameter', item(t), i_item, s_item, raise_same=True,
             funcs=[COSEKEY + '__getitem__', COSEKEY + '__contains__']),
    Contract(f'{t} key: read the attributes', reading(t), i_read, s_read, funcs=[MODS[t] + n for n in ATTRS[t]]))]


CONTRACTS = STATE + OPTIONAL + [
    Contract('SymmetricKey()', new_sym, i_sym, s_sym, funcs=['pycose.keys.symmetric.SymmetricKey.__init__']),
    Contract('OKPKey()', new_okp, i_okp, s_okp, funcs=['pycose.keys.okp.OKPKey.__init__']),
    Contract('RSAKey()', new_rsa([''], ()), i_rsa, s_rsa, funcs=['pycose.keys.rsa.RSAKey.__init__']),
] + [Contract(f'RSAKey() any {n}', new_rsa([n], ('none', 'int', 'str', 'list', 'map', 'tag', 'bytes')), i_rsa, s_rsa,
              funcs=['pycose.keys.rsa.RSAKey.__init__']) for n in K.RSA_NAMES
] + [Contract(f'EC2Key() any {v} {c.__name__}', new_ec2(v, c), i_ec2, s_ec2, funcs=['pycose.keys.ec2.EC2Key.__init__'])
     for v in ('x', 'y', 'd') for c in EC2_CURVES]


# ---- histories -------------------------------------------------------------------------------------------

def history(r):
    t = r.choice(list(MAKE))
    mat, opt = KH.material(r, t), KH.optional(r, t)
    key = KH.build(r, t, mat, opt)
    model = State(store=KH.stored(t, mat, opt))
    KH.same(key.store, model.store, f'a new {t} key')
    other = KH.build(r, t, mat, opt)
    before = copy.deepcopy(other.store)
    trail = []
    for _ in range(r.randint(3, 12)):
        what = r.choice(['set', 'set', 'ops', 'del', 'del', 'get'])
        if what == 'set':
            name = r.choice(list(GENERAL) + list(ATTRS[t]) * 2)
            v = r.choice([rand_any(r, PLAIN if name in ('kty', 'alg', 'crv') else ANY), KH.byts(r, 16, 16), r.choice(['ES256', 1, 2, 4, -8, 'P_384', 'ED448', CU.P521])])
            s, m = State(t=t, key=key, name=name, value=v), State(t=t, key=model, name=name, value=clone(v))
            f, g = i_assign, s_assign
        elif what == 'ops':
            v = r.choice([[], [r.choice(list(OPS.get(t, SIGN_OPS)))], [r.choice(list(range(0, 12)) + [o.fullname for o in SH.KEYOPS] + SH.KEYOPS)
                                                                      for _ in range(r.randint(1, 3))]])
            s, m = State(t=t, key=key, value=list(v)), State(t=t, key=model, value=list(v))
            f, g = i_assign_ops, s_assign_ops
        else:
            p = r.choice(list(CLASS[K.REG[t]].values()) + [KH.unknown(r)] * 3)
            lab = p if not isinstance(p, type) else r.choice([p, p.identifier, p.fullname, p.fullname.lower()])
            s, m = State(t=t, key=key, label=lab), State(t=t, key=model, label=lab)
            f, g = (i_delete, s_delete) if what == 'del' else (i_item, i_store)
        trail.append((what, {k: v for k, v in vars(s).items() if k != 'key'}))
        a, e1 = KH.attempt(f, s)
        b, e2 = KH.attempt(g, m)
        if (e1 is None) != (e2 is None):
            raise Violation(f'{trail}: {"raises " + repr(e1) if e1 else "does not raise"} but should {"" if e2 else "not"}')
        if e1 is None:
            KH.same(a, b, f'result after {trail}')
        KH.same(key.store, model.store, f'after {trail}')
    KH.same(other.store, before, 'another key')


def i_store(s):
    p = lookup(K.REG[s.t], s.label, True)
    return p in s.key.store, s.key.store[p]


HISTORIES = [History('assignments and deletions', history, tries=1500, doc='sequences of assignments and deletions on keys of all types')]
