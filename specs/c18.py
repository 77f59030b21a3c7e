"""C18: registered attributes: id, name and class identify each other uniquely."""
from pycose import algorithms as A
from pycose import headers as H
from pycose.keys import curves as CU
from pycose.keys import keyops as KO
from pycose.keys import keyparam as KP
from pycose.keys import keytype as KT
from pycose.messages import Enc0Message
from pycose.keys import CoseKey
from pyvc.contract import Contract, History, State, Violation
from specs import common as S
from specs import lemmas as L
from specs import registry as R
from specs import hist

# registry -> (the registry class, {id: (name, class)})
REGS = {
    'header parameters': (H.CoseHeaderAttribute, R.HEADERS, H),
    'algorithms': (A.CoseAlgorithm, R.ALGORITHMS, A),
    'key operations': (KO.KeyOps, R.KEY_OPS, KO),
    'key types': (KT.KTY, R.KEY_TYPES, KT),
    'curves': (CU.CoseCurve, R.CURVES, CU),
    'key parameters': (KP.KeyParam, R.KEY_PARAMS, KP),
    'EC2 key parameters': (KP.EC2KeyParam, R.EC2_PARAMS, KP),
    'OKP key parameters': (KP.OKPKeyParam, R.OKP_PARAMS, KP),
    'RSA key parameters': (KP.RSAKeyParam, R.RSA_PARAMS, KP),
    'symmetric key parameters': (KP.SymmetricKeyParam, R.SYMMETRIC_PARAMS, KP),
}
CLASS = {n: {i: getattr(mod, c, None) for i, (_, c) in t.items()} for n, (_, t, mod) in REGS.items()}
NAME = {n: {nm: getattr(mod, c, None) for _, (nm, c) in t.items()} for n, (_, t, mod) in REGS.items()}
PLAIN = ('none', 'bool', 'int', 'bytes', 'str', 'cls', 'map', 'tag', 'other')


def lookup(reg, x, allow):
    """The registered class; lists element by element; others as they are or refused."""
    ids, names = CLASS[reg], NAME[reg]
    if isinstance(x, int):
        if x in ids:
            return ids[x]
    elif isinstance(x, str):
        if x.upper() in names:
            return names[x.upper()]
    elif isinstance(x, list):
        return [lookup(reg, e, False) for e in x]
    elif hasattr(x, 'identifier') and x.identifier in ids:
        return ids[x.identifier]
    if allow:
        return x
    raise S.Refused('not registered')


def impl(s):
    r = REGS[s.reg][0]
    return r.from_id(s.x, True) if s.allow else r.from_id(s.x)


def spec(s):
    return lookup(s.reg, s.x, s.allow)


def every_id(reg):
    """Each registered id, name and class: the class, its id and its name."""
    def shape(cx):
        i = cx.choice('id', list(REGS[reg][1]))
        name, _ = REGS[reg][1][i]
        by = cx.choice('by', ['id', 'name', 'lower case', 'mixed case', 'class'])
        x = {'id': i, 'name': name, 'lower case': name.lower(), 'mixed case': name.title(), 'class': CLASS[reg][i]}[by]
        return State(reg=reg, id=i, x=x, allow=cx.choice('allow', [True, False]))
    return shape


def i_every(s):
    c = impl(s)
    return c, c.identifier, c.fullname


def s_every(s):
    return CLASS[s.reg][s.id], s.id, REGS[s.reg][1][s.id][0]


def anything(reg):
    def shape(cx):
        return State(reg=reg, x=cx.any('x', PLAIN), allow=cx.bool('allow'))
    return shape


def lists(reg):
    def shape(cx):
        n = cx.choice('length', [0, 1, 2, 3])
        kinds = ('none', 'int', 'str', 'cls', 'bytes') if n < 2 else ('int', 'str', 'cls')
        e = [cx.any(f'x[{i}]', kinds if i == 0 else ('int', 'cls')) for i in range(n)]
        if n and cx.choice('nested', [False, True]):
            e[-1] = [e[-1]]
        return State(reg=reg, x=cx.lst(e), allow=False)
    return shape


def others(reg):
    """A class with any id that is not of this library."""
    def shape(cx):
        return State(reg=reg, x=cx.enum('x', ALIEN), allow=cx.bool('allow'))
    return shape


class Alien0:
    identifier, fullname = 0, 'ALIEN'


class Alien1:
    identifier, fullname = 1, 'ALIEN'


class Alien4:
    identifier, fullname = 4, 'KTY'


class AlienMinus1:
    identifier, fullname = -1, 'ALIEN'


class Alien1000:
    identifier, fullname = 1000, 'ALG'


class AlienNone:
    identifier, fullname = None, 'KTY'


ALIEN = (Alien0, Alien1, Alien4, AlienMinus1, Alien1000, AlienNone)


# ---- uses of the library do not change what is registered ------------------------------------------------

def uses(regs, how):
    def shape(cx):
        return State(reg=cx.choice('registry', regs), how=cx.choice('use', how), k=cx.any('label', ('int', 'str')), x=cx.any('x', ('int',)),
                     allow=True)
    return shape


def use(s):
    r = REGS[s.reg][0]
    if s.how == 'lookup':
        r.from_id(s.k, True)
    elif s.how == 'header':
        Enc0Message(uhdr={s.k: b'value'})
    elif s.how == 'list':
        r.from_id([1, s.k])
    else:
        r.from_id(s.k)


def i_uses(s):
    try:
        use(s)
    except Exception:
        pass
    return impl(s)


ASSUMED = [L.KEY_OF_DICT]
F = ['pycose.utils._CoseAttribute.from_id', 'pycose.utils._CoseAttribute.register_attribute']
CONTRACTS = []
for _r in REGS:
    CONTRACTS += [Contract(_r + ': every entry', every_id(_r), i_every, s_every, funcs=F),
                  Contract(_r + ': any attribute', anything(_r), impl, spec, funcs=F),
                  Contract(_r + ': lists', lists(_r), impl, spec, funcs=F, bounded='at most three elements'),
                  Contract(_r + ': other classes', others(_r), impl, spec, funcs=F)]
CONTRACTS += [Contract('unchanged by lookups', uses(list(REGS), ['lookup', 'list', 'refused']), i_uses, spec, funcs=F),
              Contract('unchanged by headers', uses(['header parameters'], ['header']), i_uses, spec, funcs=F)]


# ---- histories -------------------------------------------------------------------------------------------

WAS = {n: dict(r.get_registered_classes()) for n, (r, _, _) in REGS.items()}


def check_tables():
    for n, (r, t, _) in REGS.items():
        now = r.get_registered_classes()
        if now != WAS[n]:
            raise Violation(f'{n}: what is registered has changed: {sorted(map(str, set(now) ^ set(WAS[n])))}')
        for i, (name, _) in t.items():
            for a in (i, name, name.lower(), name.title(), CLASS[n][i]):
                if r.from_id(a) is not CLASS[n][i]:
                    raise Violation(f'{n}: looking up {a!r} gives {r.from_id(a)!r}')


def using(r):
    """Random lookups and random uses of messages and keys leave the registries as they are."""
    for _ in range(r.randrange(1, 6)):
        n = r.choice(list(REGS))
        reg, t, _m = REGS[n]
        i = r.choice(list(t))
        name = t[i][0]
        x = r.choice([i, name, name.lower(), name.title(), name.swapcase(), CLASS[n][i], r.randrange(-300, 300), 'unknown', [i, name.lower()], b'x', None,
                      r.choice(ALIEN)])
        try:
            reg.from_id(x, r.choice([True, False]))
        except Exception:
            pass
    k = r.choice(['message', 'headers', 'key', 'nothing'])
    if k == 'message':
        r.choice([hist.sign1, hist.mac0, hist.enc0])(r)
    elif k == 'headers':
        try:
            Enc0Message({'kid': b'1', r.choice(['alg', 'Iv', 'unknown', 4, 77]): r.choice([b'', 'a128gcm', 1])}, {r.choice(['x5_t', -3, 'new']): 1})
        except Exception:
            pass
    elif k == 'key':
        try:
            CoseKey.from_dict({'kty': 'symmetric', 'k': bytes(16), r.choice(['alg', 'new', 99]): 'a128gcm'}).encode()
        except Exception:
            pass
    check_tables()


HISTORIES = [History('the registries through use', using, tries=60, doc=using.__doc__)]
