"""Models (assumed contracts) of built-ins and of the libraries outside the repository.

Every cryptographic primitive is an uninterpreted function of its canonical arguments; the same functions are what the
primitives of specs/prims.py denote.  An operation of a library that can fail is split on an uninterpreted predicate
of the same arguments."""
import builtins
import collections.abc
import inspect
import types

import z3

from . import ops
from .ops import *
from .terms import *
from .values import *

FUNC = {}
CLASS = {}
METHOD = {}
TRUSTED = set()


class LibError(ValueError):
    """An error raised by a library function (of a class that the code under test does not handle specially)."""


def model(*fs):
    def deco(m):
        for f in fs:
            (CLASS if isinstance(f, type) else FUNC)[f] = m
        return m
    return deco


def method(kind, *names):
    def deco(m):
        for n in names:
            METHOD[(kind, n)] = m
        return m
    return deco


def trust(name):
    TRUSTED.add(name)


# ---- canonical names of library constants ----------------------------------------------------------------

ECDSA_CURVES = {'NIST256p': 'secp256r1', 'NIST384p': 'secp384r1', 'NIST521p': 'secp521r1', 'SECP256k1': 'secp256k1'}


def hash_name(h):
    """Canonical name of a hash given as cryptography instance or class or as hashlib constructor."""
    from cryptography.hazmat.primitives import hashes
    if isinstance(h, hashes.HashAlgorithm):
        n = h.name
        if isinstance(h, (hashes.SHAKE128, hashes.SHAKE256)):
            n += ':%d' % h.digest_size
        return n
    if isinstance(h, type) and issubclass(h, hashes.HashAlgorithm):
        return h.name
    if callable(h):
        try:
            return h().name
        except Exception:
            pass
    raise Unsupported(f'hash {h}')


HLEN = {'sha1': 20, 'sha224': 28, 'sha256': 32, 'sha384': 48, 'sha512': 64, 'sha512-224': 28, 'sha512-256': 32}


def hash_len(n):
    if n.startswith('shake'):
        return int(n.split(':')[1])
    return HLEN.get(n)


def curve_name(c):
    from cryptography.hazmat.primitives.asymmetric import ec
    if isinstance(c, ec.EllipticCurve):
        return c.name
    if isinstance(c, type) and issubclass(c, ec.EllipticCurve):
        return c.name
    import ecdsa.curves
    if isinstance(c, ecdsa.curves.Curve):
        return ECDSA_CURVES.get(c.name, c.name)
    raise Unsupported(f'curve {c}')


def pad_name(p):
    from cryptography.hazmat.primitives.asymmetric import padding
    if isinstance(p, padding.PSS):
        return f'pss:{hash_name(p._mgf._algorithm)}:{p._salt_length if isinstance(p._salt_length, int) else str(p._salt_length)}'
    if isinstance(p, padding.PKCS1v15):
        return 'pkcs1'
    if isinstance(p, padding.OAEP):
        return f'oaep:{hash_name(p._mgf._algorithm)}:{hash_name(p._algorithm)}:{p._label!r}'
    raise Unsupported(f'padding {p}')


# ---- uninterpreted operations ----------------------------------------------------------------------------

def vs_(I, vals):
    return [tov(I, v) for v in vals]


def ok_pred(I, name, vals):
    v = vs_(I, vals)
    return uf('ok_' + name, *([V] * len(v)), BOOL)(*v)


NEED = {}       # operation -> necessary condition of its success


def may_fail(I, name, vals, exc=LibError):
    trust(name)
    ok = ok_pred(I, name, vals)
    if name in NEED:
        I.cx.assume(z3.Implies(ok, NEED[name](*vals)))
    if not I.cx.branch(ok):
        I.throw(exc, name)


def b_op(I, name, vals, fails=True, length=None, exc=LibError):
    trust(name)
    if fails:
        may_fail(I, name, vals, exc)
    v = vs_(I, vals)
    t = uf(name, *([V] * len(v)), BYTES)(*v)
    if length is not None:
        I.cx.assume(z3.Length(t) == (ti(length) if not isinstance(length, int) else length))
    return SBytes(t)


def bool_op(I, name, vals):
    trust(name)
    v = vs_(I, vals)
    return SBool(uf(name, *([V] * len(v)), BOOL)(*v))


def need_bytes(I, *xs):
    out = []
    for x in xs:
        if isinstance(x, SAny) and (x.t.get_id(), I.cx.phase) not in I.cx.refined and not I.cx.branch(V.is_VBytes(x.t)):
            I.throw(TypeError, 'bytes expected')
        x = refine(I, x)
        if not isbytes(x):
            I.throw(TypeError, 'bytes expected')
        out.append(x)
    return out[0] if len(out) == 1 else out


# integers and byte strings
be_int_ = uf('be_int', BYTES, INT)
be_bytes_ = uf('be_bytes', INT, INT, BYTES)
fits_ = uf('fits', INT, INT, BOOL)


def be_int(I, b):
    if isinstance(b, bytes):
        return int.from_bytes(b, 'big')
    t = be_int_(b.t)
    cx = I.cx
    cx.assume(t >= 0)
    cx.assume(fits_(t, z3.Length(b.t)))
    cx.assume(be_bytes_(t, z3.Length(b.t)) == b.t)
    cx.bints = getattr(cx, 'bints', {})
    cx.bints[t.get_id()] = z3.Length(b.t)
    cx.keep.append(t)
    return SInt(t)


def le_int(I, b):
    return SInt(uf('le_int', BYTES, INT)(tb(b)))


def fits_axioms(I, t, n):
    """t < 256**n follows for be_int terms not longer than n bytes, and for xors of such."""
    cx = I.cx
    if t.get_id() in getattr(cx, 'bitlens', {}):
        cx.assume(z3.Implies(t >= 0, fits_(t, n) == (cx.bitlens[t.get_id()] <= 8 * n)))
    d = t.decl().name() if t.num_args() else None
    if d == 'be_int':
        cx.assume(z3.Implies(z3.Length(t.arg(0)) <= n, fits_(t, n)))
    elif d == 'ixor':
        for a in (t.arg(0), t.arg(1)):
            fits_axioms(I, a, n)
        cx.assume(z3.Implies(z3.And(fits_(t.arg(0), n), fits_(t.arg(1), n)), fits_(t, n)))
    elif z3.is_int_value(t) and z3.is_int_value(z3.simplify(n)):
        cx.assume(fits_(t, n) == (t.as_long() < 256 ** z3.simplify(n).as_long() and t.as_long() >= 0))


def to_bytes(I, n, ln, order='big'):
    n, ln = refine(I, n), refine(I, ln)
    if not isint(ln):
        I.throw(TypeError, 'length must be an integer')
    if isinstance(n, int) and isinstance(ln, int):
        try:
            return n.to_bytes(ln, order)
        except Exception as e:
            raise PyRaise(e)
    if order != 'big':
        raise Unsupported('little endian')
    t, k = ti(n), ti(ln)
    fits_axioms(I, t, k)
    if not I.cx.branch(fits_(t, k)):
        I.throw(OverflowError, 'int too big to convert')
    r = be_bytes_(t, k)
    I.cx.assume(z3.Length(r) == k)
    I.cx.assume(be_int_(r) == t)
    return SBytes(r)


# ---- built-ins -------------------------------------------------------------------------------------------

def is_instance(I, x, cls):
    if isinstance(cls, (tuple, PList)):
        return disj([is_instance(I, x, c) for c in (cls if isinstance(cls, tuple) else cls.items)])
    if isinstance(cls, types.UnionType):
        return disj([is_instance(I, x, c) for c in cls.__args__])
    if not isinstance(cls, type):
        raise Unsupported(f'isinstance of {cls}')
    if isinstance(x, SAny):
        t = x.t
        alts = []
        for k, pt in (('none', type(None)), ('bool', bool), ('int', int), ('bytes', bytes), ('str', str),
                      ('list', list), ('map', dict)):
            if issubclass(pt, cls):
                alts.append(TESTER[k](t))
        import cbor2
        if issubclass(cbor2.CBORTag, cls):
            alts.append(V.is_VTag(t))
        if cls is type or cls is object:
            if cls is object:
                return True
            alts.append(V.is_VCls(t))
        import abc
        if issubclass(abc.ABCMeta, cls) and cls is not object:
            alts.append(V.is_VCls(t))
        return mk(z3.Or(alts)) if alts else False
    return isinstance_pt(I, x, cls)


def pytype(I, x):
    """The Python type of a value (SAny refined)."""
    x = refine(I, x)
    if isinstance(x, tuple(ops.PYTYPE)):
        return ops.PYTYPE[type(x)]
    if isinstance(x, SEnum):
        k = {type(m) for m in x.members}
        return k.pop() if len(k) == 1 else type
    if isinstance(x, ExtTag):
        import cbor2
        return cbor2.CBORTag
    if isinstance(x, ExtObj):
        return x.pycls
    if isinstance(x, Other):
        return Foreign
    if isinstance(x, (BoundM, Closure)):
        return types.FunctionType
    if isinstance(x, ItemsView):
        return {'keys': type({}.keys()), 'values': type({}.values()), 'items': type({}.items())}[x.what]
    if isinstance(x, (Opaque, SuperProxy, SymMethod)):
        raise Unsupported('type of unknown object')
    return type(x)


def isinstance_pt(I, x, cls):
    if not isinstance(x, (Sym, Wrapper, ExtObj, BoundM, Closure, ItemsView, Opaque, SuperProxy, SymMethod)):
        return isinstance(x, cls)
    return issubclass(pytype(I, x), cls)


@model(isinstance)
def _isinstance(I, x, cls):
    return is_instance(I, x, cls)


@model(issubclass)
def _issubclass(I, c, p):
    c = refine(I, c)
    if isinstance(p, (tuple, PList)):
        p = tuple(p if isinstance(p, tuple) else p.items)
    if isinstance(c, SEnum):
        return mk(z3.Or([c.t == gid(m) for m in c.members if isinstance(m, type) and issubclass(m, p)] or [z3.BoolVal(False)]))
    if not isinstance(c, type):
        I.throw(TypeError, 'issubclass() arg 1 must be a class')
    return issubclass(c, p)


@model(type)
def _type(I, x, *rest):
    if rest:
        raise Unsupported('type()')
    if isinstance(x, SAny) and (x.t.get_id(), I.cx.phase) not in I.cx.refined:
        return ops.TypeOf(x)
    return pytype(I, x)


@model(len)
def _len(I, x):
    return length(I, x)


@model(hasattr)
def _hasattr(I, x, n):
    from . import interp
    if not isinstance(n, str):
        raise Unsupported('hasattr name')
    if isinstance(x, SEnum):
        ms = [m for m in x.members if hasattr(m, n)]
        if not ms:
            return False
        if len(ms) == len(x.members):
            return True
        return mk(z3.Or([x.t == gid(m) for m in ms]))
    if isinstance(x, SAny) and not hasattr(list, n) and not hasattr(dict, n) and not any(
            hasattr(t, n) for t in (int, bytes, str, bool, type(None))):
        if n not in ('tag', 'value'):
            c = V.is_VCls(x.t)
            if not I.cx.branch(c):
                return False
    o = object()
    try:
        return ops.getattr_(I, x, n, o) is not o
    except PyRaise as e:
        if isinstance(e.exc, AttributeError):
            return False
        raise


@model(getattr)
def _getattr(I, x, n, *d):
    from . import interp
    if not isinstance(n, str):
        raise Unsupported('getattr name')
    return ops.getattr_(I, x, n, d[0] if d else interp._MISSING)


@model(setattr)
def _setattr(I, x, n, v):
    ops.setattr_(I, x, n, v)


@model(object.__setattr__)
def _osetattr(I, x, n, v):
    ops.setattr_(I, x, n, v)


@model(callable)
def _callable(I, x):
    x = refine(I, x)
    if isinstance(x, (Closure, BoundM, SymMethod)):
        return True
    if isinstance(x, SEnum):
        return all(callable(m) for m in x.members)
    if isinstance(x, (Sym, Wrapper)):
        return False
    return callable(x)


@model(dict)
def _dict(I, *a, **kw):
    d = SDict()
    if a:
        dict_update(I, d, a[0])
    for k, v in kw.items():
        dict_set(I, d, k, v)
    return d


@model(collections.abc.KeysView)
def _keysview(I, m):
    return PList(list(iterate(I, m, concrete=True)))


@model(collections.abc.ItemsView)
def _itemsview(I, m):
    return PList([(k, getitem(I, m, k)) for k in iterate(I, m, concrete=True)])


@model(collections.abc.ValuesView)
def _valuesview(I, m):
    return PList([getitem(I, m, k) for k in iterate(I, m, concrete=True)])


@model(list)
def _list(I, *a):
    if not a:
        return PList()
    x = refine(I, a[0])
    if isinstance(x, PList):
        p = PList(x.items, tail=x.tail)
        for n in ('gen', 'source', 'wire'):
            if hasattr(x, n):
                setattr(p, n, getattr(x, n))
        return p
    it = iterate(I, x)
    if isinstance(it, SymIter):
        raise Unsupported('list of unbounded collection')
    return PList(list(it))


@model(tuple)
def _tuple(I, *a):
    return tuple(iterate(I, a[0], concrete=True)) if a else ()


@model(set)
def _set(I, *a):
    s = PSet()
    if a:
        for x in iterate(I, a[0], concrete=True):
            set_add(I, s, x)
    return s


@model(frozenset)
def _frozenset(I, *a):
    s = _set(I, *a)
    s.frozen = True
    return s


@model(bool)
def _bool(I, *a):
    if not a:
        return False
    x = a[0]
    if isinstance(x, SBool):
        return x
    if isinstance(x, SBytes):
        return mk(z3.Length(x.t) > 0)
    if isinstance(x, SInt):
        return mk(x.t != 0)
    return truth(I, x)


@model(bytes)
def _bytes(I, *a):
    if not a:
        return b''
    x = refine(I, a[0])
    if isbytes(x):
        return x
    if isinstance(x, int) and not isinstance(x, bool):
        return bytes(x)
    if isinstance(x, SInt):
        return bytes(pick_int(I, x))
    if isinstance(x, SHex):
        raise Unsupported('bytes of hex')
    if isstr(x):
        if len(a) == 1:
            I.throw(TypeError, 'string argument without an encoding')
        raise Unsupported('bytes of str')
    if isinstance(x, (PList, list)):
        c = concrete(x)
        if c is not NO:
            try:
                return bytes(c)
            except Exception as e:
                raise PyRaise(e)
        its = x.items if isinstance(x, PList) and x.tail is None else None
        if its is not None and all(isint(e) for e in its):
            us = []
            for e in its:
                t = ti(e)
                if not I.cx.branch(z3.And(t >= 0, t < 256)):
                    I.throw(ValueError, 'bytes must be in range(0, 256)')
                us.append(z3.Unit(z3.Int2BV(t, 8)))
            return SBytes(z3.Concat(*us) if len(us) > 1 else us[0])
    if x is None or isinstance(x, (SEnum, type)):
        I.throw(TypeError, 'cannot convert to bytes')
    raise Unsupported('bytes()')


@model(bytearray)
def _bytearray(I, *a):
    raise Unsupported('bytearray')


@model(int)
def _int(I, x=0, base=None):
    x = refine(I, x)
    if isinstance(x, SHex):
        if base == 16:
            if I.cx.branch(z3.Length(x.t) == 0):
                I.throw(ValueError, 'invalid literal for int()')
            return be_int(I, norm(SBytes(x.t)))
        raise Unsupported('int of hex')
    if isinstance(x, (SInt, SBool)) and base is None:
        return SInt(ti(x))
    c = concrete(x)
    if c is NO:
        if x is None or isinstance(x, (PList, SDict)):
            I.throw(TypeError, 'int() argument')
        raise Unsupported('int()')
    try:
        return int(c) if base is None else int(c, base)
    except Exception as e:
        raise PyRaise(e)


@model(str)
def _str(I, *a):
    if a and isinstance(a[0], (str, SStr)):
        return a[0]
    if not a:
        return ''
    if isinstance(a[0], (int, bytes)) and len(a) == 1:
        return str(a[0])
    return opaque_str(I, ['str'])


@model(repr)
def _repr(I, x):
    return opaque_str(I, ['repr'])


@model(int.from_bytes)
def _from_bytes(I, b, byteorder='big', signed=False):
    b = refine(I, b)
    if signed is not False:
        raise Unsupported('signed from_bytes')
    if not isbytes(b):
        if isinstance(b, (PList, list)):
            raise Unsupported('from_bytes of list')
        I.throw(TypeError, 'cannot convert object to bytes')
    if byteorder == 'big':
        return be_int(I, b)
    if isinstance(b, bytes):
        return int.from_bytes(b, byteorder)
    return le_int(I, b)


@model(int.to_bytes)
def _to_bytes(I, n, length=1, byteorder='big', signed=False):
    if signed is not False:
        raise Unsupported('signed to_bytes')
    return to_bytes(I, n, length, byteorder)


def _quant(I, it, stop):
    """all (stop False) / any (stop True).  For a list built from an unbounded collection the arbitrary element decides:
    see loops.py."""
    if isinstance(it, PList) and it.tail is not None:
        for x in list(it.items):
            if truth(I, x) is stop:
                return stop
        from . import loops
        gen = getattr(it, 'gen', None)
        loops.decisive(I, getattr(it, 'source', it.tail))
        if gen is not None:
            for x in gen:
                if truth(I, x) is stop:
                    return stop
            return not stop
        if I.cx.branch(llen(it.tail) == 0):
            return not stop
        v = loops.generic(I, it)
        return truth(I, v)
    for x in iterate(I, it, concrete=True):
        if truth(I, x) is stop:
            return stop
    return not stop


@model(all)
def _all(I, it):
    return _quant(I, it, False)


@model(any)
def _any(I, it):
    return _quant(I, it, True)


@model(map)
def _map(I, f, *its):
    ls = [list(iterate(I, x, concrete=True)) for x in its]
    return PList([I.call(f, list(xs)) for xs in zip(*ls)])


@model(filter)
def _filter(I, f, it):
    return PList([x for x in iterate(I, it, concrete=True) if truth(I, x if f is None else I.call(f, [x]))])


@model(zip)
def _zip(I, *its, strict=False):
    ls = [list(iterate(I, x, concrete=True)) for x in its]
    return PList([tuple(xs) for xs in zip(*ls)])


@model(enumerate)
def _enumerate(I, it, start=0):
    return PList([(start + i, x) for i, x in enumerate(iterate(I, it, concrete=True))])


@model(reversed)
def _reversed(I, it):
    return PList(list(reversed(list(iterate(I, it, concrete=True)))))


@model(iter)
def _iter(I, x):
    x = refine(I, x)
    if is_instance_obj(x):
        return I.call(I.getattr(x, '__iter__'))
    it = iterate(I, x)
    return it if isinstance(it, SymIter) else PList(list(it))


@model(next)
def _next(I, it, *d):
    if isinstance(it, PList):
        if it.tail is None:
            if it.items:
                return it.items.pop(0)
            if d:
                return d[0]
            I.throw(StopIteration)
    raise Unsupported('next')


@model(sum)
def _sum(I, it, start=0):
    r = start
    for x in iterate(I, it, concrete=True):
        r = binop(I, 'Add', r, x)
    return r


@model(max, min)
def _maxmin(I, *a, **k):
    raise Unsupported('max/min')


def _mk_maxmin(op):
    def f(I, *a, **kw):
        xs = list(iterate(I, a[0], concrete=True)) if len(a) == 1 else list(a)
        if kw.get('key') is not None:
            raise Unsupported('key')
        if not xs:
            if 'default' in kw:
                return kw['default']
            I.throw(ValueError, 'empty sequence')
        r = xs[0]
        for x in xs[1:]:
            if truth(I, compare(I, op, x, r)):
                r = x
        return r
    return f


FUNC[max] = _mk_maxmin('Gt')
FUNC[min] = _mk_maxmin('Lt')


@model(abs)
def _abs(I, x):
    x = refine(I, x)
    if not isint(x):
        return I.call(I.getattr(x, '__abs__'))
    c = concrete(x)
    if c is not NO:
        return abs(c)
    t = ti(x)
    return norm(SInt(z3.If(t < 0, -t, t)))


@model(divmod)
def _divmod(I, a, b):
    return (binop(I, 'FloorDiv', a, b), binop(I, 'Mod', a, b))


@model(pow)
def _pow(I, a, b, m=None):
    r = binop(I, 'Pow', a, b)
    return r if m is None else binop(I, 'Mod', r, m)


def _pure(f):
    def g(I, *a, **k):
        c = [concrete(x) for x in a]
        kc = {n: concrete(x) for n, x in k.items()}
        if any(x is NO for x in c) or any(x is NO for x in kc.values()):
            raise Unsupported(f'{f.__name__} of a symbolic value')
        try:
            return lift(f(*c, **kc))
        except Exception as e:
            raise PyRaise(e)
    return g


for _f in (ord, chr, hex, bin, oct, round, ascii, format):
    FUNC[_f] = _pure(_f)

import functools
import itertools
import operator


@model(functools.reduce)
def _reduce(I, f, it, *init):
    xs = list(iterate(I, it, concrete=True))
    if init:
        r = init[0]
    elif xs:
        r = xs.pop(0)
    else:
        I.throw(TypeError, 'reduce() of empty iterable with no initial value')
    for x in xs:
        r = I.call(f, [r, x])
    return r


@model(itertools.chain)
def _chain(I, *its):
    return PList([x for it in its for x in iterate(I, it, concrete=True)])


STATIC_CHAIN = lambda I, its: _chain(I, *list(iterate(I, its, concrete=True)))


@model(itertools.islice)
def _islice(I, it, *a):
    c = [concrete(x) for x in a]
    if any(x is NO for x in c):
        raise Unsupported('islice')
    return PList(list(itertools.islice(list(iterate(I, it, concrete=True)), *c)))


@model(itertools.repeat)
def _repeat(I, x, n):
    n = concrete(n)
    if n is NO:
        raise Unsupported('repeat')
    return PList([x] * n)


for _n, _op in (('xor', 'BitXor'), ('add', 'Add'), ('sub', 'Sub'), ('and_', 'BitAnd'), ('or_', 'BitOr'), ('mul', 'Mult'), ('mod', 'Mod'),
                ('floordiv', 'FloorDiv'), ('lshift', 'LShift'), ('rshift', 'RShift'), ('concat', 'Add')):
    FUNC[getattr(operator, _n)] = (lambda op: lambda I, a, b: binop(I, op, a, b))(_op)
for _n, _op in (('eq', 'Eq'), ('ne', 'NotEq'), ('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'), ('is_', 'Is'), ('is_not', 'IsNot')):
    FUNC[getattr(operator, _n)] = (lambda op: lambda I, a, b: compare(I, op, a, b))(_op)
FUNC[operator.not_] = lambda I, a: neg(mk(truth(I, a)) if not isinstance(truth(I, a), bool) else truth(I, a))
FUNC[operator.contains] = lambda I, a, b: compare(I, 'In', b, a)
FUNC[operator.getitem] = lambda I, a, b: getitem(I, a, b)


@model(sorted)
def _sorted(I, it, key=None, reverse=False):
    xs = list(iterate(I, it, concrete=True))
    ks = [x if key is None else I.call(key, [x]) for x in xs]
    cs = [concrete(k) for k in ks]
    if any(c is NO for c in cs):
        raise Unsupported('sorted')
    try:
        o = sorted(range(len(xs)), key=lambda i: cs[i], reverse=bool(reverse))
    except Exception as e:
        raise PyRaise(e)
    return PList([xs[i] for i in o])


@model(print)
def _print(I, *a, **k):
    return None


@model(range)
def _range(I, *a):
    a = [norm(refine(I, x)) for x in a]
    if any(isinstance(x, Sym) for x in a):
        a = [pick_int(I, x) for x in a]
    try:
        return range(*a)
    except Exception as e:
        raise PyRaise(e)


@model(id)
def _id(I, x):
    return id(x)


import copy as _copy


def deep(I, x, memo=None, shallow=False):
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, SAny):
        # scalars and unknown containers: an unknown container is copied when it is looked into
        t = x.t
        if (t.get_id(), I.cx.phase) in I.cx.refined:
            return deep(I, I.cx.refined[(t.get_id(), I.cx.phase)][1], memo)
        return x
    if isinstance(x, (list, PList)):
        p = PList([deep(I, e, memo) for e in (x.items if isinstance(x, PList) else x)], tail=getattr(x, 'tail', None))
        memo[id(x)] = p
        return p
    if isinstance(x, (dict, SDict)):
        d = copy_dict(x)
        d.layers = [(l[0], l[1], deep(I, l[2], memo)) if l[0] == 'set' else l for l in d.layers]
        d.__dict__['cache'] = {k: deep(I, v, memo) for k, v in d.__dict__.get('cache', {}).items()}
        return d
    if isinstance(x, PSet):
        return PSet(list(x.items), x.frozen)
    if isinstance(x, tuple):
        return tuple(deep(I, e, memo) for e in x)
    if is_instance_obj(x):
        o = object.__new__(type(x))
        I.own(o)
        memo[id(x)] = o
        for n in attr_names(x):
            object.__setattr__(o, n, deep(I, raw_attr(x, n), memo))
        return o
    return x


@model(_copy.deepcopy)
def _deepcopy(I, x, memo=None):
    return deep(I, x)


@model(_copy.copy)
def _copycopy(I, x):
    x = refine(I, x)
    if isinstance(x, (list, PList)):
        return PList(x.items if isinstance(x, PList) else x, tail=getattr(x, 'tail', None))
    if isinstance(x, (dict, SDict)):
        return copy_dict(x)
    if is_instance_obj(x):
        o = object.__new__(type(x))
        I.own(o)
        for n in attr_names(x):
            object.__setattr__(o, n, raw_attr(x, n))
        return o
    return x


# ---- methods of scalars ----------------------------------------------------------------------------------

supper = uf('supper', STR, STR)


def scalar_method(I, obj, name, args, kwargs):
    if isinstance(obj, (str, SStr)):
        if isinstance(obj, str) and name == 'join':
            xs = list(iterate(I, args[0], concrete=True))
            if any(isinstance(x, Sym) for x in xs):
                return opaque_str(I, ['join'])
            args = [xs]
        if isinstance(obj, str) and name == 'format':
            c = [concrete(a) for a in args]
            if any(x is NO for x in c):
                return opaque_str(I, ['format'])
        if isinstance(obj, SStr):
            if name in ('upper',):
                return SStr(supper(obj.t))
            if name == 'encode':
                return SBytes(uf('str_encode', STR, BYTES)(obj.t))
            if name in ('lower', 'strip', 'replace', 'casefold', 'title', 'format', 'lstrip', 'rstrip'):
                return SStr(uf('s' + name, STR, STR)(obj.t))
            if name == 'startswith' and isstr(args[0]):
                return mk(z3.PrefixOf(ts(args[0]), obj.t))
            raise Unsupported('str.' + name)
    if isinstance(obj, (bytes, SBytes)):
        if name == 'join':
            r = b''
            for i, x in enumerate(iterate(I, args[0], concrete=True)):
                if i:
                    r = binop(I, 'Add', r, obj)
                r = binop(I, 'Add', r, x)
            return r
        if name in ('rjust', 'ljust', 'zfill') and (isinstance(obj, SBytes) or any(isinstance(norm(a), Sym) for a in args)):
            fill = args[1] if len(args) > 1 else b' '
            if fill != b'\0' or name == 'zfill':
                raise Unsupported('bytes.' + name)
            w = ti(args[0])
            t = tb(obj)
            n = z3.Length(t)
            pad = zeros(z3.If(w > n, w - n, z3.IntVal(0)))
            k = z3.If(w > n, w - n, z3.IntVal(0))
            I.cx.assume(z3.Length(zeros(k)) == k)
            r = z3.Concat(zeros(k), t) if name == 'rjust' else z3.Concat(t, zeros(k))
            if name == 'rjust':
                I.cx.assume(be_int_(r) == be_int_(t))
            return SBytes(r)
        if isinstance(obj, SBytes):
            if name == 'hex':
                return SStr(uf('hex', BYTES, STR)(obj.t))
            if name == 'startswith' and isbytes(args[0]):
                return mk(z3.PrefixOf(tb(args[0]), obj.t))
            if name == 'endswith' and isbytes(args[0]):
                return mk(z3.SuffixOf(tb(args[0]), obj.t))
            if name == 'decode':
                may_fail(I, 'bytes_decode', [obj], UnicodeError)
                return SStr(uf('bytes_decode', BYTES, STR)(obj.t))
            if name == '__len__':
                return length(I, obj)
            raise Unsupported('bytes.' + name)
    if isinstance(obj, (SInt, SBool)) or isinstance(obj, int):
        if name == 'to_bytes':
            a = list(args) + [None] * 2
            return to_bytes(I, obj, kwargs.get('length', a[0] if a[0] is not None else 1),
                            kwargs.get('byteorder', a[1] or 'big'))
        if name == 'bit_length' and isinstance(obj, Sym):
            r = uf('bit_length', INT, INT)(ti(obj))
            t = ti(obj)
            I.cx.assume(z3.And(r >= 0, (r == 0) == (t == 0)))
            I.cx.bitlens = getattr(I.cx, 'bitlens', {})
            I.cx.bitlens[t.get_id()] = r
            I.cx.keep.append(t)
            return SInt(r)
        if name == 'from_bytes':
            return _from_bytes(I, *args, **kwargs)
    if isinstance(obj, ItemsView):
        if name == '__iter__':
            return iterate(I, obj)
        raise Unsupported('view.' + name)
    c = [concrete(a) for a in args]
    kc = {k: concrete(v) for k, v in kwargs.items()}
    if isinstance(obj, (Sym, Wrapper)) or any(x is NO for x in c) or any(x is NO for x in kc.values()):
        if isinstance(obj, str) and name in ('startswith', 'endswith') and isinstance(refine(I, args[0]), SStr):
            a = refine(I, args[0])
            return mk(z3.PrefixOf(a.t, z3.StringVal(obj)) if name == 'startswith' else z3.SuffixOf(a.t, z3.StringVal(obj)))
        raise Unsupported(f'{type(obj).__name__}.{name}')
    try:
        return lift(getattr(obj, name)(*c, **kc))
    except Exception as e:
        raise PyRaise(e)


def lift(x):
    """Containers returned by native calls become interpreter containers."""
    if isinstance(x, list):
        return PList([lift(e) for e in x])
    if isinstance(x, dict):
        return SDict([('set', k, lift(v)) for k, v in x.items()])
    if isinstance(x, (set, frozenset)):
        return PSet(list(x))
    return x


# ---- generic external calls ------------------------------------------------------------------------------

NATIVE_OK_MODULES = ('cryptography.hazmat.primitives.hashes', 'cryptography.hazmat.primitives.asymmetric.padding',
                     'cryptography.hazmat.primitives._asymmetric', 'cryptography.hazmat.primitives.asymmetric.ec',
                     'binascii', 'base64', 'cryptography.hazmat.backends', 'operator', 'math')
NATIVE_OK_NAMES = {'default_backend', 'ECDH', 'NoEncryption', 'b64decode', 'b64encode'}


def call(I, f, args, kwargs):
    try:
        if f in FUNC:
            return FUNC[f](I, *args, **kwargs)
    except TypeError as e:
        if 'unhashable' not in str(e):
            raise Unsupported(f'model of {f}: {e}')
    if isinstance(f, type) and f in CLASS:
        try:
            return CLASS[f](I, *args, **kwargs)
        except TypeError as e:
            raise Unsupported(f'model of {f}: {e}')
    if isinstance(f, ExtMethod):
        return f.call(I, args, kwargs)
    # built-in methods bound to native objects (constants of modules)
    s = getattr(f, '__self__', None)
    if isinstance(f, types.BuiltinMethodType) and s is not None and not isinstance(s, types.ModuleType):
        n = f.__name__
        if isinstance(s, type):
            if s is int and n == 'from_bytes':
                return _from_bytes(I, *args, **kwargs)
            if s is dict and n == 'fromkeys':
                d = SDict()
                for x in iterate(I, args[0], concrete=True):
                    dict_set(I, d, x, args[1] if len(args) > 1 else None)
                return d
            if s is bytes and n == 'fromhex':
                c = concrete(args[0])
                if c is not NO:
                    return bytes.fromhex(c)
            r = ext_static(I, s, n, args, kwargs)
            if r is not NotImplemented:
                return r
            raise Unsupported(f'{s.__name__}.{n}')
        return sym_method(I, s, n, args, kwargs)
    if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)):
        if f.__name__ == '__init__':
            return None
        if f.__name__ == '__setattr__':
            return ops.setattr_(I, *args)
        if f.__name__ in ('__eq__', '__ne__') and f.__objclass__ is object:
            r = ops.is_(I, args[0], args[1])
            return r if f.__name__ == '__eq__' else neg(r)
        return sym_method(I, args[0], f.__name__, list(args[1:]), kwargs)
    mod = getattr(f, '__module__', '') or ''
    name = getattr(f, '__name__', '')
    c = [concrete_ext(a) for a in args]
    kc = {k: concrete_ext(v) for k, v in kwargs.items()}
    if not any(x is NO for x in c) and not any(x is NO for x in kc.values()):
        if mod.startswith(NATIVE_OK_MODULES) or name in NATIVE_OK_NAMES or mod in ('_hashlib', 'ecdsa.curves'):
            try:
                return lift(f(*c, **kc))
            except Exception as e:
                raise PyRaise(e)
    raise Unsupported(f'external {mod}.{name or f}')


def concrete_ext(x):
    from cryptography.hazmat.primitives import hashes
    c = concrete(x)
    if c is not NO:
        return c
    if type(x).__module__.startswith(('cryptography', 'ecdsa', '_hashlib')):
        return x
    return NO


class ExtMethod:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def call(self, I, args, kwargs):
        m = METHOD.get((self.obj.kind, self.name))
        if m is None:
            raise Unsupported(f'{self.obj.kind}.{self.name}')
        try:
            return m(I, self.obj, *args, **kwargs)
        except TypeError as e:
            raise Unsupported(f'model of {self.obj.kind}.{self.name}: {e}')


def attr(I, obj, name, missing):
    d = obj.__dict__.get('attrs')
    if d and name in d:
        return d[name]
    if (obj.kind, name) in METHOD:
        return ExtMethod(obj, name)
    if hasattr(obj.pycls, name):
        raise Unsupported(f'{obj.kind}.{name}')
    return missing()


def native_attr(I, obj, name):
    """Attributes of native library objects (hash instances, curves, ...)."""
    m = type(obj).__module__
    if m.startswith(('cryptography', 'ecdsa', 'enum', 'cbor2', '_cbor2')):
        if (m, name) in METHOD:
            return METHOD[(m, name)]
        try:
            return getattr(obj, name)
        except AttributeError:
            return NotImplemented
    return NotImplemented


def ext_static(I, cls, name, args, kwargs):
    k = (cls.__name__, name)
    if k in STATIC:
        return STATIC[k](I, *args, **kwargs)
    return NotImplemented


STATIC = {}


def xobj(I, kind, pycls, vals, **data):
    v = vs_(I, vals)
    t = uf('obj_' + kind, *([V] * len(v)), EXT)(*v)
    o = ExtObj(pycls, t, kind=kind, **data)
    return o


from . import extlib  # noqa: E402,F401  (fills the tables)
