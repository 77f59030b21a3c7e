"""Semantics of Python operations over symbolic values."""
import builtins
import inspect
import types

import z3

from .terms import *
from .values import *

NO = object()               # 'not concrete'
MISSING = object()


class SymIter:
    """Iteration over a collection of unknown size."""
    def __init__(self, what, coll):
        self.what, self.coll = what, coll


class SymComp(Exception):
    def __init__(self, it, level):
        self.it, self.level = it, level


class Foreign:
    """Stands for an arbitrary class that is no COSE attribute."""


WIREKINDS = [k for k in KINDS if k not in ('cls', 'ext')]
PLAIN = (type(None), bool, int, str, bytes, float, complex)


def plain(x):
    return isinstance(x, PLAIN) or isinstance(x, (type, types.FunctionType, types.MethodType, types.BuiltinFunctionType,
                                                  types.ModuleType, property))


def is_instance_obj(x):
    """An instance of a class of the repository (or of the specs)."""
    return not isinstance(x, (Sym, Wrapper, type)) and type(x).__module__.startswith(('pycose', 'specs'))


_universe = []


def universe():
    """All registered attribute classes and one that is none."""
    if not _universe:
        from pycose import headers, algorithms
        from pycose.keys import keyops, keytype, curves, keyparam
        seen = []
        for reg in (headers.CoseHeaderAttribute, algorithms.CoseAlgorithm, keyops.KeyOps, keytype.KTY,
                    curves.CoseCurve, keyparam.KeyParam, keyparam.EC2KeyParam, keyparam.OKPKeyParam,
                    keyparam.RSAKeyParam, keyparam.SymmetricKeyParam):
            for c in reg.get_registered_classes().values():
                if c not in seen:
                    seen.append(c)
        _universe.extend(seen + [Foreign])
    return _universe


# ---- conversions to terms --------------------------------------------------------------------------------

def tb(x):
    return x.t if isinstance(x, SBytes) else bconst(bytes(x))


def ti(x):
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def ts(x):
    return x.t if isinstance(x, SStr) else z3.StringVal(x)


def tbool(x):
    return x.t if isinstance(x, SBool) else z3.BoolVal(bool(x))


def isbytes(x):
    return isinstance(x, (bytes, SBytes, bytearray))


def isint(x):
    return isinstance(x, (int, SInt, SBool)) and not isinstance(x, Sym) or isinstance(x, (SInt, SBool))


def isstr(x):
    return isinstance(x, (str, SStr))


def tov(I, x, depth=0):
    """The V term of a value."""
    if depth > 12:
        raise Unsupported('value too deep')
    if x is None:
        return V.VNone
    if isinstance(x, (bool, SBool)):
        return V.VBool(tbool(x))
    if isinstance(x, SEnum):
        return V.VCls(x.t)
    if isinstance(x, (int, SInt)):
        return V.VInt(ti(x))
    if isinstance(x, (bytes, SBytes)):
        return V.VBytes(tb(x))
    if isinstance(x, (str, SStr)):
        return V.VStr(ts(x))
    if isinstance(x, SAny):
        return x.t
    if isinstance(x, type):
        return V.VCls(z3.IntVal(gid(x)))
    if isinstance(x, PList):
        t = L.nil if x.tail is None else x.tail
        for e in reversed(x.items):
            t = L.cons(tov(I, e, depth + 1), t)
        return V.VList(t)
    if isinstance(x, (list, tuple)):
        t = L.nil
        for e in reversed(x):
            t = L.cons(tov(I, e, depth + 1), t)
        return V.VList(t)
    if isinstance(x, SDict):
        return V.VMap(map_term(I, x, depth))
    if isinstance(x, dict):
        return V.VMap(map_term(I, SDict([('set', k, v) for k, v in x.items()]), depth))
    if isinstance(x, ExtObj):
        return V.VExt(x.term)
    if isinstance(x, PSet):
        return V.VTag(z3.IntVal(-7), tov(I, PList(x.items), depth + 1))
    if isinstance(x, types.MethodType) or isinstance(x, types.FunctionType):
        return V.VOther(z3.IntVal(gid(x)))
    if is_instance_obj(x):
        names = attr_names(x)
        vals = [tov(I, raw_attr(x, n), depth + 1) for n in names]
        t = L.nil
        for v in reversed(vals):
            t = L.cons(v, t)
        return V.VTag(z3.IntVal(gid(type(x))), V.VList(t))
    import cbor2
    if isinstance(x, cbor2.CBORTag):
        return V.VTag(ti(x.tag), tov(I, x.value, depth + 1))
    raise Unsupported(f'no term for {type(x).__name__}')


def attr_names(x):
    ns = list(getattr(x, '__dict__', {}))
    for c in type(x).__mro__:
        s = c.__dict__.get('__slots__', ())
        ns += [s] if isinstance(s, str) else [n for n in s if n != '__weakref__']
    return sorted(set(n for n in ns if n not in ('_parent',)))


def raw_attr(x, n):
    try:
        return object.__getattribute__(x, n)
    except AttributeError:
        return None


def map_term(I, d, depth=0):
    t = mnil
    for l in d.layers:
        if l[0] == 'base':
            t = l[1]
        elif l[0] == 'set':
            t = mset(t, tov(I, l[1], depth + 1), tov(I, l[2], depth + 1))
        elif l[0] == 'del':
            t = mdel(t, tov(I, l[1], depth + 1))
        elif l[0] == 'merge':
            t = mmerge(t, map_term(I, l[1], depth + 1))
        elif l[0] == 'map':
            t = mmerge(t, l[1].ident)
        else:
            raise Unsupported(l[0])
    return t


def concrete(x, depth=0):
    """Native Python value, or NO."""
    if depth > 10:
        return NO
    if isinstance(x, PLAIN) or isinstance(x, type):
        return x
    if isinstance(x, SBytes):
        b = seq_to_bytes(z3.simplify(x.t))
        return NO if b is None else b
    if isinstance(x, SInt):
        t = z3.simplify(x.t)
        return t.as_long() if z3.is_int_value(t) else NO
    if isinstance(x, SBool):
        t = z3.simplify(x.t)
        return True if z3.is_true(t) else False if z3.is_false(t) else NO
    if isinstance(x, SStr):
        t = z3.simplify(x.t)
        return t.as_string() if z3.is_string_value(t) else NO
    if isinstance(x, (tuple, list)):
        r = [concrete(e, depth + 1) for e in x]
        return NO if any(e is NO for e in r) else type(x)(r)
    if isinstance(x, PList):
        if x.tail is not None:
            return NO
        r = [concrete(e, depth + 1) for e in x.items]
        return NO if any(e is NO for e in r) else r
    if isinstance(x, SDict):
        out = {}
        for l in x.layers:
            if l[0] != 'set':
                return NO
            k, v = concrete(l[1], depth + 1), concrete(l[2], depth + 1)
            if k is NO or v is NO:
                return NO
            out[k] = v
        return out
    if isinstance(x, dict):
        return x
    if isinstance(x, PSet):
        r = [concrete(e, depth + 1) for e in x.items]
        return NO if any(e is NO for e in r) else set(r)
    if isinstance(x, (Sym, Wrapper, ExtObj, Closure, BoundM, SymMethod, Opaque)):
        return NO
    if isinstance(x, (set, frozenset, types.FunctionType, types.BuiltinFunctionType, types.MethodType)):
        return x
    return NO


def norm(x):
    """Constant symbolic scalars back to native ones."""
    if isinstance(x, (SBytes, SInt, SBool, SStr)):
        c = concrete(x)
        return x if c is NO else c
    return x


def from_v(I, t, why=''):
    """A value for a V term."""
    t = z3.simplify(t)
    d = t.decl()
    n = d.name()
    if d.kind() == z3.Z3_OP_DT_CONSTRUCTOR:
        if n == 'VNone':
            return None
        a = t.arg(0) if t.num_args() else None
        if n == 'VBool':
            return norm(SBool(a))
        if n == 'VInt':
            return norm(SInt(a))
        if n == 'VBytes':
            return norm(SBytes(a))
        if n == 'VStr':
            return norm(SStr(a))
        if n == 'VCls' and z3.is_int_value(a):
            return gobj(a.as_long())
        if n == 'VList':
            items = []
            while a.decl().name() == 'cons':
                items.append(from_v(I, a.arg(0)))
                a = a.arg(1)
            if a.decl().name() == 'nil':
                return PList(items)
            return PList(items, tail=a)
    return SAny(t)


class TypeOf(Sym):
    """type(x) of a value of unknown kind."""
    def __init__(self, x):
        self.x = x


KINDOF = {type(None): 'none', bool: 'bool', int: 'int', bytes: 'bytes', str: 'str', list: 'list', dict: 'map'}


def type_is(I, a, b):
    if not isinstance(a, TypeOf):
        a, b = b, a
    if isinstance(b, type) and b in KINDOF and (a.x.t.get_id(), I.cx.phase) not in I.cx.refined:
        return mk(TESTER[KINDOF[b]](a.x.t))
    return is_(I, refine(I, a), refine(I, b))


def refine(I, x):
    if not isinstance(x, SAny):
        if isinstance(x, TypeOf):
            from . import ext
            return ext.pytype(I, x.x)
        return x
    cx = I.cx
    key = (x.t.get_id(), cx.phase)
    if key in cx.refined:
        return cx.refined[key][1]
    t = x.t
    poss = (cx.kinds.get(t.get_id()) or (None,))[0] or KINDS
    poss = [k for k in KINDS if k in poss]
    if len(poss) == 1:
        k = poss[0]
    else:
        known = [i for i, k in enumerate(poss) if cx.lit(TESTER[k](t)) is True]
        if known:
            cx.forced(known[0], f'c{len(poss)}')
            k = poss[known[0]]
        else:
            k = poss[cx.choose([TESTER[k](t) for k in poss], 'kind')]
    v = {'none': lambda: None,
         'bool': lambda: norm(SBool(z3.simplify(V.vb(t)))),
         'int': lambda: norm(SInt(z3.simplify(V.vi(t)))),
         'bytes': lambda: norm(SBytes(z3.simplify(V.vy(t)))),
         'str': lambda: norm(SStr(z3.simplify(V.vs(t)))),
         'cls': lambda: _any_cls(I, V.vc(t)),
         'list': lambda: _any_list(I, V.vl(t), t),
         'map': lambda: _any_map(I, V.vm(t), t),
         'tag': lambda: ExtTag(t),
         'ext': lambda: Opaque('ext'),
         'other': lambda: Other(t)}[k]()
    cx.refined[key] = (x.t, v)
    return v


class Other(Sym):
    """An object that is of none of the kinds the engine knows: it has no attribute and no operation in common."""
    def __init__(self, t):
        self.t = t


class ExtTag(Sym):
    """A CBORTag of unknown tag and value."""
    def __init__(self, t):
        self.t = t


def _any_cls(I, t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return gobj(t.as_long())
    u = universe()
    I.cx.assume(member(t, u))
    return SEnum(t, u)


def wired(I, t, parent=True):
    """Marks a term as decoded CBOR (no classes, no objects)."""
    if parent and t.get_id() not in I.cx.wire:
        I.cx.wire.add(t.get_id())
        I.cx.keep.append(t)


def _any_list(I, t, v=None):
    t = z3.simplify(t)
    items = []
    wire = v is not None and v.get_id() in I.cx.wire
    while t.decl().name() == 'cons':
        wired(I, t.arg(0), wire)
        items.append(from_v(I, t.arg(0)))
        t = z3.simplify(t.arg(1))
    if t.decl().name() == 'nil':
        return PList(items)
    I.cx.assume(llen(t) >= 0)
    I.cx.assume((llen(t) == 0) == (t == L.nil))
    p = PList(items, tail=t)
    p.wire = wire
    return p


def _any_map(I, t, v=None):
    wire = v is not None and v.get_id() in I.cx.wire
    t = z3.simplify(t)
    sets = []
    while t.decl().name() == 'mset':
        for x in (t.arg(1), t.arg(2)):
            wired(I, x, wire)
        sets.append(('set', from_v(I, t.arg(1)), from_v(I, t.arg(2))))
        t = z3.simplify(t.arg(0))
    sets.reverse()
    if t.eq(mnil):
        return SDict(sets)
    I.cx.assume(msize(t) >= 0)
    name = f'map({t})'
    return SDict([('base', t, {'__wire__': True} if wire else {}, name)] + sets)


# ---- truth and equality ----------------------------------------------------------------------------------

def truth(I, v):
    cx = I.cx
    if isinstance(v, SBool):
        return cx.branch(v.t)
    if isinstance(v, SInt):
        return cx.branch(v.t != 0)
    if isinstance(v, SBytes):
        return cx.branch(z3.Length(v.t) > 0)
    if isinstance(v, SStr):
        return cx.branch(z3.Length(v.t) > 0)
    if isinstance(v, SEnum):
        return True
    if isinstance(v, SAny):
        return truth(I, refine(I, v))
    if isinstance(v, PList):
        if v.items:
            return True
        return False if v.tail is None else cx.branch(llen(v.tail) > 0)
    if isinstance(v, PSet):
        return bool(v.items)
    if isinstance(v, SDict):
        n = length(I, v)
        return truth(I, n) if isinstance(n, SInt) else bool(n)
    if isinstance(v, (ExtObj, BoundM, Closure, SymMethod)):
        return True
    if isinstance(v, ItemsView):
        return truth(I, length(I, v))
    if isinstance(v, ExtTag):
        return True
    if isinstance(v, (Other, Opaque)):
        raise Unsupported('truth of unknown object')
    if is_instance_obj(v):
        for n in ('__bool__', '__len__'):
            f = inspect.getattr_static(type(v), n, None)
            if f is not None:
                return truth(I, I.call(I.getattr(v, n)))
        return True
    return bool(v)


def mk(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def conj(xs):
    ts_ = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        ts_.append(x.t)
    return mk(z3.And(ts_)) if ts_ else True


def disj(xs):
    ts_ = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        ts_.append(x.t)
    return mk(z3.Or(ts_)) if ts_ else False


def eq(I, a, b):
    if a is b:
        return True
    if isinstance(a, TypeOf) or isinstance(b, TypeOf):
        return type_is(I, a, b)
    if isinstance(b, SAny) and not isinstance(a, SAny):
        a, b = b, a
    if isinstance(a, SAny):
        return eq_any(I, a, b)
    if isinstance(a, SEnum) or isinstance(b, SEnum):
        if not isinstance(a, SEnum):
            a, b = b, a
        if isinstance(b, SEnum):
            return mk(a.t == b.t)
        if isinstance(b, type):
            return mk(a.t == gid(b)) if b in a.members else False
        return False
    if isint(a) and isint(b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                return mk(tbool(a) == tbool(b))
            return mk(ti(a) == ti(b))
        return a == b
    if isinstance(a, SHex) or isinstance(b, SHex):
        if isinstance(a, SHex) and isinstance(b, SHex):
            return mk(a.t == b.t)
        raise Unsupported('comparison of hexlify result')
    if isbytes(a) and isbytes(b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            return mk(tb(a) == tb(b))
        return a == b
    if isstr(a) and isstr(b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            return mk(ts(a) == ts(b))
        return a == b
    if isinstance(a, (PList, list)) and isinstance(b, (PList, list)):
        return eq_list(I, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return conj([eq(I, x, y) for x, y in zip(a, b)])
    if isinstance(a, (SDict, dict)) and isinstance(b, (SDict, dict)):
        return eq_dict(I, a, b)
    if isinstance(a, (PSet, set, frozenset)) and isinstance(b, (PSet, set, frozenset)):
        ca, cb = concrete(a), concrete(b)
        if ca is NO or cb is NO:
            ia, ib = set_items(a), set_items(b)
            return conj([contains_items(I, ib, x) for x in ia] + [contains_items(I, ia, x) for x in ib])
        return ca == cb
    if isinstance(a, ExtObj) and isinstance(b, ExtObj):
        return mk(a.term == b.term)
    if is_instance_obj(a) or is_instance_obj(b):
        for x, y in ((a, b), (b, a)):
            if is_instance_obj(x):
                f = inspect.getattr_static(type(x), '__eq__', None)
                if isinstance(f, types.FunctionType):
                    r = I.call(f, [x, y])
                    if r is not NotImplemented:
                        return r if isinstance(r, (bool, SBool)) else truth(I, r)
        return False
    if isinstance(a, (Sym, Wrapper, ExtObj, BoundM, Closure, SymMethod)) or \
            isinstance(b, (Sym, Wrapper, ExtObj, BoundM, Closure, SymMethod)):
        if isinstance(a, (Other, Opaque)) or isinstance(b, (Other, Opaque)):
            raise Unsupported('equality of unknown object')
        return False
    return bool(a == b)


def eq_any(I, a, b):
    t = a.t
    if b is None:
        return mk(V.is_VNone(t))
    if isinstance(b, SAny):
        return mk(t == b.t)
    if isint(b):
        n = ti(b)
        return mk(z3.Or(z3.And(V.is_VInt(t), V.vi(t) == n),
                        z3.And(V.is_VBool(t), z3.If(V.vb(t), z3.IntVal(1), z3.IntVal(0)) == n)))
    if isbytes(b):
        return mk(z3.And(V.is_VBytes(t), V.vy(t) == tb(b)))
    if isstr(b):
        return mk(z3.And(V.is_VStr(t), V.vs(t) == ts(b)))
    if isinstance(b, type):
        return mk(z3.And(V.is_VCls(t), V.vc(t) == gid(b)))
    if isinstance(b, SEnum):
        return mk(z3.And(V.is_VCls(t), V.vc(t) == b.t))
    if isinstance(b, (PList, list)):
        return mk(z3.And(V.is_VList(t), t == tov(I, b)))
    if isinstance(b, (SDict, dict)):
        return mk(z3.And(V.is_VMap(t), t == tov(I, b)))
    return eq(I, refine(I, a), b)


def eq_list(I, a, b):
    ta = a.tail if isinstance(a, PList) else None
    tb_ = b.tail if isinstance(b, PList) else None
    ia = a.items if isinstance(a, PList) else a
    ib = b.items if isinstance(b, PList) else b
    if ta is None and tb_ is None:
        if len(ia) != len(ib):
            return False
        return conj([eq(I, x, y) for x, y in zip(ia, ib)])
    if isinstance(ta, MapSegT) or isinstance(tb_, MapSegT):
        raise Unsupported('comparison of mapped lists')
    return mk(tov(I, a) == tov(I, b))


class MapSegT:
    pass


def entries(d):
    """Ordered entries of a dict with concrete structure (no base), or None."""
    if isinstance(d, dict):
        return list(d.items())
    if all(l[0] == 'set' for l in d.layers):
        return [(l[1], l[2]) for l in d.layers]
    return None


def eq_dict(I, a, b):
    ea, eb = entries(a), entries(b)
    if ea is not None and eb is not None and all(plain(k) for k, _ in ea + eb):
        da, db = dict(ea), dict(eb)
        if set(da) != set(db):
            return False
        return conj([eq(I, da[k], db[k]) for k in da])
    return mk(tov(I, a) == tov(I, b))


# ---- comparison ------------------------------------------------------------------------------------------

def compare(I, op, a, b):
    if op == 'Is':
        return is_(I, a, b)
    if op == 'IsNot':
        return neg(is_(I, a, b))
    if op == 'Eq':
        return eq(I, a, b)
    if op == 'NotEq':
        return neg(eq(I, a, b))
    if op == 'In':
        return contains(I, b, a)
    if op == 'NotIn':
        return neg(contains(I, b, a))
    a, b = refine(I, a), refine(I, b)
    if isint(a) and isint(b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            x, y = ti(a), ti(b)
            return mk({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op])
    if isinstance(a, (PSet, set, frozenset)) and isinstance(b, (PSet, set, frozenset)) and op == 'LtE':
        return conj([contains(I, b, x) for x in set_items(a)])
    ca, cb = concrete(a), concrete(b)
    if ca is NO or cb is NO:
        if isint(a) != isint(b) and (isint(a) or isbytes(a) or isstr(a) or a is None) and \
                (isint(b) or isbytes(b) or isstr(b) or b is None):
            I.throw(TypeError, 'not supported between these types')
        raise Unsupported(f'comparison {op}')
    import operator
    try:
        return {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}[op](ca, cb)
    except Exception as e:
        raise PyRaise(e)


def neg(x):
    return mk(z3.Not(x.t)) if isinstance(x, SBool) else not x


def is_(I, a, b):
    if a is b:
        return True
    if isinstance(a, TypeOf) or isinstance(b, TypeOf):
        return type_is(I, a, b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SAny):
            if y is None:
                return mk(V.is_VNone(x.t))
            if y is True or y is False:
                return mk(z3.And(V.is_VBool(x.t), V.vb(x.t) == y))
            if isinstance(y, type):
                return mk(z3.And(V.is_VCls(x.t), V.vc(x.t) == gid(y)))
            if isinstance(y, SAny):
                if x.t.eq(y.t):
                    return True
                return is_(I, refine(I, x), refine(I, y))
            return is_(I, refine(I, x), y)
        if isinstance(x, SBool) and isinstance(y, (bool, SBool)):
            return mk(x.t == tbool(y))
        if isinstance(x, SEnum):
            return eq(I, x, y)
    if a is None or b is None:
        return False
    if isinstance(a, (BoundM, types.MethodType)):
        return False
    if isinstance(a, (SInt, SBytes, SStr)) and type(a) is type(b):
        raise Unsupported('identity of scalars')
    if isinstance(a, PLAIN) and isinstance(b, PLAIN):
        return a is b or (type(a) is type(b) and a == b and isinstance(a, (int, bool, str)))
    return False


def set_items(s):
    return s.items if isinstance(s, PSet) else list(s)


def contains_items(I, items, x):
    return disj([eq(I, x, y) for y in items])


def contains(I, c, x):
    c = refine(I, c)
    if isinstance(c, (tuple, list, set, frozenset)):
        if isinstance(c, (set, frozenset)):
            check_hashable(I, x)
        return contains_items(I, list(c), x)
    if isinstance(c, PSet):
        check_hashable(I, x)
        return contains_items(I, c.items, x)
    if isinstance(c, PList):
        r = contains_items(I, c.items, x)
        if c.tail is None:
            return r
        return disj([r, mk(lcontains(c.tail, tov(I, x)))])
    if isinstance(c, SDict):
        return dict_contains(I, c, x)
    if isinstance(c, dict):
        return dict_contains(I, const_dict(c), x)
    if isinstance(c, types.MappingProxyType):
        return dict_contains(I, const_dict(dict(c)), x)
    if isinstance(c, (str, SStr)):
        x = refine(I, x)
        if not isstr(x):
            I.throw(TypeError, 'in <string> requires string')
        return mk(z3.Contains(ts(c), ts(x)))
    if isinstance(c, (bytes, SBytes)) and isbytes(x):
        return mk(z3.Contains(tb(c), tb(x)))
    if isinstance(c, ItemsView):
        if c.what == 'keys':
            return contains(I, c.d, x)
        return contains_items(I, list(iterate(I, c, concrete=True)), x)
    if is_instance_obj(c):
        f = inspect.getattr_static(type(c), '__contains__', None)
        if f is not None:
            r = I.call(I.getattr(c, '__contains__'), [x])
            return r if isinstance(r, (bool, SBool)) else truth(I, r)
        return contains_items(I, list(iterate(I, c, concrete=True)), x)
    if isinstance(c, range):
        x = refine(I, x)
        if isinstance(x, SInt) and c.step == 1:
            return mk(z3.And(x.t >= c.start, x.t < c.stop))
        return x in c
    if isinstance(c, (int, SInt, SBool, type(None), SEnum, type, Other, ExtTag)):
        I.throw(TypeError, 'argument is not iterable')
    raise Unsupported(f'in {type(c).__name__}')


def check_hashable(I, x):
    x2 = x
    if isinstance(x, SAny):
        if I.cx.branch(z3.Or(V.is_VList(x.t), V.is_VMap(x.t))):
            I.throw(TypeError, 'unhashable type')
        return
    if isinstance(x2, (PList, SDict, list, dict, set)) or isinstance(x2, PSet) and not x2.frozen:
        I.throw(TypeError, 'unhashable type')
    if is_instance_obj(x2) and type(x2).__hash__ is None:
        I.throw(TypeError, 'unhashable type')


# ---- dictionaries ----------------------------------------------------------------------------------------

_cdict = {}


def const_dict(d):
    """Read-only view of a native dictionary (registries and such)."""
    k = id(d)
    if k in _cdict and _cdict[k][0] is d and _cdict[k][2] == len(d):
        return _cdict[k][1]
    s = SDict([('set', a, b) for a, b in d.items()])
    s.const = True
    _cdict[k] = (d, s, len(d))
    return s


def key_eq(I, a, b):
    if plain(a) and plain(b):
        return bool(a == b)
    return eq(I, a, b)


def has_term(I, d, k):
    """Membership as bool or SBool."""
    rest = False
    kp = plain(k)
    for l in d.layers:
        if l[0] == 'base':
            note_touch(I, l, k)
            rest = mk(mhas(l[1], tov(I, k)))
        elif l[0] == 'set':
            if kp and plain(l[1]):
                if k == l[1]:
                    rest = True
                continue
            rest = disj([key_eq(I, k, l[1]), rest])
        elif l[0] == 'del':
            rest = conj([neg(key_eq(I, k, l[1])), rest])
        elif l[0] == 'merge':
            rest = disj([has_term(I, l[1], k), rest])
        elif l[0] == 'map':
            rest = disj([map_has(I, l[1], k), rest])
    return rest


def has_items(d):
    """z3 condition: the dictionary of a shape is not empty."""
    if any(l[0] == 'set' for l in d.layers):
        return z3.BoolVal(True)
    return z3.Or([msize(l[1]) > 0 for l in d.layers if l[0] == 'base'] + [z3.BoolVal(False)])


def note_touch(I, l, k):
    cx = I.cx
    kt = tov(I, k)
    d = cx.touched.setdefault(l[3], [])
    key = kt.get_id()
    if all(x[1].get_id() != key for x in d):
        d.append((k, kt, l[1]))
        cx.assume(z3.Implies(mhas(l[1], kt), msize(l[1]) >= 1))
        ok = l[2].get('__wf__') if isinstance(l[2], dict) else None
        if ok is not None:
            cx.assume(ok(l[1], k, kt))


def dict_contains(I, d, k):
    check_hashable(I, k)
    if isinstance(k, SAny) and all(l[0] == 'set' and not isinstance(l[1], Sym) for l in d.layers) and len(d.layers) > 6:
        k = refine(I, k)
    if getattr(d, 'const', False) and isinstance(k, (SInt, SStr, SEnum, SBytes)) and has_hits(I, d, k) is not None:
        return has_hits(I, d, k)[1]
    return has_term(I, d, k)


_hits = {}


def has_hits(I, d, k):
    """[(condition, value)] and their disjunction for a symbolic key of a constant dictionary (kept across paths)."""
    if isinstance(k, SEnum):
        ident = (id(d), 'e', k.t.get_id(), tuple(map(id, k.members)))
    else:
        ident = (id(d), type(k).__name__, k.t.get_id())
    h = _hits.get(ident)
    if h is None:
        hit = [(key_eq(I, k, l[1]), l[2]) for l in d.layers]
        hit = [(c, v) for c, v in hit if c is not False]
        h = _hits[ident] = ([(tbool(c), v) for c, v in hit], disj([c for c, _ in hit]), k.t, d)
    return h


def typed(I, d, l, k):
    """The value the symbolic map of layer l has for key k."""
    cx = I.cx
    t = mget(l[1], tov(I, k))
    sch = l[2]
    s = sch.get(k) if plain(k) else None
    if s is None:
        s = sch.get('*', 'any')
    if s == 'any':
        key = ('mg', t.get_id())
        wire = sch.get('__wire__')
        if key not in cx.memo:
            cx.memo[key] = t
            cx.assume(cx.anywf(t, WIREKINDS if wire else None))
        wired(I, t, wire)
        return SAny(t)
    if s == 'bytes':
        cx.assume(V.is_VBytes(t))
        return SBytes(V.vy(t))
    if s == 'int':
        cx.assume(V.is_VInt(t))
        return SInt(V.vi(t))
    if isinstance(s, tuple) and s[0] == 'kinds':
        key = ('mg', t.get_id())
        if key not in cx.memo:
            cx.memo[key] = t
            cx.assume(cx.anywf(t, s[1]))
        return SAny(t)
    if isinstance(s, tuple) and s[0] == 'enum':
        cx.assume(z3.And(V.is_VCls(t), z3.Or([V.vc(t) == gid(m) for m in s[1]])))
        return SEnum(V.vc(t), s[1]) if len(s[1]) > 1 else s[1][0]
    if isinstance(s, tuple) and s[0] == 'oplist':
        cx.assume(V.is_VList(t))
        lt = V.vl(t)
        key = ('ol', t.get_id())
        if key not in cx.memo:
            cx.memo[key] = t
            cx.memo['members', lt.get_id()] = s[1]
            cx.keep.append(lt)
            cx.assume(llen(lt) >= 0)
            cx.assume((llen(lt) == 0) == (lt == L.nil))
            ms = [lcontains(lt, V.VCls(z3.IntVal(gid(m)))) for m in s[1]]
            cx.assume(z3.Implies(llen(lt) == 0, z3.Not(z3.Or(ms))))
            cx.assume(z3.Implies(llen(lt) > 0, z3.Or(ms)))
        return memo_obj(d, k, lambda: PList([], tail=lt))
    if callable(s):
        return memo_obj(d, k, lambda: s(cx, f'{l[3]}[{getattr(k, "__name__", k)}]'))
    raise Unsupported(f'schema {s}')


def memo_obj(d, k, mkf):
    c = d.__dict__.setdefault('cache', {})
    if k not in c:
        c[k] = mkf()
    return c[k]


def dict_find(I, d, k):
    """Value for key k or MISSING; forks where the answer is not determined."""
    cx = I.cx
    for i in range(len(d.layers) - 1, -1, -1):
        l = d.layers[i]
        if l[0] == 'set' or l[0] == 'del':
            c = key_eq(I, k, l[1])
            if c is False or (c is not True and not cx.branch(c.t)):
                continue
            return l[2] if l[0] == 'set' else MISSING
        if l[0] == 'merge':
            v = dict_find(I, l[1], k)
            if v is not MISSING:
                return v
        elif l[0] == 'base':
            note_touch(I, l, k)
            if cx.branch(mhas(l[1], tov(I, k))):
                return typed(I, d, l, k)
            return MISSING
        elif l[0] == 'map':
            v = map_find(I, l[1], k)
            if v is not MISSING:
                return v
    return MISSING


def get_or_none(I, d, k):
    """d.get(k) as one term, without a case split; MISSING where that is not possible."""
    cx = I.cx
    if not isinstance(d, SDict) or getattr(d, 'const', False) or not plain(k):
        return MISSING
    for l in reversed(d.layers):
        if l[0] in ('set', 'del'):
            if not plain(l[1]):
                return MISSING
            if l[1] == k and isinstance(l[1], type) == isinstance(k, type):
                return l[2] if l[0] == 'set' else None
            continue
        if l[0] != 'base':
            return MISSING
        s = l[2].get(k)
        if s is None:
            s = l[2].get('*', 'any')
        if s == 'any':
            kinds = None
        elif s == 'bytes':
            kinds = ('none', 'bytes')
        elif isinstance(s, tuple) and s[0] == 'kinds':
            kinds = s[1] if 'none' in s[1] else ('none',) + tuple(s[1])
        else:
            return MISSING
        note_touch(I, l, k)
        kt = tov(I, k)
        c = mhas(l[1], kt)
        known = cx.lit(c)
        if known is False:
            return None
        if known is True:
            return MISSING
        t = z3.If(c, mget(l[1], kt), V.VNone)
        key = ('gn', t.get_id())
        wire = l[2].get('__wire__')
        if key not in cx.memo:
            cx.memo[key] = t
            cx.assume(cx.anywf(t, WIREKINDS if wire and kinds is None else kinds))
        wired(I, t, wire)
        return SAny(t)
    return None


def const_find(I, d, k):
    """Lookup in a constant dictionary; a symbolic key gives a symbolic member where the values allow it."""
    if plain(k):
        for l in d.layers:
            if plain(l[1]) and l[1] == k and isinstance(l[1], type) == isinstance(k, type):
                return l[2]
        return MISSING
    if isinstance(k, SAny) and len(d.layers) > 6:
        k = refine(I, k)
        if plain(k):
            return const_find(I, d, k)
    if isinstance(k, (SInt, SStr, SEnum, SBytes)):
        hit, some, _, _ = has_hits(I, d, k)
        if not hit:
            return MISSING
        if not truth(I, some):
            return MISSING
        return merge_cases(I, hit)
    return dict_find(I, d, k)


_merged = {}


def merge_cases(I, cases):
    """One value from [(condition, value)] where one condition holds (first match)."""
    vals = [v for _, v in cases]
    first = vals[0]
    if all(v is first for v in vals):
        return first
    if all(isinstance(v, type) for v in vals):
        members = []
        for v in vals:
            if v not in members:
                members.append(v)
        if len(members) == 1:
            return members[0]
        ck = tuple((c.get_id(), gid(v)) for c, v in cases)
        t = _merged.get(ck)
        if t is None:
            t = z3.IntVal(gid(vals[-1]))
            for c, v in reversed(cases[:-1]):
                t = z3.If(c, z3.IntVal(gid(v)), t)
            _merged[ck] = t, cases
        else:
            t = t[0]
        n = I.cx.fresh_name('sel_' + I.cx.phase)
        k = z3.Const(n, INT)
        I.cx.assume(k == t)
        I.cx.assume(member(k, members))
        return SEnum(k, members)
    def ite(f, tt):
        ck = None
        if all(isinstance(v, (int, str, bytes)) for v in vals):
            ck = (f.__name__, tuple((c.get_id(), v) for c, v in cases))
            if ck in _merged:
                return f(_merged[ck][0])
        t = tt(vals[-1])
        for c, v in reversed(cases[:-1]):
            t = z3.If(c, tt(v), t)
        if ck is not None:
            _merged[ck] = t, cases
        return f(t)
    if all(isinstance(v, (bool, SBool)) for v in vals):
        return norm(ite(SBool, tbool))
    if all(isint(v) for v in vals):
        return norm(ite(SInt, ti))
    if all(isbytes(v) for v in vals):
        return norm(ite(SBytes, tb))
    if all(isstr(v) for v in vals):
        return norm(ite(SStr, ts))
    # group identical values, fork over the groups
    groups = []
    for c, v in cases:
        for g in groups:
            if g[1] is v or (type(g[1]) is type(v) and isinstance(v, PLAIN) and g[1] == v):
                g[0].append(c)
                break
        else:
            groups.append(([c], v))
    # first match semantics: conditions are exclusive for our uses (distinct keys)
    k = I.cx.choose([z3.Or(g[0]) for g in groups], 'merge')
    return groups[k][1]


def lookup(I, d, k):
    if isinstance(d, dict):
        d = const_dict(d)
    if getattr(d, 'const', False):
        return const_find(I, d, k)
    return dict_find(I, d, k)


def dict_set(I, d, k, v):
    check_hashable(I, k)
    if getattr(d, 'const', False):
        raise Unsupported('constant dictionary')
    if isinstance(k, SAny):
        k = refine(I, k)
    k = norm(k)
    if plain(k):
        for i in range(len(d.layers) - 1, -1, -1):
            l = d.layers[i]
            if l[0] == 'set' and plain(l[1]):
                if l[1] == k:
                    d.layers[i] = ('set', l[1], v)
                    return
                continue
            break
    elif all(l[0] == 'set' for l in d.layers):
        # symbolic key: decide which entry it replaces
        for i, l in enumerate(d.layers):
            c = key_eq(I, k, l[1])
            if c is True or (c is not False and I.cx.branch(c.t)):
                d.layers[i] = ('set', l[1], v)
                return
    d.layers.append(('set', k, v))


def dict_del(I, d, k, default=MISSING):
    v = dict_find(I, d, k)
    if v is MISSING:
        return MISSING
    k = norm(k)
    for i in range(len(d.layers) - 1, -1, -1):
        l = d.layers[i]
        if l[0] == 'set' and key_is(I, l[1], k):
            del d.layers[i]
            below = SDict(d.layers[:i])
            h = has_term(I, below, k)
            if h is False or (h is not True and I.cx.entails(z3.Not(h.t))):
                return v
            d.layers.append(('del', k))
            return v
        if l[0] in ('base', 'merge', 'map', 'del'):
            break
    d.layers.append(('del', k))
    return v


def key_is(I, a, b):
    c = key_eq(I, a, b)
    return c is True or (c is not False and I.cx.entails(c.t))


def dict_update(I, d, other):
    other = refine(I, other)
    if isinstance(other, dict):
        other = const_dict(other)
    if is_instance_obj(other):
        for k in iterate(I, I.call(I.getattr(other, 'keys')), concrete=True):
            dict_set(I, d, k, getitem(I, other, k))
        return
    if isinstance(other, SDict):
        if not d.layers:
            d.layers = list(other.layers)
            d.__dict__['cache'] = other.__dict__.setdefault('cache', {})
            return
        es = entries(other)
        if es is not None:
            for k, v in es:
                dict_set(I, d, k, v)
            return
        d.layers.append(('merge', SDict(other.layers)))
        return
    if isinstance(other, (PList, list, tuple)):
        for kv in iterate(I, other, concrete=True):
            k, v = iterate(I, kv, concrete=True)
            dict_set(I, d, k, v)
        return
    I.throw(TypeError, 'cannot convert to dict')


def dict_items_concrete(I, d):
    d = refine(I, d)
    if isinstance(d, dict):
        return list(d.items())
    if isinstance(d, SDict):
        es = entries(d)
        if es is None:
            raise Unsupported('items of symbolic dict')
        return es
    if is_instance_obj(d):
        return [(k, getitem(I, d, k)) for k in iterate(I, I.call(I.getattr(d, 'keys')), concrete=True)]
    raise Unsupported('items')


def map_has(I, ml, k):
    raise Unsupported('lookup in mapped dict')


map_find = map_has


# ---- length, iteration, subscripts -----------------------------------------------------------------------

def length(I, x):
    x = refine(I, x)
    if isinstance(x, SBytes):
        return norm(SInt(z3.Length(x.t)))
    if isinstance(x, SStr):
        return norm(SInt(z3.Length(x.t)))
    if isinstance(x, PList):
        if x.tail is None:
            return len(x.items)
        return SInt(llen(x.tail) + len(x.items))
    if isinstance(x, PSet):
        return len(x.items)
    if isinstance(x, SDict):
        if entries(x) is not None:
            return len(x.layers)
        n = z3.IntVal(0)
        for i, l in enumerate(x.layers):
            if l[0] == 'base':
                n = msize(l[1])
            else:
                below = SDict(x.layers[:i])
                if l[0] == 'set':
                    n = z3.If(tbool(has_term(I, below, l[1])), n, n + 1)
                elif l[0] == 'del':
                    n = z3.If(tbool(has_term(I, below, l[1])), n - 1, n)
                else:
                    t = map_term(I, SDict(x.layers[:i + 1]))
                    I.cx.assume(msize(t) >= n)
                    n = msize(t)
                    if l[0] == 'merge':
                        I.cx.assume(n >= ti(length(I, l[1])))
        return norm(SInt(z3.simplify(n)))
    if isinstance(x, ItemsView):
        return length(I, x.d)
    if isinstance(x, (SInt, SBool, SEnum, Other, ExtTag)) or x is None or isinstance(x, (int, type)):
        I.throw(TypeError, 'object has no len()')
    if is_instance_obj(x):
        f = inspect.getattr_static(type(x), '__len__', None)
        if f is None:
            I.throw(TypeError, 'object has no len()')
        return I.call(I.getattr(x, '__len__'))
    if isinstance(x, SHex):
        return SInt(z3.Length(x.t) * 2)
    try:
        return len(x)
    except TypeError as e:
        raise Unsupported(f'len of {type(x).__name__}')


def iterate(I, x, concrete=False):
    x = refine(I, x)
    if isinstance(x, (tuple, list, str, bytes, dict, set, frozenset, range)):
        return list(x)
    if isinstance(x, (type({}.keys()), type({}.values()), type({}.items()), map, filter, zip, enumerate, reversed)):
        return list(x)
    if isinstance(x, PList):
        if x.tail is None:
            return LiveList(x)
        if concrete:
            raise Unsupported('iteration over unbounded list')
        return SymIter('list', x)
    if isinstance(x, PSet):
        return list(x.items)
    if isinstance(x, SDict):
        es = entries(x)
        if es is not None:
            return [k for k, _ in es]
        if concrete:
            raise Unsupported('iteration over unbounded dict')
        return SymIter('keys', x)
    if isinstance(x, ItemsView):
        es = entries(x.d)
        if es is not None:
            return [k if x.what == 'keys' else v if x.what == 'values' else (k, v) for k, v in es]
        if concrete:
            raise Unsupported('iteration over unbounded dict')
        return SymIter(x.what, x.d)
    if isinstance(x, type) and issubclass(x, __import__('enum').Enum):
        return list(x)
    if is_instance_obj(x):
        f = inspect.getattr_static(type(x), '__iter__', None)
        if f is not None:
            return iterate(I, I.call(I.getattr(x, '__iter__')), concrete)
        I.throw(TypeError, 'object is not iterable')
    if x is None or isinstance(x, (int, SInt, SBool, SEnum, type, float, Other)):
        I.throw(TypeError, 'object is not iterable')
    if isinstance(x, SymIter):
        return x
    raise Unsupported(f'iteration over {type(x).__name__}')


class LiveList:
    """Iterates like Python does over a list that may change meanwhile."""
    def __init__(self, p):
        self.p = p

    def __iter__(self):
        i = 0
        while i < len(self.p.items):
            yield self.p.items[i]
            i += 1

    def __len__(self):
        return len(self.p.items)


def index_of(I, i):
    i = refine(I, i)
    i = norm(i)
    if isinstance(i, SBool):
        i = SInt(ti(i))
    return i


def getitem(I, x, i):
    x = refine(I, x)
    if isinstance(x, (SDict, dict)):
        check_hashable(I, i)
        v = lookup(I, x, i)
        if v is MISSING:
            I.throw(KeyError, repr(i))
        return v
    if isinstance(i, slice):
        return get_slice(I, x, i)
    if isinstance(x, (PList, list, tuple)):
        i = index_of(I, i)
        if not isint(i):
            I.throw(TypeError, 'list indices must be integers')
        items = x.items if isinstance(x, PList) else x
        tail = x.tail if isinstance(x, PList) else None
        if isinstance(i, Sym):
            raise Unsupported('symbolic index')
        if tail is None:
            if -len(items) <= i < len(items):
                return items[i]
            I.throw(IndexError, 'list index out of range')
        if 0 <= i:
            expand(I, x, i + 1)
            if i < len(x.items):
                return x.items[i]
            I.throw(IndexError, 'list index out of range')
        raise Unsupported('negative index of unbounded list')
    if isinstance(x, (SBytes, bytes)):
        i = index_of(I, i)
        if isinstance(x, bytes) and isinstance(i, int):
            if -len(x) <= i < len(x):
                return x[i]
            I.throw(IndexError, 'index out of range')
        if not isint(i):
            I.throw(TypeError, 'byte indices must be integers')
        n = z3.Length(tb(x))
        k = ti(i)
        k = z3.If(k < 0, k + n, k)
        if not I.cx.branch(z3.And(k >= 0, k < n)):
            I.throw(IndexError, 'index out of range')
        return SInt(z3.BV2Int(tb(x)[k]))
    if is_instance_obj(x):
        f = inspect.getattr_static(type(x), '__getitem__', None)
        if f is not None:
            return I.call(I.getattr(x, '__getitem__'), [i])
        I.throw(TypeError, 'object is not subscriptable')
    if x is None or isinstance(x, (int, SInt, SBool, SEnum, Other, ExtTag)):
        I.throw(TypeError, 'object is not subscriptable')
    if isinstance(x, type):
        return x            # typing subscripts
    if isinstance(x, str) and isinstance(i, int):
        try:
            return x[i]
        except IndexError as e:
            raise PyRaise(e)
    if isinstance(x, SStr) and (isinstance(i, (int, SInt))):
        k = ti(i)
        n = z3.Length(x.t)
        k = z3.If(k < 0, k + n, k)
        if not I.cx.branch(z3.And(k >= 0, k < n)):
            I.throw(IndexError, "string index out of range")
        return SStr(z3.SubString(x.t, k, 1))
    raise Unsupported(f"subscript of {type(x).__name__}")


def expand(I, p, n):
    """Make the first n elements of a PList explicit if it has that many."""
    while p.tail is not None and len(p.items) < n:
        t = p.tail
        if I.cx.branch(llen(t) > 0):
            hd, tl = L.hd(t), L.tl(t)
            I.cx.assume(L.is_cons(t))
            I.cx.assume(llen(t) == llen(tl) + 1)
            I.cx.assume(llen(tl) >= 0)
            I.cx.assume((llen(tl) == 0) == (tl == L.nil))
            wire = getattr(p, 'wire', False)
            I.cx.assume(I.cx.anywf(hd, WIREKINDS if wire else None))
            wired(I, hd, wire)
            p.items.append(from_v(I, hd))
            p.tail = z3.simplify(tl)
        else:
            p.tail = None


def get_slice(I, x, s):
    if isinstance(x, (PList, list)) and not (isinstance(x, PList) and x.tail is not None):
        items = x.items if isinstance(x, PList) else x
        lo, hi, st = (None if v is None else index_of(I, v) for v in (s.start, s.stop, s.step))
        if any(isinstance(v, Sym) for v in (lo, hi, st)):
            raise Unsupported('symbolic slice')
        return PList(items[slice(lo, hi, st)])
    if isinstance(x, PList) and s.step is None and s.stop is None and isinstance(s.start, int) and s.start >= 0:
        expand(I, x, s.start)
        if x.tail is None:
            return PList(x.items[s.start:])
        return PList(x.items[s.start:], tail=x.tail)
    if isinstance(x, tuple):
        return x[s]
    if isinstance(x, (SBytes, bytes)):
        lo, hi, st = (None if v is None else index_of(I, v) for v in (s.start, s.stop, s.step))
        if isinstance(x, bytes) and not any(isinstance(v, Sym) for v in (lo, hi, st)):
            return x[slice(lo, hi, st)]
        if st is not None and not (isinstance(st, int) and st == 1):
            raise Unsupported('slice step')
        t = tb(x)
        n = z3.Length(t)

        def pos(v, d):
            if v is None:
                return d
            v = ti(v)
            v = z3.If(v < 0, z3.If(v + n < 0, z3.IntVal(0), v + n), v)
            return z3.If(v > n, n, v)
        a, b = pos(lo, z3.IntVal(0)), pos(hi, n)
        return norm(SBytes(z3.simplify(z3.If(b > a, z3.Extract(t, a, b - a), z3.Empty(BYTES)))))
    if isinstance(x, str):
        return x[s]
    if isinstance(x, SStr):
        return opaque_str(I, ['slice'])
    if x is None or isinstance(x, (int, SInt, SBool)):
        I.throw(TypeError, 'object is not subscriptable')
    raise Unsupported(f'slice of {type(x).__name__}')


def mutate_guard(I, x):
    if isinstance(x, (list, dict, set)) or getattr(x, 'const', False):
        I.cx.globals_written.append(type(x).__name__)
        raise Unsupported('write to a shared container')
    loop_guard(I, x)


def setitem(I, x, i, v):
    mutate_guard(I, x)
    x = refine(I, x)
    if isinstance(x, SDict):
        return dict_set(I, x, i, v)
    if isinstance(x, PList):
        i = index_of(I, i)
        if isinstance(i, int):
            if i >= 0:
                expand(I, x, i + 1)
            if -len(x.items) <= i < len(x.items) and (i >= 0 or x.tail is None):
                x.items[i] = v
                return
            I.throw(IndexError, 'list assignment index out of range')
    if is_instance_obj(x):
        f = inspect.getattr_static(type(x), '__setitem__', None)
        if f is not None:
            return I.call(I.getattr(x, '__setitem__'), [i, v])
    if isinstance(x, (int, bytes, str, Sym, type(None), tuple)):
        I.throw(TypeError, 'object does not support item assignment')
    raise Unsupported('item assignment')


def delitem(I, x, i):
    mutate_guard(I, x)
    x = refine(I, x)
    if isinstance(x, SDict):
        check_hashable(I, i)
        if dict_del(I, x, i) is MISSING:
            I.throw(KeyError, repr(i))
        return
    if isinstance(x, PList) and isinstance(i, int) and x.tail is None:
        try:
            del x.items[i]
        except IndexError as e:
            raise PyRaise(e)
        return
    if is_instance_obj(x):
        f = inspect.getattr_static(type(x), '__delitem__', None)
        if f is not None:
            return I.call(I.getattr(x, '__delitem__'), [i])
    raise Unsupported('del item')


def set_add(I, s, x):
    check_hashable(I, x)
    c = contains_items(I, s.items, x)
    if c is True or (c is not False and I.cx.branch(c.t)):
        return
    s.items.append(x)


# ---- operators -------------------------------------------------------------------------------------------

def opaque_str(I, parts):
    return SStr(z3.Const(I.cx.fresh_name('fstr'), STR))


def unop(I, op, v):
    v = refine(I, v)
    if isinstance(v, (SInt, SBool)):
        if op == 'USub':
            return SInt(-ti(v))
        if op == 'UAdd':
            return SInt(ti(v))
    c = concrete(v)
    if c is NO:
        raise Unsupported(op)
    try:
        return {'USub': lambda: -c, 'UAdd': lambda: +c, 'Invert': lambda: ~c}[op]()
    except Exception as e:
        raise PyRaise(e)


import operator as _o
NATIVE = {'Add': _o.add, 'Sub': _o.sub, 'Mult': _o.mul, 'Mod': _o.mod, 'FloorDiv': _o.floordiv, 'Div': _o.truediv,
          'BitXor': _o.xor, 'BitAnd': _o.and_, 'BitOr': _o.or_, 'LShift': _o.lshift, 'RShift': _o.rshift, 'Pow': _o.pow}

ixor = uf('ixor', INT, INT, INT)
zeros = uf('zeros', INT, BYTES)


def xor_term(a, b):
    if a.get_id() > b.get_id():
        a, b = b, a
    return ixor(a, b)


def binop(I, op, a, b, inplace=False):
    a, b = refine(I, a), refine(I, b)
    if isint(a) and isint(b):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            try:
                return NATIVE[op](a, b)
            except Exception as e:
                raise PyRaise(e)
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)) and op in ('BitAnd', 'BitOr', 'BitXor'):
            x, y = tbool(a), tbool(b)
            return mk({'BitAnd': z3.And(x, y), 'BitOr': z3.Or(x, y), 'BitXor': z3.Xor(x, y)}[op])
        x, y = ti(a), ti(b)
        if op == 'Add':
            return norm(SInt(x + y))
        if op == 'Sub':
            return norm(SInt(x - y))
        if op == 'Mult':
            return norm(SInt(x * y))
        if op == 'Mod' and z3.is_int_value(y) and 1 < y.as_long() <= 16:
            r = residue(I, x, y.as_long())
            if r is not None:
                return r
        if op in ('Mod', 'FloorDiv'):
            if isinstance(b, int) and b > 0:
                return norm(SInt(x % y if op == 'Mod' else x / y))
            raise Unsupported('symbolic divisor')
        if op == 'BitXor':
            return SInt(xor_term(x, y))
        if op == 'BitAnd' and isinstance(b, int) and b == 1:
            return norm(SInt(x % 2))
        if op == 'BitAnd' and isinstance(b, int) and b > 0 and (b & (b + 1)) == 0:
            return norm(SInt(x % (b + 1)))
        if op == 'RShift' and isinstance(b, int):
            return norm(SInt(x / (1 << b)))
        if op == 'LShift' and isinstance(b, int):
            return norm(SInt(x * (1 << b)))
        raise Unsupported('integer ' + op)
    if op == 'Add' and isbytes(a) and isbytes(b):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return a + b
        if isinstance(a, bytes) and not a:
            return b
        if isinstance(b, bytes) and not b:
            return a
        return norm(SBytes(z3.Concat(tb(a), tb(b))))
    if op == 'Add' and isstr(a) and isstr(b):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return a + b
        return SStr(z3.Concat(ts(a), ts(b)))
    if op == 'Add' and isinstance(a, (PList, list)) and isinstance(b, (PList, list)):
        ia, ib = (x.items if isinstance(x, PList) else x for x in (a, b))
        if isinstance(a, PList) and a.tail is not None:
            raise Unsupported('list concatenation')
        tail = b.tail if isinstance(b, PList) else None
        if inplace and isinstance(a, PList):
            if tail is not None:
                raise Unsupported('list extension')
            a.items.extend(list(ib))
            return a
        return PList(list(ia) + list(ib), tail=tail)
    if op == 'Add' and isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if op == 'Mult':
        if isinstance(b, (bytes, SBytes, PList, list)) and isint(a):
            a, b = b, a
        if isinstance(a, bytes) and isint(b):
            if isinstance(b, int):
                return a * b
            n = pick_int(I, b)
            return a * n
        if isinstance(a, PList) and a.tail is None and isinstance(b, int):
            return PList(a.items * b)
        if isinstance(a, SBytes) and isinstance(b, int) and 0 <= b <= 4:
            return norm(SBytes(z3.Concat(*([a.t] * b)))) if b > 1 else (a if b else b'')
    if op == 'BitOr' and isinstance(a, (SDict, dict)) and isinstance(b, (SDict, dict)):
        d = a if inplace else copy_dict(a)
        dict_update(I, d, b)
        return d
    if isinstance(a, (PSet, set, frozenset)) and isinstance(b, (PSet, set, frozenset)):
        s = PSet()
        ia, ib = set_items(a), set_items(b)
        if op == 'BitOr':
            for x in list(ia) + list(ib):
                set_add(I, s, x)
            return s
        keep = {'BitAnd': lambda x: truth(I, contains_items(I, ib, x)),
                'Sub': lambda x: not truth(I, contains_items(I, ib, x))}.get(op)
        if keep:
            for x in ia:
                if keep(x):
                    s.items.append(x)
            return s
    if op == 'Mod' and isinstance(a, str):
        return opaque_str(I, ['%'])
    ca, cb = concrete(a), concrete(b)
    if ca is not NO and cb is not NO and not isinstance(a, Wrapper) and not isinstance(b, Wrapper):
        try:
            return NATIVE[op](ca, cb)
        except Exception as e:
            raise PyRaise(e)
    if is_instance_obj(a) or is_instance_obj(b) or isinstance(a, (ExtObj, Opaque)) or isinstance(b, (ExtObj, Opaque)):
        raise Unsupported(f'{op} on objects')
    kinds = {kindof(a), kindof(b)}
    if op in ('Add', 'Sub', 'Mult') and len(kinds) == 2 and None not in kinds:
        I.throw(TypeError, f'unsupported operand type(s) for {op}')
    raise Unsupported(f'{op} on {type(a).__name__} and {type(b).__name__}')


def kindof(x):
    if x is None:
        return 'none'
    if isint(x):
        return 'int'
    if isbytes(x):
        return 'bytes'
    if isstr(x):
        return 'str'
    if isinstance(x, (PList, list)):
        return 'list'
    if isinstance(x, (SDict, dict)):
        return 'map'
    return None


def residue(I, t, n):
    """t mod n by a case split over the residues of the lengths in t (None: t is not made of lengths)."""
    t = z3.simplify(t)
    parts = t.children() if z3.is_add(t) else [t]
    k, atoms = 0, []
    for p in parts:
        if z3.is_int_value(p):
            k += p.as_long()
            continue
        c = 1
        if z3.is_mul(p) and p.num_args() == 2 and z3.is_int_value(p.arg(0)):
            c, p = p.arg(0).as_long(), p.arg(1)
        if p.decl().kind() != z3.Z3_OP_SEQ_LENGTH:
            return None
        atoms.append((c, p))
    if not 1 <= len(atoms) <= 2:
        return None
    cx = I.cx
    for c, a in atoms:
        key = ('residue', a.get_id(), n)
        if key not in cx.memo:
            q = z3.Int(cx.fresh_name('q'))
            r = cx.choose([True] * n, 'residue')
            cx.memo[key] = r
            cx.keep.append(a)
            cx.assume(z3.And(q >= 0, a == n * q + r))
        k += c * cx.memo[key]
    return k % n


def pick_int(I, n, maxn=70):
    """Fork over the values of a bounded symbolic integer."""
    n = norm(n)
    if isinstance(n, int):
        return n
    cx = I.cx
    t = ti(n)
    if len(cx.trace) < len(cx.prefix):
        v = cx.replayed('int')
        cx.trace.append((v, (), 'int'))
        cx.assume(t == v)
        return v
    vals = []
    cx.solver.push()
    while len(vals) <= maxn:
        r = cx.solver.check()
        if r != z3.sat:
            if r == z3.unknown:
                cx.solver.pop()
                raise Unsupported('integer values unknown')
            break
        v = cx.solver.model().eval(t, model_completion=True).as_long()
        vals.append(v)
        cx.solver.add(t != v)
    cx.solver.pop()
    if not vals:
        raise Infeasible()
    if len(vals) > maxn:
        raise Unsupported('unbounded integer')
    vals = sorted(vals)
    cx.trace.append((vals[0], vals[1:], 'int'))
    cx.assume(t == vals[0])
    return vals[0]


# ---- attributes ------------------------------------------------------------------------------------------

PYTYPE = {SBytes: bytes, SStr: str, SInt: int, SBool: bool, PList: list, PSet: set, SDict: dict, SHex: bytes}


def getattr_(I, obj, name, default=None):
    from . import ext, interp
    MISS = interp._MISSING
    if isinstance(obj, (SAny, TypeOf)):
        obj = refine(I, obj)

    def missing():
        if default is not MISS:
            return default
        I.throw(AttributeError, f'{type(obj).__name__} object has no attribute {name}')
    if isinstance(obj, SEnum):
        return enum_attr(I, obj, name, default)
    if isinstance(obj, SuperProxy):
        o = obj.obj
        t = o if isinstance(o, type) else type(o)
        mro = t.__mro__
        for c in mro[mro.index(obj.cls) + 1:]:
            if name in c.__dict__:
                return bind_static(I, c.__dict__[name], o, name)
        return missing()
    if isinstance(obj, tuple(PYTYPE)):
        pt = PYTYPE[type(obj)]
        if name == '__class__':
            return pt
        if hasattr(pt, name):
            return SymMethod(obj, name)
        return missing()
    if isinstance(obj, ItemsView):
        return SymMethod(obj, name)
    if isinstance(obj, ExtObj):
        return ext.attr(I, obj, name, missing)
    if isinstance(obj, Other):
        return missing()
    if isinstance(obj, ExtTag):
        if name == 'tag':
            return SInt(V.vt(obj.t))
        if name == 'value':
            return from_v(I, V.vv(obj.t))
        return missing()
    if isinstance(obj, Opaque):
        raise Unsupported('attribute of unknown object')
    if isinstance(obj, BoundM):
        if name == '__self__':
            return obj.obj
        if name == '__func__':
            return obj.func
        return getattr_(I, obj.func, name, default)
    if isinstance(obj, Closure):
        if name == '__name__':
            return obj.name
        return missing()
    if is_instance_obj(obj):
        return inst_attr(I, obj, name, missing)
    if isinstance(obj, (type, types.ModuleType, types.FunctionType, types.MethodType, property, types.BuiltinFunctionType)):
        if isinstance(obj, type) and obj is not Foreign:
            # properties of metaclasses and such stay native
            pass
        try:
            return getattr(obj, name)
        except AttributeError:
            return missing()
    if isinstance(obj, BaseException):
        try:
            return getattr(obj, name)
        except AttributeError:
            return missing()
    m = ext.native_attr(I, obj, name)
    if m is not NotImplemented:
        return m
    if isinstance(obj, (int, str, bytes, tuple, list, dict, set, frozenset, type(None), float, range)) or \
            isinstance(obj, (types.MappingProxyType,)):
        if hasattr(obj, name):
            v = getattr(obj, name)
            return SymMethod(obj, name) if callable(v) else v
        return missing()
    if hasattr(obj, name):
        v = getattr(obj, name)
        if plain(v) or isinstance(v, PLAIN):
            return v
        return v
    return missing()


def inst_attr(I, obj, name, missing):
    cls = type(obj)
    if name == '__class__':
        return cls
    st = inspect.getattr_static(cls, name, MISSING)
    if isinstance(st, property):
        if st.fget is None:
            return missing()
        return I.call(st.fget, [obj])
    if isinstance(st, types.MemberDescriptorType):
        try:
            return st.__get__(obj, cls)
        except AttributeError:
            return missing()
    d = getattr(obj, '__dict__', {})
    if name == '__dict__':
        raise Unsupported('__dict__')
    if name in d:
        return d[name]
    if st is MISSING:
        ga = inspect.getattr_static(cls, '__getattr__', None)
        if ga is not None:
            return I.call(ga, [obj, name])
        return missing()
    return bind_static(I, st, obj, name)


def bind_static(I, st, obj, name):
    t = obj if isinstance(obj, type) else type(obj)
    if isinstance(st, property):
        return I.call(st.fget, [obj])
    if isinstance(st, types.FunctionType):
        return BoundM(st, obj) if not isinstance(obj, type) else st
    if isinstance(st, classmethod):
        return BoundM(st.__func__, t)
    if isinstance(st, staticmethod):
        return st.__func__
    if isinstance(st, (types.WrapperDescriptorType, types.MethodDescriptorType)):
        if name == '__init__':
            return _noop
        return BoundM(st, obj)
    return st


def _noop(*a, **k):
    return None


_ceq = {}


def member(k, members):
    key = (k.get_id(), tuple(map(id, members)))
    r = _ceq.get(key)
    if r is None:
        r = _ceq[key] = (z3.Or([ceq(k, m) for m in members]), k, members)
    return r[0]


def ceq(t, m):
    k = (t.get_id(), id(m))
    r = _ceq.get(k)
    if r is None:
        r = _ceq[k] = (t == gid(m), t, m)
    return r[0]


def enum_attr(I, e, name, default):
    from . import interp
    MISS = interp._MISSING
    vals = []
    for m in e.members:
        try:
            vals.append(getattr(m, name))
        except AttributeError:
            vals.append(MISSING)
    if all(v is MISSING for v in vals):
        if default is not MISS:
            return default
        I.throw(AttributeError, name)
    if any(v is MISSING for v in vals):
        has = member(e.t, [m for m, v in zip(e.members, vals) if v is not MISSING])
        if not I.cx.branch(has):
            if default is not MISS:
                return default
            I.throw(AttributeError, name)
        pairs = [(m, v) for m, v in zip(e.members, vals) if v is not MISSING]
        e = SEnum(e.t, [m for m, _ in pairs])
        vals = [v for _, v in pairs]
    if all(isinstance(v, types.MethodType) and v.__self__ is m for v, m in zip(vals, e.members)):
        groups = {}
        for m, v in zip(e.members, vals):
            groups.setdefault(v.__func__, []).append(m)
        if len(groups) == 1:
            return BoundM(next(iter(groups)), e)
        gl = list(groups.items())
        k = I.cx.choose([member(e.t, ms) for _, ms in gl], 'method')
        f, ms = gl[k]
        return BoundM(f, SEnum(e.t, ms) if len(ms) > 1 else ms[0])
    return merge_cases(I, [(ceq(e.t, m), v) for m, v in zip(e.members, vals)])


def setattr_(I, obj, name, v):
    obj = refine(I, obj)
    if is_instance_obj(obj):
        st = inspect.getattr_static(type(obj), name, MISSING)
        if isinstance(st, property):
            if st.fset is None:
                I.throw(AttributeError, f'property {name} has no setter')
            I.call(st.fset, [obj, v])
            return
        if inspect.getattr_static(type(obj), '__setattr__') is not object.__setattr__:
            f = inspect.getattr_static(type(obj), '__setattr__')
            if isinstance(f, types.FunctionType):
                raise Unsupported('__setattr__')
        if id(obj) not in I.owned:
            I.cx.globals_written.append(f'{type(obj).__name__}.{name}')
            raise Unsupported('write to a shared object')
        loop_guard(I, obj)
        object.__setattr__(obj, name, v)
        return
    if isinstance(obj, (type, types.ModuleType, SEnum)):
        I.cx.globals_written.append(name)
        raise Unsupported('write to class or module attribute')
    if obj is None or isinstance(obj, (Sym, Wrapper, int, str, bytes)):
        I.throw(AttributeError, name)
    raise Unsupported(f'attribute assignment on {type(obj).__name__}')


def delattr_(I, obj, name):
    if is_instance_obj(obj) and id(obj) in I.owned and name in obj.__dict__:
        object.__delattr__(obj, name)
        return
    raise Unsupported('del attribute')


# ---- methods of built-in types ---------------------------------------------------------------------------

def copy_dict(d):
    if isinstance(d, dict):
        return SDict([('set', k, v) for k, v in d.items()])
    n = SDict(d.layers)
    n.__dict__['cache'] = d.__dict__.setdefault('cache', {})
    return n


def sym_method(I, obj, name, args, kwargs):
    obj = refine(I, obj)
    if isinstance(obj, (SDict, dict, types.MappingProxyType)):
        return dict_method(I, obj, name, args, kwargs)
    if isinstance(obj, (PList, list)):
        return list_method(I, obj, name, args, kwargs)
    if isinstance(obj, (PSet, set, frozenset)):
        return set_method(I, obj, name, args, kwargs)
    from . import ext
    return ext.scalar_method(I, obj, name, args, kwargs)


def dict_method(I, d, name, args, kwargs):
    raw = isinstance(d, (dict, types.MappingProxyType))
    if raw:
        rd = d
        d = const_dict(d if isinstance(d, dict) else dict(d))
    if name in ('get', '__getitem__', '__contains__', 'has_key'):
        k = args[0]
        if name == '__contains__':
            return dict_contains(I, d, k)
        check_hashable(I, k)
        if name == 'get' and (len(args) < 2 or args[1] is None) and kwargs.get('default') is None:
            v = get_or_none(I, d, k)
            if v is not MISSING:
                return v
        v = lookup(I, d, k)
        if v is MISSING:
            if name == '__getitem__':
                I.throw(KeyError, repr(k))
            return args[1] if len(args) > 1 else kwargs.get('default')
        return v
    if name in ('items', 'keys', 'values'):
        return ItemsView(d, name)
    if name == '__iter__':
        return d
    if name == '__len__':
        return length(I, d)
    if name == 'copy':
        return copy_dict(d)
    if name in ('__eq__',):
        return eq(I, d, args[0])
    if raw or getattr(d, 'const', False):
        I.cx.globals_written.append('dict')
        raise Unsupported(f'write to a shared dict ({name})')
    loop_guard(I, d)
    if name == 'update':
        if args:
            dict_update(I, d, args[0])
        for k, v in kwargs.items():
            dict_set(I, d, k, v)
        return None
    if name == 'pop':
        check_hashable(I, args[0])
        if len(args) > 1 and args[1] is None and any(l[0] == 'base' for l in d.layers) and \
                not any(l[0] == 'set' and key_is(I, l[1], norm(args[0])) for l in d.layers):
            v = get_or_none(I, d, args[0])
            if v is not MISSING:
                if v is not None:
                    d.layers.append(('del', args[0]))
                return v
        v = dict_del(I, d, args[0])
        if v is MISSING:
            if len(args) > 1:
                return args[1]
            I.throw(KeyError, repr(args[0]))
        return v
    if name == 'setdefault':
        v = dict_find(I, d, args[0])
        if v is MISSING:
            v = args[1] if len(args) > 1 else None
            dict_set(I, d, args[0], v)
        return v
    if name == 'clear':
        d.layers = []
        return None
    if name == '__setitem__':
        return dict_set(I, d, *args)
    if name == '__delitem__':
        return delitem(I, d, *args)
    raise Unsupported('dict.' + name)


def list_method(I, p, name, args, kwargs):
    items = p.items if isinstance(p, PList) else p
    if name == '__contains__':
        return contains(I, p, args[0])
    if name == '__len__':
        return length(I, p)
    if name == '__iter__':
        return p
    if name == '__getitem__':
        return getitem(I, p, args[0])
    if name == 'copy':
        return PList(items, tail=getattr(p, 'tail', None))
    if name == 'index' and getattr(p, 'tail', None) is None:
        for i, x in enumerate(items):
            if truth(I, eq(I, x, args[0])):
                return i
        I.throw(ValueError, 'not in list')
    if name == 'count' and getattr(p, 'tail', None) is None:
        return sum(1 for x in items if truth(I, eq(I, x, args[0])))
    mutate_guard(I, p)
    if name == 'append':
        if hasattr(p, 'log'):
            p.log.append(args[0])
            return None
        if p.tail is not None:
            raise Unsupported('append to unbounded list')
        p.items.append(args[0])
        return None
    if name == 'extend':
        if p.tail is not None:
            raise Unsupported('extend')
        p.items.extend(list(iterate(I, args[0], concrete=True)))
        return None
    if name == 'insert' and isinstance(args[0], int):
        if p.tail is not None and args[0] != 0:
            raise Unsupported('insert')
        p.items.insert(args[0], args[1])
        return None
    if name == 'pop':
        i = index_of(I, args[0]) if args else -1
        if not isinstance(i, int):
            raise Unsupported('pop index')
        if p.tail is not None:
            if i < 0:
                raise Unsupported('pop from unbounded list')
            expand(I, p, i + 1)
        if not -len(p.items) <= i < len(p.items):
            I.throw(IndexError, 'pop index out of range')
        return p.items.pop(i)
    if name == 'clear':
        p.items, p.tail = [], None
        return None
    if name == 'remove' and p.tail is None:
        for i, x in enumerate(p.items):
            if truth(I, eq(I, x, args[0])):
                del p.items[i]
                return None
        I.throw(ValueError, 'not in list')
    if name == 'reverse' and p.tail is None:
        p.items.reverse()
        return None
    raise Unsupported('list.' + name)


def set_method(I, s, name, args, kwargs):
    items = set_items(s)
    if name == '__contains__':
        return contains(I, s, args[0])
    if name == '__len__':
        return len(items)
    if name in ('copy',):
        return PSet(list(items))
    if name in ('intersection', 'difference', 'union') and len(args) == 1:
        o = PSet()
        for x in iterate(I, args[0], concrete=True):
            set_add(I, o, x)
        return binop(I, {'intersection': 'BitAnd', 'difference': 'Sub', 'union': 'BitOr'}[name], PSet(list(items)), o)
    if name == 'issubset':
        return conj([contains(I, args[0], x) for x in items])
    if name == 'isdisjoint':
        return neg(disj([contains(I, args[0], x) for x in items]))
    if name == 'issuperset':
        return conj([contains(I, s, x) for x in iterate(I, args[0], concrete=True)])
    mutate_guard(I, s)
    if name == 'add':
        return set_add(I, s, args[0])
    if name == 'update':
        for a in args:
            for x in iterate(I, a, concrete=True):
                set_add(I, s, x)
        return None
    if name == 'pop':
        if not s.items:
            I.throw(KeyError, 'pop from an empty set')
        if len(s.items) > 1:
            raise Unsupported('set.pop order')
        return s.items.pop()
    if name in ('discard', 'remove'):
        for i, x in enumerate(s.items):
            if truth(I, eq(I, x, args[0])):
                del s.items[i]
                return None
        if name == 'remove':
            I.throw(KeyError, 'remove')
        return None
    raise Unsupported('set.' + name)


# ---- loops over unbounded collections (arbitrary element) ------------------------------------------------

def sym_for(I, it, s, env, fr):
    from . import loops
    return loops.sym_for(I, it, s, env, fr)


def sym_listcomp(I, sc, e, env, fr):
    from . import loops
    return loops.sym_listcomp(I, sc, e, env, fr)


def sym_dictcomp(I, sc, e, env, fr):
    from . import loops
    return loops.sym_dictcomp(I, sc, e, env, fr)


def loop_guard(I, x):
    if I.loops:
        from . import loops
        loops.guard(I, x)


# ---- externals -------------------------------------------------------------------------------------------

def call_external(I, f, args, kwargs):
    from . import ext
    return ext.call(I, f, args, kwargs)
