"""Native (CPython) evaluation of contracts: replay of counterexamples and random differential runs."""
import base64
import copy
import os
import pickle
import random
import time
import traceback

import cbor2
import z3

from . import ops
from .terms import *
from .values import *


class Stranger:
    """An object of no type the library knows."""
    def __repr__(self):
        return 'Stranger()'

    def __eq__(self, o):
        return isinstance(o, Stranger)

    def __hash__(self):
        return 17


class CallSchema:
    def __repr__(self):
        return '<built by the shape>'

    def __eq__(self, o):
        return isinstance(o, CallSchema)

    def __hash__(self):
        return 3


CALL = CallSchema()


# ---- from a model of the solver to Python values ---------------------------------------------------------

def seqval(m, t):
    v = m.eval(t, model_completion=True)
    b = seq_to_bytes(z3.simplify(v))
    if b is None:
        raise ValueError(f'bytes value {v}')
    return b


def pyval(cx, m, t, depth=0):
    v = z3.simplify(m.eval(t, model_completion=True))
    n = v.decl().name()
    if depth > 6:
        return None
    if n == 'VNone':
        return None
    if n == 'VBool':
        return z3.is_true(v.arg(0))
    if n == 'VInt':
        return v.arg(0).as_long()
    if n == 'VBytes':
        return seqval(m, v.arg(0))
    if n == 'VStr':
        return strval(v.arg(0))
    if n == 'VCls':
        c = gobj(v.arg(0).as_long())
        return c if isinstance(c, type) else ops.Foreign
    if n == 'VList':
        out = []
        a = v.arg(0)
        while a.decl().name() == 'cons':
            out.append(pyval(cx, m, a.arg(0), depth + 1))
            a = a.arg(1)
        return out
    if n == 'VMap':
        return mapval(cx, m, v.arg(0), depth)
    if n == 'VTag':
        return cbor2.CBORTag(abs(v.arg(0).as_long()), pyval(cx, m, v.arg(1), depth + 1))
    return Stranger()


def strval(t):
    s = t.as_string()
    import re
    s = re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda x: chr(int(x.group(1), 16)), s)
    return s


def mapval(cx, m, mt, depth):
    out = {}
    for name, ent in cx.touched.items():
        for k, kt, base in ent:
            if z3.eq(m.eval(base, model_completion=True), m.eval(mt, model_completion=True)):
                if z3.is_true(m.eval(mhas(base, kt), model_completion=True)):
                    try:
                        kk = k if ops.plain(k) else pyval(cx, m, kt, depth + 1)
                        out[kk] = pyval(cx, m, mget(base, kt), depth + 1)
                    except TypeError:
                        pass
    return out


def from_model(cx, m):
    leaf = {}
    for name, (kind, t) in cx.created.items():
        if kind == 'bytes':
            leaf[name] = seqval(m, t)
        elif kind == 'int':
            leaf[name] = m.eval(t, model_completion=True).as_long()
        elif kind == 'bool':
            leaf[name] = z3.is_true(m.eval(t, model_completion=True))
        elif kind == 'str':
            leaf[name] = strval(m.eval(t, model_completion=True))
        elif kind == 'any':
            leaf[name] = pyval(cx, m, t)
        elif kind[0] == 'enum':
            leaf[name] = gobj(m.eval(t, model_completion=True).as_long())
        elif kind[0] == 'oplist':
            leaf[name] = [x for x in kind[1]
                          if z3.is_true(m.eval(lcontains(t, V.VCls(z3.IntVal(gid(x)))), model_completion=True))]
        elif kind[0] == 'dict':
            d = {}
            sch = kind[1]
            for k, kt, base in cx.touched.get(name, ()):
                if not z3.is_true(m.eval(mhas(base, kt), model_completion=True)):
                    continue
                try:
                    kk = k if ops.plain(k) else pyval(cx, m, kt)
                    s = (sch.get(kk) if ops.plain(kk) else None) or sch.get('*', 'any')
                    if isinstance(s, tuple) and s[0] == 'has':
                        s = s[1]
                    vt = mget(base, kt)
                    if callable(s):
                        d[kk] = CALL
                    elif isinstance(s, tuple) and s[0] == 'oplist':
                        lt = V.vl(vt)
                        d[kk] = [x for x in s[1] if z3.is_true(
                            m.eval(lcontains(lt, V.VCls(z3.IntVal(gid(x)))), model_completion=True))]
                    else:
                        d[kk] = pyval(cx, m, vt)
                except TypeError:
                    continue
            n = m.eval(msize(t), model_completion=True).as_long()
            if n > len(d):
                d['filler'] = 0
            leaf[name] = d
    choice = {k: v for k, v in cx.memo.items() if isinstance(k, str)}
    return {'leaf': leaf, 'choice': choice}


# ---- native contexts -------------------------------------------------------------------------------------

class ConcCtx:
    """Leaves with given values; what is not given is drawn from rng and remembered."""
    symbolic = False

    def __init__(self, values=None, seed=0):
        values = values or {}
        self.leaf = dict(values.get('leaf', {}))
        self.choices = dict(values.get('choice', {}))
        self.rng = random.Random(seed)
        self.phase = 'native'
        self.objs = {}

    def values(self):
        return {'leaf': self.leaf, 'choice': self.choices}

    def get(self, name, mk):
        if name not in self.leaf:
            self.leaf[name] = mk()
        return self.leaf[name]

    def assume(self, c):
        pass

    def bytes(self, name, lens=None, minlen=None, maxlen=None, gen=None):
        r = self.rng

        def mk():
            if lens is not None:
                n = r.choice(list(lens))
            else:
                lo = minlen or 0
                hi = maxlen if maxlen is not None else lo + 40
                n = r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi)])
            if gen is not None:
                return gen(r)
            return bytes(r.choice((0, 255, r.randrange(256), r.randrange(256))) if i < 2 else r.randrange(256)
                         for i in range(n))
        return self.get(name, mk)

    def int(self, name, lo=None, hi=None):
        r = self.rng

        def mk():
            a = lo if lo is not None else -300
            b = hi if hi is not None else 100000
            return r.choice([a, b, r.randint(a, b), r.randint(max(a, -300), min(b, 300)) if max(a, -300) <= min(b, 300) else a])
        return self.get(name, mk)

    def bool(self, name):
        return self.get(name, lambda: self.rng.random() < .5)

    def str(self, name):
        return self.get(name, lambda: self.rng.choice(['', 'x', 'alg', 'K', 'ES256', 'abc' * 5, 'é']))

    def any(self, name, kinds=None, gen=None, wire=False):
        return clone(self.get(name, lambda: gen(self.rng) if gen else rand_any(self.rng, kinds)))

    def enum(self, name, members):
        return self.get(name, lambda: self.rng.choice(list(members)))

    def choice(self, name, options):
        options = list(options)
        if name not in self.choices:
            self.choices[name] = self.rng.randrange(len(options))
        return options[self.choices[name]]

    def dict(self, name, schema=None, nonempty=None, extra=True):
        r = self.rng
        sch = schema or {}

        def mk():
            d = {}
            keys = [k for k in sch if not (isinstance(k, str) and (k == '*' or k.startswith('__')))]
            only = sch.get('__keys__')
            p = r.choice([0.15, 0.4, 0.7]) if len(keys) < 12 else r.choice([0.03, 0.08])
            for k in keys:
                if sch[k] == 'absent' or only and keykind(k) not in only:
                    continue
                if isinstance(sch[k], tuple) and sch[k][0] == 'has':
                    d[k] = rand_typed(r, sch[k][1])
                elif r.random() < p:
                    d[k] = rand_typed(r, sch[k])
            if extra and r.random() < .4:
                for k in r.sample(['label', 1000, -70001, ''], r.randint(1, 2)):
                    if only and keykind(k) not in only:
                        continue
                    d[k] = rand_typed(r, sch.get('*', 'any'))
            return d
        d = self.get(name, mk)
        out = {}
        for k, v in d.items():
            if isinstance(v, CallSchema):
                f = sch.get(k, sch.get('*'))
                v = (f[1] if isinstance(f, tuple) else f)(self, f'{name}[{getattr(k, "__name__", k)}]')
            else:
                v = clone(v)
            out[k] = v
        return out

    def oplist(self, name, members):
        def mk():
            n = self.rng.choice([0, 1, 1, 2, 3])
            return [self.rng.choice(list(members)) for _ in range(n)]
        return list(self.get(name, mk))

    def lst(self, items):
        return list(items)

    def pydict(self, items):
        return dict(items)


def keykind(k):
    return 'int' if isinstance(k, int) else 'str' if isinstance(k, str) else 'cls'


def clone(v):
    if isinstance(v, list):
        return [clone(x) for x in v]
    if isinstance(v, dict):
        return {k: clone(x) for k, x in v.items()}
    return v


def rand_any(r, kinds=None):
    ks = kinds or ('none', 'bool', 'int', 'int', 'bytes', 'bytes', 'str', 'list', 'map', 'cls', 'tag', 'other')
    k = r.choice(ks)
    if k == 'none':
        return None
    if k == 'bool':
        return r.random() < .5
    if k == 'int':
        return r.choice([0, 1, -1, 5, -7, 24, 1000, r.randint(-300, 300), 2 ** 40])
    if k == 'bytes':
        return r.choice([b'', b'\x00', b'abc', bytes(r.randrange(256) for _ in range(r.randint(1, 30)))])
    if k == 'str':
        return r.choice(['', 'a', 'ES256', 'label', 'text/plain'])
    if k == 'list':
        return [rand_any(r, ('none', 'int', 'bytes', 'str')) for _ in range(r.randint(0, 3))]
    if k == 'map':
        return {r.choice(['a', 1, 2, b'k']): rand_any(r, ('none', 'int', 'bytes', 'str')) for _ in range(r.randint(0, 2))}
    if k == 'cls':
        return r.choice(ops.universe())
    if k == 'tag':
        return cbor2.CBORTag(r.choice([16, 17, 98, 5000]), b'x')
    return Stranger()


def rand_typed(r, s):
    if s == 'any':
        return rand_any(r)
    if s == 'bytes':
        return rand_any(r, ('bytes',))
    if s == 'int':
        return rand_any(r, ('int',))
    if isinstance(s, tuple):
        if s[0] == 'kinds':
            return rand_any(r, tuple(k for k in s[1]))
        if s[0] == 'enum':
            return r.choice(list(s[1]))
        if s[0] == 'oplist':
            return [r.choice(list(s[1])) for _ in range(r.choice([0, 1, 1, 2]))]
    if callable(s):
        return CALL
    raise ValueError(s)


# ---- running ---------------------------------------------------------------------------------------------

class Rand:
    """Deterministic replacement of os.urandom while a harness runs."""
    def __init__(self, seed):
        self.r = random.Random(f'urandom{seed}')

    def __call__(self, n=32):
        return bytes(self.r.randrange(256) for _ in range(n))


def patched(seed):
    return _Patch(seed)


class _Patch:
    def __init__(self, seed):
        self.seed = seed

    def __enter__(self):
        import secrets
        import sys
        r = Rand(self.seed)
        self.saved = []
        real = os.urandom
        for m in [os, secrets] + [m for n, m in list(sys.modules.items()) if n.startswith('pycose')]:
            for a in ('urandom', 'token_bytes'):
                if getattr(m, a, None) in (real, secrets.token_bytes) and a in m.__dict__:
                    self.saved.append((m, a, m.__dict__[a]))
        for m, a, _ in self.saved:
            setattr(m, a, r)

    def __exit__(self, *a):
        for m, a_, v in self.saved:
            setattr(m, a_, v)


def nwatch(s):
    return {k: v for k, v in s.__dict__.items() if not k.startswith('_')}


def nsame(a, b, label='result', seen=None):
    """None when equal, otherwise where they differ."""
    seen = seen if seen is not None else set()
    if a is b or (id(a), id(b)) in seen:
        return None
    seen.add((id(a), id(b)))
    if getattr(b, 'ok', None) is not None and type(b).__name__ == 'Randomised':
        try:
            fine = b.ok(a)
        except Exception:
            fine = False
        return None if fine else f'{label}: {show(a)} does not match {show(b)}'
    if type(a) is not type(b):
        return f'{label}: {show(a)} is not {show(b)}'
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f'{label}: {show(a)} is not {show(b)}'
        for i, (x, y) in enumerate(zip(a, b)):
            r = nsame(x, y, f'{label}[{i}]', seen)
            if r:
                return r
        return None
    if isinstance(a, dict):
        if list(map(kkey, a)) != list(map(kkey, b)) and sorted(map(kkey, a)) != sorted(map(kkey, b)):
            return f'{label}: keys {show(list(a))} are not {show(list(b))}'
        for k in a:
            if k not in b:
                return f'{label}: key {show(k)}'
            r = nsame(a[k], b[k], f'{label}[{show(k)}]', seen)
            if r:
                return r
        return None
    if isinstance(a, type) or isinstance(a, (bytes, int, str, bool, float, type(None))):
        return None if a == b else f'{label}: {show(a)} is not {show(b)}'
    if isinstance(a, cbor2.CBORTag):
        return nsame((a.tag, a.value), (b.tag, b.value), label, seen)
    if ops.is_instance_obj(a):
        from specs import shapes
        for n in shapes.known_attrs(a):
            r = nsame(ops.raw_attr(a, n), ops.raw_attr(b, n), f'{label}.{n}', seen)
            if r:
                return r
        return None
    try:
        return None if a == b else f'{label}: {show(a)} is not {show(b)}'
    except Exception:
        return None


def kkey(k):
    return f'{type(k).__name__}:{getattr(k, "__name__", k)!r}'


def show(x, n=300):
    try:
        s = repr(x)
    except Exception:
        s = object.__repr__(x)
    return s if len(s) <= n else s[:n] + '...'


class Skip(Exception):
    """The generated case is outside the contract."""


def run_native(c, cx):
    """None if impl and spec agree on the inputs of cx, otherwise a description of the difference."""
    s1 = c.shape(cx)
    s2 = c.shape(cx)
    with patched(7):
        r1, e1 = attempt(c.impl, s1)
    with patched(7):
        r2, e2 = attempt(c.spec, s2)
    if isinstance(e1, Skip) or isinstance(e2, Skip):
        raise Skip()
    if e1 is not None and e2 is not None:
        if c.raise_same:
            return nsame(nwatch(s1), nwatch(s2), 'state after the exception')
        return None
    if e1 is not None:
        return f'raises {type(e1).__name__}: {e1} but should return {show(r2)}'
    if e2 is not None:
        return f'returns {show(r1)} but should raise ({type(e2).__name__}: {e2})'
    if c.ret:
        d = c.native_eq(r1, r2, s1, s2) if c.native_eq else nsame(r1, r2)
        if d:
            return d
    if c.watch:
        return nsame(nwatch(s1), nwatch(s2), 'state')
    return None


def attempt(f, s):
    try:
        return f(s), None
    except RecursionError as e:
        return None, e
    except Exception as e:
        return None, e


def describe(values):
    out = {}
    for k, v in values.get('leaf', {}).items():
        out[k] = v.hex() if isinstance(v, bytes) else show(v)
    out.update({'choice ' + k: v for k, v in values.get('choice', {}).items()})
    return out


def pack(values):
    try:
        return base64.b64encode(pickle.dumps(values)).decode()
    except Exception:
        return None


def unpack(s):
    return pickle.loads(base64.b64decode(s))


def search(c, seed, seconds, tries, base=None):
    """Random differential runs; returns (number of runs, number of returning runs, failure or None)."""
    t0 = time.time()
    n = skipped = 0
    while n < tries and time.time() - t0 < seconds:
        n += 1
        cx = ConcCtx(base, seed=f'{c.name}/{seed}/{n}')
        try:
            d = run_native(c, cx)
        except Skip:
            skipped += 1
            continue
        if d:
            return n, skipped, (cx.values(), d)
    return n, skipped, None


def perturb(values, seed):
    """The same structure with other contents."""
    r = random.Random(seed)
    keep = r.random() < .6

    def p(v, depth=0):
        if isinstance(v, bytes):
            n = len(v) if keep or r.random() < .6 else r.choice([0, 1, 2, 3, 8, 16, 24, 33, max(0, len(v) - 1), len(v) + 1, 300])
            return bytes(r.randrange(256) for _ in range(n))
        if isinstance(v, bool):
            return v if r.random() < .7 else not v
        if isinstance(v, int):
            return v if r.random() < .8 else r.choice([0, 1, -1, 7, 23, 24, 255, 256, 70000, -300])
        if isinstance(v, str):
            return v if r.random() < .6 else r.choice(['', 'a', 'xyz', 'ES256'])
        if isinstance(v, list) and depth < 4:
            return [p(x, depth + 1) for x in v]
        if isinstance(v, dict) and depth < 4:
            return {k: p(x, depth + 1) for k, x in v.items()}
        return v
    leaf = {k: p(v) for k, v in values['leaf'].items()}
    ch = dict(values['choice'])
    return {'leaf': leaf, 'choice': ch}
