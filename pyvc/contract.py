"""Contracts on the real functions and the verifier that discharges them path by path.

A contract compares, for every input its shape describes, what the real code does (`impl`, a harness that calls the
functions of /repo) with what its specification says (`spec`, an executable function in /verif/specs): the outcome
(value or exception) and the state of every object afterwards.  Both are evaluated symbolically over the same inputs;
every comparison is a verification condition that an SMT solver has to prove."""
import inspect
import time
import traceback

import z3

from . import ops, values
from .interp import Interp
from .terms import *
from .values import *


class State:
    """The inputs of a contract (attribute bag); `_watch` names what is compared after a normal return."""
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Contract:
    def __init__(self, name, shape, impl, spec, funcs=(), raise_same=(), watch=True, bounded=None, native=True,
                 native_eq=None, timeout=8000, paths=4000, seconds=300, subst=None, native_only=False, doc=None,
                 ret=True, splits=None, tries=60, lemma=None, soft=False):
        self.name, self.shape, self.impl, self.spec = name, shape, impl, spec
        self.funcs = tuple(funcs)
        self.raise_same = raise_same        # True: the whole state is compared after an exception as well
        self.watch = watch
        self.bounded = bounded
        self.native = native
        self.native_eq = native_eq
        self.timeout, self.paths, self.seconds = timeout, paths, seconds
        self.native_only = native_only
        self.doc = doc
        self.ret = ret
        self.tries = tries
        self.lemma = lemma          # (dotted name of a pure function of the repository, specification to use for calls)
        self.soft = soft            # supports other contracts; its failure alone is no violation of the property

    def __repr__(self):
        return f'<contract {self.name}>'


class History:
    """A native, randomised sequence of operations through the public API, judged by an independent oracle."""
    def __init__(self, name, fn, tries=200, doc=None, seconds=None):
        self.name, self.fn, self.tries, self.doc, self.seconds = name, fn, tries, doc, seconds


class Violation(Exception):
    pass


class Apply:
    """A proved contract in place of the body at call sites."""
    def __init__(self, name, func, model):
        self.name, self.func, self.model = name, func, model
        self.sig = inspect.signature(func)

    def apply(self, I, args, kwargs):
        try:
            b = self.sig.bind(*args, **kwargs)
        except TypeError:
            return NotImplemented
        b.apply_defaults()
        was = I.in_spec
        I.in_spec = True
        try:
            return (I.call(self.model, list(b.arguments.values())),)
        finally:
            I.in_spec = was


def substitutions(contracts, assumed=()):
    out = {}
    for c in contracts:
        if c.lemma is None:
            continue
        f = resolve(c.lemma[0])
        if f is not None:
            out[f] = Apply(c.name, f, c.lemma[1])
    for dotted, m, _ in assumed:
        f = resolve(dotted)
        if f is not None:
            out[f] = Apply(dotted, f, m)
    return out


def resolve(dotted):
    import importlib
    parts = dotted.split('.')
    for i in range(len(parts), 0, -1):
        try:
            x = importlib.import_module('.'.join(parts[:i]))
        except ImportError:
            continue
        for n in parts[i:]:
            try:
                x = inspect.getattr_static(x, n)
            except AttributeError:
                return None
            x = getattr(x, '__func__', x)
            if isinstance(x, property):
                x = x.fget
        return x if inspect.isfunction(x) else None
    return None


class ShapeMismatch(Exception):
    """The state a contract speaks of does not exist (in this form) in the code."""


# ---- comparison of values and heaps ----------------------------------------------------------------------

# attributes that are state of the specified classes; others (caches and such) are not compared
STATE_ATTRS = None


def known_attrs(obj):
    from specs import shapes
    return shapes.known_attrs(obj)


class Cmp:
    def __init__(self, I):
        self.I = I
        self.out = []           # (label, condition)
        self.seen = {}

    def add(self, label, c):
        self.out.append((label, c))

    def same(self, a, b, label):
        I = self.I
        a = self.deref(a)
        b = self.deref(b)
        if a is b:
            return
        if isinstance(a, (PList, list)) and isinstance(b, (PList, list)):
            if (id(a), id(b)) in self.seen:
                return
            self.seen[id(a), id(b)] = (a, b)
            ia, ta = (a.items, a.tail) if isinstance(a, PList) else (a, None)
            ib, tb_ = (b.items, b.tail) if isinstance(b, PList) else (b, None)
            if ta is None and tb_ is None and len(ia) == len(ib):
                for i, (x, y) in enumerate(zip(ia, ib)):
                    self.same(x, y, f'{label}[{i}]')
                return
            self.add(label, ops.eq_list(I, a, b))
            return
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                self.add(label, False)
            else:
                for i, (x, y) in enumerate(zip(a, b)):
                    self.same(x, y, f'{label}[{i}]')
            return
        if isinstance(a, (SDict, dict)) and isinstance(b, (SDict, dict)):
            if (id(a), id(b)) in self.seen:
                return
            self.seen[id(a), id(b)] = (a, b)
            self.same_dict(a, b, label)
            return
        if ops.is_instance_obj(a) and ops.is_instance_obj(b):
            if (id(a), id(b)) in self.seen:
                return
            self.seen[id(a), id(b)] = (a, b)
            if type(a) is not type(b):
                self.add(label + ' (class)', False)
                return
            for n in known_attrs(a):
                self.same(ops.raw_attr(a, n), ops.raw_attr(b, n), f'{label}.{n}')
            return
        if isinstance(a, BoundM) and isinstance(b, BoundM):
            self.add(label, a.func is b.func)
            return
        if type(a) is not type(b) and not isinstance(a, Sym) and not isinstance(b, Sym):
            if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                # True and 1 are different results
                self.add(label, False)
                return
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (bool, SBool)) and ops.isint(y) and not isinstance(y, (bool, SBool)):
                self.add(label, False)
                return
        if isinstance(a, SAny) and isinstance(b, (bool, int, SInt, SBool)):
            self.add(label, ops.mk(a.t == ops.tov(I, b)))
            return
        if isinstance(b, SAny) and isinstance(a, (bool, int, SInt, SBool)):
            self.add(label, ops.mk(b.t == ops.tov(I, a)))
            return
        if isinstance(a, (ops.Other, ops.ExtTag)) and isinstance(b, (ops.Other, ops.ExtTag)):
            self.add(label, ops.mk(a.t == b.t))
            return
        self.add(label, ops.eq(I, a, b))

    def deref(self, x):
        if isinstance(x, SAny):
            for ph in ('body', 'spec'):
                k = (x.t.get_id(), ph)
                if k in self.I.cx.refined and not isinstance(self.I.cx.refined[k][1], (Wrapper,)):
                    return self.I.cx.refined[k][1]
        return x

    def same_dict(self, a, b, label):
        I = self.I
        ea, eb = ops.entries(a), ops.entries(b)
        if ea is not None and eb is not None:
            if all(ops.plain(k) for k, _ in ea + eb):
                da, db = dict(ea), dict(eb)
                if set(da) != set(db):
                    self.add(label + ' (keys)', False)
                    return
                for k in da:
                    self.same(da[k], db[k], f'{label}[{getattr(k, "__name__", k)}]')
                return
        la = a.layers if isinstance(a, SDict) else [('set', k, v) for k, v in a.items()]
        lb = b.layers if isinstance(b, SDict) else [('set', k, v) for k, v in b.items()]
        # what is set or deleted last, under different constant keys, in any order
        ha, ta = self.split(la)
        hb, tb = self.split(lb)
        if len(ha) == len(hb) and all(self.layer_alike(x, y) for x, y in zip(ha, hb)) and \
                {k: len(x) for k, x in ta.items()} == {k: len(x) for k, x in tb.items()}:
            for k in ta:
                if len(ta[k]) == 3:
                    self.same(ta[k][2], tb[k][2], f'{label}[{getattr(k, "__name__", k)}]')
            for x, y in zip(ha, hb):
                if x[0] == 'set':
                    self.same(x[1], y[1], label + ' key')
                    self.same(x[2], y[2], f'{label}[{getattr(x[1], "__name__", x[1])}]')
                elif x[0] == 'del':
                    self.same(x[1], y[1], label + ' key')
            ca, cb = getattr(a, 'cache', {}), getattr(b, 'cache', {})
            for k in ca:
                if k in cb:
                    self.same(ca[k], cb[k], f'{label}[{getattr(k, "__name__", k)}]')
            return
        self.add(label, ops.mk(ops.tov(I, a) == ops.tov(I, b)))

    def split(self, layers):
        i = len(layers)
        while i and layers[i - 1][0] in ('set', 'del') and ops.plain(layers[i - 1][1]):
            i -= 1
        tail = {}
        for x in layers[i:]:
            tail.pop(x[1], None)
            tail[x[1]] = x
        return layers[:i], tail

    def layer_alike(self, x, y):
        if x[0] != y[0]:
            return False
        if x[0] == 'base':
            return z3.eq(x[1], y[1])
        if x[0] in ('set', 'del'):
            return True
        return False


# ---- exploration -----------------------------------------------------------------------------------------

class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.returns = 0
        self.raises = 0
        self.obligations = 0
        self.discharged = 0
        self.failed = []            # dicts: label, values, taint, conds
        self.undecided = []
        self.inlined = set()
        self.used = set()
        self.trusted = set()
        self.seconds = 0.0
        self.solver_s = 0.0
        self.solver_max = 0.0
        self.checks = 0
        self.by = {'structural': 0, 'z3': 0, 'cvc5': 0}


def run_one(c, prefix, contracts, res, thorough=False):
    """One path.  Returns the context (for its trace)."""
    from . import ext
    cx = SymCtx(prefix, c.timeout)
    I = Interp(cx, contracts)
    goals = []
    kind = None
    try:
        s1 = mkstate(c, I)
        cx.phase = 'body'
        pre = getattr(c, 'pre', None)
        r1, e1 = outcome(I, c.impl, s1)
        fresh = dict(cx.memo)
        cx.phase = 'spec'
        s2 = mkstate(c, I)
        I.in_spec = True
        r2, e2 = outcome(I, c.spec, s2)
        if e1 is None and e2 is None:
            kind = 'return'
            cmp = Cmp(I)
            if c.ret:
                cmp.same(r1, r2, 'result')
            if c.watch:
                watch(cmp, s1, s2, c)
            goals = [('returns', True)] + cmp.out
        elif e1 is not None and e2 is not None:
            kind = 'raise'
            cmp = Cmp(I)
            if c.raise_same:
                watch(cmp, s1, s2, c)
            goals = [('raises', True)] + cmp.out
        elif e1 is not None:
            kind = 'raise'
            goals = [(f'returns (but {type(e1).__name__}: {short(e1)} is raised)', False)]
        else:
            kind = 'return'
            goals = [(f'raises {type(e2).__name__}: {short(e2)} (but it returns)', False)]
        if cx.globals_written:
            goals.append(('no writes to shared state: ' + ', '.join(cx.globals_written), False))
    except Infeasible:
        return cx
    except Unsupported as e:
        res.undecided.append(f'unsupported: {e}')
        res.paths += 1
        return cx
    except RecursionError:
        res.undecided.append('unsupported: recursion')
        return cx
    res.paths += 1
    res.inlined |= cx.inlined
    res.used |= cx.used_contracts
    if kind == 'return':
        res.returns += 1
    else:
        res.raises += 1
    # merge all conditions: one solver call when all hold
    conds = []
    for label, g in goals:
        res.obligations += 1
        if isinstance(g, SBool):
            g = z3.simplify(g.t)
        if g is True or (z3.is_expr(g) and z3.is_true(g)):
            res.discharged += 1
            res.by['structural'] += 1
            continue
        conds.append((label, g))
    for label, g in conds:
        neg = z3.BoolVal(True) if g is False else z3.Not(g)
        t0 = time.time()
        cx.solver.push()
        cx.solver.add(neg)
        r = cx.solver.check()
        values.STATS.checks += 1
        dt = time.time() - t0
        values.STATS.time += dt
        values.STATS.max = max(values.STATS.max, dt)
        if r == z3.unsat:
            cx.solver.pop()
            res.discharged += 1
            res.by['z3'] += 1
            if thorough:
                recheck(cx, neg, res)
            continue
        m = None
        if r == z3.unknown:
            cx.solver.pop()
            r, m = again(cx.pc + [neg], c.timeout)
            if r == z3.unsat:
                res.discharged += 1
                res.by['z3'] += 1
                continue
        if r == z3.unknown:
            if cvc5_unsat(cx.pc + [neg]):
                res.discharged += 1
                res.by['cvc5'] += 1
                continue
            res.undecided.append(f'{label}: solver gives no answer')
            continue
        if m is None:
            m = cx.solver.model()
            cx.solver.pop()
        res.failed.append({'label': label, 'taint': list(cx.taint), 'values': concretise(cx, m),
                           'path': [str(x) for x in cx.pc[-6:]] if len(cx.pc) < 400 else [],
                           'goal': str(g)[:2000], 'prefix': [t[0] for t in cx.trace]})
    return cx


def short(e):
    return str(e)[:100]


def mkstate(c, I):
    cx = I.cx
    try:
        s = c.shape(cx)
    except (AttributeError, ImportError) as e:
        raise ShapeMismatch(f'{type(e).__name__}: {e}')
    own(I, s, set())
    return s


def own(I, x, seen):
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, State):
        for v in x.__dict__.values():
            own(I, v, seen)
    elif ops.is_instance_obj(x):
        I.own(x)
        for n in ops.attr_names(x) + ['_parent']:
            v = ops.raw_attr(x, n)
            own(I, v, seen)
    elif isinstance(x, (list, tuple)):
        for e in x:
            own(I, e, seen)
    elif isinstance(x, PList):
        for e in x.items:
            own(I, e, seen)
    elif isinstance(x, dict):
        for e in x.values():
            own(I, e, seen)
    elif isinstance(x, SDict):
        for l in x.layers:
            if l[0] == 'set':
                own(I, l[2], seen)


def outcome(I, f, s):
    try:
        return I.call(f, [s]), None
    except PyRaise as e:
        return None, e.exc


def watch(cmp, s1, s2, c):
    for n in s1.__dict__:
        if n.startswith('_'):
            continue
        cmp.same(s1.__dict__[n], s2.__dict__[n], n)


def recheck(cx, neg, res):
    pass


def again(assertions, ms):
    """The query once more in fresh contexts, with other random choices of the solver."""
    for seed in (1, 2, 3):
        ctx = z3.Context()
        s = z3.Solver(ctx=ctx)
        s.set('timeout', ms)
        s.set('random_seed', seed)
        t0 = time.time()
        s.add(*[a.translate(ctx) for a in assertions])
        r = s.check()
        values.STATS.checks += 1
        values.STATS.time += time.time() - t0
        if r == z3.unsat:
            return z3.unsat, None
        if r == z3.sat:
            return z3.sat, s.model().translate(z3.main_ctx())
    return z3.unknown, None


def cvc5_unsat(assertions, ms=10000):
    """Second opinion from cvc5 on the SMT-LIB text of the query."""
    import subprocess
    s = z3.Solver()
    s.add(*assertions)
    txt = s.to_smt2()
    if '(Seq' in txt and 'seq.nth' in txt:
        pass
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={ms}', '--strings-exp'], input='(set-logic ALL)\n' + txt,
                           capture_output=True, text=True, timeout=ms / 1000 + 5)
    except Exception:
        return False
    return p.stdout.strip().startswith('unsat')


def concretise(cx, m):
    from . import native
    try:
        return native.from_model(cx, m)
    except Exception:
        return {'__error__': traceback.format_exc()[-500:]}


def verify(c, contracts=None, thorough=False, seconds=None, prefixes=None):
    """Explores every path of the contract."""
    from . import ext
    res = Result(c.name)
    t0 = time.time()
    st0 = (values.STATS.checks, values.STATS.time)
    values.STATS.max = 0.0
    limit = seconds or c.seconds
    stack = list(prefixes) if prefixes else [()]
    stack = [list(p) for p in stack]
    try:
        while stack:
            if res.paths >= c.paths or time.time() - t0 > limit:
                res.undecided.append(f'limit reached ({res.paths} paths, {len(stack)} open)')
                break
            if len(res.failed) >= 8:
                break
            prefix = stack.pop()
            cx = run_one(c, prefix, contracts or {}, res, thorough)
            for i in range(len(cx.trace) - 1, len(prefix) - 1, -1):
                alts = cx.trace[i][1]
                if alts:
                    base = [(t[0], t[2]) for t in cx.trace[:i]]
                    for a in alts:
                        stack.append(base + [(a, cx.trace[i][2])])
    except ShapeMismatch as e:
        res.undecided.append(f'shape: {e}')
    except Exception as e:
        res.undecided.append('engine: ' + traceback.format_exc()[-1500:])
    if not res.failed and not res.undecided and not res.returns:
        res.undecided.append('vacuous: no path returns')
    res.trusted = set(ext.TRUSTED)
    res.seconds = time.time() - t0
    res.checks = values.STATS.checks - st0[0]
    res.solver_s = values.STATS.time - st0[1]
    res.solver_max = values.STATS.max
    return res
