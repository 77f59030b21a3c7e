"""Symbolic values, symbolic containers and the per-path context of the symbolic executor."""
import z3
from .terms import *


class Unsupported(Exception):
    """The engine cannot interpret something: the contract stays undecided (never an alarm)."""


class Infeasible(BaseException):
    """The current path contradicts its assumptions."""


class PyRaise(Exception):
    """A Python exception raised by the interpreted program."""
    def __init__(self, exc):
        self.exc = exc


class Sym:
    __slots__ = ()

    def __hash__(self):
        raise Unsupported('hash of symbolic value')

    def __eq__(self, o):
        raise Unsupported('native == on symbolic value')

    def __bool__(self):
        raise Unsupported('native truth of symbolic value')


class _T(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'{type(self).__name__}({self.t})'


class SInt(_T): __slots__ = ()
class SBool(_T): __slots__ = ()
class SBytes(_T): __slots__ = ()
class SStr(_T): __slots__ = ()
class SAny(_T): __slots__ = ()


class SHex(_T):
    """hexlify(x): only int(.., 16) and unhexlify are known of it."""
    __slots__ = ()


class SEnum(Sym):
    """One of a finite set of Python constants; t is its global number."""
    __slots__ = ('t', 'members')

    def __init__(self, t, members):
        self.t = t
        self.members = tuple(members)

    def __repr__(self):
        return f'SEnum({self.t})'


_ticks = [0]


def tick():
    _ticks[0] += 1
    return _ticks[0]


class Wrapper:
    """Mutable containers of interpreted code (identity semantics, like the Python ones)."""
    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        o.serial = tick()
        return o


class PList(Wrapper):
    def __init__(self, items=(), tail=None):
        self.items = list(items)
        self.tail = tail            # None or an L term

    def __repr__(self):
        return f'PList({self.items},{self.tail})'


class MapSeg:
    """Elements produced by a loop over the symbolic collection `base`: `vals` for its arbitrary element."""
    def __init__(self, base, vals, cls):
        self.base, self.vals, self.cls = base, vals, cls


class PSet(Wrapper):
    def __init__(self, items=(), frozen=False):
        self.items = list(items)
        self.frozen = frozen

    def __repr__(self):
        return f'PSet({self.items})'


class SDict(Wrapper):
    """Dictionary: layers (oldest first) of ('base', term, schema, name), ('set', k, v), ('del', k),
    ('map', MapLayer)."""
    def __init__(self, layers=()):
        self.layers = list(layers)

    @property
    def symbolic(self):
        return any(l[0] in ('base', 'map') for l in self.layers)

    def __repr__(self):
        return f'SDict({self.layers})'


class MapLayer:
    """Entries key->val made by a loop over symbolic dict `base`; key/val are those of its arbitrary entry."""
    def __init__(self, base, key, val, ident):
        self.base, self.key, self.val, self.ident = base, key, val, ident


class ItemsView:
    def __init__(self, d, what):
        self.d, self.what = d, what


class BoundM:
    def __init__(self, func, obj):
        self.func, self.obj = func, obj

    def __repr__(self):
        return f'BoundM({getattr(self.func, "__qualname__", self.func)})'


class SymMethod:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return f'SymMethod({self.obj!r}.{self.name})'


class SuperProxy:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Closure:
    def __init__(self, node, env, fr, name):
        self.node, self.env, self.frame, self.name = node, env, fr, name
        self.defaults, self.kwdefaults = [], {}


class ExtObj:
    """An object of a library outside the repository, known by a canonical SMT term."""
    mutable = False

    def __init__(self, pycls, term, **data):
        self.pycls, self.term = pycls, term
        self.__dict__.update(data)

    def __repr__(self):
        return f'ExtObj({getattr(self.pycls, "__name__", self.pycls)}, {self.term})'


class Opaque:
    """A value the engine knows nothing about (tainted)."""
    def __init__(self, why):
        self.why = why


# ---------------------------------------------------------------------------------------------------------

# structure of conditions, by term number (terms are kept alive)
DECOMP = {}
SIMPLE = {}


def decompose(c):
    i = c.get_id()
    d = DECOMP.get(i)
    if d is None:
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            DECOMP[i] = ('not', (decompose(c.arg(0)),), c)
        elif k == z3.Z3_OP_AND:
            DECOMP[i] = ('and', tuple(decompose(x) for x in c.children()), c)
        elif k == z3.Z3_OP_OR:
            DECOMP[i] = ('or', tuple(decompose(x) for x in c.children()), c)
        else:
            DECOMP[i] = ('atom', (), c)
    return i


def simple(c):
    i = c.get_id()
    d = SIMPLE.get(i)
    if d is None:
        r = z3.simplify(c)
        v = True if z3.is_true(r) else False if z3.is_false(r) else None
        d = SIMPLE[i] = (r, v, c)
        SIMPLE.setdefault(r.get_id(), (r, v, r))
    return d


def kterm(k):
    if isinstance(k, bool):
        return V.VBool(k)
    if isinstance(k, int):
        return V.VInt(z3.IntVal(k))
    if isinstance(k, str):
        return V.VStr(z3.StringVal(k))
    if isinstance(k, bytes):
        return V.VBytes(bconst(k))
    return V.VCls(z3.IntVal(gid(k)))


class Stats:
    def __init__(self):
        self.checks = 0
        self.time = 0.0
        self.max = 0.0


STATS = Stats()
import time as _time


class SymCtx:
    """One path: decisions taken so far (replayed from a prefix), path condition, and solver."""
    symbolic = True

    def __init__(self, prefix=(), timeout=8000):
        self.prefix = list(prefix)
        self.trace = []             # [(choice, alternatives still to try, what kind of decision)]
        self.pc = []
        self.solver = z3.SolverFor('ALL') if False else z3.Solver()
        self.solver.set('timeout', timeout)
        self.names = {}
        self.memo = {}
        self.touched = {}           # dict name -> list of concrete keys looked up
        self.touched_sym = {}
        self.created = {}           # leaf name -> (kind, term)
        self.taint = []
        self.refined = {}           # V term id -> container object
        self.globals_written = []
        self.keep = []
        self.skolem = {}            # collection id -> element
        self.notes = set()
        self.urandom = 0
        self.gen = 0
        self.inlined = set()
        self.used_contracts = set()
        self.mapcls = []
        self.fuel = 400000
        self.unknown_branch = 0
        self.loopno, self.folds = {}, []
        self.wire = set()           # ids of terms that come from decoded CBOR
        self.phase = 'body'
        self.rand = {}
        self.lits = {}
        self.model = None
        self.kinds = {}

    # -- solver ---------------------------------------------------------------------------------------
    def check(self, *assumps):
        t0 = _time.time()
        self.solver.push()
        try:
            for a in assumps:
                self.solver.add(a)
            r = self.solver.check()
            if r == z3.sat and self.model is None:
                self.model = self.solver.model()
        finally:
            self.solver.pop()
        dt = _time.time() - t0
        STATS.checks += 1
        STATS.time += dt
        STATS.max = max(STATS.max, dt)
        return r

    def assume(self, c):
        if c is True or (z3.is_expr(c) and z3.is_true(c)):
            return
        if c is False:
            raise Infeasible()
        self.pc.append(c)
        self.solver.add(c)
        self.learn(c)

    def learn(self, c):
        if z3.is_and(c):
            for x in c.children():
                self.learn(x)
            return
        v = True
        if z3.is_not(c):
            c, v = c.arg(0), False
            if z3.is_or(c):
                for x in c.children():
                    self.learn(z3.Not(x))
                return
        self.lits[c.get_id()] = (v, c)
        if self.model is not None and not self.holds(c, v):
            self.model = None

    def holds(self, c, v=True):
        r = self.model.eval(c)
        return z3.is_true(r) if v else z3.is_false(r)

    def lit(self, c):
        return self.lit_id(decompose(c))

    def lit_id(self, i):
        v = True
        kind, kids, n = DECOMP[i]
        while kind == 'not':
            i = kids[0]
            v = not v
            kind, kids, n = DECOMP[i]
        k = self.lits.get(i)
        if k is not None:
            return k[0] if v else not k[0]
        if kind == 'atom':
            return None
        # an undecided disjunction / conjunction: by its parts
        stop = kind == 'or'
        every = True
        for x in kids:
            r = self.lit_id(x)
            if r is None:
                every = False
            elif r is stop:
                return stop if v else not stop
        if every:
            return not stop if v else stop
        return None

    def possible(self, c):
        """z3.sat, z3.unsat or z3.unknown for pc and c, without the solver where possible."""
        k = self.lit(c)
        if k is False:
            return z3.unsat
        if self.model is not None and self.holds(c):
            return z3.sat
        return self.check(c)

    def note(self, s):
        self.notes.add(s)

    def choose(self, conds, label=''):
        """Fork over exclusive and exhaustive conditions (z3 Bools, True or False); returns the index."""
        tag = f'c{len(conds)}'
        if len(self.trace) < len(self.prefix):
            pick = self.replayed(tag)
            self.trace.append((pick, (), tag))
            self.assume(conds[pick])
            return pick
        feas = []
        for k, c in enumerate(conds):
            if c is False or (z3.is_expr(c) and z3.is_false(c)):
                continue
            if c is True or (z3.is_expr(c) and z3.is_true(c)):
                feas.append(k)
                continue
            if not feas and k == len(conds) - 1:
                feas.append(k)      # the only one left
                continue
            r = self.possible(c)
            if r == z3.unsat:
                continue
            if r == z3.unknown:
                self.unknown_branch += 1
            feas.append(k)
        if not feas:
            raise Infeasible()
        self.trace.append((feas[0], feas[1:], tag))
        self.assume(conds[feas[0]])
        return feas[0]

    def branch(self, c, label=''):
        if c is True or c is False:
            return c
        if isinstance(c, SBool):
            c = c.t
        c, k, _ = simple(c)
        if k is not None:
            return k
        k = self.lit(c)
        if k is not None:
            self.forced(0 if k else 1, 'b')
            return k
        if len(self.trace) >= len(self.prefix):
            if self.possible(c) == z3.unsat:
                self.trace.append((1, (), 'b'))
                self.assume(z3.Not(c))
                return False
            if self.possible(z3.Not(c)) == z3.unsat:
                self.trace.append((0, (), 'b'))
                self.assume(c)
                return True
            self.trace.append((0, [1], 'b'))
            self.assume(c)
            return True
        pick = self.replayed('b')
        self.trace.append((pick, (), 'b'))
        self.assume(z3.Not(c) if pick else c)
        return pick == 0

    def replayed(self, tag):
        """The next decision of the prefix; every decision point is recorded, also the forced ones, so that a path is
        the same in every process (term numbers, and with them syntactic short cuts, differ between processes)."""
        pick, t = self.prefix[len(self.trace)]
        if t != tag:
            raise Unsupported('replay of a path diverged')
        return pick

    def forced(self, pick, tag):
        if len(self.trace) < len(self.prefix) and self.replayed(tag) != pick:
            raise Unsupported('replay of a path diverged')
        self.trace.append((pick, (), tag))

    def entails(self, c):
        if c is True or c is False:
            return c
        c, k, _ = simple(c)
        if k is not None:
            return k
        k = self.lit(c)
        if k is not None:
            return k
        return self.possible(z3.Not(c)) == z3.unsat

    # -- leaves for shapes ----------------------------------------------------------------------------
    def _leaf(self, name, kind, mk):
        if name not in self.created:
            self.created[name] = (kind, mk())
        return self.created[name][1]

    def bytes(self, name, lens=None, minlen=None, maxlen=None, gen=None):
        first = name not in self.created
        t = self._leaf(name, 'bytes', lambda: z3.Const(name, BYTES))
        if first:
            n = z3.Length(t)
            if lens is not None:
                self.assume(z3.Or([n == x for x in lens]))
            if minlen is not None:
                self.assume(n >= minlen)
            if maxlen is not None:
                self.assume(n <= maxlen)
        return SBytes(t)

    def int(self, name, lo=None, hi=None):
        first = name not in self.created
        t = self._leaf(name, 'int', lambda: z3.Const(name, INT))
        if first:
            if lo is not None:
                self.assume(t >= lo)
            if hi is not None:
                self.assume(t <= hi)
        return SInt(t)

    def bool(self, name):
        return SBool(self._leaf(name, 'bool', lambda: z3.Const(name, BOOL)))

    def str(self, name):
        return SStr(self._leaf(name, 'str', lambda: z3.Const(name, STR)))

    def any(self, name, kinds=None, gen=None, wire=False):
        first = name not in self.created
        t = self._leaf(name, 'any', lambda: z3.Const(name, V))
        if first:
            self.assume(self.anywf(t, kinds))
            if wire:
                self.wire.add(t.get_id())
                self.keep.append(t)
        return SAny(t)

    def anywf(self, t, kinds=None):
        cs = []
        self.kinds[t.get_id()] = (kinds, t)
        if kinds is not None:
            cs.append(z3.Or([TESTER[k](t) for k in kinds]))
        else:
            cs.append(z3.Not(V.is_VExt(t)))
        cs.append(z3.Implies(V.is_VOther(t), V.vo(t) >= 0))
        return z3.And(cs)

    def enum(self, name, members):
        members = tuple(members)
        if len(members) == 1:
            return members[0]
        first = name not in self.created
        t = self._leaf(name, ('enum', members), lambda: z3.Const(name, INT))
        if first:
            self.assume(z3.Or([t == gid(m) for m in members]))
        return SEnum(t, members)

    def choice(self, name, options):
        """Explicit case split on the shape of the input; the same in every copy of the state."""
        options = list(options)
        if name not in self.memo:
            self.memo[name] = self.choose([True] * len(options), name) if len(options) > 1 else 0
        return options[self.memo[name]]

    def dict(self, name, schema=None, nonempty=None, extra=True):
        first = name not in self.created
        t = self._leaf(name, ('dict', schema or {}), lambda: z3.Const(name, MP))
        if first:
            self.assume(msize(t) >= 0)
            self.touched[name] = []
            self.touched_sym[name] = []
            for k, s in (schema or {}).items():
                if s == 'absent':
                    self.assume(z3.Not(mhas(t, kterm(k))))
                elif isinstance(s, tuple) and s[0] == 'has':
                    kt = kterm(k)
                    self.touched[name].append((k, kt, t))
                    self.assume(z3.And(mhas(t, kt), msize(t) >= 1))
        sch = {k: (s[1] if isinstance(s, tuple) and s[0] == 'has' else s) for k, s in (schema or {}).items() if s != 'absent'}
        gone = [k for k, s in (schema or {}).items() if s == 'absent']
        if gone:
            sch['__absent__'] = gone
        return SDict([('base', t, sch, name)])

    def oplist(self, name, members):
        """A list with elements from members (any length)."""
        first = name not in self.created
        t = self._leaf(name, ('oplist', tuple(members)), lambda: z3.Const(name, L))
        self.memo['members', t.get_id()] = tuple(members)
        if first:
            self.assume(llen(t) >= 0)
            self.assume((llen(t) == 0) == (t == L.nil))
            ms = [lcontains(t, V.VCls(z3.IntVal(gid(m)))) for m in members]
            self.assume(z3.Implies(llen(t) == 0, z3.Not(z3.Or(ms))))
            self.assume(z3.Implies(llen(t) > 0, z3.Or(ms)))
        return PList([], tail=t)

    def lst(self, items):
        return PList(items)

    def pydict(self, items):
        return SDict([('set', k, v) for k, v in items])

    def fresh_name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return f'{base}!{n}'
