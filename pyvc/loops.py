"""Loops over collections of unknown size.

Rule: the body is executed once, for an arbitrary element e of the collection and arbitrary contents of the containers it
accumulates into.  A path of the proof is thereby a case of what the body does for e:

* it raises, returns or breaks for e: the loop ends that way (the accumulators stay arbitrary);
* it does not: the loop is taken to run to its end, and each accumulator becomes `fold(collection, before, effect of e)`,
  a constant that is shared by all loops (of the code and of the specification) over the same collection, from the same
  start, with the same effect for e.

Because e is arbitrary and every case is a path on which the outcomes of code and specification are compared, agreement
on all paths means that the two agree for every element (if some element makes one of them leave the loop, take it as e),
and so that equal constants stand for equal containers.  Names assigned in the body are unusable afterwards, except for
flags set to constants."""
import ast

import z3

from .terms import *
from .values import *
from . import ops

el_m = uf('element', MP, V)
el_l = uf('element', L, V)
MUTATORS = {'append', 'update', 'add', 'extend', 'setdefault', 'pop', 'insert', 'clear', 'remove', 'discard', '__setitem__'}
HASHABLE = [k for k in KINDS if k not in ('list', 'map', 'ext')]


def decisive(I, coll):
    """At most one early exit (other than by an exception) per collection: two could have different witnesses."""
    key = (I.cx.phase, 'exit', coll.get_id())
    if key in I.cx.loopno:
        raise Unsupported('two searches in one unbounded collection')
    I.cx.loopno[key] = 1
    I.cx.keep.append(coll)


class Poison:
    """A name whose value after a loop is not known."""


class Rec:
    def __init__(self, accs):
        self.serial = tick()
        self.accs = {id(a) for a in accs}


class Fold:
    def __init__(self, kind, coll, pre, eff, const):
        self.kind, self.coll, self.pre, self.eff, self.const = kind, coll, pre, eff, const


def guard(I, obj):
    """No writes to containers from outside the loop except its accumulators."""
    for r in I.loops:
        s = getattr(obj, 'serial', None)
        if s is None:
            s = I.serials.get(id(obj), 0)
        if s < r.serial and id(obj) not in r.accs:
            raise Unsupported('a loop over an unbounded collection writes to an object from outside')


def candidates(I, body, env, fr):
    exprs = []
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                exprs.append(n.value)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                exprs.append(n.func.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                exprs.append(n.target)
    out = []
    for e in exprs:
        x = e
        while isinstance(x, ast.Attribute):
            x = x.value
        if not isinstance(x, ast.Name):
            continue
        en = env
        while en is not None and x.id not in en.vars:
            en = en.parent
        if en is None:
            continue
        try:
            v = I.eval(ast.copy_location(_load(e), e), env, fr)
        except Exception:
            continue
        if isinstance(v, (SDict, PList)) and not getattr(v, 'const', False) and all(v is not o for o in out):
            out.append(v)
    return out


def _load(e):
    if isinstance(e, ast.Name):
        return ast.Name(id=e.id, ctx=ast.Load())
    return ast.Attribute(value=_load(e.value), attr=e.attr, ctx=ast.Load())


def assigned(body):
    out = set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out


def loaded(body):
    return {n.id for st in body for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def bottom(I, it):
    """(collection term, condition that it is not empty, maker of the arbitrary element, elements to visit before, after)."""
    cx = I.cx
    c = it.coll
    if it.what == 'list':
        t = c.tail
        gen = getattr(c, 'gen', None)

        def elem():
            if gen is not None and len(gen) == 1:
                return gen[0]
            return generic(I, c)
        if gen is not None and len(gen) != 1:
            raise Unsupported('loop over a filtered list')
        return t, llen(t) > 0, elem, list(c.items), []
    layers = c.layers
    if not layers or layers[0][0] != 'base' or any(l[0] not in ('set', 'del') for l in layers[1:]):
        raise Unsupported('loop over a dictionary made by several updates')
    base = layers[0]
    if any(l[0] == 'set' and any(m[0] == 'del' and ops.truth(I, ops.key_eq(I, l[1], m[1])) for m in layers[i:])
           for i, l in enumerate(layers) if i):
        raise Unsupported('loop over a dictionary with a deleted entry')
    explicit = [l for l in layers[1:] if l[0] == 'set']
    t = base[1]
    sch = base[2]
    low = SDict([base])
    low.__dict__['cache'] = c.__dict__.setdefault('cache', {})

    def pair(k):
        v = ops.dict_find(I, low, k)
        if v is ops.MISSING:
            raise Infeasible()
        return (k, v) if it.what == 'items' else k if it.what == 'keys' else v

    def elem():
        e = el_m(t)
        cx.assume(mhas(t, e))
        cx.assume(msize(t) >= 1)
        key = ('el', e.get_id())
        wire = sch.get('__wire__')
        if key not in cx.memo:
            cx.memo[key] = e
            cx.assume(cx.anywf(e, [k for k in sch.get('__keys__', HASHABLE) if not (wire and k == 'cls')]))
            for k in sch.get('__absent__', ()):
                cx.assume(e != ops.tov(I, k))
        if wire:
            cx.wire.add(e.get_id())
        for k, s in sch.items():
            if isinstance(k, str) and k.startswith('__') or k == '*' or s == 'any':
                continue
            if cx.branch(e == ops.tov(I, k)):
                return gone(k) or pair(k)
        k = SAny(e)
        return gone(k) or pair(k)

    def gone(k):
        for l in layers[1:]:
            if ops.truth(I, ops.key_eq(I, k, l[1])):
                return SKIP
        return None
    after = [(l[1], l[2]) if it.what == 'items' else l[1] if it.what == 'keys' else l[2] for l in explicit]
    return t, msize(t) > 0, elem, [], after


def generic(I, c):
    """The arbitrary element of an unbounded list."""
    cx, t = I.cx, c.tail
    e = el_l(t)
    cx.assume(lcontains(t, e))
    key = ('el', e.get_id())
    wire = getattr(c, 'wire', False)
    if key not in cx.memo:
        cx.memo[key] = e
        cx.assume(cx.anywf(e, WIRE if wire else None))
    ms = cx.memo.get(('members', t.get_id()))
    if ms is not None:
        cx.assume(z3.And(V.is_VCls(e), z3.Or([V.vc(e) == gid(m) for m in ms])))
        return SEnum(V.vc(e), ms)
    ops.wired(I, e, wire)
    return ops.from_v(I, e)


SKIP = object()
WIRE = [k for k in KINDS if k not in ('cls', 'ext')]


def sym_for(I, it, s, env, fr):
    from .interp import _Break, _Continue
    cx = I.cx
    coll, some, elem, before, after = bottom(I, it)

    def plain_run(vs):
        for v in vs:
            I.assign(s.target, v, env, fr)
            try:
                I.block(s.body, env, fr)
            except _Break:
                return True
            except _Continue:
                continue
        return False
    if plain_run(before):
        return
    if any(isinstance(n, (ast.Break, ast.Return)) for st in s.body for n in ast.walk(st)):
        decisive(I, coll)
    if cx.branch(some):
        accs = candidates(I, s.body, env, fr)
        names = assigned(s.body) | assigned([s.target])
        old = {n: env.vars[n] for n in names if n in env.vars}
        saved = havoc(I, accs, coll)
        broke = False
        I.loops.append(Rec(accs))
        try:
            v = elem()
            if v is not SKIP:
                I.assign(s.target, v, env, fr)
                try:
                    I.block(s.body, env, fr)
                except _Continue:
                    pass
                except _Break:
                    broke = True
        finally:
            I.loops.pop()
        if broke:
            return
        finish(I, accs, saved, coll)
        reads = loaded(s.body)
        for n in names:
            if n in old and n in env.vars and env.vars[n] is old[n]:
                continue
            x = env.vars.get(n)
            if n in old and n not in reads and (x is None or isinstance(x, (bool, int, str, bytes))):
                continue
            env.vars[n] = Poison()
    if plain_run(after):
        return
    I.block(s.orelse, env, fr)


def havoc(I, accs, coll):
    cx = I.cx
    saved = []
    n = cx.loopno.get((cx.phase, coll.get_id()), 0)
    cx.loopno[cx.phase, coll.get_id()] = n + 1
    cx.keep.append(coll)
    for i, a in enumerate(accs):
        if isinstance(a, SDict):
            saved.append((list(a.layers), dict(a.__dict__.get('cache', {}))))
            c = uf('partial', coll.sort(), INT, INT, MP)(coll, z3.IntVal(n), z3.IntVal(i))
            cx.assume(msize(c) >= 0)
            a.layers = [('base', c, {}, f'partial{n}.{i}({coll})')]
            a.__dict__['cache'] = {}
        else:
            saved.append((list(a.items), a.tail))
            c = uf('partiall', coll.sort(), INT, INT, L)(coll, z3.IntVal(n), z3.IntVal(i))
            cx.assume(llen(c) >= 0)
            a.items, a.tail, a.log = [], c, []
    return saved


def finish(I, accs, saved, coll):
    for a, pre in zip(accs, saved):
        if isinstance(a, SDict):
            if a.layers[0][0] != 'base':
                raise Unsupported('a loop empties its accumulator')
            eff = a.layers[1:]
            if any(l[0] != 'set' for l in eff):
                raise Unsupported('a loop merges or deletes in its accumulator')
            layers, cache = pre
            eff = [(l[1], l[2]) for l in eff]
            c = fold(I, 'dict', coll, SDict(layers), eff)
            if eff or any(l[0] == 'set' for l in layers):
                I.cx.assume(msize(c) >= 1)
            I.cx.assume(msize(c) >= 0)
            a.layers = [('base', c, {}, f'{c}')]
            a.__dict__['cache'] = {}
        else:
            items, tail = pre
            eff = a.log
            del a.log
            if a.items or tail is not None:
                raise Unsupported('a loop changes its list in another way')
            set_list(I, a, items, coll, eff)


def set_list(I, a, items, coll, eff):
    c = fold(I, 'list', coll, PList(items), eff)
    I.cx.assume(llen(c) >= 0)
    I.cx.assume((llen(c) == 0) == (c == L.nil))
    if eff:
        I.cx.assume(llen(c) >= 1)
    a.items, a.tail, a.gen, a.source = items, c, list(eff), coll


def fold(I, kind, coll, pre, eff):
    cx = I.cx
    for f in cx.folds:
        if f.kind == kind and z3.eq(f.coll, coll) and len(f.eff) == len(eff) and same(I, f.pre, pre) and same(I, f.eff, eff):
            return f.const
    c = z3.Const(f'fold{len(cx.folds)}', MP if kind == 'dict' else L)
    cx.folds.append(Fold(kind, coll, pre, list(eff), c))
    return c


def same(I, a, b):
    from .contract import Cmp
    if isinstance(a, list) and any(isinstance(x, tuple) for x in a):
        a, b = [y for x in a for y in x], [y for x in b for y in x]
    cmp = Cmp(I)
    cmp.same(a, b, '')
    for _, g in cmp.out:
        if isinstance(g, SBool):
            g = g.t
        if g is True:
            continue
        if g is False or not I.cx.entails(g):
            return False
    return True


def sym_comp(I, sc, gens, env, fr, emit):
    """A comprehension with one clause over an unbounded collection: (collection term, [emitted value]) or ready items."""
    if len(gens) != 1 or sc.level != 0:
        raise Unsupported('nested comprehension over an unbounded collection')
    g = gens[0]
    coll, some, elem, before, after = bottom(I, sc.it)
    from .interp import Env

    def one(v):
        inner = Env(env)
        I.assign(g.target, v, inner, fr)
        if all(I.truth(I.eval(c, inner, fr)) for c in g.ifs):
            return [emit(inner)]
        return []
    first, last = [], []
    for v in before:
        first += one(v)
    if not I.cx.branch(some):
        for v in after:
            last += one(v)
        return first, None, None, last
    I.loops.append(Rec([]))
    try:
        v = elem()
        eff = [] if v is SKIP else one(v)
    finally:
        I.loops.pop()
    for v in after:
        last += one(v)
    return first, coll, eff, last


def sym_listcomp(I, sc, e, env, fr):
    first, coll, eff, last = sym_comp(I, sc, e.generators, env, fr, lambda en: I.eval(e.elt, en, fr))
    if coll is None:
        return PList(first + last)
    if last:
        raise Unsupported('list over a dictionary made by several updates')
    p = PList()
    set_list(I, p, first, coll, eff)
    if not e.generators[0].ifs and sc.it.what == 'list':
        I.cx.assume(llen(p.tail) == llen(coll))
    return p


def sym_dictcomp(I, sc, e, env, fr):
    first, coll, eff, last = sym_comp(I, sc, e.generators, env, fr,
                                      lambda en: (I.eval(e.key, en, fr), I.eval(e.value, en, fr)))
    d = SDict()
    for k, v in first:
        ops.dict_set(I, d, k, v)
    if coll is not None:
        effd = SDict([('base', mnil, {}, 'x')])
        for k, v in eff:
            ops.dict_set(I, effd, k, v)
        eff = [(l[1], l[2]) for l in effd.layers[1:]]
        c = fold(I, 'dict', coll, SDict(d.layers), eff)
        if eff or d.layers:
            I.cx.assume(msize(c) >= 1)
        I.cx.assume(msize(c) >= 0)
        d.layers = [('base', c, {}, f'{c}')]
    for k, v in last:
        ops.dict_set(I, d, k, v)
    return d
