"""AST interpreter for the real functions of /repo (and for the specification functions) over symbolic values.

Nothing of the code under verification is rewritten: the function object found at run time names a file and a line,
the module's source is parsed, and the definition at that line is evaluated.  Whatever the evaluator does not know
raises Unsupported, which makes the contract undecided (never an alarm)."""
import ast
import builtins
import inspect
import linecache
import os
import sys
import types

import z3

from . import ops
from .terms import *
from .values import *

REPO = '/repo/'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INTERP_DIRS = (REPO + 'pycose', os.path.join(HERE, 'specs'))

_index = {}


def _module_index(filename, lines=None):
    if filename in _index:
        return _index[filename]
    if lines is None:
        if os.path.isfile(filename):
            src = open(filename).read()
        else:
            src = ''.join(linecache.getlines(filename))
    else:
        src = lines
    idx = {}
    tree = ast.parse(src)
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            ln = min([n.lineno] + [d.lineno for d in n.decorator_list])
            idx.setdefault((ln, n.name), []).append(n)
        elif isinstance(n, ast.Lambda):
            idx.setdefault((n.lineno, '<lambda>'), []).append(n)
    _index[filename] = idx
    return idx


def source_of(func):
    """AST node of a Python function, None if it is not one we interpret."""
    code = func.__code__
    fn = code.co_filename
    if fn.startswith(INTERP_DIRS):
        pass
    elif fn.startswith('<attrs generated'):
        pass
    elif fn == '<frozen _collections_abc>' or fn.endswith('/_collections_abc.py'):
        import _collections_abc
        fn = _collections_abc.__file__
        if not fn.endswith('.py'):
            fn = os.path.join(os.path.dirname(os.__file__), '_collections_abc.py')
    else:
        return None
    nodes = _module_index(fn).get((code.co_firstlineno, code.co_name), [])
    if len(nodes) != 1:
        raise Unsupported(f'source of {func.__qualname__} is ambiguous')
    return nodes[0]


class Env:
    __slots__ = ('vars', 'parent', 'nonlocals', 'globals_')

    def __init__(self, parent=None):
        self.vars = {}
        self.parent = parent
        self.nonlocals = ()
        self.globals_ = ()


class Frame:
    def __init__(self, func, globs, first=None, defcls=None):
        self.func, self.globals, self.first, self.defcls = func, globs, first, defcls


class _Return(BaseException):
    def __init__(self, v):
        self.v = v


class _Break(BaseException):
    pass


class _Continue(BaseException):
    pass


_MISSING = object()
MAXDEPTH = 60


class Interp:
    def __init__(self, cx, contracts=None):
        self.cx = cx
        cx.interp = self
        self.contracts = contracts or {}
        self.disabled = set()
        self.depth = 0
        self.owned = set()
        self.loops, self.serials = [], {}
        self.in_spec = False

    # ---- calling -------------------------------------------------------------------------------------
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        self.cx.fuel -= 1
        if self.cx.fuel < 0:
            raise Unsupported('out of fuel')
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs)
        if isinstance(f, (BoundM, types.MethodType)):
            func, obj = (f.func, f.obj) if isinstance(f, BoundM) else (f.__func__, f.__self__)
            return self.call(func, [obj] + args, kwargs)
        if isinstance(f, SymMethod):
            return ops.sym_method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, types.FunctionType):
            return self.call_function(f, args, kwargs)
        if isinstance(f, SEnum):
            k = self.cx.choose([f.t == gid(m) for m in f.members], 'call')
            return self.call(f.members[k], args, kwargs)
        if isinstance(f, (Sym, Wrapper, type(None), int, str, bytes)):
            if isinstance(f, (SAny, ops.TypeOf)):
                v = ops.refine(self, f)
                return self.call(v, args, kwargs)
            self.throw(TypeError, 'object is not callable')
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        return ops.call_external(self, f, args, kwargs)

    def call_function(self, f, args, kwargs):
        from . import ext
        m = ext.FUNC.get(f)
        if m is not None:
            return m(self, *args, **kwargs)
        c = self.contracts.get(f)
        if c is not None and f not in self.disabled and not self.in_spec:
            r = c.apply(self, args, kwargs)
            if r is not NotImplemented:
                self.cx.used_contracts.add(c.name)
                return r[0]
        node = source_of(f)
        if node is None:
            return ops.call_external(self, f, args, kwargs)
        if not self.in_spec and f.__code__.co_filename.startswith(REPO):
            self.cx.inlined.add(f.__module__ + '.' + f.__qualname__)
        env = Env()
        cl = f.__closure__
        if cl:
            outer = Env()
            for n, cell in zip(f.__code__.co_freevars, cl):
                try:
                    outer.vars[n] = cell.cell_contents
                except ValueError:
                    pass
            env.parent = outer
        fr = Frame(f, f.__globals__, args[0] if args else None)
        self.bind(node.args, args, dict(kwargs), env, list(f.__defaults__ or ()), f.__kwdefaults__ or {}, f.__qualname__)
        return self.run_body(node, env, fr)

    def call_closure(self, c, args, kwargs):
        env = Env(c.env)
        self.bind(c.node.args, args, dict(kwargs), env, c.defaults, c.kwdefaults, c.name)
        fr = c.frame
        if isinstance(c.node, ast.Lambda):
            return self.eval(c.node.body, env, fr)
        return self.run_body(c.node, env, fr)

    def run_body(self, node, env, fr):
        for n in ast.walk(node):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                # generators of nested functions are found as well: conservative
                raise Unsupported('generator')
        if isinstance(node, ast.Lambda):
            return self.eval(node.body, env, fr)
        self.depth += 1
        if self.depth > MAXDEPTH:
            raise Unsupported('recursion too deep')
        try:
            self.block(node.body, env, fr)
        except _Return as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    def bind(self, a, args, kwargs, env, defaults, kwdefaults, name):
        pos = [x.arg for x in a.posonlyargs + a.args]
        n = len(pos)
        if len(args) > n and not a.vararg:
            self.throw(TypeError, f'{name}() takes {n} positional arguments but {len(args)} were given')
        for i, p in enumerate(pos):
            if i < len(args):
                if p in kwargs:
                    self.throw(TypeError, f'{name}() got multiple values for argument {p}')
                env.vars[p] = args[i]
            elif p in kwargs and i >= len(a.posonlyargs):
                env.vars[p] = kwargs.pop(p)
            else:
                j = i - (n - len(defaults))
                if j < 0:
                    self.throw(TypeError, f'{name}() missing argument {p}')
                env.vars[p] = defaults[j]
        if a.vararg:
            env.vars[a.vararg.arg] = tuple(args[n:])
        for k in a.kwonlyargs:
            if k.arg in kwargs:
                env.vars[k.arg] = kwargs.pop(k.arg)
            elif k.arg in kwdefaults:
                env.vars[k.arg] = kwdefaults[k.arg]
            else:
                self.throw(TypeError, f'{name}() missing keyword argument {k.arg}')
        if a.kwarg:
            d = SDict([('set', k, v) for k, v in kwargs.items()])
            env.vars[a.kwarg.arg] = d
        elif kwargs:
            self.throw(TypeError, f'{name}() got an unexpected keyword argument')

    def instantiate(self, cls, args, kwargs):
        from . import ext
        m = ext.CLASS.get(cls)
        if m is not None:
            return m(self, *args, **kwargs)
        if issubclass(cls, BaseException):
            try:
                return cls(*args, **kwargs)
            except Exception as e:
                raise Unsupported(f'exception constructor {e}')
        mod = cls.__module__
        if mod.startswith('pycose') or mod.startswith('specs') or mod == '__main__':
            try:
                obj = object.__new__(cls)
            except TypeError as e:
                raise PyRaise(e)
            self.own(obj)
            init = inspect.getattr_static(cls, '__init__')
            if isinstance(init, types.FunctionType):
                self.call(init, [obj] + list(args), kwargs)
            elif args or kwargs:
                self.throw(TypeError, f'{cls.__name__}() takes no arguments')
            return obj
        return ops.call_external(self, cls, list(args), kwargs)

    def own(self, obj):
        self.cx.keep.append(obj)
        self.owned.add(id(obj))
        self.serials.setdefault(id(obj), tick())

    def throw(self, cls, *args):
        raise PyRaise(cls(*args))

    # ---- statements ----------------------------------------------------------------------------------
    def block(self, body, env, fr):
        for s in body:
            self.stmt(s, env, fr)

    def stmt(self, s, env, fr):
        self.cx.fuel -= 1
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(s).__name__)
        m(s, env, fr)

    def s_Expr(self, s, env, fr):
        self.eval(s.value, env, fr)

    def s_Pass(self, s, env, fr):
        pass

    def s_Return(self, s, env, fr):
        raise _Return(None if s.value is None else self.eval(s.value, env, fr))

    def s_Break(self, s, env, fr):
        raise _Break()

    def s_Continue(self, s, env, fr):
        raise _Continue()

    def s_If(self, s, env, fr):
        if self.truth(self.eval(s.test, env, fr)):
            self.block(s.body, env, fr)
        else:
            self.block(s.orelse, env, fr)

    def s_Assert(self, s, env, fr):
        if not self.truth(self.eval(s.test, env, fr)):
            self.throw(AssertionError)

    def s_Raise(self, s, env, fr):
        if s.exc is None:
            cur = getattr(self, 'handling', None)
            if not cur:
                raise Unsupported('bare raise')
            raise PyRaise(cur[-1])
        e = self.eval(s.exc, env, fr)
        if isinstance(e, type):
            e = self.call(e)
        if s.cause is not None:
            self.eval(s.cause, env, fr)
        if not isinstance(e, BaseException):
            self.throw(TypeError, 'exceptions must derive from BaseException')
        raise PyRaise(e)

    def s_Try(self, s, env, fr):
        try:
            try:
                self.block(s.body, env, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.eval(h.type, env, fr)
                        ok = isinstance(e.exc, tuple(t) if isinstance(t, (tuple, list)) else t)
                    if ok:
                        if h.name:
                            env.vars[h.name] = e.exc
                        self.__dict__.setdefault('handling', []).append(e.exc)
                        try:
                            self.block(h.body, env, fr)
                        finally:
                            self.handling.pop()
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env, fr)
        except (PyRaise, _Return, _Break, _Continue):
            self.block(s.finalbody, env, fr)
            raise
        else:
            self.block(s.finalbody, env, fr)

    def s_FunctionDef(self, s, env, fr):
        c = Closure(s, env, fr, s.name)
        c.defaults = [self.eval(d, env, fr) for d in s.args.defaults]
        c.kwdefaults = {k.arg: self.eval(d, env, fr) for k, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        if s.decorator_list:
            raise Unsupported('decorated local function')
        env.vars[s.name] = c

    def s_Nonlocal(self, s, env, fr):
        env.nonlocals = tuple(env.nonlocals) + tuple(s.names)

    def s_Global(self, s, env, fr):
        env.globals_ = tuple(env.globals_) + tuple(s.names)

    def s_Import(self, s, env, fr):
        for a in s.names:
            mod = __import__(a.name)
            if a.asname:
                mod = sys.modules[a.name]
            env.vars[a.asname or a.name.split('.')[0]] = mod

    def s_ImportFrom(self, s, env, fr):
        import importlib
        pkg = fr.globals.get('__package__')
        mod = importlib.import_module(('.' * s.level) + (s.module or ''), pkg)
        for a in s.names:
            if a.name == '*':
                raise Unsupported('import *')
            try:
                v = getattr(mod, a.name)
            except AttributeError:
                v = importlib.import_module(mod.__name__ + '.' + a.name)
            env.vars[a.asname or a.name] = v

    def s_Assign(self, s, env, fr):
        v = self.eval(s.value, env, fr)
        for t in s.targets:
            self.assign(t, v, env, fr)

    def s_AnnAssign(self, s, env, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env, fr), env, fr)

    def s_AugAssign(self, s, env, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env, fr)
            new = ops.binop(self, type(s.op).__name__, old, self.eval(s.value, env, fr), inplace=True)
            self.assign(t, new, env, fr)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, env, fr)
            new = ops.binop(self, type(s.op).__name__, self.getattr(obj, t.attr), self.eval(s.value, env, fr), inplace=True)
            self.setattr(obj, t.attr, new)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, env, fr)
            i = self.eval(t.slice, env, fr)
            new = ops.binop(self, type(s.op).__name__, ops.getitem(self, obj, i), self.eval(s.value, env, fr), inplace=True)
            ops.setitem(self, obj, i, new)
        else:
            raise Unsupported('augmented assignment')

    def s_Delete(self, s, env, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                ops.delitem(self, self.eval(t.value, env, fr), self.eval(t.slice, env, fr))
            elif isinstance(t, ast.Attribute):
                ops.delattr_(self, self.eval(t.value, env, fr), t.attr)
            else:
                raise Unsupported('del')

    def s_For(self, s, env, fr):
        it = ops.iterate(self, self.eval(s.iter, env, fr))
        if isinstance(it, ops.SymIter):
            return ops.sym_for(self, it, s, env, fr)
        for v in it:
            self.assign(s.target, v, env, fr)
            try:
                self.block(s.body, env, fr)
            except _Break:
                return
            except _Continue:
                continue
        self.block(s.orelse, env, fr)

    def s_While(self, s, env, fr):
        n = 0
        while self.truth(self.eval(s.test, env, fr)):
            n += 1
            if n > 300:
                raise Unsupported('while loop bound')
            try:
                self.block(s.body, env, fr)
            except _Break:
                return
            except _Continue:
                continue
        self.block(s.orelse, env, fr)

    def s_With(self, s, env, fr):
        raise Unsupported('with')

    def assign(self, t, v, env, fr):
        if isinstance(t, ast.Name):
            if t.id in env.globals_:
                self.cx.globals_written.append(t.id)
                raise Unsupported('global assignment')
            e = env
            if t.id in env.nonlocals:
                e = env.parent
                while e is not None and t.id not in e.vars:
                    e = e.parent
                if e is None:
                    raise Unsupported('nonlocal')
            e.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            ops.setitem(self, self.eval(t.value, env, fr), self.eval(t.slice, env, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = list(ops.iterate(self, v, concrete=True))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                post = len(t.elts) - i - 1
                if len(items) < i + post:
                    self.throw(ValueError, 'not enough values to unpack')
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, env, fr)
                self.assign(t.elts[i].value, PList(items[i:len(items) - post]), env, fr)
                for e, x in zip(t.elts[i + 1:], items[len(items) - post:]):
                    self.assign(e, x, env, fr)
                return
            if len(items) != len(t.elts):
                self.throw(ValueError, 'wrong number of values to unpack')
            for e, x in zip(t.elts, items):
                self.assign(e, x, env, fr)
        else:
            raise Unsupported('assignment target')

    # ---- expressions ---------------------------------------------------------------------------------
    def eval(self, e, env, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        return m(e, env, fr)

    def truth(self, v):
        return ops.truth(self, v)

    def lookup(self, name, env, fr):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if type(v).__name__ == 'Poison':
                    raise Unsupported(f'{name} used after the loop that sets it')
                return v
            e = e.parent
        if name in fr.globals:
            return fr.globals[name]
        if name == '__class__' and fr.defcls:
            return fr.defcls
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.throw(NameError, name)

    def e_Constant(self, e, env, fr):
        return e.value

    def e_Name(self, e, env, fr):
        return self.lookup(e.id, env, fr)

    def e_Attribute(self, e, env, fr):
        return self.getattr(self.eval(e.value, env, fr), e.attr)

    def e_Subscript(self, e, env, fr):
        return ops.getitem(self, self.eval(e.value, env, fr), self.eval(e.slice, env, fr))

    def e_Slice(self, e, env, fr):
        f = lambda x: None if x is None else self.eval(x, env, fr)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def elts(self, es, env, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(ops.iterate(self, self.eval(x.value, env, fr), concrete=True))
            else:
                out.append(self.eval(x, env, fr))
        return out

    def e_Tuple(self, e, env, fr):
        return tuple(self.elts(e.elts, env, fr))

    def e_List(self, e, env, fr):
        return PList(self.elts(e.elts, env, fr))

    def e_Set(self, e, env, fr):
        s = PSet()
        for x in self.elts(e.elts, env, fr):
            ops.set_add(self, s, x)
        return s

    def e_Dict(self, e, env, fr):
        d = SDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                ops.dict_update(self, d, self.eval(v, env, fr))
            else:
                kk = self.eval(k, env, fr)
                ops.setitem(self, d, kk, self.eval(v, env, fr))
        return d

    def e_BoolOp(self, e, env, fr):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return False if isinstance(v, SBool) else v
            if isinstance(e.op, ast.Or) and t:
                return True if isinstance(v, SBool) else v
        return v

    def e_UnaryOp(self, e, env, fr):
        v = self.eval(e.operand, env, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                return SBool(z3.Not(v.t))
            return not self.truth(v)
        return ops.unop(self, type(e.op).__name__, v)

    def e_BinOp(self, e, env, fr):
        a = self.eval(e.left, env, fr)
        b = self.eval(e.right, env, fr)
        return ops.binop(self, type(e.op).__name__, a, b)

    def e_Compare(self, e, env, fr):
        left = self.eval(e.left, env, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, env, fr)
            res = ops.compare(self, type(op).__name__, left, right)
            if i == len(e.ops) - 1:
                return res
            if not self.truth(res):
                return False
            left = right
        return res

    def e_IfExp(self, e, env, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, env, fr)) else e.orelse, env, fr)

    def e_NamedExpr(self, e, env, fr):
        v = self.eval(e.value, env, fr)
        self.assign(e.target, v, env, fr)
        return v

    def e_Lambda(self, e, env, fr):
        c = Closure(e, env, fr, '<lambda>')
        c.defaults = [self.eval(d, env, fr) for d in e.args.defaults]
        c.kwdefaults = {k.arg: self.eval(d, env, fr) for k, d in zip(e.args.kwonlyargs, e.args.kw_defaults) if d is not None}
        return c

    def e_JoinedStr(self, e, env, fr):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.eval(p.value, env, fr)
                if isinstance(v, (str, int)) and not isinstance(v, (Sym, type)) and p.format_spec is None and p.conversion == -1:
                    parts.append(str(v))
                else:
                    parts.append(None)
        if None in parts:
            return ops.opaque_str(self, parts)
        return ''.join(parts)

    def e_Call(self, e, env, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            f = self.lookup('super', env, fr)
            if f is builtins.super:
                return self.do_super([self.eval(a, env, fr) for a in e.args], env, fr)
        f = self.eval(e.func, env, fr)
        args = self.elts(e.args, env, fr)
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, env, fr)
            if k.arg is None:
                for kk, vv in ops.dict_items_concrete(self, v):
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs)

    def do_super(self, args, env, fr):
        if args:
            cls, obj = args
            if isinstance(obj, SEnum):
                raise Unsupported('super of SEnum')
            return SuperProxy(cls, obj)
        cls = None
        e = env
        while e is not None:
            if '__class__' in e.vars:
                cls = e.vars['__class__']
                break
            e = e.parent
        if cls is None:
            raise Unsupported('super() without class cell')
        return SuperProxy(cls, fr.first)

    def comp(self, gens, env, fr, emit):
        """Runs the comprehension clauses; emit(env) for every element."""
        def rec(i, env):
            if i == len(gens):
                emit(env)
                return
            g = gens[i]
            it = ops.iterate(self, self.eval(g.iter, env, fr))
            if isinstance(it, ops.SymIter):
                raise ops.SymComp(it, i)
            for v in it:
                inner = Env(env)
                self.assign(g.target, v, inner, fr)
                if all(self.truth(self.eval(c, inner, fr)) for c in g.ifs):
                    rec(i + 1, inner)
        rec(0, Env(env))

    def e_ListComp(self, e, env, fr):
        out = []
        try:
            self.comp(e.generators, env, fr, lambda en: out.append(self.eval(e.elt, en, fr)))
        except ops.SymComp as sc:
            return ops.sym_listcomp(self, sc, e, env, fr)
        return PList(out)

    def e_SetComp(self, e, env, fr):
        s = PSet()
        try:
            self.comp(e.generators, env, fr, lambda en: ops.set_add(self, s, self.eval(e.elt, en, fr)))
        except ops.SymComp:
            raise Unsupported('set comprehension over symbolic collection')
        return s

    def e_GeneratorExp(self, e, env, fr):
        return self.e_ListComp(e, env, fr)

    def e_DictComp(self, e, env, fr):
        d = SDict()

        def emit(en):
            k = self.eval(e.key, en, fr)
            ops.setitem(self, d, k, self.eval(e.value, en, fr))
        try:
            self.comp(e.generators, env, fr, emit)
        except ops.SymComp as sc:
            return ops.sym_dictcomp(self, sc, e, env, fr)
        return d

    # ---- attributes ----------------------------------------------------------------------------------
    def getattr(self, obj, name, default=_MISSING):
        return ops.getattr_(self, obj, name, default)

    def setattr(self, obj, name, v):
        return ops.setattr_(self, obj, name, v)
