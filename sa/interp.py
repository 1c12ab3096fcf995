"""Abstract interpreter over the Python syntax tree of the repository.

Structure (lists, dicts, shapes, indices, strings, control over sizes) is
propagated as constants; arrays are abstract (nd.Arr over tn.Sym); a condition
whose truth is not determined by the abstraction makes the analysis consider
both outcomes (trace partitioning, bounded).  Nothing of the repository is
imported or executed."""
from __future__ import annotations
import ast, os, sys, types, warnings, operator, itertools, functools, math, builtins
import numpy as np
from fractions import Fraction
from . import tn, nd
from .nd import Arr, UBool, Unsupported, Raise, Hook
from .tn import DomainError, ShapeError

REPO = os.environ.get("XMPS_REPO", "/repo")


class Budget(Unsupported):
    pass


class Env:
    __slots__ = ("vars", "parent", "module", "locals", "globals_decl", "nonlocals", "isclass", "func")

    def __init__(self, parent, module, localnames=(), isclass=False, func=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.locals = localnames
        self.globals_decl = set()
        self.nonlocals = set()
        self.isclass = isclass
        self.func = func


class Mod:
    def __init__(self, name, path, tree):
        self.name = name
        self.path = path
        self.tree = tree
        self.vars = {"__name__": name, "__file__": path, "__doc__": None}
        self.loaded = False

    def __repr__(self):
        return "<module %s>" % self.name


class ExtModule:
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "<ext %s>" % self.path


class Stub:
    """an external object the analysis attaches no meaning to"""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "<stub %s>" % self.path

    def __call__(self, *a, **k):
        return Stub(self.path + "()")

    def __iter__(self):
        return iter(())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class ExtFunc:
    def __init__(self, path, fn):
        self.path = path
        self.fn = fn
        self.__name__ = path.split(".")[-1]

    def __call__(self, *a, **k):
        return call_model(self, a, k)

    def __repr__(self):
        return "<extfunc %s>" % self.path

    def __eq__(self, o):
        return isinstance(o, ExtFunc) and o.fn is self.fn and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class Func:
    def __init__(self, interp, node, env, module, name, cls=None):
        self.interp = interp
        self.node = node
        self.env = env
        self.module = module
        self.name = name
        self.__name__ = name
        self.qualname = name
        self.cls = cls
        self.defaults = []
        self.kwdefaults = {}
        self.attrs = {}
        body = node.body if not isinstance(node, ast.Lambda) else [node.body]
        self.isgen = _has_yield(node)
        self.localnames = _locals_of(node)

    def __call__(self, *a, **k):
        return self.interp.call_func(self, list(a), k)

    def __repr__(self):
        return "<func %s.%s>" % (self.module.name, self.qualname)


class BMethod:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_
        self.__name__ = getattr(func, "__name__", "method")

    def __call__(self, *a, **k):
        return self.func(self.self_, *a, **k)

    def __eq__(self, o):
        return isinstance(o, BMethod) and o.func is self.func and o.self_ is self.self_

    def __hash__(self):
        return hash((id(self.func), id(self.self_)))

    def __repr__(self):
        return "<bound %r>" % (self.func,)


class Prop:
    def __init__(self, fget=None, fset=None):
        self.fget, self.fset = fget, fset

    def setter(self, f):
        return Prop(self.fget, f)

    def getter(self, f):
        return Prop(f, self.fset)


class SM:
    def __init__(self, f):
        self.f = f


class CM:
    def __init__(self, f):
        self.f = f


class Cls:
    def __init__(self, interp, name, bases, module):
        self.interp = interp
        self.name = name
        self.__name__ = name
        self.bases = bases
        self.d = {}
        self.module = module
        self.mro = self._mro()

    def _mro(self):
        res = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro:
                    if c in res:
                        res.remove(c)
                    res.append(c)
            else:
                if b not in res:
                    res.append(b)
        return res

    def lookup(self, name, after=None):
        mro = self.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, Cls):
                if name in c.d:
                    return c.d[name], c
            else:
                m = EXTBASE.get(getattr(c, "path", None) or getattr(c, "__name__", None), {})
                if name in m:
                    return m[name], c
        return None, None

    def issub(self, other):
        return other in self.mro

    def __call__(self, *a, **k):
        return self.interp.instantiate(self, a, k)

    def __repr__(self):
        return "<class %s.%s>" % (self.module.name if self.module else "?", self.name)


_inst_n = itertools.count()


class Inst:
    def __init__(self, cls):
        object.__setattr__(self, "cls", cls)
        object.__setattr__(self, "d", {})
        object.__setattr__(self, "n", next(_inst_n))

    def __repr__(self):
        return "<%s #%d>" % (self.cls.name, self.n)

    def _m(self, name):
        f, c = self.cls.lookup(name)
        return f

    def __call__(self, *a, **k):
        f = self._m("__call__")
        if f is None:
            raise Raise(TypeError, "'%s' object is not callable" % self.cls.name)
        return f(self, *a, **k)

    def __len__(self):
        f = self._m("__len__")
        if f is None:
            raise Raise(TypeError, "object of type '%s' has no len()" % self.cls.name)
        return operator.index(f(self))

    def __bool__(self):
        f = self._m("__bool__")
        if f is not None:
            return self.cls.interp.truth(f(self))
        f = self._m("__len__")
        if f is not None:
            return operator.index(f(self)) != 0
        return True

    def __getitem__(self, k):
        f = self._m("__getitem__")
        if f is None:
            raise Raise(TypeError, "'%s' object is not subscriptable" % self.cls.name)
        return f(self, k)

    def __setitem__(self, k, v):
        f = self._m("__setitem__")
        if f is None:
            raise Raise(TypeError, "'%s' object does not support item assignment" % self.cls.name)
        f(self, k, v)

    def __delitem__(self, k):
        f = self._m("__delitem__")
        if f is None:
            raise Raise(TypeError, "no __delitem__")
        f(self, k)

    def __contains__(self, x):
        f = self._m("__contains__")
        if f is not None:
            return self.cls.interp.truth(f(self, x))
        for y in self:
            if y is x or self.cls.interp.truth(y == x):
                return True
        return False

    def __iter__(self):
        f = self._m("__iter__")
        if f is not None:
            return iter(f(self))
        f = self._m("__getitem__")
        if f is None:
            raise Raise(TypeError, "'%s' object is not iterable" % self.cls.name)

        def g():
            i = 0
            while True:
                try:
                    v = f(self, i)
                except Raise as e:
                    if e.exc is IndexError:
                        return
                    raise
                yield v
                i += 1
                if i > 10000:
                    raise Unsupported("endless iteration")
        return g()

    def __array_items__(self):
        return iter(self)

    def __next__(self):
        f = self._m("__next__")
        if f is None:
            raise Raise(TypeError, "not an iterator")
        try:
            return f(self)
        except Raise as e:
            if e.exc is StopIteration:
                raise StopIteration
            raise

    def __eq__(self, o):
        f = self._m("__eq__")
        if f is None:
            return self is o
        return f(self, o)

    def __ne__(self, o):
        f = self._m("__ne__")
        if f is None:
            r = self.__eq__(o)
            return ~r if isinstance(r, UBool) else not r
        return f(self, o)

    def __hash__(self):
        return hash(self.n)

    def __enter__(self):
        return self._m("__enter__")(self)

    def __exit__(self, *a):
        return self._m("__exit__")(self, *a)


def _inst_bin(name):
    def f(self, o):
        m = self._m(name)
        if m is None:
            return NotImplemented
        return m(self, o)
    return f


for _n in ["add", "sub", "mul", "truediv", "matmul", "pow", "mod", "floordiv", "and", "or", "xor",
           "radd", "rsub", "rmul", "rtruediv", "rmatmul", "rpow", "lt", "le", "gt", "ge",
           "iadd", "isub", "imul", "itruediv"]:
    setattr(Inst, "__%s__" % _n, _inst_bin("__%s__" % _n))
Inst.__neg__ = lambda self: _un(self, "__neg__")
Inst.__abs__ = lambda self: _un(self, "__abs__")
Inst.__invert__ = lambda self: _un(self, "__invert__")


def _un(self, name):
    m = self._m(name)
    if m is None:
        raise Raise(TypeError, "bad operand type for unary: %s" % self.cls.name)
    return m(self)


class Super:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Slots:
    pass


def _has_yield(node):
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def _targets(t, out):
    if isinstance(t, ast.Name):
        out.add(t.id)
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            _targets(e, out)
    elif isinstance(t, ast.Starred):
        _targets(t.value, out)


def _locals_of(node):
    """names local to a function (CPython rule)"""
    names = set()
    nonl = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            names.add(n.name)
            for d in n.decorator_list:
                stack.append(d)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus inside comprehension binds outside
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    _targets(m.target, names)
            continue
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    return names - nonl


class Ret:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


BRK, CNT = object(), object()

BINOPS = {ast.Add: ("+", operator.add), ast.Sub: ("-", operator.sub), ast.Mult: ("*", operator.mul),
          ast.Div: ("/", operator.truediv), ast.FloorDiv: ("//", operator.floordiv), ast.Mod: ("%", operator.mod),
          ast.Pow: ("**", operator.pow), ast.MatMult: ("@", operator.matmul), ast.BitAnd: ("&", operator.and_),
          ast.BitOr: ("|", operator.or_), ast.BitXor: ("^", operator.xor), ast.LShift: ("<<", operator.lshift),
          ast.RShift: (">>", operator.rshift)}
INPLACE = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv,
           ast.FloorDiv: operator.ifloordiv, ast.Mod: operator.imod, ast.Pow: operator.ipow,
           ast.MatMult: operator.imatmul, ast.BitAnd: operator.iand, ast.BitOr: operator.ior,
           ast.BitXor: operator.ixor, ast.LShift: operator.ilshift, ast.RShift: operator.irshift}

PYERR = (TypeError, ValueError, IndexError, KeyError, AttributeError, ZeroDivisionError, OverflowError,
         StopIteration, UnboundLocalError, NameError, AssertionError, RecursionError)

_tree_cache = {}


def parse_file(path):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _tree_cache:
        with open(path, encoding="utf-8") as f, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _tree_cache[k] = ast.parse(f.read(), path)
    return _tree_cache[k]


class Path:
    """one partition of the trace space: the outcomes assumed for undetermined conditions"""

    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.taken = []
        self.known = {}
        self.where = []


class Interp(Hook):
    def __init__(self, repo=REPO, pkg="xmps", maxsteps=4_000_000):
        self.repo = repo
        self.pkg = pkg
        self.modules = {}
        self.path = None
        self.steps = 0
        self.maxsteps = maxsteps
        self.stack = []
        self.node = None
        self.functions = set()     # analysed functions
        self.callsites = set()
        self.files = {}
        self.summaries = {}        # qualname -> python callable
        self.writes = []
        self.uid = itertools.count()
        self.depth = 0
        self.events = []
        self.ext_used = set()
        nd.HOOK = self
        self.loop_unknown = 2

    # ---------------------------------------------------------- hooks
    def wrote(self, buf):
        n = self.node
        buf.writes.append((self.where(),))

    def where(self):
        n = self.node
        if self.stack:
            f = self.stack[-1]
            return "%s:%s (%s)" % (f.module.path.replace(self.repo + "/", ""), getattr(n, "lineno", "?"), f.qualname)
        return "?:%s" % getattr(n, "lineno", "?")

    def trace(self):
        r = []
        for f in self.stack:
            r.append("%s" % f.qualname)
        return " > ".join(r)

    def decide(self, ub):
        p = self.path
        if p is None:
            raise Unsupported("undecided condition at %s" % self.where())
        k = ub.key
        if k in p.known:
            v = p.known[k]
        else:
            i = len(p.taken)
            if i < len(p.prefix):
                v = p.prefix[i]
            else:
                v = True
            p.taken.append(v)
            p.where.append(self.where())
            p.known[k] = v
            if len(p.taken) > 64:
                raise Budget("too many undetermined conditions")
        return (not v) if ub.neg else v

    def explore(self, fn, maxpaths=32):
        """run fn under every combination of undetermined conditions (bounded);
        yields (path, outcome) with outcome ('ok', value) | ('raise', Raise) | ('unsupported', msg)"""
        todo = [[]]
        n = 0
        while todo:
            prefix = todo.pop()
            n += 1
            if n > maxpaths:
                yield None, ("unsupported", "more than %d partitions" % maxpaths)
                return
            self.path = Path(prefix)
            self.steps = 0
            self.stack = []
            self.depth = 0
            nd.HOOK = self
            try:
                out = ("ok", fn(self))
            except Raise as e:
                e.where = getattr(e, "where", None) or self.where()
                e.trace = getattr(e, "trace", None) or self.trace()
                out = ("raise", e)
            except (Unsupported, DomainError) as e:
                out = ("unsupported", "%s at %s" % (e, self.where()))
            except ShapeError as e:
                r = Raise(ValueError, str(e))
                r.where, r.trace = self.where(), self.trace()
                out = ("raise", r)
            except RecursionError as e:
                out = ("unsupported", "recursion at %s" % self.where())
            p = self.path
            yield p, out
            for i in range(len(prefix), len(p.taken)):
                if p.taken[i] is True:
                    todo.append(p.taken[:i] + [False])

    # ---------------------------------------------------------- modules
    def modpath(self, name):
        parts = name.split(".")
        base = os.path.join(self.repo, *parts)
        if os.path.isfile(base + ".py"):
            return base + ".py"
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py")
        if os.path.isdir(base):
            return base
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.modpath(name)
        if path is None:
            raise Raise(ModuleNotFoundError, "No module named %r" % name)
        if os.path.isdir(path):
            m = Mod(name, path, ast.parse(""))
            self.modules[name] = m
            m.loaded = True
            return m
        m = Mod(name, path, parse_file(path))
        self.modules[name] = m
        self.files[path] = True
        fake = types.SimpleNamespace(module=m, qualname="<module>")
        self.stack.append(fake)
        env = Env(None, m)
        env.vars = m.vars
        try:
            self.exec_block(m.tree.body, env)
        except BaseException:
            self.modules.pop(name, None)
            raise
        finally:
            self.stack.pop()
        m.loaded = True
        return m

    def mod(self, short):
        """module of the analysed package, loaded outside any partition"""
        old = self.path
        if self.path is None:
            self.path = Path([])
        try:
            return self.load(self.pkg + "." + short)
        finally:
            self.path = old

    # ---------------------------------------------------------- errors
    def err(self, exc, msg, node=None):
        r = Raise(exc, msg, node or self.node)
        r.where = self.where()
        r.trace = self.trace()
        return r

    def guard(self, f, *a):
        """run a concrete Python operation of the analysed program"""
        try:
            return f(*a)
        except Raise as e:
            if not getattr(e, "where", None):
                e.where = self.where()
                e.trace = self.trace()
            raise
        except (Unsupported, DomainError):
            raise
        except ShapeError as e:
            raise self.err(ValueError, str(e))
        except PYERR as e:
            if isinstance(e, TypeError) and any(isinstance(x, (Stub, UBool)) for x in a):
                raise Unsupported("operation on unmodelled value: %s" % e)
            raise self.err(type(e), str(e))

    def truth(self, v):
        if isinstance(v, (UBool,)):
            return self.decide(v)
        if isinstance(v, Stub):
            return self.decide(UBool(("stub", v.path)))
        return bool(self.guard(bool, v))

    # ---------------------------------------------------------- statements
    def exec_block(self, body, env):
        for st in body:
            r = self.exec(st, env)
            if r is not None:
                return r
        return None

    def exec(self, st, env):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget("step budget")
        self.node = st
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(st).__name__)
        return m(st, env)

    def st_Expr(self, st, env):
        self.ev(st.value, env)

    def st_Pass(self, st, env):
        pass

    def st_Return(self, st, env):
        return Ret(self.ev(st.value, env) if st.value is not None else None)

    def st_Break(self, st, env):
        return BRK

    def st_Continue(self, st, env):
        return CNT

    def st_Global(self, st, env):
        env.globals_decl.update(st.names)

    def st_Nonlocal(self, st, env):
        env.nonlocals.update(st.names)

    def st_Assert(self, st, env):
        v = self.ev(st.test, env)
        if isinstance(v, UBool):
            # an assertion that passes on this trace; it is recorded as an assumption
            self.events.append(("assumed-assert", self.where()))
            return
        if not self.truth(v):
            raise self.err(AssertionError, ast.unparse(st.test), st)

    def st_If(self, st, env):
        if self.truth(self.ev(st.test, env)):
            return self.exec_block(st.body, env)
        return self.exec_block(st.orelse, env)

    def st_While(self, st, env):
        unk = 0
        n = 0
        while True:
            v = self.ev(st.test, env)
            if isinstance(v, UBool) or (isinstance(v, Arr) and not v.const):
                unk += 1
                if unk > self.loop_unknown:
                    break
            if not self.truth(v):
                return self.exec_block(st.orelse, env)
            n += 1
            if n > 5000:
                raise Budget("loop bound")
            r = self.exec_block(st.body, env)
            if r is BRK:
                return None
            if isinstance(r, Ret):
                return r
        return None

    def st_For(self, st, env):
        it = self.iterate(self.ev(st.iter, env))
        n = 0
        for x in it:
            n += 1
            if n > 20000:
                raise Budget("loop bound")
            self.assign(st.target, x, env)
            r = self.exec_block(st.body, env)
            if r is BRK:
                return None
            if isinstance(r, Ret):
                return r
            self.node = st
        return self.exec_block(st.orelse, env)

    def st_With(self, st, env):
        mgrs = []
        for item in st.items:
            c = self.ev(item.context_expr, env)
            if isinstance(c, Inst):
                v = c.__enter__()
            elif isinstance(c, Stub):
                v = c
            elif isinstance(c, Arr):
                raise Unsupported("with")
            else:
                v = c
            mgrs.append(c)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env)
        r = self.exec_block(st.body, env)
        for c in reversed(mgrs):
            if isinstance(c, Inst):
                c.__exit__(None, None, None)
        return r

    def st_Raise(self, st, env):
        if st.exc is None:
            cur = getattr(self, "_handling", None)
            if cur:
                raise cur[-1]
            raise self.err(RuntimeError, "No active exception to reraise", st)
        v = self.ev(st.exc, env)
        if isinstance(v, Raise):
            raise v
        if isinstance(v, Inst):
            e = self.err(v.cls, repr(v.d.get("args", "")), st)
            e.value = v
            raise e
        if isinstance(v, Cls):
            e = self.err(v, "", st)
            e.value = v()
            raise e
        if isinstance(v, type) and issubclass(v, BaseException):
            raise self.err(v, "", st)
        if isinstance(v, BaseException):
            e = self.err(type(v), str(v), st)
            e.value = v
            raise e
        raise self.err(TypeError, "exceptions must derive from BaseException", st)

    def exc_match(self, e, t):
        if isinstance(t, tuple):
            return any(self.exc_match(e, x) for x in t)
        if isinstance(e.exc, Cls):
            return t in e.exc.mro or (isinstance(t, type) and any(isinstance(b, type) and issubclass(b, t) for b in e.exc.mro if isinstance(b, type)))
        if isinstance(t, type) and isinstance(e.exc, type):
            return issubclass(e.exc, t)
        return t is e.exc

    def st_Try(self, st, env):
        r = None
        if not hasattr(self, "_handling"):
            self._handling = []
        try:
            depth = len(self.stack)
            try:
                r = self.exec_block(st.body, env)
            except (Raise, ShapeError) as e:
                if isinstance(e, ShapeError):
                    e = self.err(ValueError, str(e))
                del self.stack[depth:]
                for h in st.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.ev(h.type, env)
                        ok = self.exc_match(e, t)
                    if ok:
                        self.events.append(("handled", getattr(e.exc, "__name__", str(e.exc)), self.where()))
                        if h.name:
                            val = e.value
                            if val is None:
                                try:
                                    val = e.exc(e.msg)
                                except Exception:
                                    val = Exception(e.msg)
                            env.vars[h.name] = val
                        self._handling.append(e)
                        try:
                            r = self.exec_block(h.body, env)
                        finally:
                            self._handling.pop()
                        break
                else:
                    raise e
            else:
                if r is None:
                    r = self.exec_block(st.orelse, env)
        finally:
            if st.finalbody:
                r2 = self.exec_block(st.finalbody, env)
                if r2 is not None:
                    r = r2
        return r

    def st_FunctionDef(self, st, env):
        f = self.mkfunc(st, env)
        v = f
        for d in reversed(st.decorator_list):
            dv = self.ev(d, env)
            if isinstance(dv, Stub):
                continue
            v = self.guard(dv, v)
        self.setname(st.name, v, env)

    def mkfunc(self, node, env, name=None):
        f = Func(self, node, env, env.module, name or getattr(node, "name", "<lambda>"))
        outer = env.func.qualname + "." if env.func is not None else ""
        if env.isclass:
            outer = env.vars.get("__qualname__", "") + "."
        f.qualname = outer + f.name
        f.defaults = [self.ev(d, env) for d in node.args.defaults]
        f.kwdefaults = {a.arg: self.ev(d, env) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        if env.isclass:
            f.cls = env.vars.get("__class_obj__")
        else:
            f.cls = env.func.cls if env.func is not None else None
        return f

    def st_ClassDef(self, st, env):
        bases = [self.ev(b, env) for b in st.bases]
        bases = [b for b in bases if b is not object]
        c = Cls(self, st.name, bases, env.module)
        cenv = Env(env, env.module, isclass=True, func=env.func)
        cenv.vars["__class_obj__"] = c
        cenv.vars["__qualname__"] = st.name
        self.exec_block(st.body, cenv)
        c.d = {k: v for k, v in cenv.vars.items() if k not in ("__class_obj__",)}
        v = c
        for d in reversed(st.decorator_list):
            v = self.guard(self.ev(d, env), v)
        self.setname(st.name, v, env)

    def st_Import(self, st, env):
        for al in st.names:
            if al.name == self.pkg or al.name.startswith(self.pkg + "."):
                m = self.load(al.name)
                self.setname(al.asname or al.name.split(".")[0], m if al.asname else self.load(al.name.split(".")[0]), env)
            else:
                v = self.extmod(al.name)
                if al.asname:
                    self.setname(al.asname, v, env)
                else:
                    self.setname(al.name.split(".")[0], self.extmod(al.name.split(".")[0]), env)

    def extmod(self, name):
        root = name.split(".")[0]
        if root in MISSING or (root not in REALMODS and root not in STUBMODS and not _installed(root)):
            raise self.err(ModuleNotFoundError, "No module named %r" % name)
        if root in REALMODS:
            return ExtModule(name)
        return Stub(name)

    def st_ImportFrom(self, st, env):
        if st.level:
            pk = env.module.name.split(".")
            if not env.module.path.endswith("__init__.py"):
                pk = pk[:-1]
            pk = pk[:len(pk) - (st.level - 1)]
            base = ".".join(pk + ([st.module] if st.module else []))
        else:
            base = st.module
        if base == self.pkg or base.startswith(self.pkg + "."):
            m = self.load(base)
            for al in st.names:
                if al.name == "*":
                    for k, v in m.vars.items():
                        if not k.startswith("_"):
                            self.setname(k, v, env)
                    continue
                if al.name in m.vars:
                    v = m.vars[al.name]
                elif self.modpath(base + "." + al.name):
                    v = self.load(base + "." + al.name)
                else:
                    raise self.err(ImportError, "cannot import name %r from %r" % (al.name, base))
                self.setname(al.asname or al.name, v, env)
        else:
            m = self.extmod(base)
            for al in st.names:
                if isinstance(m, Stub):
                    self.setname(al.asname or al.name, Stub(base + "." + al.name), env)
                    continue
                try:
                    v = self.getattr(m, al.name)
                except Raise as e:
                    if e.exc is AttributeError:
                        raise self.err(ImportError, "cannot import name %r from %r" % (al.name, base))
                    raise
                self.setname(al.asname or al.name, v, env)

    def st_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)

    def st_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, env, t)
            v = self.ev(st.value, env)
            self.node = st
            self.setname(t.id, self.aug(type(st.op), cur, v), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            v = self.ev(st.value, env)
            self.node = st
            self.setattr(o, t.attr, self.aug(type(st.op), cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            cur = self.getitem(o, k)
            v = self.ev(st.value, env)
            self.node = st
            self.setitem(o, k, self.aug(type(st.op), cur, v))
        else:
            raise Unsupported("augmented target")

    def aug(self, op, cur, v):
        if isinstance(cur, Arr) and not cur.scalar and cur.ndim > 0:
            return self.guard(nd.inplace, BINOPS[op][0], cur, v)
        if isinstance(cur, Arr):
            return self.binop(op, cur, v)
        if isinstance(cur, Inst):
            n = {"Add": "iadd", "Sub": "isub", "Mult": "imul", "Div": "itruediv"}.get(op.__name__)
            if n and cur._m("__%s__" % n):
                return cur._m("__%s__" % n)(cur, v)
            return self.binop(op, cur, v)
        if isinstance(v, (Arr, Inst)):
            return self.binop(op, cur, v)
        return self.guard(INPLACE[op], cur, v)

    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                if t.id in env.vars:
                    del env.vars[t.id]
                else:
                    raise self.err(NameError, t.id, t)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.key(self.ev(t.slice, env))
                self.guard(operator.delitem, o, k)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, Inst) and t.attr in o.d:
                    del o.d[t.attr]
                else:
                    raise self.err(AttributeError, t.attr, t)

    def st_Match(self, st, env):
        raise Unsupported("match statement")

    # ---------------------------------------------------------- assignment
    def setname(self, name, v, env):
        if name in env.globals_decl:
            env.module.vars[name] = v
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars or name in e.locals:
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Stub):
                for e in t.elts:
                    self.assign(e, Stub(v.path + "[]"), env)
                return
            vals = list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise self.err(ValueError, "not enough values to unpack", t)
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, vals[i:len(vals) - after], env)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, env)
                return
            if len(vals) != len(t.elts):
                raise self.err(ValueError, "%s values to unpack (expected %d)" % (
                    "too many" if len(vals) > len(t.elts) else "not enough", len(t.elts)), t)
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            self.node = t
            self.setitem(o, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported("assignment target")

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            p, c = o.cls.lookup(name)
            if isinstance(p, Prop):
                if p.fset is None:
                    raise self.err(AttributeError, "can't set attribute %r" % name)
                p.fset(o, v)
                return
            f, c = o.cls.lookup("__setattr__")
            if f is not None:
                f(o, name, v)
                return
            o.d[name] = v
        elif isinstance(o, Cls):
            o.d[name] = v
        elif isinstance(o, Mod):
            o.vars[name] = v
        elif isinstance(o, Func):
            o.attrs[name] = v
        elif isinstance(o, Arr):
            if name == "shape":
                r = nd.reshape(o, v)
                o.buf, o.ops, o.shadow = r.buf, r.ops, r.shadow
                return
            raise Unsupported("setting ndarray attribute %s" % name)
        elif isinstance(o, Stub):
            return
        else:
            self.guard(setattr, o, name, v)

    def key(self, k):
        if isinstance(k, Arr) and k.ndim == 0 and k.const:
            return k.cval()[()]
        return k

    def getitem(self, o, k):
        if isinstance(o, Stub):
            return Stub(o.path + "[]")
        if isinstance(o, Arr):
            return self.guard(nd.getitem, o, k)
        if isinstance(k, UBool):
            raise Unsupported("unknown index")
        if isinstance(o, Inst):
            return o[k]
        if isinstance(o, (list, tuple, str, range)) and isinstance(k, slice):
            k = self.guard(nd.slice_ints, k)
        elif isinstance(o, (list, tuple, str, range)) and isinstance(k, (float, complex)):
            raise self.err(TypeError, "list indices must be integers or slices")
        elif isinstance(o, (list, tuple, str, range)) and isinstance(k, Arr):
            k = self.guard(operator.index, k)
        if isinstance(o, dict) and isinstance(k, Arr):
            raise self.err(TypeError, "unhashable type: 'numpy.ndarray'")
        if isinstance(o, (Cls, ExtFunc)) or o in (list, dict, tuple, set):
            return o      # typing subscripts
        return self.guard(operator.getitem, o, k)

    def setitem(self, o, k, v):
        if isinstance(o, Stub):
            return
        if isinstance(o, Arr):
            self.guard(nd.setitem, o, k, v)
            return
        if isinstance(o, Inst):
            o[k] = v
            return
        if isinstance(k, slice):
            k = self.guard(nd.slice_ints, k)
            v = list(self.iterate(v))
        if isinstance(k, UBool):
            raise Unsupported("unknown index")
        if isinstance(o, dict) and isinstance(k, Arr):
            raise self.err(TypeError, "unhashable type: 'numpy.ndarray'")
        self.guard(operator.setitem, o, k, v)

    def iterate(self, v):
        if isinstance(v, (list, tuple, range, dict, set, str)):
            return iter(v)
        if isinstance(v, Stub):
            raise Unsupported("iteration over %s" % v.path)
        if isinstance(v, UBool):
            raise Unsupported("iteration over unknown")
        if isinstance(v, Inst):
            return iter(v)
        it = self.guard(iter, v)
        return self._guarded_iter(it)

    def _guarded_iter(self, it):
        while True:
            try:
                x = next(it)
            except StopIteration:
                return
            except (Raise, Unsupported, DomainError, ShapeError):
                raise
            except PYERR as e:
                raise self.err(type(e), str(e))
            yield x

    # ---------------------------------------------------------- expressions
    def ev(self, n, env):
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(n).__name__)
        return m(n, env)

    def ex_Constant(self, n, env):
        return n.value

    def name(self, id_, env, node=None):
        e = env
        first = True
        if id_ in env.globals_decl:
            e = None
        while e is not None:
            if e.isclass and not first:
                e = e.parent
                continue
            if id_ in e.vars:
                return e.vars[id_]
            if id_ in e.locals and id_ not in e.nonlocals and id_ not in e.globals_decl:
                if first:
                    raise self.err(UnboundLocalError, "local variable %r referenced before assignment" % id_, node)
                raise self.err(NameError, "free variable %r referenced before assignment in enclosing scope" % id_, node)
            if not e.locals or not e.isclass:
                pass
            first = first and (e.func is None or False)
            first = False
            e = e.parent
        g = env.module.vars
        if id_ in g:
            return g[id_]
        if id_ in BUILTINS:
            b = BUILTINS[id_]
            return b
        if hasattr(builtins, id_):
            v = getattr(builtins, id_)
            if isinstance(v, type) and issubclass(v, BaseException) or id_ in ("Ellipsis", "NotImplemented", "__debug__"):
                return v
            raise Unsupported("builtin %s" % id_)
        raise self.err(NameError, "name %r is not defined" % id_, node)

    def ex_Name(self, n, env):
        v = env.vars.get(n.id, env)
        if v is not env and n.id not in env.globals_decl:
            return v
        if n.id == "locals" and "locals" not in env.module.vars:
            return lambda: dict(env.vars)
        if n.id == "globals" and "globals" not in env.module.vars:
            return lambda: env.module.vars
        if n.id == "super":
            return functools.partial(self.do_super, env)
        if n.id == "__class__":
            return env.func.cls
        return self.name(n.id, env, n)

    def do_super(self, env, *args):
        if args:
            return Super(args[0], args[1])
        e = env
        while e.func is None or e.func.cls is None:
            e = e.parent
            if e is None:
                raise self.err(RuntimeError, "super(): no arguments")
        f = e.func
        while e is not None and not (e.func is not None and e.func.node.args.args and e.func.node.args.args[0].arg in e.vars):
            e = e.parent
        return Super(f.cls, e.vars[e.func.node.args.args[0].arg])

    def ex_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        e = env
        while e.func is None and e.parent is not None and getattr(e, "isclass", False) is False and e.locals == ("comp",):
            e = e.parent
        self.setname(n.target.id, v, env if not _is_comp(env) else _outer(env))
        return v

    def ex_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def ex_List(self, n, env):
        return self.elts(n.elts, env)

    def ex_Set(self, n, env):
        return set(self.elts(n.elts, env))

    def elts(self, elts, env):
        r = []
        for e in elts:
            if isinstance(e, ast.Starred):
                r.extend(self.iterate(self.ev(e.value, env)))
            else:
                r.append(self.ev(e, env))
        return r

    def ex_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                kk = self.ev(k, env)
                d[kk] = self.ev(v, env)
        return d

    def ex_Slice(self, n, env):
        f = lambda x: None if x is None else self.ev(x, env)
        return slice(f(n.lower), f(n.upper), f(n.step))

    def ex_Subscript(self, n, env):
        o = self.ev(n.value, env)
        k = self.ev(n.slice, env)
        self.node = n
        return self.getitem(o, k)

    def ex_Attribute(self, n, env):
        o = self.ev(n.value, env)
        self.node = n
        return self.getattr(o, n.attr)

    def ex_Starred(self, n, env):
        raise Unsupported("starred")

    def ex_IfExp(self, n, env):
        return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)

    def ex_BoolOp(self, n, env):
        v = None
        isand = isinstance(n.op, ast.And)
        for i, e in enumerate(n.values):
            v = self.ev(e, env)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(v, UBool):
                v = t
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def ex_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        self.node = n
        if isinstance(n.op, ast.Not):
            if isinstance(v, UBool):
                return ~v
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            return self.guard(operator.neg, v)
        if isinstance(n.op, ast.UAdd):
            return self.guard(operator.pos, v)
        if isinstance(n.op, ast.Invert):
            return self.guard(operator.invert, v)

    def binop(self, op, a, b):
        if isinstance(a, Stub) or isinstance(b, Stub):
            return Stub("expr")
        if isinstance(a, UBool) or isinstance(b, UBool):
            if op in (ast.BitAnd, ast.BitOr):
                ta = self.truth(a)
                tb = self.truth(b)
                return (ta and tb) if op is ast.BitAnd else (ta or tb)
            a = int(self.truth(a)) if isinstance(a, UBool) else a
            b = int(self.truth(b)) if isinstance(b, UBool) else b
        if isinstance(a, (Arr, Inst)) or isinstance(b, (Arr, Inst)):
            if isinstance(a, Arr) and isinstance(b, Inst):
                # numpy would try to broadcast over the object; the reflected method wins
                m = {ast.Mult: "__rmul__", ast.Add: "__radd__", ast.Sub: "__rsub__"}.get(op)
                if m and b._m(m):
                    return b._m(m)(b, a)
                raise Unsupported("ndarray op object")
        return self.guard(BINOPS[op][1], a, b)

    def ex_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        self.node = n
        return self.binop(type(n.op), a, b)

    def ex_Compare(self, n, env):
        left = self.ev(n.left, env)
        res = True
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, env)
            self.node = n
            r = self.compare(op, left, right)
            if len(n.ops) == 1:
                return r
            if not self.truth(r):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return a is b or (type(a) is type(b) and isinstance(a, (int, str)) and a == b)
        if isinstance(op, ast.IsNot):
            return not self.compare(ast.Is(), a, b)
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(a, UBool) or isinstance(b, (UBool, Stub)):
                raise Unsupported("membership of unknown")
            if isinstance(b, Arr):
                if b.const and nd.deep_const(a):
                    r = nd.raw(a) in b.cval()
                else:
                    raise Unsupported("membership in symbolic array")
            elif isinstance(b, (list, tuple)) and any(isinstance(x, (Arr, Inst)) for x in b):
                r = any(x is a or self.truth(self.guard(operator.eq, x, a)) for x in b)
            else:
                r = self.guard(lambda: a in b)
            return r if isinstance(op, ast.In) else (not r)
        if isinstance(a, Stub) or isinstance(b, Stub):
            return UBool(("stubcmp", repr(a), repr(b), type(op).__name__))
        if isinstance(a, UBool) or isinstance(b, UBool):
            a = self.truth(a) if isinstance(a, UBool) else a
            b = self.truth(b) if isinstance(b, UBool) else b
        f = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le,
             ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
        return self.guard(f, a, b)

    def ex_Lambda(self, n, env):
        return self.mkfunc(n, env)

    def ex_JoinedStr(self, n, env):
        s = ""
        for v in n.values:
            if isinstance(v, ast.Constant):
                s += str(v.value)
            else:
                x = self.ev(v.value, env)
                s += self.fmt(x, v, env)
        return s

    def fmt(self, x, v, env):
        spec = self.ev(v.format_spec, env) if v.format_spec is not None else ""
        if isinstance(x, (Arr, Inst, Stub, UBool)):
            if isinstance(x, Inst) and x._m("__str__"):
                return str(x._m("__str__")(x))
            return repr(x)
        return self.guard(format, x, spec)

    def ex_FormattedValue(self, n, env):
        return self.fmt(self.ev(n.value, env), n, env)

    def comp_env(self, env):
        e = Env(env, env.module, (), func=env.func)
        e.locals = ()
        return e

    def comp(self, gens, env, emit):
        def rec(i, e):
            if i == len(gens):
                yield emit(e)
                return
            g = gens[i]
            for x in self.iterate(self.ev(g.iter, e)):
                self.steps += 1
                if self.steps > self.maxsteps:
                    raise Budget("step budget")
                self.assign(g.target, x, e)
                if all(self.truth(self.ev(c, e)) for c in g.ifs):
                    yield from rec(i + 1, e)
        return rec(0, self.comp_env(env))

    def ex_ListComp(self, n, env):
        return list(self.comp(n.generators, env, lambda e: self.ev(n.elt, e)))

    def ex_SetComp(self, n, env):
        return set(self.comp(n.generators, env, lambda e: self.ev(n.elt, e)))

    def ex_GeneratorExp(self, n, env):
        return self.comp(n.generators, env, lambda e: self.ev(n.elt, e))

    def ex_DictComp(self, n, env):
        return dict(self.comp(n.generators, env, lambda e: (self.ev(n.key, e), self.ev(n.value, e))))

    def ex_Await(self, n, env):
        raise Unsupported("await")

    def ex_Yield(self, n, env):
        e = env
        while e is not None and "__yields__" not in e.vars:
            e = e.parent
        e.vars["__yields__"].append(self.ev(n.value, env) if n.value else None)
        return None

    def ex_YieldFrom(self, n, env):
        e = env
        while e is not None and "__yields__" not in e.vars:
            e = e.parent
        e.vars["__yields__"].extend(self.iterate(self.ev(n.value, env)))
        return None

    # ---------------------------------------------------------- calls
    def ex_Call(self, n, env):
        f = self.ev(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, env))
            else:
                kw[k.arg] = self.ev(k.value, env)
        self.node = n
        return self.call(f, args, kw, n, env)

    def call(self, f, args, kw, n=None, env=None):
        if n is not None and self.stack:
            self.callsites.add((self.stack[-1].module.name, n.lineno, n.col_offset))
        if isinstance(f, (Func, BMethod, Cls, Inst)):
            return f(*args, **kw)
        if isinstance(f, Stub):
            return f(*args, **kw)
        if isinstance(f, ExtFunc):
            self.ext_used.add(f.path)
            return self.guard(lambda: f(*args, **kw))
        if isinstance(f, UBool):
            raise Unsupported("call of unknown")
        if not callable(f):
            raise self.err(TypeError, "%r object is not callable" % type(f).__name__)
        if isinstance(f, type):
            f = CALL_AS.get(f, f)
        if any(isinstance(a, Stub) for a in args) and f not in (isinstance, print, list, len, BUILTINS["print"]):
            if f in SAFE_STUB:
                return Stub("call")
        return self.guard(lambda: f(*args, **kw))

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        v = {}
        pos = list(args)
        if len(pos) > len(names):
            if a.vararg is None:
                raise self.err(TypeError, "%s() takes %d positional arguments but %d were given" % (f.name, len(names), len(pos)))
            v[a.vararg.arg] = tuple(pos[len(names):])
            pos = pos[:len(names)]
        elif a.vararg is not None:
            v[a.vararg.arg] = ()
        for nme, x in zip(names, pos):
            v[nme] = x
        extra = {}
        posonly = {x.arg for x in a.posonlyargs}
        allkw = set(names) - posonly | {x.arg for x in a.kwonlyargs}
        for k, x in kw.items():
            if k in allkw:
                if k in v:
                    raise self.err(TypeError, "%s() got multiple values for argument %r" % (f.name, k))
                v[k] = x
            elif a.kwarg is not None:
                extra[k] = x
            else:
                raise self.err(TypeError, "%s() got an unexpected keyword argument %r" % (f.name, k))
        if a.kwarg is not None:
            v[a.kwarg.arg] = extra
        nd_ = len(f.defaults)
        for i, nme in enumerate(names):
            if nme not in v:
                j = i - (len(names) - nd_)
                if j >= 0:
                    v[nme] = f.defaults[j]
                else:
                    raise self.err(TypeError, "%s() missing required positional argument: %r" % (f.name, nme))
        for x in a.kwonlyargs:
            if x.arg not in v:
                if x.arg in f.kwdefaults:
                    v[x.arg] = f.kwdefaults[x.arg]
                else:
                    raise self.err(TypeError, "%s() missing keyword-only argument %r" % (f.name, x.arg))
        return v

    def call_func(self, f, args, kw):
        s = self.summaries.get((f.module.name, f.qualname))
        if s is not None:
            return s(*args, **kw)
        if len(self.stack) > 120:
            raise Budget("call depth")
        v = self.bind(f, args, kw)
        env = Env(f.env, f.module, f.localnames, func=f)
        env.vars.update(v)
        self.functions.add("%s.%s" % (f.module.name, f.qualname))
        saved = self.node
        self.stack.append(f)
        ok = False
        try:
            if isinstance(f.node, ast.Lambda):
                r = self.ev(f.node.body, env)
            elif f.isgen:
                env.vars["__yields__"] = []
                self.exec_block(f.node.body, env)
                r = iter(env.vars["__yields__"])
            else:
                r = self.exec_block(f.node.body, env)
                r = r.v if isinstance(r, Ret) else None
            ok = True
        except Raise as e:
            if not getattr(e, "where", None):
                e.where = self.where()
                e.trace = self.trace()
            raise
        except ShapeError as e:
            raise self.err(ValueError, str(e))
        finally:
            if ok:
                self.stack.pop()
            elif self.stack and self.stack[-1] is f:
                # keep node for reporting but unwind
                if not hasattr(self, "_keep"):
                    pass
                self._last = (self.where(), self.trace())
                self.stack.pop()
        self.node = saved
        return r

    def instantiate(self, cls, args, kw):
        o = Inst(cls)
        f, c = cls.lookup("__init__")
        if f is not None:
            f(o, *args, **kw)
        elif any(isinstance(b, type) and issubclass(b, BaseException) for b in cls.mro):
            o.d["args"] = args
        elif args or kw:
            if any(isinstance(b, Stub) for b in cls.mro):
                return o
            raise self.err(TypeError, "%s() takes no arguments" % cls.name)
        return o

    # ---------------------------------------------------------- attributes
    def getattr(self, o, name):
        if isinstance(o, Inst):
            return self.inst_attr(o, name)
        if isinstance(o, Arr):
            return self.arr_attr(o, name)
        if isinstance(o, Mod):
            if name in o.vars:
                return o.vars[name]
            if name == "__dict__":
                return o.vars
            if self.modpath(o.name + "." + name):
                return self.load(o.name + "." + name)
            raise self.err(AttributeError, "module %r has no attribute %r" % (o.name, name))
        if isinstance(o, ExtModule):
            return self.ext(o.path + "." + name)
        if isinstance(o, Stub):
            return Stub(o.path + "." + name)
        if isinstance(o, Cls):
            if name == "__name__":
                return o.name
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__dict__":
                return o.d
            v, c = o.lookup(name)
            if c is None:
                raise self.err(AttributeError, "type object %r has no attribute %r" % (o.name, name))
            if isinstance(v, SM):
                return v.f
            if isinstance(v, CM):
                return BMethod(v.f, o)
            return v
        if isinstance(o, Super):
            v, c = (o.obj.cls if isinstance(o.obj, Inst) else o.obj).lookup(name, after=o.cls)
            if c is None:
                if name == "__init__":
                    return lambda *a, **k: None
                raise self.err(AttributeError, "'super' object has no attribute %r" % name)
            return self.bindattr(v, o.obj, c)
        if isinstance(o, Func):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__",):
                return o.name
            if name == "__qualname__":
                return o.qualname
            if name == "__doc__":
                return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
            if name == "__call__":
                return o
            if name == "__code__":
                raise Unsupported("__code__")
            raise self.err(AttributeError, "function has no attribute %r" % name)
        if isinstance(o, BMethod):
            if name == "__func__":
                return o.func
            if name == "__self__":
                return o.self_
            return self.getattr(o.func, name)
        if isinstance(o, ExtFunc):
            if name == "__name__":
                return o.__name__
            return self.ext(o.path + "." + name)
        if isinstance(o, Prop):
            return getattr(o, name)
        if isinstance(o, UBool):
            if name in ("all", "any"):
                return getattr(o, name)
            raise Unsupported("attribute of unknown")
        if o is Arr:
            if name == "__name__":
                return "ndarray"
            raise Unsupported("ndarray.%s" % name)
        if isinstance(o, (int, float, complex)) and not isinstance(o, np.generic) and name in ("conj", "shape", "ndim", "T", "reshape"):
            raise self.err(AttributeError, "%r object has no attribute %r" % (type(o).__name__, name))
        if isinstance(o, np.generic):
            if name in ("conj", "conjugate", "item", "real", "imag", "shape", "ndim", "size", "dtype", "any", "all", "astype", "T",
                        "is_integer", "tolist", "sum", "squeeze", "round", "__abs__"):
                return getattr(o, name)
            if hasattr(o, name):
                a = nd.wrap(np.asarray(o))
                return self.arr_attr(a, name)
            raise self.err(AttributeError, "%r object has no attribute %r" % (type(o).__name__, name))
        return self.guard(getattr, o, name)

    def hasattr(self, o, name):
        try:
            self.getattr(o, name)
            return True
        except Raise as e:
            if e.exc is AttributeError:
                return False
            raise

    def bindattr(self, v, o, c):
        if isinstance(v, Prop):
            return v.fget(o)
        if isinstance(v, SM):
            return v.f
        if isinstance(v, CM):
            return BMethod(v.f, o.cls if isinstance(o, Inst) else o)
        if isinstance(v, (Func, ExtMethod)):
            return BMethod(v, o)
        return v

    def inst_attr(self, o, name):
        v, c = o.cls.lookup(name)
        if isinstance(v, Prop):
            return v.fget(o)
        if name in o.d:
            return o.d[name]
        if c is not None:
            return self.bindattr(v, o, c)
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            return o.d
        if name in ("__init__", "__del__"):
            return lambda *a, **k: None
        f, c = o.cls.lookup("__getattr__")
        if f is not None:
            return f(o, name)
        if any(isinstance(b, Stub) for b in o.cls.mro):
            return Stub(o.cls.name + "." + name)
        raise self.err(AttributeError, "%r object has no attribute %r" % (o.cls.name, name))

    def arr_attr(self, a, name):
        if name in ("shape", "ndim", "size"):
            return getattr(a, name)
        if name == "T":
            return nd.transpose(a)
        if name == "real":
            return nd.real(a)
        if name == "imag":
            return nd.imag(a)
        if name == "dtype":
            return {"c": np.dtype(complex), "f": np.dtype(float), "i": np.dtype(int), "b": np.dtype(bool)}.get(a.kind, np.dtype(object))
        if name == "flat":
            return iter(nd.ravel(a))
        if name == "base":
            return None if not a.ops else nd.Arr(a.buf)
        if name == "nbytes":
            return a.size * (16 if a.kind == "c" else 8)
        if name == "flags":
            return Stub("flags")
        m = ARR_METHODS.get(name)
        if m is not None:
            return functools.partial(m, a)
        if name in ("compatible_indices",) or not hasattr(np.ndarray, name):
            raise self.err(AttributeError, "'numpy.ndarray' object has no attribute %r" % name)
        if a.const:
            def f(*args, **kw):
                if not nd.deep_const(args) or not nd.deep_const(kw):
                    raise Unsupported("ndarray.%s" % name)
                return nd.result(getattr(a.cval(), name)(*nd.raw(tuple(args)), **nd.raw(kw)))
            return f
        if a.ndim == 0 and False:
            pass
        raise Unsupported("ndarray.%s" % name)

    # ---------------------------------------------------------- externals
    def ext(self, path):
        return resolve_ext(self, path)


def _is_comp(env):
    return env.func is not None and env.parent is not None and env.parent.func is env.func


def _outer(env):
    while _is_comp(env):
        env = env.parent
    return env


class ExtMethod:
    """method implemented by the analysis on an external base class"""

    def __init__(self, fn):
        self.fn = fn
        self.__name__ = fn.__name__

    def __call__(self, *a, **k):
        return self.fn(*a, **k)


def _installed(root):
    for base in ("/opt/venv/lib/python3.12/site-packages",):
        if os.path.exists(os.path.join(base, root)) or os.path.exists(os.path.join(base, root + ".py")):
            return True
    import importlib.util
    return root in sys.stdlib_module_names


MISSING = {"expokitpy"}
REALMODS = {"numpy", "scipy", "math", "cmath", "itertools", "functools", "operator", "copy", "collections", "typing",
            "numbers", "fractions", "time", "uuid", "os", "sys", "warnings", "string", "random", "types", "abc", "dataclasses",
            "enum", "contextlib", "builtins"}
STUBMODS = {"pyximport", "unittest", "matplotlib", "cProfile", "tqdm", "pickle", "logging", "quimb", "pandas", "seaborn",
            "mpl_toolkits", "sympy", "qutip", "Cython", "setuptools", "numba", "h5py", "pathos", "multiprocessing", "pprint",
            "pstats", "timeit", "traceback", "argparse", "json", "re", "glob", "shutil", "subprocess", "inspect", "io", "tempfile", "pathlib",
            "threading", "concurrent", "datetime", "gc"}
EXTBASE = {}
BUILTINS = {}
ARR_METHODS = {}
SAFE_STUB = ()
MODEL = {}
CALL_AS = {}


def call_model(ef, args, kw):
    return ef.fn(*args, **kw)


from . import models  # noqa: E402  (fills the tables)
resolve_ext = models.resolve_ext
