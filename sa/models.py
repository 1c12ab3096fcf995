"""Models of the builtins and of numpy/scipy for the abstract interpreter.

Only library functions appear here, never functions of the analysed
repository.  A library function without a model is folded with the real
library when every argument is a constant and otherwise makes the analysis
report the obligation as undecided (Unsupported)."""
from __future__ import annotations
import builtins, copy as _copy, functools, itertools, math, cmath, operator, collections, os, warnings, numbers, types, sys
import fractions, string, typing, abc, dataclasses, enum, contextlib
import numpy as np
import scipy, scipy.linalg
from . import nd, tn, interp as I
from .nd import Arr, UBool, Unsupported, Raise
from .tn import Sym

B = I.BUILTINS
NDARRAY = Arr


# ------------------------------------------------------------------ builtins
def _isinstance(o, t):
    if isinstance(t, tuple):
        return any(_isinstance(o, x) for x in t)
    if isinstance(t, I.Stub) or isinstance(o, I.Stub):
        if isinstance(o, I.Stub):
            return False
        if isinstance(o, I.Inst) and isinstance(t, I.Stub):
            return any(isinstance(b, I.Stub) and b.path == t.path for b in o.cls.mro)
        return False
    if isinstance(t, I.Cls):
        if isinstance(o, I.Inst):
            return t in o.cls.mro
        return False
    if t is Arr:
        return isinstance(o, Arr) and not o.scalar
    if isinstance(t, I.ExtFunc):
        p = t.path
        if isinstance(o, I.Inst):
            return any(getattr(b, "path", None) == p for b in o.cls.mro)
        return getattr(o, "clspath", None) == p
    if isinstance(t, types.UnionType):
        return any(_isinstance(o, x) for x in t.__args__)
    if not isinstance(t, type):
        raise Raise(TypeError, "isinstance() arg 2 must be a type, a tuple of types, or a union")
    if isinstance(o, Arr):
        if o.scalar:
            k = {"c": complex, "f": float, "i": int, "b": bool}[o.kind]
            if t in (np.generic, np.number, numbers.Number, object):
                return True
            return issubclass({"c": np.complex128, "f": np.float64, "i": np.int64, "b": np.bool_}[o.kind], t)
        return t is object or t in (collections.abc.Iterable, collections.abc.Sized, collections.abc.Container)
    if isinstance(o, I.Inst):
        if t is object:
            return True
        if t is collections.abc.Iterable:
            return o._m("__iter__") is not None
        return any(isinstance(b, type) and issubclass(b, t) for b in o.cls.mro)
    if isinstance(o, (I.Func, I.BMethod)):
        return t in (object, types.FunctionType, collections.abc.Callable)
    return isinstance(o, t)


def _issubclass(c, t):
    if isinstance(t, tuple):
        return any(_issubclass(c, x) for x in t)
    if isinstance(c, I.Cls):
        return t is object or t in c.mro or any(isinstance(b, type) and isinstance(t, type) and issubclass(b, t) for b in c.mro)
    return isinstance(c, type) and isinstance(t, type) and issubclass(c, t)


class _TypeMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (type, I.Cls))


def _type(*a):
    if len(a) == 1:
        o = a[0]
        if isinstance(o, I.Inst):
            return o.cls
        if isinstance(o, Arr):
            if o.scalar:
                return {"c": np.complex128, "f": np.float64, "i": np.int64, "b": np.bool_}[o.kind]
            return Arr
        if isinstance(o, UBool):
            return np.bool_
        return type(o)
    raise Unsupported("type() construction")


def _hasattr(o, n):
    return cur().hasattr(o, n)


_missing = object()


def _getattr(o, n, d=_missing):
    if d is _missing:
        return cur().getattr(o, n)
    try:
        return cur().getattr(o, n)
    except Raise as e:
        if e.exc is AttributeError:
            return d
        raise


def cur():
    return nd.HOOK


def _callable(o):
    if isinstance(o, I.Inst):
        return o._m("__call__") is not None
    if isinstance(o, Arr):
        return False
    return callable(o)


def _len(x):
    if isinstance(x, I.Stub):
        raise Unsupported("len of unmodelled value")
    return len(x)


def _sum(it, start=0):
    t = cur()
    r = start
    for x in it:
        r = t.binop(__import__("ast").Add, r, x)
    return r


def _list(x=()):
    return list(cur().iterate(x))


def _bool(x=False):
    return cur().truth(x)


def _str(x="", *a):
    if isinstance(x, I.Inst) and x._m("__str__"):
        return x._m("__str__")(x)
    return str(x, *a)


def _print(*a, **k):
    return None


def _int(*a, **k):
    if a and isinstance(a[0], UBool):
        return int(cur().truth(a[0]))
    return int(*a, **k)


def _float(*a):
    if a and isinstance(a[0], Arr) and not a[0].const:
        x = a[0]
        if x.size != 1:
            raise Raise(TypeError, "only length-1 arrays can be converted to Python scalars")
        if x.kind == "c":
            raise Raise(TypeError, "can't convert complex to float")
        return nd.wrap(nd.reshape(x, ()).sym(), "f")
    return float(*a)


def _complex(*a):
    if any(isinstance(x, Arr) and not x.const for x in a):
        r = a[0]
        if len(a) == 2:
            r = r + 1j * a[1]
        return r
    return complex(*a)


def _vars(o):
    return cur().getattr(o, "__dict__")


def _id(o):
    return id(o)


def _extreme(name):
    real = getattr(builtins, name)

    def f(*a, **k):
        return real(*a, **k)
    return f


def _iter(o, *a):
    if a:
        raise Unsupported("iter(callable, sentinel)")
    return iter(cur().iterate(o))


def _setattr(o, n, v):
    cur().setattr(o, n, v)


def _round(x, n=None):
    if isinstance(x, Arr) and not x.const:
        raise Unsupported("round of a symbolic value")
    if isinstance(x, Arr):
        return nd.result(np.round(x.cval(), n or 0))
    return round(x, n) if n is not None else round(x)


class FileStub(I.Stub):
    pass


def _open(path, *a, **k):
    return FileStub("open")


for _n in ["range", "dict", "set", "tuple", "zip", "map", "filter", "enumerate", "reversed", "sorted", "min", "max", "any",
           "all", "abs", "next", "divmod", "pow", "repr", "object", "slice", "hash", "format", "ord", "chr",
           "frozenset", "bin", "hex", "oct", "bytes"]:
    B[_n] = getattr(builtins, _n)


def _extremum(name):
    real = getattr(builtins, name)

    def f(*args, **kw):
        if len(args) == 1:
            args = list(cur().iterate(args[0]))
        if not kw and len(args) > 1 and all(isinstance(x, (int, float, np.number)) or isinstance(x, Arr) and x.size == 1 and x.kind in "fib" for x in args) and not nd.deep_const(list(args)):
            return _minmax(name)(nd.stack([nd.reshape(x, ()) for x in args]))
        if kw or len(args) != 1:
            return real(args, **kw) if args or "default" in kw else real(args)
        return args[0]
    return f


B["max"], B["min"] = _extremum("max"), _extremum("min")


def _tuple(x=()):
    return tuple(cur().iterate(x))


def _any(it):
    return any(cur().truth(x) for x in cur().iterate(it)) if not isinstance(it, UBool) else it


def _all(it):
    return all(cur().truth(x) for x in cur().iterate(it)) if not isinstance(it, UBool) else it


class _ListLike:
    """`list`/`tuple` must stay real types for isinstance; only calls are intercepted"""


B.update({"isinstance": _isinstance, "issubclass": _issubclass, "hasattr": _hasattr, "getattr": _getattr,
          "setattr": _setattr, "callable": _callable, "len": _len, "sum": _sum, "print": _print, "int": int, "float": float,
          "complex": complex, "str": str, "bool": bool, "list": list, "type": _type, "vars": _vars, "id": _id, "iter": _iter, "round": _round,
          "property": I.Prop, "staticmethod": I.SM, "classmethod": I.CM, "open": _open, "any": _any, "all": _all,
          "exit": I.Stub("exit"), "quit": I.Stub("quit"), "input": I.Stub("input"), "__import__": I.Stub("__import__"),
          "dir": lambda o: list(cur().getattr(o, "__dict__"))})
CALL_AS = {int: _int, float: _float, complex: _complex, bool: _bool, list: _list, tuple: _tuple, str: _str}
I.CALL_AS = CALL_AS

# ------------------------------------------------------------------ ndarray methods
M = I.ARR_METHODS


def _m(name):
    def deco(f):
        M[name] = f
        return f
    return deco


def _item(a, *idx):
    if idx:
        return nd.getitem(a, tuple(idx))
    if a.size != 1:
        raise Raise(ValueError, "can only convert an array of size 1 to a Python scalar")
    if a.const:
        return a.cval().reshape(-1)[0].item()
    return nd.wrap(nd.reshape(a, ()).sym(), a.kind)


def _tolist(a):
    if a.const:
        return a.cval().tolist()
    if a.ndim == 0:
        return nd.wrap(a.sym(), a.kind)
    return [_tolist(x) if isinstance(x, Arr) and not x.scalar else x for x in a]


def _allany(which):
    def f(a, axis=None, **k):
        if isinstance(a, UBool):
            return a
        if isinstance(a, (list, tuple)) and not nd.deep_const(a):
            return (_all if which == "all" else _any)(a)
        if isinstance(a, (map, filter, types.GeneratorType)):
            return a      # numpy wraps the iterator in an object array; the reduction is the iterator itself
        a = nd.to_arr(a)
        if a.const:
            return nd.result(getattr(np, which)(a.cval(), axis=axis))
        return UBool((which, a.sym().key()))
    return f


def _fill(a, v):
    nd.setitem(a, Ellipsis, v)


def _constonly(name):
    def f(a, *args, **kw):
        if isinstance(a, Arr) and a.const and nd.deep_const(args) and nd.deep_const(kw):
            return nd.result(getattr(a.cval(), name)(*nd.raw(tuple(args)), **nd.raw(kw)))
        raise Unsupported("ndarray.%s of a symbolic array" % name)
    return f


def _ident(a, *args, **kw):
    return a


def _argfold(name):
    real = getattr(np, name)

    def f(*args, **kw):
        if nd.deep_const(args) and nd.deep_const(kw):
            try:
                return nd.result(real(*nd.raw(tuple(args)), **nd.raw(kw)))
            except (ValueError, TypeError, IndexError, np.linalg.LinAlgError) as e:
                raise Raise(type(e), str(e))
        raise Unsupported("numpy.%s of a symbolic value" % name)
    return f


def _sort_list(a, axis=-1, **k):
    """sorting a symbolic vector: an opaque permutation of its entries"""
    a = nd.to_arr(a)
    if a.const:
        return nd.result(np.sort(a.cval(), axis=axis))
    raise Unsupported("sort of a symbolic array")


def _minmax(name):
    real = getattr(np, name)

    def f(a, axis=None, *args, **kw):
        if isinstance(a, Arr) and not a.const or not nd.deep_const(a):
            arr = nd.to_arr(a)
            if axis is not None:
                raise Unsupported("%s along an axis" % name)
            if arr.size == 1:
                return nd.wrap(nd.reshape(arr, ()).sym(), arr.kind)
            s = arr.sym()
            at = tn.atom((name, s.key()), (), name=name, real=True, sample=lambda ev, s=s: real(np.real(ev.sym(s))))
            return nd.wrap(tn.atom_value(at, ()), "f")
        return nd.result(real(nd.raw(a) if isinstance(a, Arr) else np.asarray(nd.raw(a)), axis, *nd.raw(tuple(args)), **nd.raw(kw)))
    return f


def _repeat(a, r, axis=None):
    a = nd.to_arr(a)
    if a.const:
        return nd.result(np.repeat(a.cval(), nd.raw(r), axis))
    if axis is None:
        a, axis = nd.ravel(a), 0
    idx = np.repeat(np.arange(a.shape[axis]), nd.raw(r))
    return nd.take(a, list(map(int, idx)), axis)


M.update({"conj": nd.conj, "conjugate": nd.conj, "swapaxes": nd.swapaxes, "ravel": nd.ravel,
          "copy": lambda a, *k, **kw: a.copy(), "__copy__": lambda a: a.copy(), "astype": nd.astype, "dot": nd.dot,
          "flatten": lambda a, order="C": nd.ravel(a, order).copy(),
          "trace": nd.trace, "sum": nd.sum_, "mean": nd.mean, "prod": nd.prod, "squeeze": nd.squeeze, "diagonal": nd.diagonal,
          "tolist": _tolist, "item": _item, "all": _allany("all"), "any": _allany("any"), "fill": _fill, "take": nd.take,
          "repeat": _repeat, "cumsum": nd.cumsum, "max": _minmax("max"), "min": _minmax("min"),
          "argmax": _constonly("argmax"), "argmin": _constonly("argmin"),
          "round": _constonly("round"), "nonzero": _constonly("nonzero"), "argsort": _constonly("argsort"),
          "view": _ident, "__len__": len, "tobytes": _constonly("tobytes"), "toarray": _ident, "todense": _ident})


@_m("transpose")
def _tr(a, *axes):
    if len(axes) == 1:
        axes = axes[0]
        if isinstance(axes, Arr):
            axes = axes.cval().tolist()
    elif not axes:
        axes = None
    return nd.transpose(a, axes)


@_m("reshape")
def _rs(a, *shape, order="C"):
    return nd.reshape(a, *shape, order=order)


@_m("sort")
def _sort_inplace(a, axis=-1):
    if not a.const:
        raise Unsupported("in-place sort")
    nd.setitem(a, Ellipsis, nd.wrap(np.sort(a.cval(), axis)))


@_m("std")
def _std(a, *k, **kw):
    return _constonly("std")(a, *k, **kw)


# ------------------------------------------------------------------ numpy / scipy
T = I.MODEL


def isrealobj(a):
    return nd.to_arr(a).kind != "c"


def iscomplexobj(a):
    return nd.to_arr(a).kind == "c"


def real_if_close(a, tol=100):
    a = a if not isinstance(a, (list, tuple)) else nd.array(a)
    if nd.deep_const(a):
        return nd.result(np.real_if_close(nd.raw(a), tol))
    return a


def isclose_model(a, b, *k, **kw):
    if nd.deep_const(a) and nd.deep_const(b):
        return nd.result(np.isclose(nd.raw(a), nd.raw(b)))
    return nd.allclose(a, b)


def isfin(name):
    real = getattr(np, name)

    def f(a):
        if nd.deep_const(a):
            return nd.result(real(nd.raw(a)))
        a = nd.to_arr(a)
        return UBool((name, a.sym().key()))
    return f


def np_copy(a, *k, **kw):
    return nd.array(a)


def np_shape(a):
    return nd.to_arr(a).shape


def array_equal(a, b, **k):
    a, b = nd.to_arr(a), nd.to_arr(b)
    if a.shape != b.shape:
        return False
    if a.const and b.const:
        return bool(np.array_equal(a.cval(), b.cval()))
    return nd.allclose(a, b)


def insert(a, idx, vals, axis=None):
    if nd.deep_const((a, idx, vals)):
        return nd.result(np.insert(nd.raw(a), nd.raw(idx), nd.raw(vals), axis))
    raise Unsupported("insert")


def append(a, b, axis=None):
    a, b = nd.to_arr(a), nd.to_arr(b)
    if axis is None:
        return nd.concatenate([nd.ravel(a), nd.ravel(b)], 0)
    return nd.concatenate([a, b], axis)


def where(c, *xy):
    if nd.deep_const(c) and not xy:
        return nd.result(np.where(nd.raw(c)))
    if nd.deep_const(c) and nd.deep_const(xy):
        return nd.result(np.where(nd.raw(c), *nd.raw(tuple(xy))))
    raise Unsupported("where")


def linop_apply(fn, x):
    return fn(x)


class LinOp:
    """scipy.sparse.linalg.LinearOperator in functional form"""
    clspath = "scipy.sparse.linalg.LinearOperator"

    def __init__(self, shape, matvec=None, rmatvec=None, dtype=None, **kw):
        self.shape = tuple(shape)
        self._mv, self._rmv = matvec, rmatvec
        self.dtype = dtype
        self.ndim = 2

    def matvec(self, x):
        x = nd.to_arr(x)
        r = nd.to_arr(self._mv(x))
        if x.ndim == 1:
            return nd.reshape(r, (self.shape[0],))
        return nd.reshape(r, (self.shape[0], 1))

    def rmatvec(self, x):
        if self._rmv is None:
            raise Raise(NotImplementedError, "rmatvec is not defined")
        r = nd.to_arr(self._rmv(nd.to_arr(x)))
        return nd.reshape(r, (self.shape[1],))

    def matmat(self, X):
        cols = [nd.reshape(self.matvec(nd.getitem(X, (slice(None), j))), (self.shape[0],)) for j in range(X.shape[1])]
        return nd.stack(cols, 1)

    def dot(self, x):
        x = nd.to_arr(x)
        if x.ndim == 1:
            if x.shape != (self.shape[1],):
                raise Raise(ValueError, "dimension mismatch")
            return self.matvec(x)
        return self.matmat(x)

    __matmul__ = dot
    __call__ = dot

    def __mul__(self, x):
        if isinstance(x, (int, float, complex)) or isinstance(x, Arr) and x.ndim == 0:
            return LinOp(self.shape, lambda v: x * self.matvec(v), lambda v: nd.conj(nd.to_arr(x)) * self.rmatvec(v))
        return self.dot(x)

    def __rmul__(self, x):
        return LinOp(self.shape, lambda v: x * self.matvec(v), lambda v: nd.conj(nd.to_arr(x)) * self.rmatvec(v))

    @property
    def H(self):
        return LinOp(self.shape[::-1], self.rmatvec, self.matvec)

    def adjoint(self):
        return self.H

    @property
    def T(self):
        return LinOp(self.shape[::-1], lambda v: nd.conj(self.rmatvec(nd.conj(nd.to_arr(v)))), lambda v: nd.conj(self.matvec(nd.conj(nd.to_arr(v)))))


def dense(A):
    """matrix of an array or linear operator (columns of the action on a basis)"""
    if isinstance(A, Arr):
        return A
    if isinstance(A, LinOp):
        return A.matmat(nd.eye(A.shape[1]))
    if isinstance(A, I.Inst):
        it = cur()
        shape = it.getattr(A, "shape")
        mv = it.getattr(A, "matvec") if it.hasattr(A, "matvec") else it.getattr(A, "_matvec")
        return LinOp(shape, mv).matmat(nd.eye(shape[1]))
    return nd.to_arr(A)


def expm_multiply(A, B, t=None, *k, **kw):
    """exp(A) @ B"""
    if k or kw:
        raise Unsupported("expm_multiply with an interval")
    if t is not None:
        raise Unsupported("expm_multiply with start")
    return nd.matmul(nd.expm(dense(A)), B)


def aslinop(A):
    if isinstance(A, (LinOp, I.Inst)):
        return A
    A = nd.to_arr(A)
    return LinOp(A.shape, lambda v: nd.matmul(A, v), lambda v: nd.matmul(nd.conj(nd.transpose(A)), v))


def arnoldi(A, k=6, *args, which="LM", return_eigenvectors=True, **kw):
    """k dominant eigenpairs: uninterpreted functions of the matrix"""
    m = dense(A)
    n = m.shape[0]
    if k >= n - 1 and not isinstance(A, Arr):
        raise nd.Raise(TypeError, "Cannot use scipy.linalg.eig for LinearOperator A with k >= N - 1.")
    key = ("eigs", which, k, m.sym().key())
    s = m.sym()

    def f(ev, what):
        M = ev.sym(s)
        ew, evs = np.linalg.eig(M)
        o = np.argsort(-np.abs(ew), kind="stable")[:k]
        ph = np.exp(1j * np.random.RandomState(11).rand(k) * 6.28)      # the phase of an eigenvector is arbitrary
        return ew[o].reshape(nd.d1(k)) if what == "w" else (evs[:, o] * ph).reshape(nd.d1(n, k))
    w = tn.atom(key + ("w",), nd.d1(k), name="λ", sample=lambda ev: f(ev, "w"))
    v = tn.atom(key + ("v",), nd.d1(n, k), name="v", sample=lambda ev: f(ev, "v"))
    W = nd.wrap(tn.atom_value(w, (k,)), "c", scalar=False)
    V = nd.wrap(tn.atom_value(v, (n, k)), "c", scalar=False)
    return (W, V) if return_eigenvectors else W


def lo_init(self, dtype=None, shape=None):
    self.d["dtype"] = dtype
    self.d["shape"] = shape


def lo_matvec(self, x):
    return cur().getattr(self, "_matvec")(x)


def lo_rmatvec(self, x):
    return cur().getattr(self, "_rmatvec")(x)


def lo_dot(self, x):
    x = nd.to_arr(x)
    if x.ndim == 1:
        return lo_matvec(self, x)
    shape = cur().getattr(self, "shape")
    return LinOp(shape, lambda v: lo_matvec(self, v)).matmat(x)


def root(f, x0, args=(), **kw):
    """scipy.optimize.root: the solution is opaque"""
    x0 = nd.to_arr(x0)
    if not isinstance(args, tuple):
        args = (args,)
    r = f(x0, *args)
    if nd.to_arr(r).size != x0.size:
        raise Raise(ValueError, "root: shape mismatch")
    ns = types.SimpleNamespace()
    ns.x = nd.fresh_array(x0.shape, "root")
    ns.success = True
    ns.message = ""
    return ns


def solve_ivp(f, t_span, y0, method="RK45", t_eval=None, **kw):
    """scipy.integrate.solve_ivp: the right-hand side is asked for at the initial value; the first column is the initial value,
    the other columns are opaque vectors of the same length"""
    y0 = nd.to_arr(y0)
    if y0.ndim != 1:
        raise Raise(ValueError, "`y0` must be 1-dimensional.")
    if y0.kind == "c" and method in ("LSODA", "Radau"):
        raise Raise(ValueError, "`y0` is complex, but the chosen solver does not support integration in a complex domain.")
    t0 = t_span[0]
    for _ in range(2):
        r = nd.to_arr(f(t0, y0))
        if r.shape != y0.shape:
            raise Raise(ValueError, "operands could not be broadcast together")
    if t_eval is None:
        raise Unsupported("solve_ivp without t_eval")
    n = len(t_eval)
    cols = [y0.sym()]
    for k in range(1, n):
        a = tn.atom(("solve_ivp", y0.sym().key(), r.sym().key(), k), nd.d1(*y0.shape), name="y%d" % k, real=y0.kind != "c")
        cols.append(tn.atom_value(a, y0.shape))
    ns = types.SimpleNamespace()
    ns.t = t_eval
    ns.y = nd.wrap(tn.stack(cols, 1), y0.kind, scalar=False)
    ns.success = True
    return ns


def np_pad(a, pads, mode="constant", **kw):
    return nd.pad(a, pads, mode, **kw)


def solve_sylv(*a, **k):
    raise Unsupported("solve")


def np_save(path, arr, *k, **kw):
    it = cur()
    if not hasattr(it, "vfs"):
        it.vfs = {}
    p = path if isinstance(path, str) else repr(path)
    if not p.endswith(".npy"):
        p += ".npy"
    it.vfs[p] = nd.array(arr) if isinstance(arr, (Arr, list, tuple) + nd.NUM) else arr


def np_load(path, *k, **kw):
    it = cur()
    v = getattr(it, "vfs", {}).get(path)
    if v is None:
        raise Raise(FileNotFoundError, "No such file: %r" % (path,))
    return v.copy() if isinstance(v, Arr) else v


def deepcopy(x, memo=None):
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, Arr):
        r = x.copy()
        if x.scalar:
            r.scalar = True
    elif isinstance(x, list):
        r = []
        memo[id(x)] = r
        r.extend(deepcopy(y, memo) for y in x)
    elif isinstance(x, tuple):
        r = tuple(deepcopy(y, memo) for y in x)
    elif isinstance(x, dict):
        r = {}
        memo[id(x)] = r
        for k, v in x.items():
            r[deepcopy(k, memo)] = deepcopy(v, memo)
    elif isinstance(x, set):
        r = set(deepcopy(y, memo) for y in x)
    elif isinstance(x, I.Inst):
        f = x._m("__deepcopy__")
        if f is not None:
            return f(x, memo)
        r = I.Inst(x.cls)
        memo[id(x)] = r
        for k, v in x.d.items():
            r.d[k] = deepcopy(v, memo)
    else:
        return x
    memo[id(x)] = r
    return r


def shallow(x):
    if isinstance(x, Arr):
        return x.copy()
    if isinstance(x, I.Inst):
        f = x._m("__copy__")
        if f is not None:
            return f(x)
        r = I.Inst(x.cls)
        r.d.update(x.d)
        return r
    if isinstance(x, (list, dict, set)):
        return x.copy()
    return x


_uu = itertools.count()


def uuid4():
    ns = types.SimpleNamespace()
    ns.hex = "uid%d" % next(_uu)
    return ns


def randint(*a, **k):
    raise Unsupported("random integer")


def sp_norm(a, ord=None, axis=None, keepdims=False, **kw):
    return nd.norm(a, ord, axis, keepdims)


def full_svd(a, full_matrices=True, compute_uv=True, overwrite_a=False, check_finite=True, lapack_driver="gesdd"):
    if lapack_driver not in ("gesdd", "gesvd"):
        raise Raise(ValueError, "lapack_driver")
    return nd.svd(a, full_matrices, compute_uv)


def np_diff(a, n=1, axis=-1):
    a = nd.to_arr(a)
    if a.const:
        return nd.result(np.diff(a.cval(), n, axis))
    m = a.shape[axis]
    hi = nd.take(a, list(range(1, m)), axis)
    lo = nd.take(a, list(range(m - 1)), axis)
    return hi - lo


def cross(a, b, **kw):
    a, b = nd.to_arr(a), nd.to_arr(b)
    g = lambda v, i: nd.getitem(v, (Ellipsis, i))
    return nd.stack([g(a, 1) * g(b, 2) - g(a, 2) * g(b, 1), g(a, 2) * g(b, 0) - g(a, 0) * g(b, 2), g(a, 0) * g(b, 1) - g(a, 1) * g(b, 0)], -1)


def tril_like(name):
    return _argfold(name)


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if isinstance(a, (types.GeneratorType, map)):
        return _sum(a)
    return nd.sum_(a, axis, keepdims=keepdims)


def lstsq(*a, **k):
    raise Unsupported("lstsq")


def nop(*a, **k):
    return None


def ew_abs(x, *a, **k):
    return nd.absolute(x)


T.update({
    "array": nd.array, "asarray": nd.asarray, "ascontiguousarray": nd.asarray, "asanyarray": nd.asarray,
    "zeros": nd.zeros, "ones": nd.ones, "empty": nd.empty, "zeros_like": nd.zeros_like, "ones_like": nd.ones_like,
    "empty_like": nd.empty_like, "full": nd.full, "eye": nd.eye, "identity": nd.identity, "transpose": lambda a, axes=None: nd.transpose(nd.to_arr(a), axes),
    "swapaxes": lambda a, i, j: nd.swapaxes(nd.to_arr(a), i, j), "moveaxis": lambda a, s, d: nd.moveaxis(nd.to_arr(a), s, d),
    "rollaxis": lambda a, x, start=0: nd.rollaxis(nd.to_arr(a), x, start),
    "reshape": lambda a, s=None, order="C", newshape=None: nd.reshape(nd.to_arr(a), s if s is not None else newshape, order=order),
    "ravel": lambda a, order="C": nd.ravel(nd.to_arr(a), order),
    "expand_dims": lambda a, axis: nd.expand_dims(nd.to_arr(a), axis), "squeeze": lambda a, axis=None: nd.squeeze(nd.to_arr(a), axis),
    "conj": nd.conj, "conjugate": nd.conj, "real": nd.real, "imag": nd.imag, "abs": nd.absolute, "absolute": nd.absolute, "sqrt": nd.sqrt,
    "tensordot": nd.tensordot, "dot": nd.dot, "matmul": nd.matmul, "einsum": nd.einsum, "trace": nd.trace, "diagonal": nd.diagonal, "diag": nd.diag,
    "kron": nd.kron, "outer": nd.outer, "inner": nd.inner, "vdot": nd.vdot, "sum": np_sum, "mean": nd.mean, "prod": nd.prod,
    "cumsum": nd.cumsum, "count_nonzero": nd.count_nonzero, "concatenate": nd.concatenate, "stack": nd.stack, "vstack": nd.vstack, "hstack": nd.hstack,
    "block": nd.block, "split": nd.split, "array_split": nd.array_split, "tile": nd.tile, "pad": np_pad, "flip": nd.flip,
    "flipud": lambda a: nd.flip(nd.to_arr(a), 0), "fliplr": lambda a: nd.flip(nd.to_arr(a), 1), "roll": nd.roll, "take": nd.take,
    "delete": nd.delete, "allclose": nd.allclose, "isclose": isclose_model, "copy": np_copy, "shape": np_shape,
    "ndim": lambda a: nd.to_arr(a).ndim, "size": lambda a: nd.to_arr(a).size, "array_equal": array_equal, "insert": insert, "append": append, "where": where,
    "real_if_close": real_if_close, "isrealobj": isrealobj, "iscomplexobj": iscomplexobj, "all": _allany("all"), "any": _allany("any"), "isnan": isfin("isnan"), "isinf": isfin("isinf"),
    "isfinite": isfin("isfinite"), "max": _minmax("max"), "min": _minmax("min"), "amax": _minmax("max"), "amin": _minmax("min"), "sort": _sort_list,
    "repeat": _repeat, "diff": np_diff, "cross": cross, "save": np_save, "load": np_load, "multiply": lambda a, b: nd.binop("*", a, b),
    "add": lambda a, b: nd.binop("+", a, b), "subtract": lambda a, b: nd.binop("-", a, b), "divide": lambda a, b: nd.binop("/", a, b),
    "true_divide": lambda a, b: nd.binop("/", a, b), "power": lambda a, b: nd.binop("**", a, b), "negative": nd.neg, "square": lambda a: nd.binop("*", a, a),
    "printoptions": lambda **k: I.Stub("printoptions"), "set_printoptions": nop, "seterr": nop, "get_include": lambda: "", "errstate": lambda **k: I.Stub("errstate"),
    "trapz": _argfold("trapezoid") if hasattr(np, "trapezoid") else _argfold("trapz"),
    "ndarray": Arr,
})
T["arctan2"] = nd.arctan2
for _n in ["exp", "log", "cos", "sin", "tan", "sign", "angle", "arccos", "arcsin", "arctan", "cosh", "sinh", "tanh", "log2", "log10"]:
    T[_n] = nd.ew(_n, getattr(np, _n))


def _sign126(v):
    """numpy < 2: the sign of a complex number is the sign of its real (then imaginary) part"""
    v = np.asarray(v)
    return np.where(v.real != 0, np.sign(v.real), np.sign(v.imag)) if np.iscomplexobj(v) else np.sign(v)


T["sign"] = nd.ew("sign", _sign126)

LINALG = {
    "norm": nd.norm, "svd": nd.svd, "qr": nd.np_qr, "inv": nd.inv, "eig": nd.eig, "eigh": nd.eigh, "eigvals": nd.eigvals, "eigvalsh": nd.eigvalsh,
    "cholesky": nd.cholesky, "det": nd.det, "matrix_power": nd.matrix_power, "solve": nd.solve, "LinAlgError": np.linalg.LinAlgError,
    "pinv": nd.inv if False else (lambda *a, **k: (_ for _ in ()).throw(Unsupported("pinv"))), "lstsq": lstsq,
}
SPLINALG = {
    "norm": sp_norm, "svd": full_svd, "qr": nd.sp_qr, "rq": nd.sp_rq, "inv": nd.inv, "eig": nd.eig, "eigh": nd.eigh, "eigvals": nd.eigvals,
    "eigvalsh": nd.eigvalsh, "cholesky": nd.sp_cholesky, "det": nd.det, "expm": nd.expm, "sqrtm": nd.sqrtm, "logm": nd.logm, "null_space": nd.null_space,
    "polar": nd.polar, "block_diag": nd.block_diag, "solve": nd.solve, "LinAlgError": np.linalg.LinAlgError, "orth": lambda *a, **k: (_ for _ in ()).throw(Unsupported("orth")),
}
SPARSE = {"eigs": arnoldi, "eigsh": arnoldi, "expm_multiply": expm_multiply, "expm": nd.expm, "aslinearoperator": aslinop, "LinearOperator": LinOp}
I.EXTBASE["scipy.sparse.linalg.LinearOperator"] = {
    "__init__": I.ExtMethod(lo_init), "matvec": I.ExtMethod(lo_matvec), "rmatvec": I.ExtMethod(lo_rmatvec), "dot": I.ExtMethod(lo_dot),
    "__matmul__": I.ExtMethod(lo_dot), "__mul__": I.ExtMethod(lo_dot)}
I.EXTBASE["LinOp"] = I.EXTBASE["scipy.sparse.linalg.LinearOperator"]
RANDOM = {"randn": nd.randn, "rand": nd.randn, "normal": nd.rand_size, "random": nd.rand_size, "uniform": nd.rand_size, "standard_normal": nd.rand_size,
          "randint": randint, "seed": nop, "choice": randint, "permutation": randint, "shuffle": randint}

CONST_NP = {"pi", "e", "inf", "nan", "newaxis", "complex128", "complex64", "float64", "float32", "int64", "int32", "bool_", "integer", "number",
            "generic", "floating", "complexfloating", "single", "double", "csingle", "cdouble", "int8", "uint8", "dtype", "NaN", "complex_", "float_", "int_",
            "s_", "ix_", "finfo", "iinfo"}

OSFUN = {"getcwd": lambda: "/cwd", "path": None}


def _fold(real, path):
    def f(*args, **kw):
        if nd.deep_const(args) and nd.deep_const(kw) and not any(isinstance(x, (I.Func, I.BMethod, I.Inst, I.Stub)) for x in args):
            try:
                return nd.result(real(*nd.raw(tuple(args)), **nd.raw(kw)))
            except (Raise, Unsupported):
                raise
            except Exception as e:
                raise Raise(type(e), str(e))
        raise Unsupported("no model of %s for symbolic arguments" % path)
    return f


def _real(path):
    """resolve a real library object for constants/folding; None if it does not exist"""
    parts = path.split(".")
    import importlib
    for i in range(len(parts), 0, -1):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                o = importlib.import_module(".".join(parts[:i]))
        except ImportError:
            continue
        for p in parts[i:]:
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    o = getattr(o, p)
            except AttributeError:
                return None
        return o
    return None


_cache = {}
_sentinel = object()
SUBMODS = {"numpy.linalg", "numpy.random", "scipy.linalg", "scipy.sparse", "scipy.sparse.linalg", "scipy.optimize", "scipy.integrate",
           "numpy.linalg.linalg", "numpy.core", "os.path", "scipy.linalg.lapack", "collections.abc", "scipy.special", "numpy.polynomial"}


def resolve_ext(it, path):
    if path in _cache:
        return _cache[path]
    v = _resolve(it, path)
    _cache[path] = v
    return v


def _ef(path, fn):
    return I.ExtFunc(path, fn)


def _resolve(it, path):
    if path in SUBMODS:
        return I.ExtModule(path)
    parts = path.split(".")
    root, name = parts[0], parts[-1]
    parent = ".".join(parts[:-1])
    if root == "numpy":
        if path == "numpy.ndarray":
            return Arr
        if parent in ("numpy.linalg", "numpy.linalg.linalg"):
            if name in LINALG:
                v = LINALG[name]
                return v if isinstance(v, type) else _ef(path, v)
        elif parent == "numpy.random":
            if name in RANDOM:
                return _ef(path, RANDOM[name])
            raise Unsupported(path)
        elif parent in ("numpy", "numpy.core"):
            if name in CONST_NP:
                real = _real("numpy." + name)
                if real is None and name != "newaxis":
                    raise it.err(AttributeError, "module 'numpy' has no attribute %r" % name)
                return real
            if name in T:
                return _ef(path, T[name])
    elif root == "scipy":
        if parent == "scipy.linalg" and name in SPLINALG:
            v = SPLINALG[name]
            return v if isinstance(v, type) else _ef(path, v)
        if parent == "scipy.sparse.linalg" and name in SPARSE:
            return _ef(path, SPARSE[name])
        if path == "scipy.integrate.solve_ivp":
            return _ef(path, solve_ivp)
        if path == "scipy.optimize.root":
            return _ef(path, root_model)
        if parent == "scipy":
            # deprecated numpy aliases do not exist any more
            if _real(path) is None:
                raise it.err(AttributeError, "module 'scipy' has no attribute %r" % name)
        if parent in ("scipy.linalg.lapack",):
            return I.Stub(path)
    elif root == "copy":
        return {"copy": shallow, "deepcopy": deepcopy}.get(name) or Unsupported(path)
    elif root == "functools":
        if name == "lru_cache":
            return lambda *a, **k: (a[0] if a and not isinstance(a[0], int) else (lambda f: f))
        if name == "wraps":
            return lambda f: (lambda g: g)
        return getattr(functools, name)
    elif root in ("itertools", "operator", "collections", "math", "cmath", "fractions", "string", "numbers", "typing", "abc",
                  "enum", "contextlib", "types"):
        o = _real(path)
        if o is None:
            raise it.err(AttributeError, "module %r has no attribute %r" % (parent, name))
        if root in ("math", "cmath") and callable(o):
            return _ef(path, _math(o, name))
        return o
    elif root == "time":
        return _ef(path, lambda *a: 0.0)
    elif root == "uuid":
        return _ef(path, uuid4) if name == "uuid4" else I.Stub(path)
    elif root == "os":
        if parent == "os.path" and name in ("join", "basename", "dirname", "splitext", "abspath"):
            return getattr(os.path, name) if name != "abspath" else (lambda p: p)
        if name == "getcwd":
            return lambda: "/cwd"
        return I.Stub(path)
    elif root == "tqdm":
        return _ef(path, _tqdm)
    elif root in ("warnings", "sys", "random", "builtins"):
        return I.Stub(path)
    elif root == "dataclasses":
        raise Unsupported(path)
    real = _real(path)
    if real is None:
        raise it.err(AttributeError, "module %r has no attribute %r" % (parent, name))
    if isinstance(real, types.ModuleType):
        return I.ExtModule(path)
    if callable(real) and not isinstance(real, type):
        return _ef(path, _fold(real, path))
    return real if not isinstance(real, type) else (real if issubclass(real, BaseException) else _ef(path, _fold(real, path)))


def _math(o, name):
    def f(*a):
        if nd.deep_const(a):
            try:
                v = [x.item() if isinstance(x, np.generic) else (nd.concrete_number(x) if isinstance(x, Arr) else x) for x in a]
                if o in (int, float):    # numpy discards the imaginary part with a warning
                    v = [z.real if isinstance(z, complex) and not isinstance(x, complex) or isinstance(x, np.complexfloating) else z for z, x in zip(v, a)]
                return o(*v)
            except (ValueError, TypeError, OverflowError) as e:
                raise Raise(type(e), str(e))
        if name in T:
            return T[name](*a)
        raise Unsupported("math.%s of a symbolic value" % name)
    return f


def _tqdm(it=None, *a, **k):
    return it if it is not None else I.Stub("tqdm")


root_model = root
SAFE = ()
I.REALMODS.add("tqdm")
I.STUBMODS.discard("tqdm")
