"""Abstract ndarrays: mutable cells with views, over the contraction-network
domain (tn.Sym) or exact constants; plus transfer functions for the numpy/scipy
routines the repository uses."""
from __future__ import annotations
import itertools, math, operator
from fractions import Fraction
import numpy as np
from . import tn
from .tn import Sym, DomainError, ShapeError


class Unsupported(Exception):
    """the analysis has no transfer function for this construct"""


class Raise(Exception):
    """the analysed program raises (exception class, message)"""

    def __init__(self, exc, msg="", node=None, value=None):
        Exception.__init__(self, "%s: %s" % (getattr(exc, "__name__", exc), msg))
        self.exc = exc
        self.msg = msg
        self.node = node
        self.value = value


class UBool:
    """truth value the analysis does not know"""
    __slots__ = ("key", "neg", "parts")

    def __init__(self, key, neg=False, parts=None):
        self.key = key
        self.neg = neg
        self.parts = parts          # () -> shape and element -> UBool, for an elementwise comparison

    def __invert__(self):
        return UBool(self.key, not self.neg, self.parts)

    def mask(self):
        """array of truth values, decided element by element"""
        if self.parts is None:
            raise Unsupported("unknown mask")
        return self.parts() ^ self.neg

    def __bool__(self):
        return HOOK.decide(self)

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    def astype(self, *a, **k):
        raise Unsupported("unknown boolean cast")


class Hook:
    """interpreter services used by the array layer"""
    node = None

    def decide(self, ub):
        raise Unsupported("undecided condition outside the interpreter")

    def wrote(self, buf):
        pass

    def here(self):
        return None


HOOK = Hook()

# --------------------------------------------------------------------------
_bufn = itertools.count()


class Buf:
    __slots__ = ("val", "size", "shape", "kind", "version", "label", "writes", "id", "pend")

    def __init__(self, val, kind="c", label=None):
        self.val = val
        self.shape = tuple(val.shape)
        self.kind = kind
        self.version = 0
        self.label = label
        self.writes = []
        self.id = next(_bufn)
        self.pend = None

    def value(self):
        if self.pend:
            self.flush()
        return self.val

    def flush(self):
        pend, self.pend = self.pend, None
        base = self.val
        if isinstance(base, np.ndarray):
            b = base.copy().astype(complex)
            for idx in pend:
                b[idx] = 0
            terms = list(tn.from_const(b).terms)
        else:
            terms = list(base.terms)
            if len(pend) == int(np.prod(self.shape)):
                terms = []
            else:
                for idx in pend:
                    old = base
                    for k in idx:
                        old = tn.take(old, 0, k)
                    terms.extend(_placed(old.scale(-1), self.shape, idx))
        for idx, v in pend.items():
            terms.extend(_placed(v, self.shape, idx))
        self.val = Sym(self.shape, terms).norm()


def _placed(s, shape, idx):
    r = []
    for n, m, a, o in s.terms:
        out = []
        at = list(a)
        for d, k in zip(shape, idx):
            if d == 1:
                out.append(())
            else:
                w = tn.wire(d)
                at.append((tn.basis_atom(d, k).id, False, ((w,),)))
                out.append((w,))
        r.append((n, m, tuple(at), tuple(out)))
    return r


def kind_of_dtype(dt):
    if dt is None:
        return "f"
    k = np.dtype(dt).kind
    return {"c": "c", "f": "f", "i": "i", "u": "i", "b": "b", "O": "O", "U": "O", "S": "O"}.get(k, "O")


def _fk(k):
    """kind of a result that numpy always computes in floating point"""
    return "f" if k in "ib" else k


_rank = {"b": 0, "i": 1, "f": 2, "c": 3}


def promote(*ks):
    return max(ks, key=lambda k: _rank.get(k, 3))


class Arr:
    """ndarray abstraction; `ops` is the view path from the buffer"""
    __slots__ = ("buf", "ops", "shadow", "scalar", "_c", "tags")
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, buf, ops=(), shadow=None, scalar=False):
        self.buf = buf
        self.ops = tuple(ops)
        if shadow is None:
            shadow = np.arange(int(np.prod(buf.shape))).reshape(buf.shape)
        self.shadow = shadow
        self.scalar = scalar
        self._c = None

    # -- basic attributes
    @property
    def shape(self):
        return tuple(int(x) for x in self.shadow.shape)

    @property
    def ndim(self):
        return self.shadow.ndim

    @property
    def size(self):
        return int(self.shadow.size)

    @property
    def kind(self):
        return self.buf.kind

    @property
    def const(self):
        return isinstance(self.buf.val, np.ndarray) and not self.buf.pend

    def cval(self):
        """constant value"""
        v = self.buf.val
        if not self.ops:
            return v
        return v.reshape(-1)[self.shadow] if v.size else np.zeros(self.shape, v.dtype)

    def sym(self):
        b = self.buf
        if self._c is not None and self._c[0] == b.version and not b.pend:
            return self._c[1]
        if self.const:
            s = tn.from_const(self.cval()) if b.kind != "O" else _noobj()
        else:
            s = b.value()
            for op in self.ops:
                s = apply_op(s, op)
            s = s.norm() if self.ops else s
        self._c = (b.version, s)
        return s

    def copy(self, *a, **k):
        return wrap(self.cval().copy() if self.const else self.sym(), self.kind)

    def __len__(self):
        if self.ndim == 0:
            raise Raise(TypeError, "len() of unsized object")
        return self.shape[0]

    def __iter__(self):
        if self.ndim == 0:
            raise Raise(TypeError, "iteration over a 0-d array")
        return iter([getitem(self, i) for i in range(self.shape[0])])

    def __getitem__(self, k):
        return getitem(self, k)

    def __setitem__(self, k, v):
        setitem(self, k, v)

    def __bool__(self):
        if self.const:
            return bool(self.cval())
        if self.size != 1:
            raise Raise(ValueError, "The truth value of an array with more than one element is ambiguous")
        s = self.sym()
        if s.is_zero():
            return False
        return HOOK.decide(UBool(("nonzero", s.key())))

    def __index__(self):
        if self.const and self.kind in "ib" and self.size == 1:
            return int(self.cval())
        raise Raise(TypeError, "only integer scalar arrays can be converted to a scalar index")

    def __int__(self):
        z = concrete_number(self)
        return int(z.real if isinstance(z, complex) else z)    # numpy discards the imaginary part with a warning

    def __float__(self):
        z = concrete_number(self)
        return float(z.real if isinstance(z, complex) else z)

    def __complex__(self):
        return complex(concrete_number(self))

    def __hash__(self):
        return id(self)

    def __repr__(self):
        if self.const:
            return "Arr(%r)" % (self.cval(),)
        return "Arr%s %s" % (self.shape, self.sym())


def _noobj():
    raise DomainError("object array")


def concrete_number(a):
    if a.size != 1:
        raise Raise(TypeError, "only length-1 arrays can be converted to Python scalars")
    if a.const:
        return a.cval().reshape(-1)[0].item()
    s = a.sym().norm()
    if not s.terms:
        return 0.0
    if len(s.terms) == 1 and not s.terms[0][1] and not s.terms[0][2]:
        z = complex(s.terms[0][0])
        return z if a.kind == "c" else z.real
    raise Unsupported("symbolic scalar used as a concrete number")


def wrap(v, kind=None, label=None, scalar=None):
    """fresh array from constant ndarray or Sym"""
    if isinstance(v, Sym):
        a = Arr(Buf(v.norm(), kind or "c", label))
        if v.shape == () and scalar is not False:
            a.scalar = True
        return a
    v = np.asarray(v)
    if v.dtype == object:
        raise Unsupported("object array")
    return Arr(Buf(v, kind_of_dtype(v.dtype), label))


def result(v, kind="c"):
    """library result: constants of shape () become numpy scalars"""
    if isinstance(v, Sym):
        return wrap(v, kind)
    if isinstance(v, np.ndarray):
        if v.ndim == 0:
            return v[()]
        return wrap(v)
    if isinstance(v, (list, tuple)) and any(isinstance(x, np.ndarray) for x in v):
        return type(v)(result(x) for x in v) if type(v) in (list, tuple) else tuple(result(x) for x in v)
    return v


def is_const(x):
    return not isinstance(x, Arr) or x.const


def raw(x):
    """Arr -> ndarray constant recursively"""
    if isinstance(x, Arr):
        return x.cval()
    if isinstance(x, list):
        return [raw(y) for y in x]
    if type(x) is tuple:
        return tuple(raw(y) for y in x)
    if isinstance(x, dict):
        return {k: raw(v) for k, v in x.items()}
    return x


def deep_const(x):
    if isinstance(x, Arr):
        return x.const
    if isinstance(x, (list, tuple)):
        return all(deep_const(y) for y in x)
    if isinstance(x, dict):
        return all(deep_const(y) for y in x.values())
    if isinstance(x, UBool):
        return False
    return True


NUM = (int, float, complex, np.number, bool, np.bool_)


def to_arr(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, NUM):
        return wrap(np.asarray(x))
    if isinstance(x, (list, tuple, range)):
        return array(x)
    if hasattr(x, "__array_items__"):
        return array(list(x.__array_items__()))
    if isinstance(x, UBool):
        return wrap(np.asarray(bool(x)))
    if x is None:
        raise Raise(TypeError, "unsupported operand type: NoneType")
    raise Unsupported("array from %s" % type(x).__name__)


def symof(x):
    if isinstance(x, Sym):
        return x
    return to_arr(x).sym()


def kindof(x):
    if isinstance(x, Arr):
        return x.kind
    if isinstance(x, (bool, np.bool_)):
        return "b"
    if isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, (float, np.floating)):
        return "f"
    if isinstance(x, (complex, np.complexfloating)):
        return "c"
    return to_arr(x).kind


# ------------------------------------------------------------------ views
def apply_op(s, op):
    k = op[0]
    if k == "T":
        return tn.transpose(s, op[1])
    if k == "R":
        return tn.reshape(s, op[1])
    if k == "take":
        return tn.take(s, op[1], op[2])
    if k == "sel":
        return tn.select(s, op[1], op[2])
    raise DomainError(k)


def set_path(base, ops, val):
    if not ops:
        return val
    op = ops[0]
    if op[0] == "T":
        inv = [0] * len(op[1])
        for i, p in enumerate(op[1]):
            inv[p] = i
        return tn.transpose(set_path(tn.transpose(base, op[1]), ops[1:], val), inv)
    if op[0] == "R":
        return tn.reshape(set_path(tn.reshape(base, op[1]), ops[1:], val), base.shape)
    if op[0] == "take":
        ax, k = op[1], op[2]
        sub = tn.take(base, ax, k)
        new = set_path(sub, ops[1:], val)
        d = Sym(sub.shape, new.terms + sub.scale(-1).terms).norm()
        d1 = Sym(d.shape[:ax] + (1,) + d.shape[ax:], [(n, m, a, o[:ax] + ((),) + o[ax:]) for n, m, a, o in d.terms])
        e = tn.embed(d1, ax, base.shape[ax], [k])
        return Sym(base.shape, base.terms + e.terms).norm()
    if op[0] == "sel":
        ax, idx = op[1], op[2]
        sub = tn.select(base, ax, idx)
        new = set_path(sub, ops[1:], val)
        d = Sym(sub.shape, new.terms + sub.scale(-1).terms).norm()
        e = tn.embed(d, ax, base.shape[ax], idx)
        return Sym(base.shape, base.terms + e.terms).norm()
    raise DomainError(op[0])


def view(a, ops, shadow):
    """derived array sharing a's buffer when numpy would share memory"""
    shares = shadow.size == 0 or np.shares_memory(shadow, a.shadow)
    if shares:
        r = Arr(a.buf, a.ops + tuple(ops), shadow)
        if r.ndim == 0 and not ops_keep0(a, ops):
            r = _detach(r)
        return r
    if a.const:
        return wrap(a.buf.val.reshape(-1)[shadow] if a.buf.val.size else np.zeros(shadow.shape, a.buf.val.dtype))
    s = a.sym()
    for op in ops:
        s = apply_op(s, op)
    return wrap(s, a.kind, scalar=False)


def ops_keep0(a, ops):
    return False


def _detach(r):
    if r.const:
        return r.cval()[()] if r.kind != "O" else r.cval()[()]
    return wrap(r.sym(), r.kind)


def norm_axis(ax, nd):
    ax = int(ax)
    if ax < -nd or ax >= nd:
        raise Raise(np.AxisError if hasattr(np, "AxisError") else ValueError, "axis %d out of bounds for dimension %d" % (ax, nd))
    return ax % nd


def transpose(a, axes=None):
    a = to_arr(a)
    if axes is None:
        axes = list(range(a.ndim))[::-1]
    axes = [norm_axis(int(x), a.ndim) for x in axes]
    if sorted(axes) != list(range(a.ndim)):
        raise Raise(ValueError, "axes don't match array")
    return view(a, [("T", tuple(axes))], a.shadow.transpose(axes))


def swapaxes(a, i, j):
    a = to_arr(a)
    p = list(range(a.ndim))
    i, j = norm_axis(i, a.ndim), norm_axis(j, a.ndim)
    p[i], p[j] = p[j], p[i]
    return transpose(a, p)


def moveaxis(a, src, dst):
    a = to_arr(a)
    sh = np.moveaxis(np.empty([2] * 0), [], []) if False else None
    src = [src] if isinstance(src, NUM) else list(src)
    dst = [dst] if isinstance(dst, NUM) else list(dst)
    src = [norm_axis(x, a.ndim) for x in src]
    dst = [norm_axis(x, a.ndim) for x in dst]
    order = [n for n in range(a.ndim) if n not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return transpose(a, order)


def rollaxis(a, axis, start=0):
    a = to_arr(a)
    n = a.ndim
    axis = norm_axis(axis, n)
    if start < 0:
        start += n
    if axis < start:
        start -= 1
    axes = list(range(n))
    axes.remove(axis)
    axes.insert(start, axis)
    return transpose(a, axes)


def as_ints(shape):
    if isinstance(shape, NUM):
        shape = (shape,)
    r = []
    for x in shape:
        if isinstance(x, Arr):
            if not x.const:
                raise Unsupported("symbolic shape")
            x = x.__index__()
        if isinstance(x, (float, complex, np.floating)) and not isinstance(x, (int, np.integer)):
            raise Raise(TypeError, "'float' object cannot be interpreted as an integer")
        if isinstance(x, UBool):
            raise Unsupported("unknown shape")
        if not isinstance(x, (int, np.integer)):
            raise Raise(TypeError, "bad shape entry %r" % (x,))
        r.append(int(x))
    return tuple(r)


def reshape(a, *shape, order="C"):
    a = to_arr(a)
    if len(shape) == 1 and not isinstance(shape[0], NUM):
        shape = shape[0]
    shape = list(as_ints(shape))
    if shape.count(-1) > 1:
        raise Raise(ValueError, "can only specify one unknown dimension")
    if -1 in shape:
        rest = 1
        for x in shape:
            if x != -1:
                rest *= x
        if rest == 0 or a.size % rest:
            raise Raise(ValueError, "cannot reshape array of size %d into shape %s" % (a.size, tuple(shape)))
        shape[shape.index(-1)] = a.size // rest
    tot = 1
    for x in shape:
        tot *= x
    if tot != a.size:
        raise Raise(ValueError, "cannot reshape array of size %d into shape %s" % (a.size, tuple(shape)))
    shape = tuple(shape)
    if order == "C" or order == "A":
        return view(a, [("R", shape)], a.shadow.reshape(shape))
    if order == "F":
        n = a.ndim
        sh = a.shadow.reshape(shape, order="F")
        ops = [("T", tuple(range(n))[::-1]), ("R", shape[::-1]), ("T", tuple(range(len(shape)))[::-1])]
        return view(a, ops, sh)
    raise Unsupported("reshape order")


def ravel(a, order="C"):
    return reshape(a, -1, order=order)


def expand_dims(a, axis):
    a = to_arr(a)
    axes = [axis] if isinstance(axis, NUM) else list(axis)
    nd = a.ndim + len(axes)
    axes = [norm_axis(x, nd) for x in axes]
    it = iter(a.shape)
    return reshape(a, tuple(1 if i in axes else next(it) for i in range(nd)))


def squeeze(a, axis=None):
    a = to_arr(a)
    if axis is None:
        sh = tuple(n for n in a.shape if n != 1)
    else:
        axes = [axis] if isinstance(axis, NUM) else list(axis)
        axes = [norm_axis(x, a.ndim) for x in axes]
        for x in axes:
            if a.shape[x] != 1:
                raise Raise(ValueError, "cannot select an axis to squeeze out which has size not equal to one")
        sh = tuple(n for i, n in enumerate(a.shape) if i not in axes)
    if sh == a.shape:
        return a
    r = view(a, [("R", sh)], a.shadow.reshape(sh))
    return r


def _is_boolmask(k):
    return isinstance(k, Arr) and k.kind == "b" or (isinstance(k, list) and k and all(isinstance(x, (bool, np.bool_)) for x in k))


def parse_index(a, key):
    """-> (ops, shadow) ; or ('fancy', ...)"""
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    for i, k in enumerate(key):
        if isinstance(k, UBool):
            key[i] = k.mask()
            continue
        if isinstance(k, Arr):
            if not k.const:
                raise Unsupported("symbolic index")
            key[i] = k.cval()
            if key[i].ndim == 0:
                key[i] = key[i][()]
        elif isinstance(k, list):
            key[i] = np.asarray(raw(k))
        elif isinstance(k, range):
            key[i] = np.asarray(list(k))
    ell = [i for i, k in enumerate(key) if k is Ellipsis]
    used = sum(1 for k in key if k is not None and k is not Ellipsis)
    # boolean masks consume several axes
    for k in key:
        if isinstance(k, np.ndarray) and k.dtype == bool:
            used += k.ndim - 1
    if used > a.ndim:
        raise Raise(IndexError, "too many indices for array: array is %d-dimensional, but %d were indexed" % (a.ndim, used))
    full = [slice(None)] * (a.ndim - used)
    if ell:
        key[ell[0]:ell[0] + 1] = full
    else:
        key = key + full
    return key


def getitem(a, key):
    if isinstance(key, str):
        raise Raise(IndexError, "only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    key = parse_index(a, key)
    fancy = [k for k in key if isinstance(k, np.ndarray)]
    if fancy:
        return getitem_fancy(a, key)
    ops = []
    ax = 0
    sh = a.shadow
    newdims = []
    for k in key:
        if k is None:
            newdims.append(ax)
            ax += 1
            sh = np.expand_dims(sh, ax - 1)
            ops.append(("R", sh.shape))
        elif isinstance(k, slice):
            try:
                idx = list(range(*slice_ints(k).indices(sh.shape[ax])))
            except TypeError:
                raise Raise(TypeError, "slice indices must be integers or None or have an __index__ method")
            if idx != list(range(sh.shape[ax])):
                ops.append(("sel", ax, tuple(idx)))
                sh = sh[(slice(None),) * ax + (slice_ints(k),)]
            ax += 1
        elif isinstance(k, (int, np.integer)) and not isinstance(k, bool):
            k = int(k)
            n = sh.shape[ax]
            if k < -n or k >= n:
                raise Raise(IndexError, "index %d is out of bounds for axis %d with size %d" % (k, ax, n))
            ops.append(("take", ax, k % n))
            sh = sh[(slice(None),) * ax + (k % n,)]
            sh = np.asarray(sh) if not isinstance(sh, np.ndarray) else sh
        else:
            raise Raise(IndexError, "only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices (%s)" % type(k).__name__)
    if not ops:
        return view(a, [], a.shadow[...])
    if sh.ndim == 0:
        # element access: scalar
        if a.const:
            return a.buf.val.reshape(-1)[int(sh)]
        s = a.sym()
        for op in ops:
            s = apply_op(s, op)
        return wrap(s, a.kind)
    return view(a, ops, sh)


def slice_ints(k):
    def f(x):
        if x is None or isinstance(x, (int, np.integer)):
            return x
        if isinstance(x, Arr):
            return x.__index__()
        if isinstance(x, (float, complex, np.floating)):
            raise Raise(TypeError, "slice indices must be integers or None or have an __index__ method")
        if isinstance(x, UBool):
            raise Unsupported("unknown slice")
        return operator.index(x)
    return slice(f(k.start), f(k.stop), f(k.step))


def getitem_fancy(a, key):
    if a.const:
        r = a.cval()[tuple(key)]
        return wrap(r) if isinstance(r, np.ndarray) and r.ndim else r
    pos = [i for i, k in enumerate(key) if isinstance(k, np.ndarray)]
    if len(pos) == 1 and key[pos[0]].dtype == bool and key[pos[0]].ndim == 1:
        key = list(key)
        key[pos[0]] = np.nonzero(key[pos[0]])[0]
    if len(pos) == 1 and key[pos[0]].ndim == 1 and not any(k is None for k in key):
        p = pos[0]
        idx = [int(x) for x in key[p]]
        n = a.shape[p]
        for x in idx:
            if x < -n or x >= n:
                raise Raise(IndexError, "index %d is out of bounds for axis %d with size %d" % (x, p, n))
        idx = [x % n for x in idx]
        # ints before/after make numpy move axes only when separated; handle slices only
        s = tn.select(a.sym(), p, idx)
        b = wrap(s, a.kind, scalar=False)
        k2 = [slice(None) if i == p else k for i, k in enumerate(key)]
        if all(isinstance(k, slice) for k in k2):
            return getitem(b, tuple(k2)).copy()
    # general: gather elementwise when small
    sh = a.shadow[tuple(key)]
    flat = wrap(tn.reshape(wrap_full(a), (a.size,)), a.kind, scalar=False)
    order = {v: i for i, v in enumerate(a.shadow.reshape(-1).tolist())}
    idx = [order[v] for v in sh.reshape(-1).tolist()]
    if sh.ndim == 0:
        return getitem(flat, idx[0])
    s = tn.select(flat.sym(), 0, idx)
    return wrap(tn.reshape(s, sh.shape), a.kind, scalar=False)


def wrap_full(a):
    return a.sym()


def broadcast_to_sym(s, shape):
    nd = len(shape)
    if len(s.shape) > nd:
        # numpy allows leading ones to be dropped in assignment
        lead = s.shape[:len(s.shape) - nd]
        if any(x != 1 for x in lead):
            raise ShapeError("could not broadcast input array from shape %s into shape %s" % (s.shape, shape))
        s = tn.reshape(s, s.shape[len(lead):])
    if s.shape == tuple(shape):
        return s
    s = tn.reshape(s, (1,) * (nd - len(s.shape)) + s.shape)
    for x, y in zip(s.shape, shape):
        if x != y and x != 1:
            raise ShapeError("could not broadcast input array from shape %s into shape %s" % (s.shape, shape))
    res = []
    for n, m, a, o in s.terms:
        res.append((n, m, a, tuple(g if x == y else tn.group_of(y) for g, x, y in zip(o, s.shape, shape))))
    return Sym(shape, res)


def setitem(a, key, v):
    if a.scalar:
        raise Raise(TypeError, "'numpy.float64' object does not support item assignment")
    keyl = parse_index(a, key)
    if any(isinstance(k, np.ndarray) for k in keyl):
        if a.const and is_const(v):
            sh = a.shadow[tuple(keyl)]
            _const_write(a, sh, raw(v))
            return
        sh = a.shadow[tuple(keyl)]
        vs = broadcast_to_sym(symof(v), sh.shape)
        # general scatter, element by element
        flatv = tn.reshape(vs, (int(np.prod(sh.shape)),)) if sh.ndim else vs
        for i, f in enumerate(sh.reshape(-1).tolist()):
            e = tn.take(flatv, 0, i) if sh.ndim else flatv
            _elem_write(a.buf, int(f), e)
        _touch(a.buf)
        return
    # element write
    if all(isinstance(k, (int, np.integer)) and not isinstance(k, bool) for k in keyl):
        for k, n in zip(keyl, a.shape):
            if k < -n or k >= n:
                raise Raise(IndexError, "index %d is out of bounds" % k)
        sh = a.shadow[tuple(int(k) for k in keyl)]
        if a.const and is_const(v):
            _const_write(a, np.asarray(sh), raw(v))
            return
        vs = symof(v)
        if vs.shape != ():
            if int(np.prod(vs.shape)) == 1:
                vs = tn.reshape(vs, ())
            else:
                raise Raise(ValueError, "setting an array element with a sequence.")
        _elem_write(a.buf, int(sh), _castkind(vs, kindof(v), a.kind))
        _touch(a.buf)
        return
    r = getitem(a, tuple(keyl))
    assign_into(r, v)


def _castkind(s, vk, bk):
    if vk == "c" and bk in "fib":
        return Sym(s.shape, s.scale(0.5).terms + s.conj().scale(0.5).terms).norm()
    return s


def _elem_write(buf, flat, s):
    idx = tuple(int(i) for i in np.unravel_index(flat, buf.shape)) if buf.shape else ()
    if buf.pend is None:
        buf.pend = {}
    buf.pend[idx] = s


def _touch(buf):
    buf.version += 1
    HOOK.wrote(buf)


def _const_write(a, sh, v):
    v = np.asarray(v)
    buf = a.buf
    if v.dtype.kind == "c" and buf.val.dtype.kind != "c":
        v = v.real
    nv = buf.val.copy()
    flat = nv.reshape(-1)
    try:
        flat[sh] = v if v.ndim <= sh.ndim else v.reshape(v.shape[v.ndim - sh.ndim:])
    except ValueError as e:
        raise Raise(ValueError, str(e))
    buf.val = flat.reshape(nv.shape)
    _touch(buf)


def assign_into(r, v):
    """write v over the whole region described by array r (a view)"""
    if not isinstance(r, Arr):
        raise Unsupported("assignment into detached scalar")
    buf = r.buf
    if r.const and is_const(v) and not isinstance(v, Sym):
        _const_write(r, r.shadow, raw(to_arr(v)))
        return
    s = v if isinstance(v, Sym) else symof(v)
    vk = "c" if isinstance(v, Sym) else kindof(v)
    s = _castkind(s, vk, buf.kind)
    s = broadcast_to_sym(s, r.shape)
    base = buf.value()
    if isinstance(base, np.ndarray):
        base = tn.from_const(base)
    buf.val = set_path(base, r.ops, s).norm()
    _touch(buf)


# ------------------------------------------------------------------ creation
def array(x, dtype=None, copy=True, **kw):
    if isinstance(x, Arr):
        if dtype is not None:
            return astype(x, dtype)
        return x.copy()
    if isinstance(x, NUM):
        return wrap(np.asarray(x, dtype=dtype))
    if isinstance(x, (map, filter, zip)) or not hasattr(x, "__len__"):
        if hasattr(x, "__next__"):
            raise Unsupported("array of an iterator (object array)")
    if hasattr(x, "__array_items__"):
        x = list(x.__array_items__())
    if isinstance(x, (list, tuple, range)):
        x = list(x)
        if deep_const(x):
            try:
                v = np.asarray(raw(x), dtype=dtype)
            except ValueError as e:
                raise Raise(ValueError, str(e))
            if v.dtype == object:
                raise Unsupported("object array")
            return wrap(v)
        parts = [to_arr(y) for y in x]
        k = promote(*[p.kind for p in parts])
        shp = parts[0].shape
        for p in parts:
            if p.shape != shp:
                raise Raise(ValueError, "setting an array element with a sequence. The requested array has an inhomogeneous shape")
        r = wrap(tn.stack([p.sym() for p in parts], 0), k, scalar=False)
        return r if dtype is None else astype(r, dtype)
    raise Unsupported("array(%s)" % type(x).__name__)


def asarray(x, dtype=None, **kw):
    if isinstance(x, Arr) and dtype is None:
        return x
    return array(x, dtype=dtype)


def _single(s, dtype, size):
    """a type of lower precision does not keep the entries"""
    if np.dtype(dtype).itemsize >= size:
        return s
    return elementwise("rounded to " + np.dtype(dtype).name, s, lambda x: x * (1 + 1e-4))


def astype(a, dtype, **kw):
    a = to_arr(a)
    if a.const:
        return wrap(a.cval().astype(dtype))
    k = kind_of_dtype(dtype)
    if k == "c":
        return wrap(_single(a.sym(), dtype, 16), "c", scalar=False)
    if k == "f":
        return wrap(_single(_castkind(a.sym(), a.kind, "f"), dtype, 8), "f", scalar=False)
    if k == "i":
        try:    # e.g. a header in front of data: every entry of the part is a number
            v = [concrete_number(getitem(a, ix)) for ix in np.ndindex(*a.shape)]
        except Unsupported:
            raise Unsupported("symbolic array cast to int")
        return wrap(np.array([z.real if isinstance(z, complex) else z for z in v]).reshape(a.shape).astype(dtype))
    raise Unsupported("astype")


def zeros(shape, dtype=float, order=None):
    return wrap(np.zeros(as_ints(shape), dtype))


def ones(shape, dtype=float, order=None):
    return wrap(np.ones(as_ints(shape), dtype))


_un = itertools.count()


def empty(shape, dtype=float, order=None):
    shape = as_ints(shape)
    dims = tuple(n for n in shape if n != 1)
    a = tn.atom(("uninit", next(_un)), dims, name="UNINIT", real=kind_of_dtype(dtype) != "c")
    if 0 in shape:
        return zeros(shape)
    return wrap(tn.atom_value(a, shape), kind_of_dtype(dtype), scalar=False)


def zeros_like(a, dtype=None):
    a = to_arr(a)
    dt = dtype or {"c": complex, "f": float, "i": int, "b": bool}[a.kind]
    return zeros(a.shape, dt)


def ones_like(a, dtype=None):
    a = to_arr(a)
    dt = dtype or {"c": complex, "f": float, "i": int, "b": bool}[a.kind]
    return ones(a.shape, dt)


def empty_like(a, dtype=None):
    a = to_arr(a)
    return empty(a.shape, dtype or {"c": complex, "f": float, "i": int, "b": bool}[a.kind])


def full(shape, v, dtype=None):
    if is_const(v):
        return wrap(np.full(as_ints(shape), raw(v), dtype))
    return wrap(broadcast_to_sym(symof(v), as_ints(shape)), kindof(v), scalar=False)


def eye(n, m=None, k=0, dtype=float, **kw):
    n = as_ints(n)[0]
    m = n if m is None else as_ints(m)[0]
    return wrap(np.eye(n, m, k, dtype=dtype))


def identity(n, dtype=float):
    return eye(n, dtype=dtype)


# ------------------------------------------------------------------ elementwise
def _blabels(shapes):
    nd = max(len(s) for s in shapes)
    labs = [list(range(nd - len(s), nd)) for s in shapes]
    out = list(range(nd))
    for l in out:
        dims = {s[l - (nd - len(s))] for s in shapes if l >= nd - len(s)}
        dims.discard(1)
        if len(dims) > 1:
            raise Raise(ValueError, "operands could not be broadcast together with shapes %s" % " ".join(map(str, shapes)))
    return labs, out


def bshape(*shapes):
    try:
        return np.broadcast_shapes(*shapes)
    except ValueError:
        raise Raise(ValueError, "operands could not be broadcast together with shapes %s" % " ".join(map(str, shapes)))


def fin(s, kind, scalar=None):
    if 0 in s.shape:
        return wrap(np.zeros(s.shape))
    return wrap(s, kind, scalar=scalar)


OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "**": operator.pow,
       "//": operator.floordiv, "%": operator.mod, "@": operator.matmul, "&": operator.and_, "|": operator.or_,
       "^": operator.xor, "<<": operator.lshift, ">>": operator.rshift}


def binop(op, x, y):
    """x op y where at least one is Arr"""
    if op == "@":
        return matmul(x, y)
    if isinstance(x, UBool) or isinstance(y, UBool):
        raise Unsupported("arithmetic with unknown boolean")
    if deep_const(x) and deep_const(y):
        with np.errstate(all="ignore"):
            try:
                a, b = raw(x), raw(y)
                if isinstance(a, list):
                    a = np.asarray(a)
                if isinstance(b, list):
                    b = np.asarray(b)
                return result(OPS[op](a, b))
            except ValueError as e:
                raise Raise(ValueError, str(e))
            except TypeError as e:
                raise Raise(TypeError, str(e))
    for z in (x, y):
        if isinstance(z, (str, dict, set)) or z is None:
            raise Raise(TypeError, "unsupported operand type(s) for %s" % op)
    kind = promote(kindof(x), kindof(y))
    if op in "+-":
        a, b = symof(x), symof(y)
        shp = bshape(a.shape, b.shape)
        if 0 in shp:
            return zeros(shp)
        a, b = broadcast_to_sym(a, shp), broadcast_to_sym(b, shp)
        return fin(Sym(shp, a.terms + (b.terms if op == "+" else b.scale(-1).terms)).norm(), kind)
    if op == "*":
        return mul(x, y, kind)
    if op == "/":
        return div(x, y)
    if op == "**":
        return powr(x, y)
    raise Unsupported("operator %s on symbolic arrays" % op)


def mul(x, y, kind="c"):
    a, b = symof(x), symof(y)
    if 0 in bshape(a.shape, b.shape):
        return zeros(bshape(a.shape, b.shape))
    # cheap scalar case
    if b.shape == () and len(b.terms) == 1 and not b.terms[0][1]:
        return fin(a.scale(b.terms[0][0]).norm(), kind)
    if a.shape == () and len(a.terms) == 1 and not a.terms[0][1]:
        return fin(b.scale(a.terms[0][0]).norm(), kind)
    labs, out = _blabels([a.shape, b.shape])
    return fin(tn.einsum([a, b], labs, out), kind)


def recip(s):
    """elementwise 1/s"""
    s = s.norm()
    if int(np.prod(s.shape)) == 1:
        return tn.reshape(tn.power(tn.reshape(s, ()), -1), s.shape)
    # broadcast pattern: factor out wires with no atoms (constant axes)
    return elementwise("recip", s, lambda v: 1 / v)


def split_ew(s):
    """strip axes along which a single-term value is constant"""
    return s


def elementwise(name, s, f, real=False):
    s = s.norm()
    if s.shape == ():
        a = tn.atom((name, s.key()), (), name="%s(%s)" % (name, s.digest()), real=real or (is_real(s) and name != "sqrt"),
                    sample=lambda ev: f(ev.sym(s)))
        return tn.atom_value(a, ())
    # diag-structured values delegated by callers
    dims = tuple(n for n in s.shape if n != 1)
    rec = None
    if name == "sqrt":
        rec = [sqrt_rule(s)]
    if name == "recip":
        rec = [recip_rule(s)]
    a = tn.atom((name, s.key()), dims, name="%s(%s)" % (name, s.digest()), real=real or is_real(s),
                sample=lambda ev: np.asarray(f(ev.sym(s))).reshape(dims), recon=rec,
                info={"of": s})
    return tn.atom_value(a, s.shape)


def sqrt_rule(s):
    def rule(i, atoms, out, use):
        aid, cj, axes = atoms[i]
        for j in range(len(atoms)):
            if j != i and atoms[j][0] == aid and atoms[j][2] == axes and atoms[j][1] == cj:
                rest = [t for q, t in enumerate(atoms) if q not in (i, j)]
                s2 = Sym(tuple(n for n in s.shape if n != 1), [(n, m, a, tuple(g for g, d in zip(o, s.shape) if d != 1)) for n, m, a, o in s.terms])
                return rest, s2, list(axes), cj
        return None
    return rule


def recip_rule(s):
    s = s.norm()
    if len(s.terms) != 1:
        return lambda *a: None
    n, m, at, o = s.terms[0]
    if len(at) != 1 or m:
        return lambda *a: None
    tid, tcj, taxes = at[0]
    og = [g for g in o if g]
    if list(taxes) != og:
        return lambda *a: None

    def rule(i, atoms, out, use):
        aid, cj, axes = atoms[i]
        for j in range(len(atoms)):
            if atoms[j][0] == tid and atoms[j][2] == axes and (atoms[j][1] == (tcj ^ cj) or tn.ATOMS[tid].real):
                rest = [t for q, t in enumerate(atoms) if q not in (i, j)]
                dims = tuple(tn.gdim(g) for g in axes)
                return rest, tn.ones(dims).scale(1 / n), list(axes), False
        return None
    return rule


_isreal_cache = {}


def is_real(s):
    s = s.norm()
    k = s.key()
    if k not in _isreal_cache:
        _isreal_cache[k] = s.conj().norm().key() == k
    return _isreal_cache[k]


def is_herm(s):
    s = s.norm()
    return len(s.shape) == 2 and s.shape[0] == s.shape[1] and tn.transpose(s.conj(), (1, 0)).norm().key() == s.key()


def div(x, y):
    kind = promote(kindof(x), kindof(y), "f")
    b = symof(y)
    if b.is_zero():
        raise Raise(ZeroDivisionError, "division by zero")
    if b.shape == ():
        return mul(x, wrap(tn.power(b, -1)), kind)
    if is_const(y):
        with np.errstate(all="ignore"):
            return mul(x, wrap(1 / to_arr(y).cval()), kind)
    r = recip_b(b)
    return mul(x, wrap(r, kind, scalar=False), kind)


def recip_b(b):
    """elementwise reciprocal of a possibly broadcast symbolic array"""
    return recip(b)


def powr(x, y):
    if not is_const(y):
        raise Unsupported("symbolic exponent")
    e = raw(y)
    e = np.asarray(e)
    if e.size != 1:
        raise Unsupported("array exponent")
    e = e.item()
    s = symof(x)
    kind = kindof(x)
    if isinstance(e, float) and e == int(e):
        e = int(e)
        kind = promote(kind, "f")
    if s.shape == ():
        fr = Fraction(e).limit_denominator(64)
        if isinstance(e, complex):
            raise Unsupported("complex exponent")
        return wrap(tn.power(s, fr), kind)
    if isinstance(e, int) and 0 < e < 6:
        r = x
        for _ in range(e - 1):
            r = mul(r, x, kind)
        return r
    if e == 0.5:
        return sqrt(x)
    if e == -1:
        return wrap(recip(s), kind, scalar=False)
    if isinstance(e, int) and e == 0:
        return ones_like(x)
    return wrap(elementwise("pow%s" % e, s, lambda v: v ** e), kind, scalar=False)


def neg(x):
    x = to_arr(x)
    if x.const:
        return result(-x.cval())
    return fin(x.sym().scale(-1).norm(), x.kind)


def conj(x):
    if not isinstance(x, Arr):
        if isinstance(x, NUM):
            return np.conj(x)
        x = to_arr(x)
    if x.const:
        return result(np.conj(x.cval())) if x.ndim else np.conj(x.cval())[()]
    return fin(x.sym().conj().norm(), x.kind)


def real(x):
    x0 = x
    x = to_arr(x)
    if x.const:
        return result(np.real(x.cval()).copy()) if x.ndim else np.real(x.cval())[()]
    if x.kind != "c":
        return x
    s = x.sym()
    return fin(Sym(s.shape, s.scale(0.5).terms + s.conj().scale(0.5).terms).norm(), "f")


def imag(x):
    x = to_arr(x)
    if x.const:
        return result(np.imag(x.cval()).copy()) if x.ndim else np.imag(x.cval())[()]
    s = x.sym()
    return fin(Sym(s.shape, s.scale(-0.5j).terms + s.conj().scale(0.5j).terms).norm(), "f")


def absolute(x):
    x = to_arr(x)
    if x.const:
        return result(np.abs(x.cval()))
    s = x.sym()
    if s.shape == ():
        return wrap(tn.power(tn.einsum([s, s.conj()], [[], []], []), Fraction(1, 2)), "f")
    return wrap(elementwise("abs", s, np.abs, real=True), "f", scalar=False)


def diag_parts(s):
    return None


def sqrt(x):
    x0 = to_arr(x)
    if x0.const:
        v = x0.cval()
        with np.errstate(all="ignore"):
            return result(np.sqrt(v))
    s = x0.sym()
    if s.shape == ():
        return wrap(tn.power(s, Fraction(1, 2)), _fk(x0.kind))
    d = _split_diag(s)
    if d is not None:
        r = elementwise("sqrt", d, lambda v: np.sqrt(v.astype(complex)))
        return wrap(_mkdiag(r), _fk(x0.kind), scalar=False)
    return wrap(elementwise("sqrt", s, lambda v: np.sqrt(v.astype(complex))), _fk(x0.kind), scalar=False)


def _split_diag(s):
    """if the 2-d value is diagonal by construction return the diagonal vector"""
    s = s.norm()
    if len(s.shape) != 2 or s.shape[0] != s.shape[1] or s.shape[0] == 1:
        return None
    for n, m, a, o in s.terms:
        if o[0] != o[1]:
            return None
    return Sym((s.shape[0],), [(n, m, a, (o[0],)) for n, m, a, o in s.terms]).norm()


def _mkdiag(v):
    return Sym((v.shape[0], v.shape[0]), [(n, m, a, (o[0], o[0])) for n, m, a, o in v.terms])


def ew(name, f):
    def g(x, *args, **kw):
        if deep_const(x):
            with np.errstate(all="ignore"):
                return result(f(raw(x)))
        x = to_arr(x)
        return wrap(elementwise(name, x.sym(), lambda v: f(v), real=False), _fk(x.kind) if name != "exp" else _fk(x.kind))
    g.__name__ = name
    return g


def arctan2(y, x, **kw):
    if deep_const(x) and deep_const(y):
        return result(np.arctan2(raw(y), raw(x)))
    y, x = to_arr(y), to_arr(x)
    if y.shape != x.shape:
        raise Unsupported("arctan2 of different shapes")
    a, b = y.sym().norm(), x.sym().norm()
    dims = tuple(n for n in a.shape if n != 1)
    t = tn.atom(("arctan2", a.key(), b.key()), dims, name="arctan2(%s,%s)" % (a.digest(), b.digest()), real=True,
                sample=lambda ev: np.asarray(np.arctan2(np.real(ev.sym(a)), np.real(ev.sym(b)))).reshape(dims))
    return wrap(tn.atom_value(t, a.shape), "f")


# ------------------------------------------------------------------ contraction
def tensordot(a, b, axes=2):
    a, b = to_arr(a), to_arr(b)
    if isinstance(axes, Arr):
        axes = axes.cval().tolist()
    if isinstance(axes, NUM):
        n = int(axes)
        ax, bx = list(range(a.ndim - n, a.ndim)), list(range(n))
    else:
        ax, bx = axes
        ax = [ax] if isinstance(ax, NUM) else list(ax)
        bx = [bx] if isinstance(bx, NUM) else list(bx)
    if len(ax) != len(bx):
        raise Raise(ValueError, "shape-mismatch for sum")
    ax = [norm_axis(x, a.ndim) for x in ax]
    bx = [norm_axis(x, b.ndim) for x in bx]
    for p, q in zip(ax, bx):
        if a.shape[p] != b.shape[q]:
            raise Raise(ValueError, "shape-mismatch for sum: %s %s axes %s" % (a.shape, b.shape, (ax, bx)))
    if a.const and b.const:
        return wrap(np.tensordot(a.cval(), b.cval(), (ax, bx)))
    la = list(range(a.ndim))
    lb = [100 + i for i in range(b.ndim)]
    for p, q in zip(ax, bx):
        lb[q] = la[p]
    out = [l for i, l in enumerate(la) if i not in ax] + [l for i, l in enumerate(lb) if i not in bx]
    if 0 in a.shape or 0 in b.shape:
        dims = dict(zip(la, a.shape))
        dims.update(zip(lb, b.shape))
        return zeros([dims[l] for l in out])
    return fin(tn.einsum([a.sym(), b.sym()], [la, lb], out), promote(a.kind, b.kind), scalar=False)


def dot(a, b, out=None):
    if deep_const(a) and deep_const(b):
        try:
            return result(np.dot(raw(a), raw(b)))
        except ValueError as e:
            raise Raise(ValueError, str(e))
    a, b = to_arr(a), to_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return mul(a, b, promote(a.kind, b.kind))
    if b.ndim == 1:
        r = tensordot(a, b, [[a.ndim - 1], [0]])
    else:
        r = tensordot(a, b, [[a.ndim - 1], [b.ndim - 2]])
    if r.ndim == 0:
        r.scalar = True
    return r


def matmul(a, b):
    for z in (a, b):
        if isinstance(z, NUM) or (isinstance(z, Arr) and z.ndim == 0):
            raise Raise(ValueError, "matmul: Input operand does not have enough dimensions")
    if deep_const(a) and deep_const(b):
        try:
            return result(np.matmul(raw(a), raw(b)))
        except ValueError as e:
            raise Raise(ValueError, str(e))
    a, b = to_arr(a), to_arr(b)
    if a.ndim == 1 or b.ndim == 1:
        if a.ndim == 1 and b.ndim > 2:
            r = tensordot(a, b, [[0], [b.ndim - 2]])
        elif a.ndim == 1:
            r = tensordot(a, b, [[0], [max(b.ndim - 2, 0)]])
        else:
            r = tensordot(a, b, [[a.ndim - 1], [0]])
        if r.ndim == 0:
            r.scalar = True
        return r
    if a.shape[-1] != b.shape[-2]:
        raise Raise(ValueError, "matmul: Input operand 1 has a mismatch in its core dimension 0 (shapes %s %s)" % (a.shape, b.shape))
    bs = bshape(a.shape[:-2], b.shape[:-2])
    nb = len(bs)
    if 0 in a.shape or 0 in b.shape:
        return zeros(bs + (a.shape[-2], b.shape[-1]))
    la = list(range(nb - (a.ndim - 2), nb)) + ["i", "k"]
    lb = list(range(nb - (b.ndim - 2), nb)) + ["k", "j"]
    return fin(tn.einsum([a.sym(), b.sym()], [la, lb], list(range(nb)) + ["i", "j"]), promote(a.kind, b.kind))


def einsum(*args, optimize=None, **kw):
    args = list(args)
    if isinstance(args[0], str):
        spec = args[0].replace(" ", "")
        ops = [to_arr(x) for x in args[1:]]
        if "->" in spec:
            ins, out = spec.split("->")
        else:
            ins = spec
            flat = ins.replace(",", "")
            out = "".join(sorted(c for c in set(flat) if flat.count(c) == 1))
        labs = [list(x) for x in ins.split(",")]
        if "..." in spec:
            raise Unsupported("einsum ellipsis")
        outl = list(out)
    else:
        ops, labs = [], []
        i = 0
        while i + 1 < len(args):
            ops.append(to_arr(args[i]))
            labs.append([int(z) for z in args[i + 1]])
            i += 2
        if i < len(args):
            outl = [int(z) for z in args[i]]
        else:
            flat = [l for ls in labs for l in ls]
            outl = sorted(l for l in set(flat) if flat.count(l) == 1)
    if len(labs) != len(ops):
        raise Raise(ValueError, "einsum operand count")
    for o, l in zip(ops, labs):
        if o.ndim != len(l):
            raise Raise(ValueError, "einstein sum subscripts string contains wrong number of subscripts")
    known = {l for ls in labs for l in ls}
    if any(l not in known for l in outl):
        raise Raise(ValueError, "einstein sum output subscript not in inputs")
    if all(o.const for o in ops) and len(known) <= 26:
        ix = {l: k for k, l in enumerate(sorted(known, key=str))}
        r = np.einsum(*[x for o, ls in zip(ops, labs) for x in (o.cval(), [ix[l] for l in ls])], [ix[l] for l in outl])
        return result(r) if outl else r[()]
    return fin(tn.einsum([o.sym() for o in ops], labs, outl), promote(*[o.kind for o in ops]))


def trace(a, offset=0, axis1=0, axis2=1, **kw):
    a = to_arr(a)
    if offset != 0:
        raise Unsupported("trace offset")
    i, j = norm_axis(axis1, a.ndim), norm_axis(axis2, a.ndim)
    if a.const:
        return result(np.trace(a.cval(), 0, i, j))
    if a.shape[i] != a.shape[j]:
        raise Unsupported("trace of non-square")
    lab = list(range(a.ndim))
    lab[j] = lab[i]
    return fin(tn.einsum([a.sym()], [lab], [l for k, l in enumerate(lab) if k not in (i, j)]), a.kind)


def diagonal(a, offset=0, axis1=0, axis2=1):
    a = to_arr(a)
    if a.const:
        return wrap(np.diagonal(a.cval(), offset, axis1, axis2).copy())
    if offset:
        raise Unsupported("diagonal offset")
    i, j = norm_axis(axis1, a.ndim), norm_axis(axis2, a.ndim)
    lab = list(range(a.ndim))
    lab[j] = lab[i]
    return fin(tn.einsum([a.sym()], [lab], [l for k, l in enumerate(lab) if k not in (i, j)] + [lab[i]]), a.kind)


def diag(a, k=0):
    a = to_arr(a)
    if a.const:
        return wrap(np.diag(a.cval(), k).copy())
    if k:
        raise Unsupported("diag offset")
    if a.ndim == 1:
        return wrap(tn.einsum([a.sym()], [[0]], [0, 0]), a.kind)
    if a.ndim == 2:
        if a.shape[0] != a.shape[1]:
            n = min(a.shape)
            a = getitem(a, (slice(0, n), slice(0, n)))
        return fin(tn.einsum([a.sym()], [[0, 0]], [0]), a.kind)
    raise Raise(ValueError, "Input must be 1- or 2-d.")


def kron(a, b):
    a, b = to_arr(a), to_arr(b)
    if a.const and b.const:
        return wrap(np.kron(a.cval(), b.cval()))
    nd = max(a.ndim, b.ndim)
    sa = tn.reshape(a.sym(), (1,) * (nd - a.ndim) + a.shape)
    sb = tn.reshape(b.sym(), (1,) * (nd - b.ndim) + b.shape)
    la, lb = list(range(nd)), [100 + i for i in range(nd)]
    r = tn.einsum([sa, sb], [la, lb], [x for p in zip(la, lb) for x in p])
    return fin(tn.reshape(r, tuple(x * y for x, y in zip(sa.shape, sb.shape))).norm(), promote(a.kind, b.kind))


def outer(a, b):
    a, b = ravel(a), ravel(b)
    return tensordot(a, b, 0)


def inner(a, b):
    a, b = to_arr(a), to_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return mul(a, b)
    r = tensordot(a, b, [[a.ndim - 1], [b.ndim - 1]])
    if r.ndim == 0:
        r.scalar = True
    return r


def vdot(a, b):
    return dot(conj(ravel(a)), ravel(b))


# ------------------------------------------------------------------ reductions
def _axes(axis, nd):
    if axis is None:
        return list(range(nd))
    if isinstance(axis, NUM):
        return [norm_axis(axis, nd)]
    return [norm_axis(x, nd) for x in axis]


def sum_(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if hasattr(a, "__next__"):
        # np.sum(generator): numpy falls back on builtin sum
        tot = 0
        for x in a:
            tot = tot + x
        return tot
    a = to_arr(a)
    if a.const:
        return result(np.sum(a.cval(), axis=tuple(_axes(axis, a.ndim)), keepdims=keepdims))
    ax = _axes(axis, a.ndim)
    s = tn.sum_axes(a.sym(), ax) if ax else a.sym()
    if keepdims:
        s = tn.reshape(s, tuple(1 if i in ax else n for i, n in enumerate(a.shape)))
    return fin(s, a.kind)


def mean(a, axis=None, **kw):
    a = to_arr(a)
    if a.const:
        return result(np.mean(a.cval(), axis=axis))
    ax = _axes(axis, a.ndim)
    n = 1
    for x in ax:
        n *= a.shape[x]
    return mul(sum_(a, axis), 1.0 / n, _fk(a.kind))


def prod(a, axis=None, **kw):
    if deep_const(a):
        r = raw(a)
        return result(np.prod(list(r) if not isinstance(r, np.ndarray) else r, axis=axis))
    a = to_arr(a)
    if axis is not None and a.ndim != 1:
        raise Unsupported("prod axis")
    a = ravel(a)
    r = 1
    for i in range(a.size):
        x = getitem(a, i)
        r = mul(x, r, a.kind) if i else x
    return r


def cumsum(a, axis=None, **kw):
    a = to_arr(a)
    if a.const:
        return wrap(np.cumsum(a.cval(), axis=axis))
    ax = 0 if axis is None else norm_axis(axis, a.ndim)
    if axis is None:
        a = ravel(a)
    parts = []
    tot = None
    for i in range(a.shape[ax]):
        p = tn.take(a.sym(), ax, i)
        tot = p if tot is None else Sym(p.shape, tot.terms + p.terms).norm()
        parts.append(tot)
    return wrap(tn.stack(parts, ax), a.kind, scalar=False)


ORDERED = False       # comparisons whose outcome is the same at all sample values are taken to have it (weights away from thresholds)
GENERIC = False       # abstract entries are taken to differ from everything they are not identical to
ZEROS_APART = True    # whether rounding may leave one vanishing spectrum exactly zero and another not


def count_nonzero(a, axis=None, **kw):
    """generic position: an opaque entry is non-zero"""
    a = to_arr(a)
    if a.const:
        return int(np.count_nonzero(a.cval()))
    if a.sym().is_zero():
        return 0
    if a.ndim != 1:
        raise Unsupported("count_nonzero")
    # a value that vanishes for every reading (a rank deficiency) is an exact zero or rounding noise
    vs = spectrum_samples(a.sym())
    if vs is not None:
        k = max(int(np.sum(np.abs(v) > 1e-10 * max(1e-300, np.abs(v).max()))) for v in vs)
        if k < a.size and HOOK.decide(UBool(("exact zeros", a.sym().digest() if ZEROS_APART else ""))):
            return k
    return a.size


def spectrum_samples(s):
    """values of a vector of singular values or eigenvalues at two sample points, or None for other vectors"""
    s = s.norm()
    names = set()
    for t in s.terms:
        for aid, _, _ in t[2]:
            names.add(tn.ATOMS[aid].name)
    if not any(n.startswith(("svdS", "eigval")) for n in names):
        return None
    try:
        return [np.asarray(tn.Evaluator(17 * k + 5).sym(s)) for k in range(2)]
    except np.linalg.LinAlgError:
        return None


# ------------------------------------------------------------------ joining
def _seq(x):
    if isinstance(x, Arr):
        return list(x)
    return list(x)


def concatenate(parts, axis=0, **kw):
    parts = _seq(parts)
    if not parts:
        raise Raise(ValueError, "need at least one array to concatenate")
    parts = [to_arr(p) for p in parts]
    if axis is None:
        parts = [ravel(p) for p in parts]
        axis = 0
    nd = parts[0].ndim
    if nd == 0:
        raise Raise(ValueError, "zero-dimensional arrays cannot be concatenated")
    axis = norm_axis(axis, nd)
    if all(p.const for p in parts):
        try:
            return wrap(np.concatenate([p.cval() for p in parts], axis))
        except ValueError as e:
            raise Raise(ValueError, str(e))
    for p in parts:
        if p.ndim != nd or any(p.shape[i] != parts[0].shape[i] for i in range(nd) if i != axis):
            raise Raise(ValueError, "all the input array dimensions except for the concatenation axis must match exactly: %s" % [p.shape for p in parts])
    k = promote(*[p.kind for p in parts])
    shape = list(parts[0].shape)
    shape[axis] = sum(p.shape[axis] for p in parts)
    if 0 in shape:
        return zeros(shape)
    return wrap(tn.concatenate([p.sym() for p in parts], axis), k, scalar=False)


def stack(parts, axis=0, **kw):
    parts = [to_arr(p) for p in _seq(parts)]
    if all(p.const for p in parts):
        return wrap(np.stack([p.cval() for p in parts], axis))
    return wrap(tn.stack([p.sym() for p in parts], axis), promote(*[p.kind for p in parts]), scalar=False)


def vstack(parts, **kw):
    parts = [to_arr(p) for p in _seq(parts)]
    return concatenate([reshape(p, 1, -1) if p.ndim < 2 else p for p in parts], 0)


def hstack(parts, **kw):
    parts = [to_arr(p) for p in _seq(parts)]
    return concatenate(parts, 0 if parts[0].ndim == 1 else 1)


def block(x):
    def depth(y):
        return 1 + depth(y[0]) if isinstance(y, list) else 0
    d = depth(x)

    def rec(y, lev):
        if not isinstance(y, list):
            a = to_arr(y)
            return reshape(a, (1,) * (max(0, d - a.ndim)) + a.shape) if a.ndim < d else a
        return concatenate([rec(z, lev + 1) for z in y], axis=-(d - lev))
    return rec(x, 0)


def split(a, sections, axis=0):
    a = to_arr(a)
    axis = norm_axis(axis, a.ndim)
    n = a.shape[axis]
    if isinstance(sections, Arr):
        sections = [int(x) for x in np.atleast_1d(sections.cval())] if sections.ndim else int(sections.cval())
    if isinstance(sections, NUM):
        sections = int(sections)
        if sections <= 0 or n % sections:
            raise Raise(ValueError, "array split does not result in an equal division")
        step = n // sections
        bounds = [i * step for i in range(sections + 1)]
    else:
        pts = [x.__index__() if isinstance(x, Arr) else int(x) for x in sections]
        bounds = [0] + pts + [n]
    res = []
    for i in range(len(bounds) - 1):
        res.append(getitem(a, (slice(None),) * axis + (slice(bounds[i], bounds[i + 1]),)))
    return res


def array_split(a, sections, axis=0):
    a = to_arr(a)
    if isinstance(sections, NUM):
        n = a.shape[axis]
        k, m = divmod(n, int(sections))
        pts = []
        off = 0
        for i in range(int(sections) - 1):
            off += k + (1 if i < m else 0)
            pts.append(off)
        return split(a, pts, axis)
    return split(a, sections, axis)


def tile(a, reps):
    if deep_const(a):
        return wrap(np.tile(raw(a), raw(reps)))
    a = to_arr(a)
    reps = [reps] if isinstance(reps, NUM) else list(reps)
    nd = max(a.ndim, len(reps))
    a = reshape(a, (1,) * (nd - a.ndim) + a.shape)
    reps = [1] * (nd - len(reps)) + reps
    for ax, r in enumerate(reps):
        if r != 1:
            a = concatenate([a] * r, ax)
    return a


def pad(a, pads, mode="constant", **kw):
    a = to_arr(a)
    if mode != "constant":
        raise Unsupported("pad mode")
    pads = raw(pads)
    pads = np.broadcast_to(np.asarray(pads), (a.ndim, 2))
    if (pads < 0).any():
        raise Raise(ValueError, "index can't contain negative values")
    if a.const:
        return wrap(np.pad(a.cval(), pads, mode="constant"))
    s = a.sym()
    for ax, (lo, hi) in enumerate(pads.tolist()):
        n = s.shape[ax]
        s = tn.embed(s, ax, n + lo + hi, range(lo, lo + n))
    return wrap(s.norm(), a.kind, scalar=False)


def flip(a, axis=None):
    a = to_arr(a)
    ax = _axes(axis, a.ndim)
    key = tuple(slice(None, None, -1) if i in ax else slice(None) for i in range(a.ndim))
    return getitem(a, key)


def roll(a, shift, axis=None):
    a = to_arr(a)
    if a.const:
        return wrap(np.roll(a.cval(), shift, axis))
    if axis is None:
        return reshape(roll(ravel(a), shift, 0), a.shape)
    n = a.shape[axis]
    idx = [(i - shift) % n for i in range(n)]
    return wrap(tn.select(a.sym(), axis, idx), a.kind, scalar=False)


def take(a, idx, axis=None, **kw):
    a = to_arr(a)
    if axis is None:
        return getitem(ravel(a), idx)
    return getitem(a, (slice(None),) * norm_axis(axis, a.ndim) + (idx,))


def delete(a, idx, axis=None):
    a = to_arr(a)
    if axis is None:
        a = ravel(a)
        axis = 0
    n = a.shape[axis]
    idx = [idx] if isinstance(idx, NUM) else list(idx)
    idx = {i % n for i in idx}
    keep = [i for i in range(n) if i not in idx]
    return getitem(a, (slice(None),) * axis + (keep,))


# ------------------------------------------------------------------ linear algebra
def _mat(a):
    a = to_arr(a)
    if a.ndim != 2:
        raise Raise(ValueError, "expected matrix, got %d-d array" % a.ndim)
    return a


def d1(*dims):
    return tuple(n for n in dims if n != 1)


def norm(a, ord=None, axis=None, keepdims=False, **kw):
    a = to_arr(a)
    if a.const:
        return result(np.linalg.norm(a.cval(), ord, axis, keepdims))
    if axis is not None:
        if ord not in (None, 2) or not isinstance(axis, NUM):
            raise Unsupported("norm axis")
        ax = norm_axis(axis, a.ndim)
        lab = list(range(a.ndim))
        out = [l for l in lab if l != ax]
        s2 = tn.einsum([a.sym(), a.sym().conj()], [lab, lab], out)
        r = sqrt(wrap(s2, "f", scalar=False))
        if keepdims:
            r = expand_dims(r, ax)
        return r
    if ord not in (None, "fro", 2) or (ord == 2 and a.ndim == 2):
        raise Unsupported("norm ord")
    lab = list(range(a.ndim))
    s2 = tn.einsum([a.sym(), a.sym().conj()], [lab, lab], [])
    return wrap(tn.power(s2, Fraction(1, 2)), "f")


def _nrm(s):
    lab = list(range(len(s.shape)))
    return tn.power(tn.einsum([s, s.conj()], [lab, lab], []), Fraction(1, 2))


def _over(s, z, e):
    """s * z**e with scalar sym z"""
    p = tn.power(z, e)
    return tn.einsum([s, p], [list(range(len(s.shape))), []], list(range(len(s.shape))))


def _opaque(key, dims, shape, **kw):
    return tn.atom_value(tn.atom(key, d1(*shape), **kw), shape)


class Decomp:
    pass


def svd_syms(s, full=False):
    """(U, S, V) symbolic factors of a 2-d Sym; S is a vector"""
    r, c = s.shape
    k = min(r, c)
    if k == 1 and not full or (r == 1 and c == 1):
        z = _nrm(s)
        unit = _over(s, z, -1)
        if r == 1:
            return tn.ones((1, 1)), tn.reshape(z, (1,)), unit
        return unit, tn.reshape(z, (1,)), tn.ones((1, 1))
    key = s.key()
    dg = s.digest()

    def f(ev, what):
        kk = ("svd", key)
        if kk not in ev.vals:
            ev.vals[kk] = np.linalg.svd(ev.sym(s), full_matrices=True)
        u, sv, v = ev.vals[kk]
        if k == 1:
            # the factor of size one is one
            if r == 1:
                u, v = np.ones((1, 1)), np.concatenate([v[:1] * u[0, 0], v[1:]])
            else:
                u, v = np.concatenate([u[:, :1] * v[0, 0], u[:, 1:]], axis=1), np.ones((1, 1))
        return {"U": u[:, :k], "S": sv, "V": v[:k, :], "Uf": u, "Vf": v}[what]
    uid = {}

    def mk(what, shape, iso, real=False, info=None, recon=None):
        a = tn.atom(("svd" + what, key), d1(*shape), name="svd%s(%s)" % (what, dg), iso=iso, real=real,
                    sample=lambda ev: f(ev, what), info=info, recon=recon)
        return a

    def usv(i, atoms, out, use):
        aid, cj, axes = atoms[i]
        if k == 1:
            return None
        g = axes[0]
        if len(g) != 1 or len(use[g[0]]) != 3:
            return None
        w = g[0]
        iu = iv = None
        for (j, p) in use[w]:
            if j < 0:
                return None
            if atoms[j][0] == aU.id and p == len(tn.ATOMS[aU.id].dims) - 1:
                iu = j
            elif atoms[j][0] == aV.id and p == 0:
                iv = j
        if iu is None or iv is None or atoms[iu][1] != atoms[iv][1]:
            return None
        rest = [t for q, t in enumerate(atoms) if q not in (i, iu, iv)]
        groups = [atoms[iu][2][0] if r > 1 else (), atoms[iv][2][1] if c > 1 else ()]
        return rest, s, groups, atoms[iu][1]

    # for k == 1 (full matrices of a vector) keep generic atoms without axes
    isoU = [(0,)] if k < r else [(0,), (1,)]
    isoV = [(1,)] if k < c else [(1,), (0,)]
    if k == 1:
        # r==1 or c==1 with full=True
        z = _nrm(s)
        unit = _over(s, z, -1)
        if r == 1:
            v = mk("Vf", (c, c), [(0,), (1,)])
            return tn.ones((1, 1)), tn.reshape(z, (1,)), tn.atom_value(v, (c, c))
        u = mk("Uf", (r, r), [(0,), (1,)])
        return tn.atom_value(u, (r, r)), tn.reshape(z, (1,)), tn.ones((1, 1))
    aU = mk("U", (r, k), isoU)
    aV = mk("V", (k, c), isoV)
    aS = mk("S", (k,), [], real=True, recon=[usv])
    U, S, V = tn.atom_value(aU, (r, k)), tn.atom_value(aS, (k,)), tn.atom_value(aV, (k, c))
    if full and k < r:
        a = mk("Uf", (r, r), [(0,), (1,)], info={"thin": (1, k, aU.id)})
        U = tn.atom_value(a, (r, r))
    if full and k < c:
        a = mk("Vf", (c, c), [(0,), (1,)], info={"thin": (0, k, aV.id)})
        V = tn.atom_value(a, (c, c))
    return U, S, V


def svd(a, full_matrices=True, compute_uv=True, **kw):
    a = _mat(a)
    if a.const:
        return tuple(wrap(x) for x in np.linalg.svd(a.cval(), full_matrices=bool(full_matrices)))
    _no_empty(a)
    U, S, V = svd_syms(a.sym(), bool(full_matrices))
    if not compute_uv:
        return wrap(S, "f", scalar=False)
    return (wrap(U, _fk(a.kind), scalar=False), wrap(S, "f", scalar=False), wrap(V, _fk(a.kind), scalar=False))


def _no_empty(a):
    if 0 in a.shape:
        raise Raise(ValueError, "decomposition of an empty matrix")


def qr_syms(s):
    r, c = s.shape
    k = min(r, c)
    if k == 1:
        z = _nrm(s) if c == 1 else None
        if c == 1:
            return _over(s, z, -1), tn.reshape(z, (1, 1))
        return tn.ones((1, 1)), s       # r == 1
    key, dg = s.key(), s.digest()

    def f(ev, w):
        kk = ("qr", key)
        if kk not in ev.vals:
            ev.vals[kk] = np.linalg.qr(ev.sym(s), mode="reduced")
        return ev.vals[kk][w]

    def rule(i, atoms, out, use):
        aid, cj, axes = atoms[i]
        g = axes[1]
        if len(g) != 1 or len(use[g[0]]) != 2:
            return None
        for (j, p) in use[g[0]]:
            if j >= 0 and j != i and atoms[j][0] == aR.id and p == 0 and atoms[j][1] == cj and len(atoms[j][2][0]) == 1:
                rest = [t for q, t in enumerate(atoms) if q not in (i, j)]
                return rest, s, [axes[0], atoms[j][2][1]], cj
        return None
    aR = tn.atom(("qrR", key), (k, c), name="qrR(%s)" % dg, sample=lambda ev: f(ev, 1))
    aQ = tn.atom(("qrQ", key), (r, k), name="qrQ(%s)" % dg, iso=[(0,)] if k < r else [(0,), (1,)],
                 recon=[rule], sample=lambda ev: f(ev, 0))
    return tn.atom_value(aQ, (r, k)), tn.atom_value(aR, (k, c))


def rq_syms(s):
    r, c = s.shape
    k = min(r, c)
    if k == 1:
        if r == 1:
            z = _nrm(s)
            return tn.reshape(z, (1, 1)), _over(s, z, -1)
        return s, tn.ones((1, 1))       # c == 1
    key, dg = s.key(), s.digest()

    def f(ev, w):
        kk = ("rq", key)
        if kk not in ev.vals:
            q, t = np.linalg.qr(ev.sym(s).conj().T[::-1][:, ::-1], mode="reduced") if False else (None, None)
            m = ev.sym(s)
            # RQ through QR of the reversed adjoint
            qq, rr = np.linalg.qr(m[::-1].conj().T, mode="reduced")
            R = rr.conj().T[::-1][:, ::-1]
            Q = qq.conj().T[::-1]
            ev.vals[kk] = (R, Q)
        return ev.vals[kk][w]

    def rule(i, atoms, out, use):
        aid, cj, axes = atoms[i]
        g = axes[0]
        if len(g) != 1 or len(use[g[0]]) != 2:
            return None
        for (j, p) in use[g[0]]:
            if j >= 0 and j != i and atoms[j][0] == aR.id and p == 1 and atoms[j][1] == cj and len(atoms[j][2][1]) == 1:
                rest = [t for q, t in enumerate(atoms) if q not in (i, j)]
                return rest, s, [atoms[j][2][0], axes[1]], cj
        return None
    aR = tn.atom(("rqR", key), (r, k), name="rqR(%s)" % dg, sample=lambda ev: f(ev, 0))
    aQ = tn.atom(("rqQ", key), (k, c), name="rqQ(%s)" % dg, iso=[(1,)] if k < c else [(1,), (0,)],
                 recon=[rule], sample=lambda ev: f(ev, 1))
    return tn.atom_value(aR, (r, k)), tn.atom_value(aQ, (k, c))


def np_qr(a, mode="reduced"):
    return _qr(a, mode, "reduced")


def sp_qr(a, overwrite_a=False, lwork=None, mode="full", pivoting=False, check_finite=True):
    return _qr(a, mode, "full")


def _qr(a, mode, default):
    a = _mat(a)
    if mode not in ("reduced", "economic", "full", "complete"):
        raise Unsupported("qr mode %r" % mode)
    full = mode in ("full", "complete")
    if a.const:
        return tuple(wrap(x) for x in np.linalg.qr(a.cval(), mode="complete" if full else "reduced"))
    _no_empty(a)
    s = a.sym()
    r, c = s.shape
    Q, R = qr_syms(s)
    if full and r > c:
        key = s.key()
        thin = None
        if c > 1:
            thin = (1, c, tn._atom_by_key[("qrQ", key)].id)

        def f(ev):
            q = np.linalg.qr(ev.sym(s), mode="complete")[0]
            q0 = np.linalg.qr(ev.sym(s), mode="reduced")[0]
            if c == 1:
                q0 = ev.sym(s) / np.linalg.norm(ev.sym(s))
            q = q.copy()
            q[:, :c] = q0
            return q
        aq = tn.atom(("qrQf", key), (r, r), name="qrQf(%s)" % s.digest(), iso=[(0,), (1,)],
                     info={"thin": thin} if thin else None, sample=f)
        Q = tn.atom_value(aq, (r, r))
        R = tn.embed(R, 0, r, range(c)).norm()
    return wrap(Q, _fk(a.kind), scalar=False), wrap(R, _fk(a.kind), scalar=False)


def sp_rq(a, overwrite_a=False, lwork=None, mode="full", check_finite=True):
    a = _mat(a)
    if mode not in ("full", "economic"):
        raise Unsupported("rq mode")
    if a.const:
        import scipy.linalg as sl
        return tuple(wrap(x) for x in sl.rq(a.cval(), mode=mode))
    _no_empty(a)
    s = a.sym()
    if mode == "full" and s.shape[1] > s.shape[0]:
        raise Unsupported("full rq")
    R, Q = rq_syms(s)
    return wrap(R, _fk(a.kind), scalar=False), wrap(Q, _fk(a.kind), scalar=False)


def eig(a, **kw):
    return _eig(a, False)


def eigh(a, **kw):
    return _eig(a, True)


def _any_eig(m, herm):
    """eigenpairs of the general driver: in no particular order (smallest first here) and, for a hermitian matrix with equal
    eigenvalues, with eigenvectors that need not be orthogonal"""
    w, v = np.linalg.eig(m)
    if not herm:
        return w, v
    o = np.argsort(np.abs(w), kind="stable")
    w, v = w[o].real, v[:, o]
    k = 0
    while k < len(w):
        e = k + 1
        while e < len(w) and abs(w[e] - w[k]) < 1e-9 * max(1.0, np.abs(w).max()):
            e += 1
        if e - k > 1:
            x = np.eye(e - k) + 0.3 * np.triu(np.ones((e - k, e - k)), 1)
            v[:, k:e] = v[:, k:e] @ (x / np.linalg.norm(x, axis=0))
        k = e
    return w, v


def _eig(a, assume_herm):
    a = _mat(a)
    if a.const:
        w, v = (np.linalg.eigh if assume_herm else np.linalg.eig)(a.cval())
        return wrap(w), wrap(v)
    s = a.sym()
    n = s.shape[0]
    if s.shape[0] != s.shape[1]:
        raise Raise(np.linalg.LinAlgError, "Last 2 dimensions of the array must be square")
    herm = assume_herm or is_herm(s)
    if n == 1:
        return wrap(tn.reshape(s, (1,)), _fk(a.kind), scalar=False), wrap(np.ones((1, 1)))
    key, dg = s.key(), s.digest()
    tag = "eigH" if assume_herm else ("eigN" if herm else "eigG")

    def f(ev, w):
        kk = (tag, key)
        if kk not in ev.vals:
            m = ev.sym(s)
            ev.vals[kk] = np.linalg.eigh(m) if assume_herm else _any_eig(m, herm)
        return ev.vals[kk][w]

    def rule(i, atoms, out, use):
        # V[a,k] w[k] conj(V)[b,k] -> M[a,b]
        aid, cj, axes = atoms[i]
        w = axes[0][0] if len(axes[0]) == 1 else None
        if w is None or len(use[w]) != 3:
            return None
        js = [j for (j, p) in use[w] if j >= 0 and atoms[j][0] == aV.id and p == 1]
        if len(js) != 2 or atoms[js[0]][1] == atoms[js[1]][1]:
            return None
        jv = js[0] if not atoms[js[0]][1] else js[1]
        jc = js[1] if jv == js[0] else js[0]
        rest = [t for q, t in enumerate(atoms) if q not in (i, jv, jc)]
        return rest, s, [atoms[jv][2][0], atoms[jc][2][0]], False
    aw = tn.atom((tag + "w", key), (n,), name="eigval(%s)" % dg, real=herm, sample=lambda ev: f(ev, 0),
                 recon=[rule] if assume_herm else None)
    aV = tn.atom((tag + "V", key), (n, n), name="eigvec(%s)" % dg, iso=[(0,), (1,)] if assume_herm else [],
                 sample=lambda ev: f(ev, 1))
    return (wrap(tn.atom_value(aw, (n,)), "f" if herm else "c", scalar=False),
            wrap(tn.atom_value(aV, (n, n)), _fk(a.kind) if herm else "c", scalar=False))


def eigvals(a, **kw):
    return _eig(a, False)[0]


def eigvalsh(a, **kw):
    return _eig(a, True)[0]


def cholesky(a, **kw):
    return _chol(a, True)


def sp_cholesky(a, lower=False, overwrite_a=False, check_finite=True):
    return _chol(a, bool(lower))


def _chol(a, lower):
    a = _mat(a)
    if a.const:
        try:
            L = np.linalg.cholesky(a.cval())
        except np.linalg.LinAlgError as e:
            raise Raise(np.linalg.LinAlgError, str(e))
        return wrap(L if lower else L.conj().T)
    s = a.sym()
    if s.shape[0] != s.shape[1]:
        raise Raise(np.linalg.LinAlgError, "Last 2 dimensions of the array must be square")
    n = s.shape[0]
    if n == 1:
        return wrap(tn.reshape(tn.power(tn.reshape(s, ()), Fraction(1, 2)), (1, 1)), _fk(a.kind), scalar=False)
    dg = _split_diag(s)
    if dg is not None:
        r = elementwise("sqrt", dg, lambda v: np.sqrt(v.astype(complex)), real=is_real(dg))
        return wrap(_mkdiag(r), _fk(a.kind), scalar=False)
    key = s.key()

    def f(ev):
        m = ev.sym(s)
        return np.linalg.cholesky((m + m.conj().T) / 2)

    def rule(i, atoms, out, use):
        aid, cj, axes = atoms[i]
        if cj:
            return None
        g = axes[1]
        for j, (b, cj2, ax2) in enumerate(atoms):
            if j != i and b == aid and cj2 and ax2[1] == g and all(len(use[w]) == 2 for w in g):
                rest = [t for q, t in enumerate(atoms) if q not in (i, j)]
                return rest, s, [axes[0], ax2[0]], False
        return None
    aL = tn.atom(("cholL", key), (n, n), name="chol(%s)" % s.digest(), sample=f, recon=[rule])
    L = tn.atom_value(aL, (n, n))
    if not lower:
        L = tn.transpose(L.conj(), (1, 0))
    return wrap(L, _fk(a.kind), scalar=False)


def inv(a, **kw):
    a = _mat(a) if to_arr(a).ndim == 2 else to_arr(a)
    if a.const:
        try:
            return wrap(np.linalg.inv(a.cval()))
        except np.linalg.LinAlgError as e:
            raise Raise(np.linalg.LinAlgError, str(e))
    if a.ndim != 2:
        raise Unsupported("batched inverse")
    s = a.sym()
    if s.shape[0] != s.shape[1]:
        raise Raise(np.linalg.LinAlgError, "Last 2 dimensions of the array must be square")
    return wrap(inv_sym(s), _fk(a.kind), scalar=False)


def inv_sym(s):
    n = s.shape[0]
    s = s.norm()
    if n == 1:
        return tn.reshape(tn.power(tn.reshape(s, ()), -1), (1, 1))
    dg = _split_diag(s)
    if dg is not None:
        # diagonal: reciprocal of the vector, factoring the coefficient
        return _mkdiag(recip(dg))
    if len(s.terms) == 1:
        c, m, atoms, o = s.terms[0]
        # a product of square matrices: invert factor by factor
        if len(atoms) >= 1:
            chain = _matrix_chain(atoms, o)
            if chain is not None:
                res = None
                for (at, p, q) in reversed(chain):
                    x = _inv_atom(at, p, q)
                    res = x if res is None else tn.einsum([res, x], [["a", "b"], ["b", "c"]], ["a", "c"])
                return Sym(s.shape, [(z / c, tn.mono_mul(mm, {k: -e for k, e in m.items()}), aa, oo)
                                     for z, mm, aa, oo in res.terms]).norm()
    key = s.key()
    ai = tn.atom(("inv", key), (n, n), name="inv(%s)" % s.digest(), sample=lambda ev: np.linalg.inv(ev.sym(s)),
                 real=is_real(s), herm=(1, 0) if is_herm(s) else None)
    return tn.atom_value(ai, (n, n))


def _matrix_chain(atoms, o):
    """atoms form a chain of square two-axis matrices from o[0] to o[1]"""
    left = list(atoms)
    cur = o[0]
    chain = []
    while left:
        for t in left:
            ax = t[2]
            if len(ax) == 2 and tn.gdim(ax[0]) == tn.gdim(ax[1]):
                if ax[0] == cur:
                    chain.append((t, 0, 1))
                    cur = ax[1]
                    left.remove(t)
                    break
                if ax[1] == cur:
                    chain.append((t, 1, 0))
                    cur = ax[0]
                    left.remove(t)
                    break
        else:
            return None
    return chain if cur == o[1] else None


def _inv_atom(t, p, q):
    """inverse of matrix whose rows are axis p and columns axis q of atom t"""
    aid, cj, ax = t
    a = tn.ATOMS[aid]
    n = a.dims[0]
    if (0,) in a.iso and (1,) in a.iso:
        # unitary: inverse is the adjoint
        s = tn.atom_value(a)
        if cj:
            s = s.conj()
        if p == 1:
            s = tn.transpose(s, (1, 0))
        return tn.transpose(s.conj(), (1, 0))
    base = tn.atom_value(a)

    def rule(i, atoms, out, use):
        iid, icj, iax = atoms[i]
        for (ia, xa) in ((0, 1), (1, 0)):
            g = iax[ia]
            for j, (b, cj2, ax2) in enumerate(atoms):
                if b == aid and (cj2 == icj or a.real) and ax2[xa] == g and all(len(use[w]) == 2 for w in g):
                    rest = [t2 for z, t2 in enumerate(atoms) if z not in (i, j)]
                    return rest, tn.eye(n), [iax[1 - ia], ax2[1 - xa]], False
        return None
    ai = tn.atom(("invatom", aid), (n, n), name="inv(%s)" % a.name, real=a.real, herm=a.herm,
                 sample=lambda ev: np.linalg.inv(ev.atom(aid)), recon=[rule])
    s = tn.atom_value(ai, (n, n))
    if cj:
        s = s.conj()
    if p == 1:
        s = tn.transpose(s, (1, 0))
    return s


def expm(a, **kw):
    a = _mat(a)
    if a.const:
        import scipy.linalg as sl
        return wrap(sl.expm(a.cval()))
    s = a.sym()
    if s.is_zero():
        return eye(s.shape[0])

    def f(ev):
        import scipy.linalg as sl
        return sl.expm(ev.sym(s))
    return wrap(_opaque(("expm", s.key()), None, s.shape, name="expm(%s)" % s.digest(), sample=f), _fk(a.kind), scalar=False)


def sqrtm(a, **kw):
    a = _mat(a)
    if a.const:
        import scipy.linalg as sl
        return wrap(sl.sqrtm(a.cval()))
    s = a.sym()

    def f(ev):
        import scipy.linalg as sl
        return sl.sqrtm(ev.sym(s))
    return wrap(_opaque(("sqrtm", s.key()), None, s.shape, name="sqrtm(%s)" % s.digest(), sample=f), _fk(a.kind), scalar=False)


def logm(a, **kw):
    a = _mat(a)
    import scipy.linalg as sl
    if a.const:
        return wrap(sl.logm(a.cval()))
    s = a.sym()
    return wrap(_opaque(("logm", s.key()), None, s.shape, name="logm(%s)" % s.digest(), sample=lambda ev: sl.logm(ev.sym(s))), _fk(a.kind), scalar=False)


def null_space(a, rcond=None):
    a = _mat(a)
    if a.const:
        import scipy.linalg as sl
        return wrap(sl.null_space(a.cval()))
    s = a.sym()
    r, c = s.shape
    k = c - min(r, c)
    if k == 0:
        return zeros((c, 0), complex)

    def f(ev):
        import scipy.linalg as sl
        n = sl.null_space(ev.sym(s))
        if n.shape[1] != k:
            raise np.linalg.LinAlgError("rank")
        return n.reshape(d1(c, k))
    return wrap(_opaque(("null", s.key()), None, (c, k), name="null(%s)" % s.digest(), iso=[(0,)], sample=f), _fk(a.kind), scalar=False)


def polar(a, side="right"):
    a = _mat(a)
    if a.const:
        import scipy.linalg as sl
        return tuple(wrap(x) for x in sl.polar(a.cval(), side))
    if side != "right":
        raise Unsupported("left polar")
    s = a.sym()
    r, c = s.shape
    if r == 1 and c == 1:
        z = _nrm(s)
        return wrap(_over(s, z, -1), _fk(a.kind), scalar=False), wrap(tn.reshape(z, (1, 1)), "f", scalar=False)
    key = s.key()

    def f(ev, w):
        import scipy.linalg as sl
        kk = ("polar", key)
        if kk not in ev.vals:
            ev.vals[kk] = sl.polar(ev.sym(s))
        return ev.vals[kk][w]
    iso = [(0,), (1,)] if r == c else ([(0,)] if r > c else [(1,)])

    def rule(i, atoms, out, use):
        aid, cj, axes = atoms[i]
        g = axes[1]
        for j, (b, cj2, ax2) in enumerate(atoms):
            if b == aP.id and cj2 == cj and ax2[0] == g and all(len(use[w]) == 2 for w in g):
                rest = [t for q, t in enumerate(atoms) if q not in (i, j)]
                return rest, s, [axes[0], ax2[1]], cj
        return None
    aP = tn.atom(("polP", key), d1(c, c), name="polarP(%s)" % s.digest(), sample=lambda ev: f(ev, 1).reshape(d1(c, c)))
    aU = tn.atom(("polU", key), d1(r, c), name="polarU(%s)" % s.digest(), iso=iso if r > 1 and c > 1 else [],
                 recon=[rule] if r > 1 and c > 1 else None, sample=lambda ev: f(ev, 0).reshape(d1(r, c)))
    return (wrap(tn.atom_value(aU, (r, c)), _fk(a.kind), scalar=False), wrap(tn.atom_value(aP, (c, c)), _fk(a.kind), scalar=False))


def det(a):
    a = _mat(a)
    if a.const:
        return np.linalg.det(a.cval())
    s = a.sym()
    return wrap(_opaque(("det", s.key()), None, (), name="det(%s)" % s.digest(), sample=lambda ev: np.linalg.det(ev.sym(s))), _fk(a.kind))


def block_diag(*mats):
    mats = [to_arr(m) for m in mats]
    mats = [reshape(m, 1, -1) if m.ndim < 2 else m for m in mats]
    if all(m.const for m in mats):
        import scipy.linalg as sl
        return wrap(sl.block_diag(*[m.cval() for m in mats]))
    R = sum(m.shape[0] for m in mats)
    C = sum(m.shape[1] for m in mats)
    terms = []
    r = c = 0
    for m in mats:
        s = tn.embed(tn.embed(m.sym(), 0, R, range(r, r + m.shape[0])), 1, C, range(c, c + m.shape[1]))
        terms += s.terms
        r += m.shape[0]
        c += m.shape[1]
    return wrap(Sym((R, C), terms).norm(), promote(*[m.kind for m in mats]), scalar=False)


def matrix_power(a, n):
    a = _mat(a)
    if a.const:
        return wrap(np.linalg.matrix_power(a.cval(), n))
    if n < 0:
        return matrix_power(inv(a), -n)
    r = eye(a.shape[0])
    for _ in range(n):
        r = matmul(r, a)
    return r


def solve(a, b, **kw):
    return dot(inv(a), b)


# ------------------------------------------------------------------ comparisons
def allclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    if deep_const(a) and deep_const(b):
        try:
            return bool(np.allclose(raw(a), raw(b), rtol, atol))
        except ValueError as e:
            raise Raise(ValueError, str(e))
    x, y = symof(a), symof(b)
    shp = bshape(x.shape, y.shape)
    x, y = broadcast_to_sym(x, shp), broadcast_to_sym(y, shp)
    eq, how = tn.equal(x, y)
    if eq:
        return True
    if GENERIC:
        return False
    return UBool(("allclose", Sym(shp, x.terms + y.scale(-1).terms).norm().key()))


def compare(op, x, y):
    if deep_const(x) and deep_const(y):
        f = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}[op]
        return result(f(np.asarray(raw(x)), raw(y)))
    if x is None or y is None or isinstance(x, str) or isinstance(y, str):
        return op == "!="
    a, b = symof(x), symof(y)
    if a.shape != b.shape:
        shp = bshape(a.shape, b.shape)
        a, b = broadcast_to_sym(a, shp), broadcast_to_sym(b, shp)
    d = Sym(a.shape, a.terms + b.scale(-1).terms).norm()
    if d.is_zero():
        return op in ("==", "<=", ">=")
    if GENERIC and op in ("==", "!=") and not d.shape:
        return op == "!="

    if ORDERED and not d.shape and op not in ("==", "!="):
        v = [float(np.real(np.asarray(tn.Evaluator(41 + k).sym(d)).reshape(()))) for k in range(4)]
        if all(x > 1e-6 for x in v):
            return op in (">", ">=")
        if all(x < -1e-6 for x in v):
            return op in ("<", "<=")

    def parts():
        if len(d.shape) != 1:
            raise Unsupported("unknown mask")
        return np.array([bool(compare(op, wrap(tn.take(d, 0, i)), 0)) for i in range(d.shape[0])], bool)
    return UBool((op, d.key()), parts=parts)


# ------------------------------------------------------------------ random
_rn = itertools.count()


def fresh_array(shape, name="rand", real=False, kind=None, **kw):
    shape = as_ints(shape)
    if 0 in shape:
        return zeros(shape)
    a = tn.atom((name, next(_rn)), d1(*shape), name=name, real=real, **kw)
    return wrap(tn.atom_value(a, shape), kind or ("f" if real else "c"), scalar=False)


def randn(*shape):
    r = fresh_array(shape, "randn", real=True)
    if not shape:
        r.scalar = True
    return r


def rand_size(*args, size=None, **kw):
    if size is None:
        cand = [a for a in args if isinstance(a, (tuple, list))]
        size = cand[-1] if cand else ()
    return randn(*as_ints(size))


# ------------------------------------------------------------------ operators on Arr
def _mk(op):
    def f(self, other):
        return binop(op, self, other)

    def r(self, other):
        return binop(op, other, self)
    return f, r


for _n, _o in [("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("pow", "**"), ("matmul", "@"),
               ("floordiv", "//"), ("mod", "%"), ("and", "&"), ("or", "|"), ("xor", "^")]:
    _f, _r = _mk(_o)
    setattr(Arr, "__%s__" % _n, _f)
    setattr(Arr, "__r%s__" % _n, _r)
for _n, _o in [("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")]:
    setattr(Arr, "__%s__" % _n, (lambda o: lambda self, other: compare(o, self, other))(_o))
Arr.__neg__ = lambda self: neg(self)
Arr.__pos__ = lambda self: self
Arr.__abs__ = lambda self: absolute(self)
Arr.__invert__ = lambda self: result(~self.cval()) if self.const else _uns("invert")


def _uns(x):
    raise Unsupported(x)


def inplace(op, a, v):
    """a op= v for a non-scalar array (writes the buffer)"""
    if op == "@":
        new = matmul(a, v)
    else:
        new = binop(op, a, v)
    new = to_arr(new)
    if new.shape != a.shape:
        raise Raise(ValueError, "non-broadcastable output operand with shape %s doesn't match the broadcast shape %s" % (a.shape, new.shape))
    if new.kind == "c" and a.kind in "fib":
        raise Raise(TypeError, "Cannot cast ufunc output from complex128 to float64")
    if new.kind == "f" and a.kind in "ib":
        raise Raise(TypeError, "Cannot cast ufunc output from float64 to int64")
    assign_into(a, new)
    return a
