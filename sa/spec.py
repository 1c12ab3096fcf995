"""Abstract inputs and reference contractions used by the rules.

The reference ("spec") of each rule is written here and in sa/rules as einsum
networks over the same abstract tensors; it is never computed by the analysed
code."""
from __future__ import annotations
import itertools, os, string
import numpy as np
from . import nd, tn, interp as I
from .nd import Arr
from .tn import Sym

_n = itertools.count()


KIND = os.environ.get("XMPS_KIND", "c")      # kind of the arbitrary tensors where an obligation does not say ("f": real arrays)


def tensor(shape, name="A", kind=None, **kw):
    """a generic (arbitrary) complex tensor (real when the obligations are run on real input)"""
    kind = kind or KIND
    a = tn.atom((name, "in", next(_n)), nd.d1(*shape), name=name, real=(kind != "c"), **kw)
    return nd.wrap(tn.atom_value(a, tuple(shape)), kind, scalar=False)


def opaque(x, name="x"):
    """the value of x under a name of its own: keeps large values out of the normal form (comparisons are then made on the sample
    values of the terms)"""
    s = nd.symof(x)
    if not s.shape:
        return s
    a = tn.atom((name, "opaque", next(_n)), nd.d1(*s.shape), name=name, sample=lambda ev: np.asarray(ev.sym(s)))
    return tn.atom_value(a, s.shape)


def hermitian(shape, perm, name="H"):
    dims = nd.d1(*shape)
    assert len(dims) == len(shape)
    a = tn.atom((name, "inh", next(_n)), dims, name=name, herm=tuple(perm), real=KIND != "c")
    return nd.wrap(tn.atom_value(a, tuple(shape)), KIND, scalar=False)


def scalar(name="z", real=False):
    real = real or KIND != "c"
    a = tn.atom((name, "ins", next(_n)), (), name=name, real=real)
    return nd.wrap(tn.atom_value(a, ()), "f" if real else "c", scalar=True)


def bonds(L, d, profile):
    """bond dimensions of an open chain; profile: list of L-1 inner bonds"""
    b = [1] + list(profile) + [1]
    assert len(b) == L + 1
    return b


BONDS = os.environ.get("XMPS_BONDS", "")      # rerun of the obligations on chains with product bonds
REBOND = {"first": lambda v: v[:1] + [1] * (len(v) - 1), "last": lambda v: [1] * (len(v) - 1) + v[-1:], "none": lambda v: [1] * len(v)}


def mps_data(L, d=2, inner=None, name="A"):
    inner = inner if inner is not None else default_bonds(L, d)
    inner = REBOND.get(BONDS, lambda v: v)(list(inner))
    b = bonds(L, d, inner)
    return [tensor((d, b[i], b[i + 1]), "%s%d" % (name, i)) for i in range(L)]


def default_bonds(L, d, cap=3):
    """distinct neighbouring bond dimensions, never larger than the Schmidt rank bound"""
    r = []
    for i in range(1, L):
        m = min(d ** i, d ** (L - i))
        r.append(min(m, cap if i % 2 else cap - 1) if m > 2 else m)
    return r


LET = string.ascii_letters


def state(data):
    """full state tensor psi[s0,s1,...] of an open chain (boundary bonds of size 1)"""
    ops, labs = [], []
    L = len(data)
    for i, a in enumerate(data):
        ops.append(nd.symof(a))
        labs.append([("s", i), ("b", i), ("b", i + 1)])
    out = [("s", i) for i in range(L)]
    return tn.einsum(ops, labs, [("b", 0)] + out + [("b", L)] if data[0].shape[1] != 1 or data[-1].shape[2] != 1 else out)


def fMPS(it, data, **attrs):
    """an fMPS instance of the analysed class built by its own constructor"""
    F = it.mod("fMPS").vars["fMPS"]
    m = F(list(data))
    for k, v in attrs.items():
        m.d[k] = v
    return m


def einsum(expr, *ops):
    """einsum with letters over Arr/Sym"""
    ins, out = expr.replace(" ", "").split("->")
    return tn.einsum([nd.symof(o) for o in ops], [list(x) for x in ins.split(",")], list(out))


def net(ops, labels, out):
    return tn.einsum([nd.symof(o) for o in ops], [list(l) for l in labels], list(out))


class Verdict(tuple):
    """(equal, how it was decided); true exactly when equal"""

    def __bool__(self):
        return bool(self[0])


def eq(a, b, seed=0):
    return Verdict(tn.equal(nd.symof(a), nd.symof(b), seed))
