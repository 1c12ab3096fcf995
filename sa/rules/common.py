"""shared reference contractions"""
import itertools
from .. import nd, tn, spec, grid, interp as I
from ..rule import Ob, Fail, check, expect


def norm2(st):
    l = list(range(len(st.shape)))
    return tn.einsum([st, st.conj()], [l, l], [])


def ip(a, b):
    """sum conj(a) b"""
    l = list(range(len(a.shape)))
    return tn.einsum([a.conj(), b], [l, l], [])


def smul(z, s):
    return tn.outer(z, s)


def proportional(new, old, what, tag="state changed"):
    """new is a multiple of old: new <old|old> == old <old|new>"""
    if new.shape != old.shape:
        return Fail(tag, "%s: state of shape %s instead of %s" % (what, new.shape, old.shape))
    return check(spec.eq(smul(norm2(old), new), smul(ip(old, new), old)), tag, what)


def unit(st, what):
    return check(spec.eq(norm2(st), tn.scalar(1)), "not normalised", what)


def left_iso(A):
    """sum_s A_s^dagger A_s"""
    a = nd.symof(A)
    return tn.einsum([a.conj(), a], [["s", "l", "i"], ["s", "l", "j"]], ["i", "j"])


def right_iso(A):
    a = nd.symof(A)
    return tn.einsum([a, a.conj()], [["s", "i", "r"], ["s", "j", "r"]], ["i", "j"])


def is_left(A):
    n = A.shape[2]
    return spec.eq(left_iso(A), tn.eye(n))


def is_right(A):
    n = A.shape[1]
    return spec.eq(right_iso(A), tn.eye(n))


def call(it, obj, name, *a, **k):
    return it.getattr(obj, name)(*a, **k)


def data(m):
    return m.d["data"]


def chain(it, *ms):
    def g(a):
        for name, args in ms:
            it.getattr(a, name)(*args)
        return a
    return g


def gauges(L, site):
    """histories that leave the receiver in some truthfully recorded gauge"""
    hs = [("no gauge", [])]
    hs.append(("right_canonicalise", [("right_canonicalise", ())]))
    hs.append(("left_canonicalise", [("left_canonicalise", ())]))
    hs.append(("mixed_canonicalise(%d)" % site, [("mixed_canonicalise", (site,))]))
    o = (site + 1) % L
    hs.append(("mixed_canonicalise(%d)" % o, [("mixed_canonicalise", (o,))]))
    hs.append(("mixed_orthogonalise(%d)" % o, [("mixed_orthogonalise", (o,))]))
    hs.append(("left_orthogonalise", [("left_orthogonalise", ())]))
    hs.append(("right_orthogonalise", [("right_orthogonalise", ())]))
    return hs


def histories(L):
    """gauges, and gauges that later operations made stale or refreshed; each a list of (method, arguments)"""
    U = lambda it: spec.tensor((4, 4), "Uh")
    k = L // 2
    pair = (k - 1, k) if L > 1 else None
    hs = gauges(L, k)[1:]
    if L > 1:
        g = ("apply_two_site", ((U, pair),))
        hs += [("left_canonicalise, gate", [("left_canonicalise", ()), g]),
               ("right_canonicalise, gate, mixed_canonicalise(%d)" % k, [("right_canonicalise", ()), g, ("mixed_canonicalise", (k,))]),
               ("left_canonicalise, gate, mixed_orthogonalise(0)", [("left_canonicalise", ()), g, ("mixed_orthogonalise", (0,))]),
               ("mixed_canonicalise(%d), gate, right_orthogonalise" % k, [("mixed_canonicalise", (k,)), g, ("right_orthogonalise", ())])]
    return hs


def prepared(it, m, h):
    """m after the history, with the tensors it has then"""
    def arg(x):
        return x(it) if callable(x) else tuple(arg(y) for y in x) if isinstance(x, tuple) else x
    for name, args in h:
        it.getattr(m, name)(*[arg(a) for a in args])
    return list(data(m))
