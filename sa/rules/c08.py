"""Serialisation: writer and reader are applied one after the other to states of arbitrary entries (complex, real, views of other
arrays) for all chain lengths, local dimensions and bond limits of the grid, and the tensors of the result are compared with those of
the state; the files are the values handed to the array writer.  Reader then writer gives an arbitrary vector back."""
from .common import *

from . import wide

FLOOR = 60
ASSUMPTIONS = ["without a stated structure the bonds are those of create_structure, as documented ('standard' structure)",
               "np.save/np.load keep the array; store appends .npy to names without it"]


def profile(L, d, D):
    """inner bonds of the documented standard structure min(d**n, D) from either end"""
    return [min(d ** i, d ** (L - i), D) for i in range(1, L)]


def make(L, d, inner, kind):
    b = [1] + list(inner) + [1]
    out = []
    for i in range(L):
        if kind == "view":
            out.append(nd.transpose(spec.tensor((b[i + 1], d, b[i]), "A%d" % i), (1, 2, 0)))
        elif kind == "mixed":
            out.append(spec.tensor((d, b[i], b[i + 1]), "A%d" % i, kind="f" if i % 2 else "c"))
        else:
            out.append(spec.tensor((d, b[i], b[i + 1]), "A%d" % i, kind=kind))
    return out


def same(got, ref, what):
    out = [check(len(got) == len(ref), "length", "%s has %d tensors instead of %d" % (what, len(got), len(ref)))]
    for i, (a, b) in enumerate(zip(got, ref)):
        if tuple(a.shape) != tuple(b.shape):
            out.append(Fail("shape", "tensor %d of %s has shape %s instead of %s" % (i, what, a.shape, b.shape)))
        else:
            out.append(check(spec.eq(a, b), "entries", "tensor %d of %s" % (i, what)))
    return [o for o in out if o]


def attrs(it, m, what, **kw):
    return [o for o in (check(it.getattr(m, k) == v, "attribute", "%s has %s = %s instead of %s" % (what, k, it.getattr(m, k), v)) for k, v in kw.items()) if o]


def obligations(tier):
    obs = []
    big = tier != "quick"

    def add(name, entry, fn, **kw):
        obs.append(Ob(name, entry, fn, **kw))

    Ls = [2, 3, 4, 5] + ([6, 7, 8] if big else [])
    grid_ = [(L, d, D) for L in [1] + Ls for d in (2, 3) for D in ((1, 2, 3, 5) if d == 2 else (1, 2, 4)) if L > 1 or D == 1]
    if big:
        grid_ += [(L, d, D) for L in (3, 4, 5) for d, D in ((2, 4), (2, 16), (3, 3), (3, 9), (4, 5), (1, 1))]

    for L, d, D in grid_:
        inner = profile(L, d, D)
        top = max([1] + inner)
        what = "L=%d d=%d D=%d" % (L, d, D)

        def vec(it, L=L, d=d, D=D, inner=inner, top=top, what=what):
            out = []
            F = it.mod("fMPS").vars["fMPS"]
            for kind in ("c", "f", "view", "mixed"):
                for real in (False, True):
                    A = make(L, d, inner, kind)
                    m = F(list(A))
                    v = call(it, m, "serialize", real=real)
                    tag = "%s (%s, real=%s)" % (what, kind, real)
                    N = sum(a.size for a in A)
                    out.append(check(v.shape == ((2 if real else 1) * N,), "vector", "the vector of %s has shape %s" % (tag, v.shape)))
                    if real:
                        out.append(check(v.kind != "c", "vector", "the real vector of %s is complex" % tag))
                    for reader in (F(), m):
                        q = call(it, reader, "deserialize", v, L, d, D, real=real)
                        out += same(data(q), A, tag)
                        out += attrs(it, q, tag, L=L, d=d, D=top)
                    q = call(it, F(), "deserialize", v, real=real, structure=[tuple(a.shape) for a in A])
                    out += same(data(q), A, tag + " with structure") + attrs(it, q, tag, L=L, d=d, D=top)
                    out += same(data(m), A, "the state after it was serialised")
            return [o for o in out if o]
        add("vector " + what, "fMPS:fMPS.deserialize", vec)

        def inverse(it, L=L, d=d, D=D, inner=inner, what=what):
            out = []
            F = it.mod("fMPS").vars["fMPS"]
            b = [1] + inner + [1]
            N = sum(d * b[i] * b[i + 1] for i in range(L))
            for real in (False, True):
                v = spec.tensor(((2 if real else 1) * N,), "v", kind="f" if real else "c")
                q = call(it, F(), "deserialize", v, L, d, D, real=real)
                out.append(check(spec.eq(call(it, q, "serialize", real=real), v), "inverse", "a vector read as %s (real=%s) and written again" % (what, real)))
            return [o for o in out if o]
        add("inverse " + what, "fMPS:fMPS.serialize", inverse)

        def files(it, L=L, d=d, D=D, inner=inner, top=top, what=what):
            out = []
            F = it.mod("fMPS").vars["fMPS"]
            for kind in ("c", "f"):
                for structured in (False, True):
                    A, B = make(L, d, inner, kind), make(L, d, inner, kind)
                    a, b = F(list(A)), F(list(B))
                    k = {"structured": True} if structured else {}
                    call(it, a, "store", "first.npy", **k)
                    call(it, b, "store", "second", **k)
                    for reader in (F, lambda: F(list(B))):
                        q = call(it, reader(), "load", "first.npy", **k)
                        tag = "%s (%s, structured=%s)" % (what, kind, structured)
                        out += same(data(q), A, tag) + attrs(it, q, tag, L=L, d=d, D=top)
                    q = call(it, F(), "load", "second.npy", **k)
                    out += same(data(q), B, tag) + attrs(it, q, tag, L=L, d=d, D=top)
                    out += same(data(a), A, "the state after it was stored")
            return [o for o in out if o]
        add("file " + what, "fMPS:fMPS.store", files)

    for L in (2, 3):
        for hname, h in histories(L) + [("truncation", [("right_canonicalise", (1,))])]:
            def f(it, L=L, h=h, hname=hname):
                out = []
                F = it.mod("fMPS").vars["fMPS"]
                for structured in (False, True):
                    m = F(make(L, 2, [2] * (L - 1), "c"))
                    A = prepared(it, m, h)
                    D = max(max(a.shape[1:]) for a in A)
                    k = {"structured": True} if structured else {}
                    call(it, m, "store", "h.npy", **k)
                    q = call(it, F(), "load", "h.npy", **k)
                    w = "state after %s (structured=%s)" % (hname, structured)
                    out += same(data(q), A, w) + attrs(it, q, w, L=L, d=2, D=D)
                for real in (False, True):
                    q = call(it, F(), "deserialize", call(it, m, "serialize", real), it.getattr(m, "L"), it.getattr(m, "d"), it.getattr(m, "D"), real=real)
                    out += same(data(q), A, "vector of a state after %s (real=%s)" % (hname, real))
                return out
            add("L=%d after %s" % (L, hname), "fMPS:fMPS.store", f)

    odd = [([2], [2, 2]), ([3], [2, 2]), ([1, 3], [2] * 3), ([2, 5, 1], [2] * 4), ([4, 1, 4], [2] * 4), ([2, 3], [2, 3, 4]), ([5, 2, 7, 3], [2, 3, 2, 5, 2]), ([], [3])]
    if big:
        odd += [([7, 7, 7], [2] * 4), ([1, 1, 9, 1, 2], [3, 2] * 3), ([11], [5, 2]), ([2, 4, 8, 16, 2], [2] * 6)]
    for inner, ds in odd:
        what = "bonds %s, local dimensions %s" % (inner, ds)

        def structured(it, inner=inner, ds=ds, what=what):
            out = []
            F = it.mod("fMPS").vars["fMPS"]
            b = [1] + inner + [1]
            for kind in ("c", "f"):
                A = [spec.tensor((ds[i], b[i], b[i + 1]), "A%d" % i, kind=kind) for i in range(len(ds))]
                m = F(list(A))
                call(it, m, "store", "x", structured=True)
                q = call(it, F(), "load", "x.npy", structured=True)
                out += same(data(q), A, what) + attrs(it, q, what, L=len(ds), d=ds[0], D=max(b))
                for real in (False, True):
                    q = call(it, F(), "deserialize", call(it, m, "serialize", real), structure=[tuple(a.shape) for a in A], real=real)
                    out += same(data(q), A, what + " real=%s" % real)
            return [o for o in out if o]
        add("structured " + what, "fMPS:fMPS.load", structured)

    def doubled(it):
        """doubled states are written and read like the others"""
        out = []
        T = it.mod("fMPS").vars["fTFD"]
        A = make(3, 4, [4, 4], "c")
        m = T(list(A))
        for real in (False, True):
            q = call(it, T(), "deserialize", call(it, m, "serialize", real), 3, 4, 4, real=real)
            out += same(data(q), A, "a doubled state")
        call(it, m, "store", "t")
        out += same(data(call(it, T(), "load", "t.npy")), A, "a doubled state")
        return [o for o in out if o]
    add("doubled state", "fMPS:fMPS.deserialize", doubled)

    cells = [(p, d, D) for p in (1, 2, 3) for d, D in ((2, 1), (2, 3), (3, 2))] + ([(p, d, D) for p in (4, 5) for d, D in ((2, 4), (4, 2), (3, 3))] if big else [])
    for p, d, D in cells:
        what = "period=%d d=%d D=%d" % (p, d, D)

        def infinite(it, p=p, d=d, D=D, what=what):
            out = []
            M = it.mod("iMPS").vars["iMPS"]
            for kind in ("c", "f"):
                A = [spec.tensor((d, D, D), "A%d" % i, kind=kind) for i in range(p)]
                B = [spec.tensor((d, D, D), "B%d" % i, kind=kind) for i in range(p)]
                m, o = M(list(A)), M(list(B))
                k = [] if p == 1 else [p]
                for real in (False, True):
                    v = call(it, m, "serialize", real=real)
                    N = p * d * D * D
                    out.append(check(v.shape == ((2 if real else 1) * N,), "vector", "the vector of %s has shape %s" % (what, v.shape)))
                    for reader in (M(), M([spec.tensor((d + 1, D, D), "C")])):
                        q = call(it, reader, "deserialize", v, d, D, *k, real=real)
                        out += same(data(q), A, what) + attrs(it, q, what, d=d, D=D, period=p)
                    w = spec.tensor(((2 if real else 1) * N,), "v", kind="f" if real else "c")
                    q = call(it, M(), "deserialize", w, d, D, p, real=real)
                    out.append(check(spec.eq(call(it, q, "serialize", real=real), w), "inverse", "a vector read as %s and written again" % what))
                call(it, m, "store", "first")
                call(it, o, "store", "second.npy")
                for f, X in (("first.npy", A), ("second.npy", B)):
                    q = call(it, M(), "load", f)
                    out += same(data(q), X, what) + attrs(it, q, what, d=d, D=D, period=p)
                out += same(data(m), A, "the state after it was stored")
            return [x for x in out if x]
        add("infinite " + what, "iMPS:iMPS.deserialize", infinite)

    def w_ser(it, m, A, L, d, p):
        out, F = [], it.mod("fMPS").vars["fMPS"]
        D = max(p)
        for real in (False, True):
            q = call(it, F(), "deserialize", call(it, m, "serialize", real=real), structure=[tuple(a.shape) for a in A], real=real)
            out += same(data(q), A, "vector " + grid.pstr(L, d, p))
        call(it, m, "store", "w.npy", structured=True)
        out += same(data(call(it, F(), "load", "w.npy", structured=True)), A, "file " + grid.pstr(L, d, p))
        B = make(L, d, profile(L, d, D), "c")
        b = F(list(B))
        call(it, b, "store", "v.npy")
        out += same(data(call(it, F(), "load", "v.npy")), B, "unstructured file L=%d d=%d D=%d" % (L, d, D))
        for real in (False, True):
            out += same(data(call(it, F(), "deserialize", call(it, b, "serialize", real=real), L, d, D, real=real)), B, "vector L=%d d=%d D=%d" % (L, d, D))
        return out
    wide.run(obs, wide.sizes(tier, "serialize", "deserialize", "store", "load"), "store", "round trip", w_ser)
    return obs
