"""Entropies: the value returned on abstract weights is compared with the entropy functional of the weights; the weights themselves
with the singular values of the contracted state across the bond."""
import numpy as np
from .common import *
from .c14 import patched
from .. import models

from . import wide

BONDS_SKIP = r"recorded"          # obligations that state the bond dimensions themselves
FLOOR = 60
ASSUMPTIONS = ["Schmidt weights are either exactly zero or above the threshold (1e-8) below which they are treated as zero"]


def weights(A, k):
    """squared Schmidt coefficients of the chain across the bond left of site k (smaller of the bond and the Hilbert spaces), normalised"""
    st = spec.state(A)
    n2 = norm2(st)
    if k in (0, len(A)):
        return nd.wrap(tn.ones((1,)), "f")
    d = A[0].shape[0]
    m = np.prod([1]), None
    dims = st.shape
    l, r = int(np.prod(dims[:k])), int(np.prod(dims[k:]))
    # factors of the cut: X (l x D) Y (D x r); the weights are those of R_X R_Y^T, a matrix no larger than the bond
    x = nd.symof(A[0])
    x = tn.reshape(x, (x.shape[0], x.shape[2]))
    for a in A[1:k]:
        x = tn.einsum([x, nd.symof(a)], [["p", "i"], ["s", "i", "j"]], ["p", "s", "j"])
        x = tn.reshape(x, (x.shape[0] * x.shape[1], x.shape[2]))
    y = nd.symof(A[-1])
    y = tn.reshape(y, (y.shape[0], y.shape[1]))
    for a in reversed(A[k:-1]):
        y = tn.einsum([nd.symof(a), y], [["s", "i", "j"], ["p", "j"]], ["s", "p", "i"])
        y = tn.reshape(y, (y.shape[0] * y.shape[1], y.shape[2]))
    if x.shape[0] > x.shape[1]:
        x = nd.qr_syms(x)[1]
    if y.shape[0] > y.shape[1]:
        y = nd.qr_syms(y)[1]
    m = tn.einsum([x, y], [["a", "i"], ["b", "i"]], ["a", "b"])
    s = nd.wrap(nd.svd_syms(m)[1], "f")
    return nd.div(nd.binop("*", s, s), nd.real(nd.wrap(n2, "c")))


def vn(it, p):
    log = it.mod("fMPS").vars["log"]
    return nd.binop("*", nd.sum_(nd.binop("*", p, log(p))), -1)


def scalar(x):
    return nd.symof(nd.reshape(nd.to_arr(x), ()))


def ordered(f):
    def g(it):
        nd.ORDERED = True
        try:
            return f(it)
        finally:
            nd.ORDERED = False
    return g


def obligations(tier):
    obs = []
    big = tier != "quick"

    def add(name, entry, f, **kw):
        obs.append(Ob(name, entry, ordered(f), **kw))
    V = lambda it, m, n: it.mod(m).vars[n]

    # ------------------------------------------------------------------ one state
    grids = [(1, 2, []), (2, 2, [1]), (2, 2, [2]), (3, 2, [2, 2]), (3, 2, [1, 2]), (4, 2, [2, 3, 2]), (3, 3, [2, 3]), (4, 2, [1, 2, 1])]
    if big:
        grids += [(5, 2, [2, 3, 3, 2]), (4, 3, [3, 2, 3]), (5, 2, [2, 4, 4, 2]), (6, 2, [2, 2, 1, 2, 2])]
    for L, d, b in grids:
        w0 = grid.pstr(L, d, b)
        for k in range(L + 1):
            def f(it, L=L, d=d, b=b, k=k, w0=w0):
                A = spec.mps_data(L, d, b)
                ref = vn(it, weights(A, k))
                m = V(it, "fMPS", "fMPS")(list(A))
                return [check(spec.eq(scalar(call(it, m, "entanglement_entropy", k)), scalar(ref)), "value", "entanglement_entropy(%d), %s, is not the entropy of the Schmidt weights left of the site" % (k, w0))]
            add("entanglement_entropy(%d) %s" % (k, w0), "fMPS:fMPS.entanglement_entropy", f)

            def f(it, L=L, d=d, b=b, k=k, w0=w0):
                """the recorded weights are the squared Schmidt coefficients, also for a state of any norm"""
                A = spec.mps_data(L, d, b)
                ref = weights(A, k)
                m = V(it, "fMPS", "fMPS")(list(A))
                call(it, m, "left_canonicalise")
                x = nd.diag(it.getattr(m, "Ls")[k])
                w = "weights at bond %d after left_canonicalise, %s" % (k, w0)
                if x.shape != ref.shape:
                    return [Fail("count", "%s: %s instead of %s" % (w, x.shape, ref.shape))]
                return [expect(x, nd.symof(ref), "weights", w + " are not the squared Schmidt coefficients")]
            add("weights(%d) %s" % (k, w0), "fMPS:fMPS.left_canonicalise", f)
        for k in (range(L + 1) if L <= 3 else [L // 2]):
            def f(it, L=L, d=d, b=b, k=k, w0=w0):
                """asking twice, and after another gauge"""
                A = spec.mps_data(L, d, b)
                ref = vn(it, weights(A, k))
                m = V(it, "fMPS", "fMPS")(list(A))
                out = []
                for first in ("right_canonicalise", "entanglement_entropy"):
                    call(it, m, first, *([0] if first[0] == "e" else []))
                    out.append(check(spec.eq(scalar(call(it, m, "entanglement_entropy", k)), scalar(ref)), "value", "entanglement_entropy(%d) after %s, %s" % (k, first, w0)))
                return out
            add("entanglement_entropy(%d) again %s" % (k, w0), "fMPS:fMPS.entanglement_entropy", f)

    # after any history the entropy is that of the tensors the state has then
    for L, d, b in [(3, 2, [2, 2]), (2, 2, [2])] + ([(4, 2, [2, 2, 2])] if big else []):
        for hname, h in histories(L):
            for k in range(1, L):
                def f(it, L=L, d=d, b=b, k=k, h=h, hname=hname):
                    m = V(it, "fMPS", "fMPS")(spec.mps_data(L, d, b))
                    A = prepared(it, m, h)
                    ref = vn(it, weights(A, k))
                    return [check(spec.eq(scalar(call(it, m, "entanglement_entropy", k)), scalar(ref)), "value", "entanglement_entropy(%d) after %s, L=%d" % (k, hname, L))]
                add("entanglement_entropy(%d) L=%d after %s" % (k, L, hname), "fMPS:fMPS.entanglement_entropy", f)

    def zeros(it):
        """product states have no entropy; a Bell pair has log 2"""
        out = []
        F = V(it, "fMPS", "fMPS")
        A = [spec.tensor((2, 1, 1), "p%d" % i) for i in range(3)]
        for k in range(4):
            out.append(check(spec.eq(scalar(call(it, F(list(A)), "entanglement_entropy", k)), tn.zero(())), "value", "a product state has entropy at bond %d" % k))
        return out
    add("product states", "fMPS:fMPS.entanglement_entropy", zeros)

    # ------------------------------------------------------------------ a trajectory: the largest over the bonds, per recorded state
    def spectra(shape, tag):
        """positive weights; entries given as 0 are exactly zero, as 1 exactly one"""
        r = []
        for j, (n, z) in enumerate(shape):
            if n == 1:
                r.append(nd.ones(1))
                continue
            s = nd.zeros(n)
            for i in range(n - z):
                at = tn.atom(("w", tag, j, i), (), name="w%s_%d_%d" % (tag, j, i), real=True, sample=lambda ev: np.asarray(ev.rng.uniform(.05, 1)))
                nd.setitem(s, i, nd.wrap(tn.atom_value(at, ()), "f"))
            r.append(s)
        return r
    profs = {"uniform": [[(1, 0), (2, 0), (1, 0)]], "two bonds": [[(1, 0), (2, 0), (2, 0), (1, 0)]], "unequal bonds": [[(1, 0), (2, 0), (3, 0), (2, 0), (1, 0)]],
             "zeros": [[(1, 0), (2, 1), (3, 1), (2, 0), (1, 0)]], "product": [[(1, 0), (1, 0), (1, 0)]], "history": [[(1, 0), (2, 0), (2, 0), (1, 0)], [(1, 0), (2, 1), (2, 0), (1, 0)], [(1, 0), (2, 0), (2, 0), (1, 0)]],
             "growing": [[(1, 0), (1, 0), (1, 0), (1, 0)], [(1, 0), (2, 0), (2, 0), (1, 0)]], "first bond last": [[(1, 0), (3, 0), (1, 0), (1, 0)]]}
    for nm, P in profs.items():
        for α in (None, 2, 3, 0.5):
            for which in (("von_neumann",) if α is None else ("renyi",)):
                def f(it, P=P, α=α, nm=nm, which=which):
                    T = V(it, "fTDVP", "Trajectory")
                    S = [spectra(p, "%d" % k) for k, p in enumerate(P)]
                    log = V(it, "fMPS", "log")
                    tr = T(V(it, "fMPS", "fMPS")(spec.mps_data(2, 2, [2])), H=[spec.hermitian((4, 4), (1, 0), "h")])
                    with patched(T, schmidts=I.Prop(lambda inst: lambda *a, **k: [[nd.array(x) for x in row] for row in S])):
                        r = call(it, tr, which) if α in (None,) else call(it, tr, which, α)
                        extra = call(it, tr, which) if α == 2 else None
                    w = "%s%s of %s spectra" % (which, "" if α is None else "(%s)" % α, nm)
                    ref = []
                    for row in S:
                        e = []
                        for s, (n, z) in zip(row, P[0] if False else P[len(ref)]):
                            s = nd.getitem(s, slice(0, n - z))
                            if which == "von_neumann":
                                e.append(vn(it, s) if n > 1 else nd.wrap(tn.zero(()), "f"))
                            else:
                                q = nd.sum_(nd.powr(s, α))
                                e.append(nd.binop("*", log(q), 1 / (1 - α)) if n > 1 else nd.wrap(tn.zero(()), "f"))
                        ref.append(models._minmax("max")(nd.stack([nd.reshape(nd.to_arr(x), ()) for x in e])))
                    r = nd.to_arr(r)
                    if r.shape != (len(S),):
                        return [Fail("rows", "%s: shape %s for %d states" % (w, r.shape, len(S)))]
                    out = [check(spec.eq(scalar(nd.getitem(r, k)), scalar(x)), "value", "%s: entry %d is not the largest entropy over the bonds" % (w, k)) for k, x in enumerate(ref)]
                    if extra is not None:
                        out += [check(spec.eq(scalar(nd.getitem(extra, k)), scalar(x)), "value", "%s: default order is not 2" % w) for k, x in enumerate(ref)]
                    return out
                add("%s%s %s" % (which, "" if α is None else "(%s)" % α, nm), "fTDVP:Trajectory." + which, f)

    # recorded states -> weights, states of different bond dimension in one history
    hist = [(2, 2, [[2], [1]]), (3, 2, [[2, 2], [2, 2], [1, 1]]), (2, 3, [[3]])]
    if big:
        hist += [(4, 2, [[2, 4, 2], [2, 2, 2]])]
    for L, d, bs in hist:
        for which in ("schmidts", "von_neumann", "renyi"):
            def f(it, L=L, d=d, bs=bs, which=which):
                F = V(it, "fMPS", "fMPS")
                As = [spec.mps_data(L, d, b, "A%d_" % k) for k, b in enumerate(bs)]
                tr = V(it, "fTDVP", "Trajectory")(F(list(As[-1])), H=[spec.hermitian((d * d, d * d), (1, 0), "h") for _ in range(L - 1)])
                it.setattr(tr, "mps_history", [call(it, F(list(a)), "serialize", True) for a in As])
                it.setattr(tr, "Ds", [max(b) for b in bs] + [max(bs[-1])])
                ref = [[weights(a, k) for k in range(L + 1)] for a in As]
                r = call(it, tr, which)
                w = "%s of %d states, L=%d d=%d" % (which, len(bs), L, d)
                log = V(it, "fMPS", "log")
                if which == "schmidts":
                    if [[x.shape for x in row] for row in r] != [[x.shape for x in row] for row in ref]:
                        return [Fail("rows", "%s: %s" % (w, [[x.shape for x in row] for row in r]))]
                    return [expect(x, nd.symof(y), "weights", "%s: state %d bond %d" % (w, k, j)) for k in range(len(bs)) for j, (x, y) in enumerate(zip(r[k], ref[k]))]
                fn = (lambda p: vn(it, p)) if which == "von_neumann" else lambda p: nd.binop("*", log(nd.sum_(nd.binop("*", p, p))), -1)
                r = nd.to_arr(r)
                if r.shape != (len(bs),):
                    return [Fail("rows", "%s: shape %s" % (w, r.shape))]
                return [check(spec.eq(scalar(nd.getitem(r, k)), scalar(models._minmax("max")(nd.stack([nd.reshape(nd.to_arr(fn(p)), ()) for p in row])))), "value", "%s: state %d" % (w, k)) for k, row in enumerate(ref)]
            add("%s recorded L=%d d=%d %s" % (which, L, d, bs), "fTDVP:Trajectory." + which, f)
    # states recorded by exact evolution
    for L in (2, 3):
        for which in ("schmidts", "von_neumann", "renyi"):
            def f(it, L=L, which=which):
                F = V(it, "fMPS", "fMPS")
                tr = V(it, "fTDVP", "Trajectory")(F(spec.mps_data(L, 2, [2] * (L - 1))), H=[spec.hermitian((4, 4), (1, 0), "h") for _ in range(L - 1)])
                psi = [spec.tensor((2 ** L,), "psi%d" % k) for k in range(2)]
                it.setattr(tr, "ed_history", nd.stack(psi))
                ref = []
                for p in psi:
                    n2 = nd.real(nd.wrap(norm2(nd.symof(p)), "c"))
                    row = [nd.ones(1)]
                    for k in range(1, L):
                        s = nd.wrap(nd.svd_syms(nd.symof(nd.reshape(p, (2 ** k, 2 ** (L - k)))))[1], "f")
                        row.append(nd.div(nd.binop("*", s, s), n2))
                    ref.append(row + [nd.ones(1)])
                r = call(it, tr, which)
                w = "%s after exact evolution, L=%d" % (which, L)
                log = V(it, "fMPS", "log")
                if which == "schmidts":
                    if [[x.shape for x in row] for row in r] != [[x.shape for x in row] for row in ref]:
                        return [Fail("rows", "%s: %s" % (w, [[x.shape for x in row] for row in r]))]
                    return [expect(x, nd.symof(y), "weights", "%s: state %d bond %d" % (w, k, j)) for k in range(2) for j, (x, y) in enumerate(zip(r[k], ref[k]))]
                fn = (lambda p: vn(it, p)) if which == "von_neumann" else lambda p: nd.binop("*", log(nd.sum_(nd.binop("*", p, p))), -1)
                r = nd.to_arr(r)
                if r.shape != (2,):
                    return [Fail("rows", "%s: shape %s" % (w, r.shape))]
                return [check(spec.eq(scalar(nd.getitem(r, k)), scalar(models._minmax("max")(nd.stack([nd.reshape(nd.to_arr(fn(p)), ()) for p in row])))), "value", "%s: state %d" % (w, k)) for k, row in enumerate(ref)]
            add("%s exact L=%d" % (which, L), "fTDVP:Trajectory." + which, f)

    def w_entropy(it, m, A, L, d, p):
        return [check(spec.eq(scalar(call(it, V(it, "fMPS", "fMPS")(list(A)), "entanglement_entropy", k)), scalar(vn(it, weights(A, k)))), "value", "entanglement_entropy(%d), %s" % (k, grid.pstr(L, d, p)))
                for k in sorted({0, 1, L // 2, L - 1, L})]
    wide.run(obs, wide.sizes(tier, "entanglement_entropy"), "entanglement_entropy", "entropy", w_entropy, lambda L, d, p: d > 1)
    return obs
