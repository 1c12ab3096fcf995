"""Gate rule: the full state extracted after applying a generic (non-symmetric, non-unitary) operator equals the operator
contracted with the state on the named sites in the named order (operator rows become the new physical index); post-selection equals
slicing the state; grouping and QR/RQ/SVD splitting of two-site tensors multiply back to the tensor, isometric on the named side."""
import itertools
import numpy as np
from .common import *
from .c07 import split_check

from . import wide

FLOOR = 60
F = "fMPS:fMPS."


def applied(st, op, sites, d):
    """op (rows = new physical index, first factor on sites[0]) applied to a state"""
    k = len(sites)
    L = len(st.shape)
    o = tn.reshape(nd.symof(op), (d,) * (2 * k))
    lab = [("k", s) for s in sites]
    ket = [("k" if i in sites else "s", i) for i in range(L)]
    out = [("n" if i in sites else "s", i) for i in range(L)]
    return tn.einsum([o, st], [[("n", s) for s in sites] + lab, ket], out)


def obligations(tier):
    it0 = I.Interp()
    obs = []
    big = tier != "quick"
    grids = [(2, 2), (3, 2), (4, 2), (3, 3), (2, 3)] + ([(5, 2), (4, 3)] if big else [])
    for L in grid.lengths(it0, F + "apply_two_site", (2, 3, 4), 6):
        if (L, 2) not in grids:
            grids.append((L, 2))
    for L, d in grids:
        for p in grid.profiles(L, d)[:2]:
            for s in range(L):
                def f(it, L=L, d=d, p=p, s=s):
                    A = spec.mps_data(L, d, p)
                    m = spec.fMPS(it, A)
                    O = spec.tensor((d, d), "O")
                    r = call(it, m, "apply", (O, s))
                    w = "apply((op, %d)); %s" % (s, grid.pstr(L, d, p))
                    return [check(spec.eq(spec.state(data(r)), applied(spec.state(A), O, [s], d)), "state differs", w + " is not the operator acting on that site"),
                            None if r is not m else Fail("receiver", w + " returns its receiver")]
                obs.append(Ob("apply site=%d %s" % (s, grid.pstr(L, d, p)), F + "apply", f))
                if L > 1:
                    for which in range(min(d, 2)):
                        def g(it, L=L, d=d, p=p, s=s, which=which):
                            A = spec.mps_data(L, d, p)
                            m = spec.fMPS(it, A)
                            call(it, m, "post_select", s, which)
                            w = "post_select(%d, %d); %s" % (s, which, grid.pstr(L, d, p))
                            if len(data(m)) != L - 1:
                                return [Fail("length", w)]
                            return [check(spec.eq(spec.state(data(m)), tn.take(spec.state(A), s, which)), "state differs", w + " is not the projection on that outcome"),
                                    None if m.d.get("L") == L - 1 else Fail("length", w + " records length %s" % m.d.get("L"))]
                        obs.append(Ob("post_select %d->%d %s" % (s, which, grid.pstr(L, d, p)), F + "post_select", g))
            pairs = [(i, j) for i in range(L) for j in range(L) if i != j]
            if L >= 4:
                pairs = [(i, j) for i, j in pairs if abs(i - j) < 3 or (i, j) in ((0, L - 1), (L - 1, 0))]
            for (i, j) in pairs:
                if p != grid.profiles(L, d)[0] and abs(i - j) > 1:
                    continue
                if d == 3 and abs(i - j) > 1 and p != grid.profiles(L, d)[0]:
                    continue
                for which in "lr":
                    def f(it, L=L, d=d, p=p, i=i, j=j, which=which):
                        A = spec.mps_data(L, d, p)
                        m = spec.fMPS(it, A)
                        U = spec.tensor((d * d, d * d), "U")
                        r = call(it, m, "apply_two_site", (U, (i, j)), which)
                        w = "apply_two_site((op, (%d, %d)), %s); %s" % (i, j, which, grid.pstr(L, d, p))
                        return [check(spec.eq(spec.state(data(r)), applied(spec.state(A), U, [i, j], d)), "state differs", w + " is not the operator acting on those sites in that order")]
                    obs.append(Ob("apply_two_site (%d,%d) %s %s" % (i, j, which, grid.pstr(L, d, p)), F + "apply_two_site", f))
                    if abs(i - j) == 1 and d == 2 or (L, d) == (3, 2):
                        def f(it, L=L, d=d, p=p, i=i, j=j, which=which):
                            A = spec.mps_data(L, d, p)
                            m = spec.fMPS(it, A)
                            U = spec.tensor((d * d, d * d), "U")
                            r = call(it, m, "apply_two_site", (U, (i, j)), which, 64)
                            w = "apply_two_site((op, (%d, %d)), %s, D=64); %s" % (i, j, which, grid.pstr(L, d, p))
                            return [proportional(spec.state(data(r)), applied(spec.state(A), U, [i, j], d), w + " (nothing truncated) is not the operator acting on those sites in that order", "state differs")]
                        obs.append(Ob("apply_two_site D=64 (%d,%d) %s %s" % (i, j, which, grid.pstr(L, d, p)), F + "apply_two_site", f))
        # one-site operators through the two-site entry point
        for s in range(L):
            def f(it, L=L, d=d, s=s):
                A = spec.mps_data(L, d)
                O = spec.tensor((d, d), "O")
                r = call(it, spec.fMPS(it, A), "apply_two_site", (O, (s,)))
                return [check(spec.eq(spec.state(data(r)), applied(spec.state(A), O, [s], d)), "state differs", "apply_two_site((one-site op, (%d,))) L=%d d=%d" % (s, L, d))]
            obs.append(Ob("apply_two_site one site %d L=%d d=%d" % (s, L, d), F + "apply_two_site", f))
        for which, k in (("l", 0), ("r", 1)):
            def f(it, L=L, d=d, which=which, k=k):
                A = spec.mps_data(L, d)
                O = spec.tensor((d, d), "O")
                r = call(it, spec.fMPS(it, A), "apply_two_site", (O, (0, 1)), which)
                return [check(spec.eq(spec.state(data(r)), applied(spec.state(A), O, [k], d)), "state differs", "apply_two_site((one-site op, (0,1)), %s) L=%d d=%d" % (which, L, d))]
            obs.append(Ob("apply_two_site one-site op on pair %s L=%d d=%d" % (which, L, d), F + "apply_two_site", f))
    # after a history, and read back through the entry points that trust the recorded gauge
    from .c02 import ratio
    for L in (2, 3):
        for hname, h in histories(L):
            for (i, j) in [(0, 1), (1, 0)] + ([(1, 2), (0, 2)] if L == 3 else []):
                for which in "lr":
                    if not big and (i, j) in ((1, 0), (0, 2)) and which == "r":
                        continue

                    def f(it, L=L, h=h, hname=hname, i=i, j=j, which=which):
                        m = spec.fMPS(it, spec.mps_data(L, 2, [2] * (L - 1)))
                        st0 = spec.state(prepared(it, m, h))
                        U, O = spec.tensor((4, 4), "U"), spec.tensor((2, 2), "O")
                        r = call(it, m, "apply_two_site", (U, (i, j)), which)
                        w = "apply_two_site((op, (%d, %d)), %s) after %s" % (i, j, which, hname)
                        st = spec.state(data(r))
                        out = [check(spec.eq(st, applied(st0, U, [i, j], 2)), "state differs", w + " is not the operator acting on those sites")]
                        for s in (i, j):
                            out.append(expect(call(it, r, "E", O, s), ratio(st, O, [s], 2), "value after gate", "E at site %d after %s" % (s, w)))
                        return out
                    obs.append(Ob("apply_two_site (%d,%d) %s L=%d after %s" % (i, j, which, L, hname), F + "apply_two_site", f))
            for s in range(L):
                def f(it, L=L, h=h, hname=hname, s=s):
                    m = spec.fMPS(it, spec.mps_data(L, 2, [2] * (L - 1)))
                    st0 = spec.state(prepared(it, m, h))
                    call(it, m, "post_select", s, 1)
                    w = "post_select(%d, 1) after %s" % (s, hname)
                    O = spec.tensor((2, 2), "O")
                    st = spec.state(data(m))
                    return [check(spec.eq(st, tn.take(st0, s, 1)), "state differs", w), expect(call(it, m, "E", O, 0), ratio(st, O, [0], 2), "value after", "E after " + w)]
                obs.append(Ob("post_select %d L=%d after %s" % (s, L, hname), F + "post_select", f))
    # two gates in a row
    for (a, b) in [((0, 1), (1, 2)), ((1, 2), (0, 1)), ((0, 2), (0, 1)), ((0, 1), (0, 1))]:
        for which in "lr":
            def f(it, a=a, b=b, which=which):
                A = spec.mps_data(3, 2, [2, 2])
                m = spec.fMPS(it, A)
                U, V = spec.tensor((4, 4), "U"), spec.tensor((4, 4), "V")
                r = call(it, call(it, m, "apply_two_site", (U, a), which), "apply_two_site", (V, b), which)
                return [check(spec.eq(spec.state(data(r)), applied(applied(spec.state(A), U, a, 2), V, b, 2)), "state differs", "two gates on %s then %s" % (a, b))]
            obs.append(Ob("gates %s %s %s" % (a, b, which), F + "apply_two_site", f))
    # tensors
    for d1, d2, l, m_, r in [(2, 2, 2, 3, 2), (2, 2, 1, 2, 3), (3, 3, 2, 2, 1), (2, 2, 3, 2, 1)]:
        def f(it, d1=d1, d2=d2, l=l, m_=m_, r=r):
            X, Y = spec.tensor((d1, l, m_), "X"), spec.tensor((d2, m_, r), "Y")
            g = it.mod("fMPS").vars["group_tensors"]([X, Y])
            ref = tn.reshape(spec.einsum("slm,tmr->stlr", X, Y), (d1 * d2, l, r))
            return [expect(g, ref, "grouped tensor", "group_tensors is not the contraction with physical index (left site, right site)")]
        obs.append(Ob("group_tensors %s" % ((d1, d2, l, m_, r),), "fMPS:group_tensors", f))
        for nm, side in (("separate_tensor_qr", "l"), ("separate_tensor_rq", "r"), ("separate_tensor_svd", "l"), ("separate_tensor_svd", "r")):
            def f(it, d1=d1, d2=d2, l=l, r=r, nm=nm, side=side):
                t = spec.tensor((d1 * d2, l, r), "T")
                X, Y = it.mod("fMPS").vars[nm](t, None, side) if nm.endswith("svd") else it.mod("fMPS").vars[nm](t)
                if X.shape[:2] != (d1, l) or (Y.shape[0], Y.shape[2]) != (d2, r) or X.shape[2] != Y.shape[1]:
                    return [Fail("shapes", "%s returns %s %s" % (nm, X.shape, Y.shape))]
                prod = tn.reshape(spec.einsum("slm,tmr->stlr", X, Y), (d1 * d2, l, r))
                out = [proportional(prod, nd.symof(t), nm + " does not multiply back to the tensor", "product")]
                if not nm.endswith("svd"):
                    out.append(check(spec.eq(prod, nd.symof(t)), "product", nm + " does not multiply back to the tensor"))
                out.append(check(is_left(X) if side == "l" else is_right(Y), "not isometric", nm + " %s" % side))
                return out
            obs.append(Ob("%s %s %s" % (nm, side, (d1, d2, l, r)), "fMPS:" + nm, f))
        for which in "lr":
            for D in (None, 64):
                def f(it, d1=d1, d2=d2, l=l, m_=m_, r=r, which=which, D=D):
                    X, Y = spec.tensor((d1, l, m_), "X"), spec.tensor((d2, m_, r), "Y")
                    U = spec.tensor((d1 * d2, d1 * d2), "U")
                    P, Q = it.mod("fMPS").vars["apply_unitary"]([X, Y], U, which, D)
                    prod = tn.reshape(spec.einsum("slm,tmr->stlr", P, Q), (d1 * d2, l, r))
                    ref = tn.einsum([nd.symof(U), tn.reshape(spec.einsum("slm,tmr->stlr", X, Y), (d1 * d2, l, r))], [["n", "k"], ["k", "l", "r"]], ["n", "l", "r"])
                    return [proportional(prod, ref, "apply_unitary(which=%s, D=%s)" % (which, D), "product"), check(is_left(P) if which == "l" else is_right(Q), "not isometric", "apply_unitary %s" % which)]
                obs.append(Ob("apply_unitary %s D=%s %s" % (which, D, (d1, d2, l, m_, r)), "fMPS:apply_unitary", f))
        def f(it, d1=d1, d2=d2, l=l, m_=m_, r=r):
            X, Y = spec.tensor((d1, l, m_), "X"), spec.tensor((d2, m_, r), "Y")
            U = spec.tensor((d1, d1 * d2), "U")
            P = it.mod("fMPS").vars["apply_isometry"]([X, Y], U)
            ref = tn.einsum([nd.symof(U), tn.reshape(spec.einsum("slm,tmr->stlr", X, Y), (d1 * d2, l, r))], [["n", "k"], ["k", "l", "r"]], ["n", "l", "r"])
            return [expect(P, ref, "product", "apply_isometry")]
        obs.append(Ob("apply_isometry %s" % ((d1, d2, l, m_, r),), "fMPS:apply_isometry", f))

    def w_gate(it, m, A, L, d, p):
        st, w, out = spec.state(A), grid.pstr(L, d, p), []
        for i, j in sorted({(0, 1), (L - 2, L - 1), (L - 1, L - 2), (L // 2 - 1, L // 2)} | ({(0, L - 1), (L - 1, 0)} if L <= 8 else set())):
            for which in "lr":
                U = spec.tensor((d * d, d * d), "U")
                r = call(it, spec.fMPS(it, A), "apply_two_site", (U, (i, j)), which)
                out.append(check(spec.eq(spec.state(data(r)), applied(st, U, [i, j], d)), "state differs", "apply_two_site((op, (%d, %d)), %s); %s" % (i, j, which, w)))
        for s in (0, L // 2, L - 1):
            O = spec.tensor((d, d), "O")
            out.append(check(spec.eq(spec.state(data(call(it, m, "apply", (O, s)))), applied(st, O, [s], d)), "state differs", "apply at %d; %s" % (s, w)))
            a = spec.fMPS(it, A)
            call(it, a, "post_select", s, 0)
            out.append(check(spec.eq(spec.state(data(a)), tn.take(st, s, 0)), "state differs", "post_select(%d, 0); %s" % (s, w)))
        return out
    wide.run(obs, wide.sizes(tier, "apply_two_site", "apply", "post_select"), "apply_two_site", "gates", w_gate, lambda L, d, p: 1 < d <= 6)
    # sites may be numpy integers and come as any pair
    for L in (2, 3):
        for i, j in itertools.permutations(range(L), 2):
            for which in "lr":
                def f(it, L=L, i=i, j=j, which=which):
                    A, out = spec.mps_data(L, 2, [2] * (L - 1)), []
                    U, O = spec.tensor((4, 4), "U"), spec.tensor((2, 2), "O")
                    for kn, pair in (("list", [i, j]), ("numpy integers", (np.int64(i), np.int64(j))), ("array", nd.wrap(np.array([i, j])))):
                        r = call(it, spec.fMPS(it, A), "apply_two_site", (U, pair), which)
                        out.append(check(spec.eq(spec.state(data(r)), applied(spec.state(A), U, [i, j], 2)), "state differs", "apply_two_site((op, (%d, %d) given as %s), %s) L=%d" % (i, j, kn, which, L)))
                    r = call(it, spec.fMPS(it, A), "apply", (O, np.int64(i)))
                    out.append(check(spec.eq(spec.state(data(r)), applied(spec.state(A), O, [i], 2)), "state differs", "apply at numpy integer %d, L=%d" % (i, L)))
                    a = spec.fMPS(it, A)
                    call(it, a, "post_select", np.int64(i), np.int64(1))
                    out.append(check(spec.eq(spec.state(data(a)), tn.take(spec.state(A), i, 1)), "state differs", "post_select at numpy integer %d, L=%d" % (i, L)))
                    return out
                obs.append(Ob("gate sites (%d,%d) %s L=%d given in other ways" % (i, j, which, L), F + "apply_two_site", f))
    return obs
