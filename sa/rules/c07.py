"""Truncation rule.  The factors returned by every matrix-level truncation are, entry for entry, the leading columns, the leading
block and the leading rows of the given (or decomposed) factors; two-site splits multiply to the truncated product with
the isometric factor on the requested side; a truncating canonicalisation produces the state obtained by keeping, bond after
bond in sweep order, the leading singular triples, with no bond above the limit."""
from .common import *

from . import wide

BONDS_SKIP = r"^(right|left)_canonicalise D="          # obligations that state the bond dimensions themselves
FLOOR = 60
F = "fMPS:fMPS."


def diagm(n, name="S"):
    return nd.wrap(nd._mkdiag(nd.symof(spec.tensor((n,), name, "f"))), "f")


def cut(x, *lims):
    """leading block along every axis"""
    return nd.getitem(x, tuple(slice(None) if l is None else slice(0, l) for l in lims))


def svdref(M, D):
    """leading triples of the reduced decomposition of M (reference)"""
    u, s, v = nd.svd(M, full_matrices=False)
    k = s.shape[0]
    D = k if D is None else min(D, k)
    return cut(u, None, D), cut(s, D), cut(v, D, None), D


def lsweep(A, D, upto=None):
    """reference of a left-to-right truncating sweep: list of tensors"""
    ts = [nd.wrap(nd.symof(a), "c") for a in A]
    n = len(ts) if upto is None else upto
    for m in range(n):
        d, l, r = ts[m].shape
        u, s, v, k = svdref(nd.reshape(ts[m], (d * l, r)), D)
        ts[m] = nd.reshape(u, (d, l, k))
        c = nd.wrap(tn.einsum([nd.symof(s), nd.symof(v)], [["a"], ["a", "b"]], ["a", "b"]), "c")
        if m + 1 < len(ts):
            ts[m + 1] = nd.wrap(tn.einsum([nd.symof(c), nd.symof(ts[m + 1])], [["a", "b"], ["s", "b", "r"]], ["s", "a", "r"]), "c")
    return ts


def rsweep(A, D):
    ts = [nd.wrap(nd.symof(a), "c") for a in A]
    for m in reversed(range(len(ts))):
        d, l, r = ts[m].shape
        M = nd.reshape(nd.transpose(ts[m], [1, 0, 2]), (l, d * r))
        u, s, v, k = svdref(M, D)
        ts[m] = nd.transpose(nd.reshape(v, (k, d, r)), [1, 0, 2])
        c = nd.wrap(tn.einsum([nd.symof(u), nd.symof(s)], [["a", "b"], ["b"]], ["a", "b"]), "c")
        if m > 0:
            ts[m - 1] = nd.wrap(tn.einsum([nd.symof(ts[m - 1]), nd.symof(c)], [["s", "l", "a"], ["a", "b"]], ["s", "l", "b"]), "c")
    return ts


def maxbond(m):
    return max(max(x.shape[1:]) for x in data(m))


def obligations(tier):
    it0 = I.Interp()
    obs = []
    big = tier == "thorough"
    for (d, l, k, r) in [(2, 3, 4, 4), (2, 2, 3, 5), (3, 1, 3, 2), (2, 1, 1, 3)] + ([(3, 2, 5, 4), (2, 4, 6, 3)] if big else []):
        for D in sorted(set([1, 2, k - 1, k, k + 1, k + 3])) + [None]:
            if D == 0:
                continue
            for minD in (True, False):
                def f(it, d=d, l=l, k=k, r=r, D=D, minD=minD):
                    A, S, V = spec.tensor((d, l, k), "A"), diagm(k), spec.tensor((k, r), "V")
                    o = it.mod("tensor").vars["truncate_A"](A, S, V, D, minD)
                    e = k if D is None else min(D, k)
                    w = "truncate_A(D=%s, minD=%s) k=%d" % (D, minD, k)
                    return [expect(x, y, "wrong block", w + ": factor %s is not the leading block" % n)
                            for x, y, n in zip(o, (cut(A, None, None, e), cut(S, e, e), cut(V, e, None)), "ASV")]

                def g(it, d=d, l=l, k=k, r=r, D=D, minD=minD):
                    U, S, B = spec.tensor((r, k), "U"), diagm(k), spec.tensor((d, k, l), "B")
                    o = it.mod("tensor").vars["truncate_B"](U, S, B, D, minD)
                    e = k if D is None else min(D, k)
                    w = "truncate_B(D=%s, minD=%s) k=%d" % (D, minD, k)
                    return [expect(x, y, "wrong block", w + ": factor %s is not the leading block" % n)
                            for x, y, n in zip(o, (cut(U, None, e), cut(S, e, e), cut(B, None, e, None)), "USB")]
                obs.append(Ob("truncate_A %d,%d,%d,%d D=%s minD=%s" % (d, l, k, r, D, minD), "tensor:truncate_A", f))
                obs.append(Ob("truncate_B %d,%d,%d,%d D=%s minD=%s" % (d, l, k, r, D, minD), "tensor:truncate_B", g))
    for (m, n) in [(4, 4), (3, 5), (5, 3), (2, 2), (1, 4)]:
        for D in (1, 2, 3, 4, 6):
            def f(it, m=m, n=n, D=D):
                A = spec.tensor((m, n), "M")
                u, s, v = it.mod("tensor").vars["tr_svd"](A, D)
                ru, rs, rv, k = svdref(A, D)
                w = "tr_svd of a %dx%d matrix to %d" % (m, n, D)
                out = []
                if u.shape != (m, k) or s.shape != (k, k) or v.shape != (k, n):
                    return [Fail("shared dimension", "%s returns factors of shapes %s %s %s" % (w, u.shape, s.shape, v.shape))]
                prod = tn.einsum([nd.symof(u), nd.symof(s), nd.symof(v)], [["a", "b"], ["b", "c"], ["c", "d"]], ["a", "d"])
                ref = tn.einsum([nd.symof(ru), nd.symof(rs), nd.symof(rv)], [["a", "b"], ["b"], ["b", "d"]], ["a", "d"])
                out.append(check(spec.eq(prod, ref), "product", w + ": the factors do not multiply to the leading part"))
                out.append(check(spec.eq(tn.einsum([nd.symof(u).conj(), nd.symof(u)], [["a", "b"], ["a", "c"]], ["b", "c"]), tn.eye(k)), "not isometric", w))
                out.append(check(spec.eq(tn.einsum([nd.symof(v), nd.symof(v).conj()], [["a", "b"], ["c", "b"]], ["a", "c"]), tn.eye(k)), "not isometric", w))
                return out
            obs.append(Ob("tr_svd %dx%d D=%d" % (m, n, D), "tensor:tr_svd", f))
    # two-site splits
    for d1, d2, l, r in [(2, 2, 2, 3), (2, 2, 1, 2), (2, 2, 3, 1), (3, 3, 2, 1), (3, 3, 1, 2)]:
        full = min(d1 * l, d2 * r)
        for D in sorted(set([1, 2, full, full + 1])) + [None]:
            for which in "lr":
                def f(it, d1=d1, d2=d2, l=l, r=r, D=D, which=which, full=full):
                    t = spec.tensor((d1 * d2, l, r), "T")
                    A, B = it.mod("fMPS").vars["separate_tensor_svd"](t, D, which)
                    return split_check(t, A, B, d1, d2, l, r, D, which, "separate_tensor_svd(D=%s, which=%s)" % (D, which))
                obs.append(Ob("separate_tensor_svd d=%d,%d l=%d r=%d D=%s %s" % (d1, d2, l, r, D, which), "fMPS:separate_tensor_svd", f))
    # chains
    for L, d, p in [(2, 2, [2]), (3, 2, [2, 2]), (3, 3, [3, 3]), (4, 2, [2, 3, 2]), (4, 2, [2, 4, 2])] + ([(5, 2, [2, 4, 3, 2]), (4, 3, [3, 4, 3])] if big else []):
        for D in (1, 2, 3):
            if D > max(p) + 1:
                continue
            for nm in ("left_canonicalise", "right_canonicalise"):
                for kw in ({"sweep_back": False}, {}, {"minD": False}):
                    def f(it, L=L, d=d, p=p, D=D, nm=nm, kw=kw):
                        A = spec.mps_data(L, d, p)
                        m = spec.fMPS(it, A)
                        call(it, m, nm, D, **kw)
                        w = "%s(%d%s); %s" % (nm, D, "".join(", %s=%s" % x for x in kw.items()), grid.pstr(L, d, p))
                        out = []
                        if maxbond(m) > D:
                            return [Fail("bond limit", "%s leaves a bond of dimension %d" % (w, maxbond(m)))]
                        if any(a.shape[2] != b.shape[1] for a, b in zip(data(m), data(m)[1:])):
                            return [Fail("shared dimension", w)]
                        ref = lsweep(A, D) if nm[0] == "l" else rsweep(A, D)
                        out.append(proportional(spec.state(data(m)), spec.state(ref), w + " does not keep the leading singular triples", "truncated state"))
                        rb = max(min(D, b) for b in p)
                        if m.d.get("D") is None or m.d.get("D") < rb:
                            out.append(Fail("recorded dimension", "%s records D=%s below its bonds" % (w, m.d.get("D"))))
                        return out
                    if kw and L == 4 and p[1] == 4 and not big:
                        continue
                    obs.append(Ob("%s D=%d%s %s" % (nm, D, "".join(" %s=%s" % x for x in kw.items()), grid.pstr(L, d, p)), F + nm, f))
            for oc in range(L):
                def f(it, L=L, d=d, p=p, D=D, oc=oc):
                    A = spec.mps_data(L, d, p)
                    m = spec.fMPS(it, A)
                    call(it, m, "mixed_canonicalise", oc, D)
                    w = "mixed_canonicalise(%d, %d); %s" % (oc, D, grid.pstr(L, d, p))
                    if maxbond(m) > D:
                        return [Fail("bond limit", "%s leaves a bond of dimension %d" % (w, maxbond(m)))]
                    return [proportional(spec.state(data(m)), spec.state(rsweep(A, D)), w + " does not keep the leading singular triples", "truncated state")]
                if L <= 3 or big:
                    obs.append(Ob("mixed_canonicalise oc=%d D=%d %s" % (oc, D, grid.pstr(L, d, p)), F + "mixed_canonicalise", f))
    # truncation of a state that already is in some gauge
    for L, d, p, D in [(3, 2, [2, 2], 1), (3, 3, [3, 3], 2), (2, 3, [3], 2)]:
        for hname, h in (histories(L) if d == 2 else gauges(L, 1)[1:]):
            for nm, args in (("left_canonicalise", ()), ("right_canonicalise", ()), ("mixed_canonicalise", (1,))):
                def f(it, L=L, d=d, p=p, D=D, h=h, hname=hname, nm=nm, args=args):
                    m = spec.fMPS(it, spec.mps_data(L, d, p))
                    A = prepared(it, m, h)
                    call(it, m, nm, *(args + (D,)))
                    w = "%s(D=%d) after %s; %s" % (nm, D, hname, grid.pstr(L, d, p))
                    if maxbond(m) > D:
                        return [Fail("bond limit", "%s leaves a bond of dimension %d" % (w, maxbond(m)))]
                    ref = lsweep(A, D) if nm[0] == "l" else rsweep(A, D)
                    return [proportional(spec.state(data(m)), spec.state(ref), w + " does not keep the leading singular triples", "truncated state")]
                obs.append(Ob("%s D=%d L=%d d=%d after %s" % (nm, D, L, d, hname), F + nm, f))
    # truncating gates
    for L, sites in [(2, (0, 1)), (3, (0, 1)), (3, (1, 2)), (4, (1, 2))]:
        for D in (1, 2):
            for which in "lr":
                def f(it, L=L, sites=sites, D=D, which=which):
                    A = spec.mps_data(L, 2, [2] * (L - 1))
                    m = spec.fMPS(it, A)
                    U = spec.tensor((4, 4), "U")
                    r = call(it, m, "apply_two_site", (U, sites), which, D)
                    i, j = sites
                    th = tn.einsum([tn.reshape(nd.symof(U), (2, 2, 2, 2)), nd.symof(A[i]), nd.symof(A[j])],
                                   [["p", "q", "s", "t"], ["s", "l", "m"], ["t", "m", "r"]], ["p", "q", "l", "r"])
                    t = nd.wrap(tn.reshape(th, (4,) + th.shape[2:]), "c")
                    X, Y = data(r)[i], data(r)[j]
                    out = split_check(t, X, Y, 2, 2, th.shape[2], th.shape[3], D, which, "apply_two_site(%s, D=%d, which=%s) L=%d" % (sites, D, which, L))
                    for n in range(L):
                        if n not in sites:
                            out.append(check(spec.eq(data(r)[n], A[n]), "other sites", "apply_two_site changes site %d" % n))
                    return out
                obs.append(Ob("apply_two_site D=%d %s L=%d sites=%s" % (D, which, L, sites), F + "apply_two_site", f))

    def w_trunc(it, m, A, L, d, p):
        out = []
        for D in sorted({1, max(1, max(p) - 1), max(p)}):
            for nm, args in (("left_canonicalise", ()), ("right_canonicalise", ()), ("mixed_canonicalise", (L // 2,))):
                a = spec.fMPS(it, A)
                call(it, a, nm, *(args + (D,)))
                w = "%s(D=%d); %s" % (nm, D, grid.pstr(L, d, p))
                if maxbond(a) > D:
                    out.append(Fail("bond limit", "%s leaves a bond of dimension %d" % (w, maxbond(a))))
                out.append(proportional(spec.state(data(a)), spec.state(lsweep(A, D) if nm[0] == "l" else rsweep(A, D)), w + " does not keep the leading singular triples", "truncated state"))
        return out
    wide.run(obs, wide.sizes(tier, "left_canonicalise", "right_canonicalise", "mixed_canonicalise"), "right_canonicalise", "truncation", w_trunc, lambda L, d, p: d > 1)
    return obs


def split_check(t, A, B, d1, d2, l, r, D, which, w):
    full = min(d1 * l, d2 * r)
    k = full if D is None else min(D, full)
    if A.shape != (d1, l, k) or B.shape != (d2, k, r):
        return [Fail("shared dimension", "%s returns shapes %s %s, expected shared dimension %d" % (w, A.shape, B.shape, k))]
    M = nd.wrap(tn.reshape(tn.transpose(tn.reshape(nd.symof(t), (d1, d2, l, r)), [0, 2, 1, 3]), (d1 * l, d2 * r)), "c")
    u, s, v, kk = svdref(M, k)
    ref = tn.einsum([nd.symof(u), nd.symof(s), nd.symof(v)], [["a", "b"], ["b"], ["b", "d"]], ["a", "d"])
    AB = tn.einsum([nd.symof(A), nd.symof(B)], [["s", "l", "m"], ["t", "m", "r"]], ["s", "l", "t", "r"])
    AB = tn.reshape(AB, (d1 * l, d2 * r))
    out = [proportional(AB, ref, w + ": the pair is not the leading part of the decomposition", "product")]
    iso = is_left(A) if which == "l" else is_right(B)
    out.append(check(iso, "not isometric", "%s: the requested side is not isometric" % w))
    return out
