"""Expectation-value rule: the value extracted from every entry point is (the real part of)
sum conj(psi[..s..]) O[s,t] psi[..t..] divided by <psi|psi> where the entry point brings the state into
a normalised gauge first.  The operator is a generic (non-Hermitian) matrix, so a transposed or
conjugated operator, a missing conjugate or a wrong site separates from the reference."""
import itertools
import numpy as np
from .. import nd, tn, spec, grid, interp as I
from ..rule import Ob, Fail, check, expect
from .common import gauges, chain, histories, prepared, call

from . import wide

BONDS = ("first", "last")
FLOOR = 40


def sandwich(st, op, sites, d):
    """<psi| op |psi> with op rows on the bra; op of shape (d,)*2k in order (bra legs, ket legs)"""
    L = len(st.shape)
    k = len(sites)
    ket = [("k" if i in sites else "s", i) for i in range(L)]
    bra = [("b" if i in sites else "s", i) for i in range(L)]
    lab = [("b", s) for s in sites] + [("k", s) for s in sites]
    o = tn.reshape(nd.symof(op), (d,) * (2 * k))
    return tn.einsum([st.conj(), o, st], [bra, lab, ket], [])


def norm2(st):
    l = list(range(len(st.shape)))
    return tn.einsum([st, st.conj()], [l, l], [])


def re(v):
    return nd.real(nd.wrap(nd.symof(v), "c"))


def ratio(st, op, sites, d):
    return re(nd.div(nd.wrap(sandwich(st, op, sites, d), "c"), nd.wrap(norm2(st), "c")))


def kron(ops, d):
    k = len(ops)
    o = tn.einsum([nd.symof(x) for x in ops], [[("b", i), ("k", i)] for i in range(k)], [("b", i) for i in range(k)] + [("k", i) for i in range(k)])
    return nd.wrap(tn.reshape(o, (d ** k, d ** k)), "c")


def obligations(tier):
    it0 = I.Interp()
    obs = []
    E = "fMPS:fMPS."
    base = [(2, 2), (3, 2), (3, 3), (4, 2)] if tier == "quick" else [(2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (5, 2), (4, 3)]
    ext = [(L, 2) for L in grid.lengths(it0, E + "E", (2, 3), 7) if (L, 2) not in base]
    for L, d in base + ext:
        p = grid.profiles(L, d)[0]
        for site in range(L):
            hist = gauges(L, site) if (L, d) in ((3, 2), (4, 2)) or tier == "thorough" else gauges(L, site)[:3]
            if (L, d) in ext:
                hist = hist[:1]
            for hname, h in hist:
                def f(it, L=L, d=d, p=p, site=site, h=h):
                    A = spec.mps_data(L, d, p)
                    a = chain(it, *h)(spec.fMPS(it, A))
                    op = spec.tensor((d, d), "O")
                    r = it.getattr(a, "E")(op, site)
                    return [expect(r, ratio(spec.state(A), op, [site], d), "value differs", "E(op, site) is not Re<psi|op|psi> at site %d; %s" % (site, grid.pstr(L, d, p)))]
                obs.append(Ob("E %s site=%d after %s" % (grid.pstr(L, d, p), site, hname), E + "E", f))
            for nm in ("E_", "Es"):
                def f(it, L=L, d=d, p=p, site=site, nm=nm):
                    A = spec.mps_data(L, d, p)
                    a = spec.fMPS(it, A)
                    ops = [spec.tensor((d, d), "O"), spec.tensor((d, d), "Q")]
                    st = spec.state(A)
                    if nm == "E_":
                        r = it.getattr(a, nm)(ops[0], site)
                        return [expect(r, ratio(st, ops[0], [site], d), "value differs", "E_(op, site) is not Re<psi|op|psi>; site %d %s" % (site, grid.pstr(L, d, p)))]
                    r = it.getattr(a, nm)(ops, site)
                    ref = nd.stack([ratio(st, o, [site], d) for o in ops])
                    return [expect(r, ref, "value differs", "Es(ops, site) is not Re<psi|op|psi>; site %d %s" % (site, grid.pstr(L, d, p)))]
                obs.append(Ob("%s %s site=%d" % (nm, grid.pstr(L, d, p), site), E + nm, f))
        # several sites
        for k in (1, 2, 3):
            for s0 in range(L - k + 1):
                sites = list(range(s0, s0 + k))
                for hname, h in (gauges(L, s0)[:1] + (gauges(L, s0)[1:4] if (L, d) == (4, 2) else [])):
                    def f(it, L=L, d=d, p=p, sites=sites, h=h):
                        A = spec.mps_data(L, d, p)
                        a = chain(it, *h)(spec.fMPS(it, A))
                        k = len(sites)
                        op = spec.tensor((d ** k, d ** k), "O")
                        st = spec.state(A)
                        r = it.getattr(a, "E_k")(op, sites)
                        return [expect(r, ratio(st, op, sites, d), "value differs", "E_k(op, %s) is not Re<psi|op|psi>; %s" % (sites, grid.pstr(L, d, p)))]

                    def g(it, L=L, d=d, p=p, sites=sites, h=h):
                        A = spec.mps_data(L, d, p)
                        a = chain(it, *h)(spec.fMPS(it, A))
                        ops = [spec.tensor((d, d), "O") for _ in sites]
                        st = spec.state(A)
                        r = it.getattr(a, "E_k")(list(ops), sites, True)
                        return [expect(r, ratio(st, kron(ops, d), sites, d), "value differs", "E_k(ops, %s, single_string) is not Re<psi|op x op'|psi>; %s" % (sites, grid.pstr(L, d, p)))]
                    if d ** k <= 9:
                        obs.append(Ob("E_k %s sites=%s after %s" % (grid.pstr(L, d, p), sites, hname), E + "E_k", f))
                        obs.append(Ob("E_k string %s sites=%s after %s" % (grid.pstr(L, d, p), sites, hname), E + "E_k", g))
        if d ** L <= 27:
            def f(it, L=L, d=d, p=p):
                A = spec.mps_data(L, d, p)
                a = spec.fMPS(it, A)
                op = spec.tensor((d ** L, d ** L), "O")
                st = spec.state(A)
                r = it.getattr(a, "E_L")(op)
                return [expect(r, re(sandwich(st, op, list(range(L)), d)), "value differs", "E_L(op) is not Re<psi|op|psi>; " + grid.pstr(L, d, p))]
            obs.append(Ob("E_L %s" % grid.pstr(L, d, p), E + "E_L", f))
    for L in (2, 3):
        for hname, h in histories(L):
            for nm, sites in [("E", [i]) for i in range(L)] + [("E_", [i]) for i in range(L)] + [("Es", [i]) for i in range(L)] \
                    + [(x, list(range(i, i + k))) for x in ("E_k", "string") for k in (1, 2) for i in range(L - k + 1)] + [("E_L", list(range(L)))]:
                def f(it, L=L, h=h, hname=hname, nm=nm, sites=sites):
                    m = spec.fMPS(it, spec.mps_data(L, 2, [2] * (L - 1)))
                    st = spec.state(prepared(it, m, h))
                    n = 2 ** len(sites)
                    op = spec.tensor((n, n), "O")
                    g = it.getattr(m, "E_k" if nm == "string" else nm)
                    w = "%s on %s after %s, L=%d" % (nm, sites, hname, L)
                    if nm in ("E", "E_"):
                        return [expect(g(op, sites[0]), ratio(st, op, sites, 2), "value differs", w)]
                    if nm == "Es":
                        ops = [op, spec.tensor((2, 2), "Q")]
                        return [expect(g(ops, sites[0]), nd.stack([ratio(st, o, sites, 2) for o in ops]), "value differs", w)]
                    if nm == "string":
                        ops = [spec.tensor((2, 2), "O%d" % i) for i in sites]
                        return [expect(g(list(ops), sites, True), ratio(st, kron(ops, 2), sites, 2), "value differs", w)]
                    if nm == "E_L":
                        return [expect(g(op), re(sandwich(st, op, sites, 2)), "value differs", w)]
                    return [expect(g(op, sites), ratio(st, op, sites, 2), "value differs", w)]
                obs.append(Ob("%s %s L=%d after %s" % (nm, sites, L, hname), E + ("E_k" if nm == "string" else nm), f))

    def w_E(it, m, A, L, d, p):
        st, w, out = spec.state(A), grid.pstr(L, d, p), []
        for s in sorted({0, L // 2, L - 1}):
            for g in (None, "left_canonicalise", "right_canonicalise"):
                a = spec.fMPS(it, A)
                if g:
                    call(it, a, g)
                op = spec.tensor((d, d), "O")
                ref = ratio(st, op, [s], d)
                out += [expect(call(it, a, nm, op, s), ref, "value differs", "%s(op, %d) after %s; %s" % (nm, s, g, w)) for nm in ("E", "E_")]
                out.append(expect(nd.getitem(call(it, a, "Es", [op], s), 0), ref, "value differs", "Es; " + w))
        return out
    wide.run(obs, wide.sizes(tier, "E", "E_", "Es"), "E", "E", w_E)

    def w_Ek(it, m, A, L, d, p):
        st, w, out = spec.state(A), grid.pstr(L, d, p), []
        for k in (1, 2):
            for s in sorted({0, (L - k) // 2, L - k}):
                sites = list(range(s, s + k))
                ops = [spec.tensor((d, d), "O%d" % i) for i in sites]
                out.append(expect(call(it, spec.fMPS(it, A), "E_k", list(ops), sites, True), ratio(st, kron(ops, d), sites, d), "value differs", "E_k string on %s; %s" % (sites, w)))
                if d ** k <= 16:
                    op = spec.tensor((d ** k, d ** k), "O")
                    out.append(expect(call(it, spec.fMPS(it, A), "E_k", op, sites), ratio(st, op, sites, d), "value differs", "E_k on %s; %s" % (sites, w)))
        return out
    wide.run(obs, wide.sizes(tier, "E_k"), "E_k", "E_k", w_Ek)
    # sites may be numpy integers, and come as any sequence
    kinds = [("tuple", tuple), ("range", lambda x: range(x[0], x[-1] + 1)), ("array", lambda x: nd.wrap(np.array(x))), ("numpy integers", lambda x: [np.int64(i) for i in x])]
    for L in (2, 3):
        for s in range(L):
            def f(it, L=L, s=s):
                A = spec.mps_data(L, 2, [2] * (L - 1))
                op, out = spec.tensor((2, 2), "O"), []
                for nm in ("E", "E_"):
                    out.append(expect(call(it, spec.fMPS(it, A), nm, op, np.int64(s)), ratio(spec.state(A), op, [s], 2), "value differs", "%s(op, numpy integer %d), L=%d" % (nm, s, L)))
                return out
            obs.append(Ob("E numpy site %d L=%d" % (s, L), E + "E", f))
            for k in range(1, L - s + 1):
                for kn, kf in kinds:
                    def f(it, L=L, sites=list(range(s, s + k)), kf=kf, kn=kn):
                        A = spec.mps_data(L, 2, [2] * (L - 1))
                        n = 2 ** len(sites)
                        op, ops = spec.tensor((n, n), "O"), [spec.tensor((2, 2), "O%d" % i) for i in sites]
                        w = "%s given as %s, L=%d" % (sites, kn, L)
                        return [expect(call(it, spec.fMPS(it, A), "E_k", op, kf(sites)), ratio(spec.state(A), op, sites, 2), "value differs", "E_k on " + w),
                                expect(call(it, spec.fMPS(it, A), "E_k", list(ops), kf(sites), True), ratio(spec.state(A), kron(ops, 2), sites, 2), "value differs", "E_k string on " + w)]
                    obs.append(Ob("E_k sites %s as %s L=%d" % (list(range(s, s + k)), kn, L), E + "E_k", f))
    return obs
