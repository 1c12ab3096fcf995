"""Overlap rule: the contraction extracted from each inner-product entry point must equal the full
contraction of the two state vectors (receiver unconjugated, argument conjugated; reversed for the
full-vector overlap), for generic tensors, every chain of the structural grid."""
import numpy as np
from .. import nd, tn, spec, grid, interp as I
from ..rule import Ob, Fail, check, expect
from .common import histories, prepared, call

ASSUMPTIONS = []
LAB = "abcdefghijklmnop"


def inner(ket, bra):
    """sum ket * conj(bra) over all physical indices"""
    k, b = spec.state(ket), spec.state(bra)
    lab = list(range(len(k.shape)))
    return tn.einsum([k, b.conj()], [lab, lab], [])


def obligations(tier):
    it0 = I.Interp()
    obs = []

    def add(name, entry, fn, **k):
        obs.append(Ob(name, entry, fn, **k))
    Ls = grid.lengths(it0, "fMPS:fMPS.overlap", (1, 2, 3, 4), 9)
    for L in Ls:
        for d in ((2, 3) if L <= 4 else (2,)):
            ex = [v for v in grid.values(it0, "fMPS:fMPS.overlap", (), 8, lo=3)]
            for p in grid.profiles(L, d, ex):
                q = [x + 1 for x in p]

                def f(it, L=L, d=d, p=p, q=q):
                    A, Bd = spec.mps_data(L, d, p), spec.mps_data(L, d, q, "B")
                    a, b = spec.fMPS(it, A), spec.fMPS(it, Bd)
                    r = it.getattr(a, "overlap")(b)
                    ref = inner(A, Bd)
                    out = [expect(r, ref, "value differs", "overlap(a,b) is not the contraction of a with conj(b); " + grid.pstr(L, d, p))]
                    r2 = it.getattr(b, "overlap")(a)
                    out.append(expect(r2, ref.conj(), "not conjugate symmetric", "overlap(b,a) is not the conjugate of overlap(a,b); " + grid.pstr(L, d, p)))
                    return out
                add("overlap %s" % grid.pstr(L, d, p), "fMPS:fMPS.overlap", f)

                def g(it, L=L, d=d, p=p):
                    A = spec.mps_data(L, d, p)
                    a = spec.fMPS(it, A)
                    return [expect(it.getattr(a, "norm")(), inner(A, A), "value differs", "norm() is not the self-overlap; " + grid.pstr(L, d, p))]
                add("norm %s" % grid.pstr(L, d, p), "fMPS:fMPS.norm", g)

                if L >= 2:
                    def h(it, L=L, d=d, p=p, q=q):
                        A, Bd = spec.mps_data(L, d, p), spec.mps_data(L, d, q, "B")
                        a, b = spec.fMPS(it, A), spec.fMPS(it, Bd)
                        r = it.getattr(a, "full_overlap")(b)
                        return [expect(r, inner(Bd, A), "value differs", "full_overlap(a,b) is not conj(a).b; " + grid.pstr(L, d, p))]
                    add("full_overlap %s" % grid.pstr(L, d, p), "fMPS:fMPS.full_overlap", h)

            def pr(it, L=L, d=d):
                A = spec.mps_data(L, d, grid.profiles(L, d)[0])
                a = spec.fMPS(it, A)
                V = spec.tensor((L, d), "v")
                r = it.getattr(a, "product_state_overlap")(V)
                rows = [nd.reshape(nd.getitem(V, i), (d, 1, 1)) for i in range(L)]
                return [expect(r, inner(A, rows), "value differs", "product_state_overlap is not the overlap with the product state")]
            add("product_state_overlap L=%d d=%d" % (L, d), "fMPS:fMPS.product_state_overlap", pr)

    for L in (2, 3):
        for hname, hist in histories(L):
            def f(it, L=L, hist=hist, hname=hname):
                a = spec.fMPS(it, spec.mps_data(L, 2, [2] * (L - 1)))
                A = prepared(it, a, hist)
                Bd = spec.mps_data(L, 2, [2] * (L - 1), "B")
                b = spec.fMPS(it, Bd)
                rows = spec.tensor((L, 2), "v")
                P = [nd.reshape(nd.getitem(rows, i), (2, 1, 1)) for i in range(L)]
                return [expect(call(it, x, nm, *y), ref, "value differs", "%s after %s, L=%d" % (nm, hname, L)) for x, nm, y, ref in
                        [(a, "overlap", (b,), inner(A, Bd)), (b, "overlap", (a,), inner(Bd, A)), (a, "norm", (), inner(A, A)), (a, "full_overlap", (b,), inner(Bd, A)),
                         (b, "full_overlap", (a,), inner(A, Bd)), (a, "product_state_overlap", (rows,), inner(A, P))]]
            add("overlaps L=%d after %s" % (L, hname), "fMPS:fMPS.overlap", f)

    def uneq(it):
        a, b = spec.fMPS(it, spec.mps_data(3, 2)), spec.fMPS(it, spec.mps_data(4, 2))
        try:
            it.getattr(a, "overlap")(b)
        except nd.Raise:
            return []
        return [Fail("accepted", "overlap of chains of different length does not fail")]
    add("overlap of different lengths", "fMPS:fMPS.overlap", uneq)

    def w_overlap(it, m, A, L, d, p):
        B = spec.mps_data(L, d, [2] * (L - 1), "B")
        b = spec.fMPS(it, B)
        w = grid.pstr(L, d, p)
        out = [expect(call(it, m, "overlap", b), inner(A, B), "value differs", "overlap; " + w), expect(call(it, b, "overlap", m), inner(B, A), "value differs", "overlap; " + w),
               expect(call(it, m, "norm"), inner(A, A), "value differs", "norm; " + w)]
        if d ** L <= 2 ** 12:
            out.append(expect(call(it, m, "full_overlap", b), inner(B, A), "value differs", "full_overlap; " + w))
        return out
    wide.run(obs, wide.sizes(tier, "overlap", "norm", "full_overlap", "product_state_overlap"), "overlap", "overlaps", w_overlap)
    return obs


from . import wide

FLOOR = 20
