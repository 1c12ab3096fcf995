"""Canonical forms of uniform infinite states: for a generic tensor (its transfer eigenpair an uninterpreted function of the
transfer matrix) the tensors extracted from canonicalise are isometric on the named side, the recorded Schmidt matrix is the
square root of the other environment, and every closed word of tensors keeps its value up to the leading eigenvalue (same
state).  A lint over the whole library rejects identity comparisons with literals, which make the recognised gauge depend on
the spelling."""
import ast, os
from .common import *
from .c03 import cls, transfer, fixed, w, M
from ..models import arnoldi

FLOOR = 20


def words(A, n):
    """tensor of closed words tr(A_s1 .. A_sn)"""
    labs = [[("s", i), ("b", i), ("b", (i + 1) % n)] for i in range(n)]
    return tn.einsum([nd.symof(A)] * n, labs, [("s", i) for i in range(n)])


def same_state(B, A, lam, what, D):
    """tr of words of B squared times lam^n equals that of A: compare tr_w(B) (x) conj with lam^n"""
    out = []
    for n in (1, 2, 3)[:D + 1]:
        a, b = words(A, n), words(B, n)
        x, y = tn.outer(a, a.conj()), tn.outer(b, b.conj())
        for _ in range(n):
            y = smul(nd.symof(lam), y)
        out.append(check(spec.eq(x, y), "state differs", "%s: closed words of length %d are not those of the input" % (what, n)))
    return out


def sq(L):
    return spec.einsum("ab,bc->ac", L, L)


def env_left(A, X):
    return spec.einsum("xy,sxa,syb->ab", X, nd.conj(A), A)


def env_right(A, X):
    return spec.einsum("sax,xy,sby->ab", A, X, nd.conj(A))


def gauge_checks(B, L, hand, what):
    D = L.shape[0]
    one = w(tn.eye(D))
    out = []
    l, r = {"l": (one, w(sq(L))), "r": (w(sq(L)), one), "m": (L, L)}[hand]
    out.append(check(spec.eq(env_left(B, l), l), "left environment", "%s: the left environment promised by %r is not fixed" % (what, hand)))
    out.append(check(spec.eq(env_right(B, r), r), "right environment", "%s: the right environment promised by %r is not fixed" % (what, hand)))
    out.append(check(spec.eq(spec.einsum("ab,ab->", L, L), tn.scalar(1)), "Schmidt norm", "%s: the Schmidt matrix is not normalised" % what))
    out.append(check(spec.eq(L, nd.diag(nd.diag(L))), "Schmidt form", "%s: the Schmidt matrix is not diagonal" % what))
    return out


def obligations(tier):
    obs = []
    big = tier != "quick"
    grid_ = [(2, 2), (3, 2), (2, 3)] + ([(3, 3), (4, 2)] if big else []) + [x for v in grid.more(["iMPS:iMPS.canonicalise", "iMPS:iMPS.left_canonicalise", "iMPS:iMPS.mixed", "iMPS:ivMPS.canonicalise", "iMPS:vMPS.to_iMPS"], ("iMPS", "tensor", "ncon", "fMPS")) for x in ((2, v), (v, 2))]
    for d, D in grid_:
        wh = "d=%d D=%d" % (d, D)
        for hand in "lrm":
            for spell in (0, 1):
                if spell and (d, D) != (2, 2):
                    continue

                def f(it, d=d, D=D, hand=hand, spell=spell, wh=wh):
                    A = spec.tensor((d, D, D), "A")
                    lam, l, r = fixed(A)
                    m = cls(it)([A])
                    m2 = call(it, m, "canonicalise", hand)
                    B, L = data(m2)[0], m2.d["L"]
                    what = "canonicalise(%r) %s" % (hand, wh)
                    return gauge_checks(B, L, hand, what) + same_state(B, A, lam, what, D) + [
                        None if m2.d.get("canonical") == hand else Fail("flag", "%s records canonical=%r" % (what, m2.d.get("canonical")))]
                if not spell:
                    obs.append(Ob("canonicalise %s %s" % (hand, wh), M + "canonicalise", f))
        # a second canonicalisation, of the tensor the first left or of a new one, is that of the tensor it finds
        for h1 in "lrm" if (d, D) == (2, 2) else ():
            for h2 in "lrmv":
                for new in (False, True):
                    def f(it, d=d, D=D, h1=h1, h2=h2, new=new, wh=wh):
                        m = cls(it)([spec.tensor((d, D, D), "A")])
                        m = call(it, m, "canonicalise", h1)
                        if new:
                            it.setitem(m, 0, spec.tensor((d, D, D), "N"))
                        A = data(m)[0]
                        lam, l, r = fixed(A)
                        what = "canonicalise(%r) after canonicalise(%r)%s" % (h2, h1, " and a new tensor" if new else "")
                        if h2 == "v":
                            G, L = data(call(it, m, "canonicalise", to_vidal=True))[0]
                            B = w(spec.einsum("ab,sbc->sac", L, G))
                            return gauge_checks(B, L, "l", what) + same_state(B, A, lam, what, 1)
                        m2 = call(it, m, "canonicalise", h2)
                        return gauge_checks(data(m2)[0], m2.d["L"], h2, what) + same_state(data(m2)[0], A, lam, what, 1)
                    obs.append(Ob("canonicalise %s then %s%s" % (h1, h2, " new" if new else ""), M + "canonicalise", f))
        for nm, hand in (("left_canonicalise", "l"), ("right_canonicalise", "r")):
            def f(it, d=d, D=D, hand=hand, nm=nm, wh=wh):
                A = spec.tensor((d, D, D), "A")
                m2 = call(it, cls(it)([A]), nm)
                return gauge_checks(data(m2)[0], m2.d["L"], hand, "%s %s" % (nm, wh))
            obs.append(Ob("%s %s" % (nm, wh), M + nm, f))

        def f(it, d=d, D=D, wh=wh):
            A = spec.tensor((d, D, D), "A")
            lam, l, r = fixed(A)
            v = call(it, cls(it)([A]), "canonicalise", to_vidal=True)
            G, L = data(v)[0]
            what = "canonicalise(to_vidal=True) %s" % wh
            return gauge_checks(w(spec.einsum("ab,sbc->sac", L, G)), L, "l", what + " ΛΓ") + gauge_checks(w(spec.einsum("sab,bc->sac", G, L)), L, "r", what + " ΓΛ") + \
                same_state(w(spec.einsum("ab,sbc->sac", L, G)), A, lam, what, D)
        obs.append(Ob("to vidal %s" % wh, M + "canonicalise", f))

        def f(it, d=d, D=D, wh=wh):
            G, L = spec.tensor((d, D, D), "G"), schm(D)
            A = w(spec.einsum("sab,bc->sac", G, L))
            lam, l, r = fixed(A)
            v = call(it, cls(it, "ivMPS")([(G, L)]), "canonicalise")
            G2, L2 = data(v)[0]
            what = "ivMPS.canonicalise %s" % wh
            return gauge_checks(w(spec.einsum("ab,sbc->sac", L2, G2)), L2, "l", what + " ΛΓ") + gauge_checks(w(spec.einsum("sab,bc->sac", G2, L2)), L2, "r", what + " ΓΛ") + \
                same_state(w(spec.einsum("ab,sbc->sac", L2, G2)), A, lam, what, D)
        obs.append(Ob("ivMPS canonicalise %s" % wh, "iMPS:ivMPS.canonicalise", f))

        def f(it, d=d, D=D, wh=wh):
            G, L = spec.tensor((d, D, D), "G"), schm(D)
            m = call(it, cls(it, "ivMPS")([(G, L)]), "to_iMPS")
            return [expect(data(m)[0], spec.einsum("sab,bc->sac", G, L), "value differs", "to_iMPS is not ΓΛ; " + wh)]
        obs.append(Ob("to_iMPS %s" % wh, "iMPS:ivMPS.to_iMPS", f))

        def f(it, d=d, D=D, wh=wh):
            G, L, x = spec.tensor((d, D, D), "G"), nd.diag(spec.tensor((D,), "L", kind="f")), spec.tensor((D, D), "x")
            v = cls(it, "ivMPS")([(G, L)])
            t = call(it, v, "transfer_matrix")
            A = nd.wrap(spec.einsum("sab,bc->sac", G, L), "c")
            if tuple(t.shape) != (D,) * 4:
                return [Fail("transfer", "the transfer matrix of a Vidal state has shape %s; %s" % (tuple(t.shape), wh))]
            return [expect(nd.wrap(spec.einsum("abcd,bd->ac", t, x), "c"), spec.einsum("sab,bd,scd->ac", A, x, nd.conj(A)), "transfer", "the transfer matrix of a Vidal state is not that of its uniform tensor; " + wh)]
        obs.append(Ob("ivMPS transfer %s" % wh, "iMPS:ivMPS.transfer_matrix", f))

        def f(it, d=d, D=D, wh=wh):
            A = spec.tensor((d, D, D), "A")
            eta, l, r = call(it, cls(it)([A]), "eigs")
            lam, l0, r0 = fixed(A)
            out = [expect(nd.reshape(eta, ()), lam, "eigenvalue", "eigs does not return the leading eigenvalue; " + wh)]
            out.append(check(spec.eq(env_right(A, r), smul(nd.symof(lam), nd.symof(r))), "right eigenvector", "eigs: r is not a right eigenvector; " + wh))
            # l is indexed (bra, ket)
            out.append(check(spec.eq(env_left(A, l), smul(nd.symof(lam), nd.symof(l))), "left eigenvector", "eigs: l is not a left eigenvector; " + wh))
            out.append(check(spec.eq(spec.einsum("ab,ba->", l, r), tn.scalar(1)), "normalisation", "eigs: tr(l r) is not one; " + wh))
            return out
        obs.append(Ob("eigs %s" % wh, M + "eigs", f))
        def f(it, d=d, D=D, wh=wh):
            A, B = spec.tensor((d, D, D), "A"), spec.tensor((d, D, D), "B")
            r = call(it, cls(it)([A]), "overlap", cls(it)([B]))
            (e1, _, _), (e2, _, _) = fixed(A), fixed(B)
            e12, _ = arnoldi(w(transfer(A, B)), 1)
            e12 = nd.reshape(e12, ())
            # <A|B> per site: |leading eigenvalue of the mixed transfer map|^2 over both norms
            lhs = tn.outer(nd.symof(nd.reshape(r, ())), tn.outer(nd.symof(e1), nd.symof(e2)))
            return [check(spec.eq(lhs, tn.outer(nd.symof(e12), nd.symof(e12).conj())), "value differs", "overlap is not the squared fidelity per site; " + wh)]
        obs.append(Ob("overlap %s" % wh, M + "overlap", f))
        for side in "lr":
            def f(it, d=d, D=D, side=side, wh=wh):
                A, X0 = spec.tensor((d, D, D), "A"), spec.tensor((D, D), "X0")
                m = cls(it)([A])
                B, X, lam = call(it, m, "_%smixed" % side, 1e-10, X0)
                what = "_%smixed %s" % (side, wh)
                out = [check(is_left(B) if side == "l" else is_right(B), "not isometric", what)]
                out.append(check(spec.eq(spec.einsum("ab,ab->", X, nd.conj(X)), tn.scalar(1)), "normalisation", what + ": the gauge matrix has not unit norm"))
                if it.path.taken == [False]:
                    # converged after one sweep: gauge matrix absorbed into A equals isometry times new gauge matrix
                    n0 = nd.symof(nd.norm(X0)) if hasattr(nd, "norm") else nd.symof(it.mod("iMPS").vars["norm"](X0))
                    if side == "l":
                        lhs, rhs = spec.einsum("ab,sbc->sac", X0, A), spec.einsum("sab,bc->sac", B, X)
                    else:
                        lhs, rhs = spec.einsum("sab,bc->sac", A, X0), spec.einsum("ab,sbc->sac", X, B)
                    out.append(check(spec.eq(lhs, smul(n0, smul(nd.symof(lam), rhs))), "sweep", what + ": the sweep is not a decomposition of the tensor it was given"))
                return out
            obs.append(Ob("_%smixed %s" % (side, wh), M + "_%smixed" % side, f, maxpaths=4))

        def f(it, d=d, D=D, wh=wh):
            A = spec.tensor((d, D, D), "A")
            AL, AR, C = call(it, cls(it)([A]), "mixed")
            return [check(is_left(data(AL)[0]), "not isometric", "mixed: the left tensor; " + wh), check(is_right(data(AR)[0]), "not isometric", "mixed: the right tensor; " + wh)]
        obs.append(Ob("mixed %s" % wh, M + "mixed", f, maxpaths=40))
    return obs


def schm(D):
    return nd.diag(spec.tensor((D,), "s", "f"))
