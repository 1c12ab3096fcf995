"""Infinite-chain expectation values: the contraction extracted from E, Es and energy of iMPS / ivMPS equals the sandwich
of a generic (non-Hermitian) operator, rows on the bra, between the environments of the requested gauge.  For a stated
gauge the environments are the identity and the squared Schmidt matrix; without one they are the leading eigenvectors of
the transfer matrix of a generic tensor, whose eigenpair is an uninterpreted function of that matrix."""
from .common import *
from ..models import arnoldi

FLOOR = 30
M = "iMPS:iMPS."


def cls(it, n="iMPS"):
    return it.mod("iMPS").vars[n]


def schmidt(D):
    """a generic real diagonal matrix"""
    v = spec.tensor((D,), "s", "f")
    return nd.diag(v)


def w(x):
    return nd.wrap(nd.symof(x), "c")


def transfer(A, B=None):
    """E[(a a'), (b b')] = sum_s A_s[a,b] conj(B_s)[a',b']"""
    B = A if B is None else B
    return tn.reshape(tn.einsum([nd.symof(A), nd.symof(B).conj()], [["s", "a", "b"], ["s", "x", "y"]], ["a", "x", "b", "y"]),
                      (A.shape[1] * B.shape[1], A.shape[2] * B.shape[2]))


def fixed(A):
    """(eigenvalue, left, right) leading eigenpair of the transfer matrix; both environments indexed (ket, bra)"""
    E = transfer(A)
    D = A.shape[1]
    if D == 1:
        return nd.reshape(w(E), ()), nd.ones((1, 1)), nd.ones((1, 1))
    lam, v = arnoldi(w(E), 1)
    _, u = arnoldi(w(tn.transpose(E, (1, 0))), 1)
    return nd.reshape(lam, ()), nd.reshape(u, (D, D)), nd.reshape(v, (D, D))


def onesite(A, O, l, r):
    """sum conj(A_s)[x,y] O[s,t] A_t[a,b] l[a,x] r[b,y]"""
    return spec.einsum("ax,tab,sxy,st,by->", l, A, nd.conj(A), O, r)


def expectation(A, O):
    lam, l, r = fixed(A)
    return nd.div(w(onesite(A, O, l, r)), w(smul(nd.symof(lam), spec.einsum("ax,ax->", l, r))))


def twosite(A, h, d):
    """Re <h> per site of the uniform state"""
    lam, l, r = fixed(A)
    H = nd.reshape(h, (d, d, d, d))
    n = spec.einsum("ax,sab,tbc,xpi,yij,pyst->cj".replace("xpi", "pxi").replace("yij", "yij"), l, A, A, nd.conj(A), nd.conj(A), H)
    num = spec.einsum("cj,cj->", n, r)
    den = smul(nd.symof(lam), smul(nd.symof(lam), spec.einsum("ax,ax->", l, r)))
    return nd.real(nd.div(w(num), w(den)))


def obligations(tier):
    obs = []
    big = tier != "quick"
    for d, D in [(2, 1), (2, 2), (3, 2), (2, 3), (3, 3)] + ([(4, 2), (2, 4), (4, 4)] if big else []) + [x for v in grid.more(["iMPS:iMPS.E", "iMPS:iMPS.Es", "iMPS:iMPS.eigs", "iMPS:iMPS.canonicalise", "iMPS:iMPS.energy"], ("iMPS", "tensor", "ncon", "fMPS")) for x in ((2, v), (v, 2))]:
        for c in "lrm":
            def ref(A, O, L, c):
                # left gauge: 1 and Λ²; right gauge: Λ² and 1; symmetric gauge: Λ and Λ
                one, sq = w(tn.eye(L.shape[0])), w(spec.einsum("ab,bc->ac", L, L))
                return onesite(A, O, *{"l": (one, sq), "r": (sq, one), "m": (L, L)}[c])

            def f(it, d=d, D=D, c=c, ref=ref):
                A, L, O = spec.tensor((d, D, D), "A"), schmidt(D), spec.tensor((d, d), "O")
                m = cls(it)([A])
                m.d["L"] = L
                return [expect(call(it, m, "E", O, c), ref(A, O, L, c), "value differs", "iMPS.E(op, %r) is not the sandwich in that gauge; d=%d D=%d" % (c, d, D))]

            def g(it, d=d, D=D, c=c, ref=ref):
                A, L = spec.tensor((d, D, D), "A"), schmidt(D)
                Os = [spec.tensor((d, d), "O") for _ in range(3)]
                m = cls(it)([A])
                m.d["L"] = L
                r = call(it, m, "Es", Os, c)
                if len(r) != 3:
                    return [Fail("length", "Es returns %d values for 3 operators" % len(r))]
                return [expect(x, ref(A, O, L, c), "value differs", "iMPS.Es(ops, %r)[%d] is not the sandwich in that gauge; d=%d D=%d" % (c, i, d, D)) for i, (x, O) in enumerate(zip(r, Os))]
            obs.append(Ob("E gauge=%s d=%d D=%d" % (c, d, D), M + "E", f))
            obs.append(Ob("Es gauge=%s d=%d D=%d" % (c, d, D), M + "Es", g))

        def v(it, d=d, D=D):
            G, L, O = spec.tensor((d, D, D), "G"), schmidt(D), spec.tensor((d, d), "O")
            m = cls(it, "ivMPS")([(G, L)])
            return [expect(call(it, m, "E", O), spec.einsum("aa,aa,tab,sab,st,bb,bb->", L, L, G, nd.conj(G), O, L, L), "value differs", "ivMPS.E(op) is not the sandwich of Λ Γ Λ; d=%d D=%d" % (d, D))]
        obs.append(Ob("ivMPS.E d=%d D=%d" % (d, D), "iMPS:ivMPS.E", v))
        # no stated gauge: environments of a generic tensor
        if D == 1 or d * D > (9 if big else 6):   # the sparse eigensolver refuses one-dimensional operators
            continue

        def f(it, d=d, D=D):
            A, O = spec.tensor((d, D, D), "A"), spec.tensor((d, d), "O")
            return [expect(call(it, cls(it)([A]), "E", O), expectation(A, O), "value differs", "iMPS.E(op) is not the sandwich in the fixed-point environments; d=%d D=%d" % (d, D))]
        obs.append(Ob("E general d=%d D=%d" % (d, D), M + "E", f))

        def f(it, d=d, D=D):
            A = spec.tensor((d, D, D), "A")
            Os = [spec.tensor((d, d), "O") for _ in range(2)]
            r = call(it, cls(it)([A]), "Es", Os)
            return [expect(x, expectation(A, O), "value differs", "iMPS.Es(ops) is not the sandwich in the fixed-point environments; d=%d D=%d" % (d, D)) for x, O in zip(r, Os)]
        obs.append(Ob("Es general d=%d D=%d" % (d, D), M + "Es", f))
        for hand in "lrm":
            def f(it, d=d, D=D, hand=hand):
                A, O = spec.tensor((d, D, D), "A"), spec.tensor((d, d), "O")
                m = call(it, cls(it)([A]), "canonicalise", hand)
                wh = "after canonicalise(%r); d=%d D=%d" % (hand, d, D)
                out = [expect(call(it, m, "E", O, hand), expectation(A, O), "value differs", "iMPS.E(op, %r) %s" % (hand, wh))]
                r = call(it, m, "Es", [O], hand)
                out.append(expect(r[0], expectation(A, O), "value differs", "iMPS.Es([op], %r) %s" % (hand, wh)))
                return out
            obs.append(Ob("E after canonicalise %s d=%d D=%d" % (hand, d, D), M + "canonicalise", f))

            def f(it, d=d, D=D, hand=hand):
                """without a stated gauge, after a gauge and after a new tensor"""
                A, N, O = spec.tensor((d, D, D), "A"), spec.tensor((d, D, D), "N"), spec.tensor((d, d), "O")
                m = call(it, cls(it)([A]), "canonicalise", hand)
                wh = "after canonicalise(%r); d=%d D=%d" % (hand, d, D)
                out = []
                for k in range(2):
                    X = data(m)[0]
                    out.append(expect(call(it, m, "E", O), expectation(X, O), "value differs", "iMPS.E(op) %s%s" % (wh, " and a new tensor" if k else "")))
                    it.setitem(m, 0, N)
                    out.append(expect(call(it, m, "Es", [O])[0], expectation(N, O), "value differs", "iMPS.Es([op]) %s and a new tensor" % wh))
                    it.setitem(m, 0, N)
                return out
            if (d, D) == (2, 2) or big:
                obs.append(Ob("E without gauge after canonicalise %s d=%d D=%d" % (hand, d, D), M + "E", f))
            if d == 2 and D <= 2 or big and d * D <= 6:
                def f(it, d=d, D=D, hand=hand):
                    A, h = spec.tensor((d, D, D), "A"), spec.tensor((d * d, d * d), "h")
                    m = call(it, cls(it)([A]), "canonicalise", hand)
                    return [expect(call(it, m, "energy", [h]), twosite(A, h, d), "value differs", "iMPS.energy after canonicalise(%r) is not the two-site expectation; d=%d D=%d" % (hand, d, D))]
                obs.append(Ob("energy after canonicalise %s d=%d D=%d" % (hand, d, D), M + "energy", f))
    return obs
