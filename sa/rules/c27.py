"""Transfer maps: the function, the explicit matrix, the linear operator and the reported adjoint are extracted for generic
(different) tensors and a generic vector and compared with one reference matrix; transfers along a finite chain and the
environments of a canonical chain are compared with the partial contraction they stand for."""
from .common import *
from .c03 import cls, transfer, w
from ..models import arnoldi

BONDS_SKIP = r"_transfer "          # obligations that state the bond dimensions themselves
FLOOR = 40


def matvec(E, v):
    return tn.einsum([nd.symof(E), nd.symof(v)], [["i", "j"], ["j"]], ["i"])


def adj(E):
    return tn.transpose(nd.symof(E).conj(), (1, 0))


def obligations(tier):
    obs = []
    big = tier != "quick"
    it0 = I.Interp()
    for d, D in [(2, 1), (2, 2), (3, 2), (2, 3), (1, 2)] + ([(3, 3), (4, 4), (2, 5)] if big else []) + [x for v in grid.more(["iMPS:Map.asmatrix", "iMPS:Map.aslinearoperator", "iMPS:Map.right_fixed_point", "iMPS:Map.left_fixed_point"], ("iMPS", "tensor", "ncon", "fMPS")) for x in ((2, v), (v, 2))]:
        for c in ("Map", "TransferMatrix"):
            def mk(it, c=c, d=d, D=D):
                A, B = spec.tensor((d, D, D), "A"), spec.tensor((d, D, D), "B")
                if c == "Map":
                    return cls(it, c)(A, B), transfer(A, B)
                return cls(it, c)(A), transfer(A)
            e = "iMPS:%s." % c
            wh = "%s d=%d D=%d" % (c, d, D)

            def f(it, mk=mk, D=D, wh=wh):
                m, E = mk(it)
                v = spec.tensor((D * D,), "v")
                return [expect(call(it, m, "mv", v), matvec(E, v), "value differs", wh + ": mv is not the transfer matrix times the vector")]
            obs.append(Ob("mv " + wh, e + "mv", f))

            def f(it, mk=mk, D=D, wh=wh):
                m, E = mk(it)
                v = spec.tensor((D * D,), "v")
                return [expect(call(it, m, "mvr", v), matvec(adj(E), v), "adjoint differs", wh + ": mvr is not the adjoint of the transfer matrix times the vector")]
            obs.append(Ob("mvr " + wh, e + "mvr", f))

            def f(it, mk=mk, wh=wh):
                m, E = mk(it)
                return [expect(call(it, m, "asmatrix"), E, "matrix differs", wh + ": asmatrix is not the transfer matrix")]
            obs.append(Ob("asmatrix " + wh, e + "asmatrix", f))

            def f(it, mk=mk, D=D, wh=wh):
                m, E = mk(it)
                op = call(it, m, "aslinearoperator")
                v = spec.tensor((D * D,), "v")
                out = [expect(call(it, op, "matvec", v), matvec(E, v), "value differs", wh + ": the linear operator is not the transfer matrix"),
                       expect(call(it, op, "rmatvec", v), matvec(adj(E), v), "adjoint differs", wh + ": the adjoint product of the linear operator is not that of the transfer matrix"),
                       expect(call(it, it.getattr(op, "H"), "matvec", v), matvec(adj(E), v), "adjoint differs", wh + ": the adjoint of the linear operator is not that of the transfer matrix")]
                sh = tuple(int(x) for x in it.getattr(op, "shape"))
                return out + [None if sh == (D * D, D * D) else Fail("shape", wh + ": linear operator of shape %s" % (sh,))]
            obs.append(Ob("aslinearoperator " + wh, e + "aslinearoperator", f))
            if c == "Map" and D > 1 and d > 1:
                def f(it, mk=mk, D=D, wh=wh):
                    m, E = mk(it)
                    lam, r = call(it, m, "right_fixed_point")
                    r, lam = nd.reshape(r, (D * D,)), nd.reshape(lam, ())
                    return [check(spec.eq(matvec(E, r), smul(nd.symof(lam), nd.symof(r))), "not an eigenvector", wh + ": right_fixed_point")]
                obs.append(Ob("right_fixed_point " + wh, e + "right_fixed_point", f))

                def f(it, mk=mk, D=D, wh=wh):
                    m, E = mk(it)
                    lam, l = call(it, m, "left_fixed_point")
                    l, lam = nd.reshape(l, (D * D,)), nd.reshape(lam, ())
                    return [check(spec.eq(matvec(adj(E), l), smul(nd.symof(lam), nd.symof(l))), "not an eigenvector", wh + ": left_fixed_point of the adjoint"),
                            check(spec.eq(norm2(nd.symof(l)), tn.scalar(1)), "normalisation", wh + ": left_fixed_point is not normalised")]
                obs.append(Ob("left_fixed_point " + wh, e + "left_fixed_point", f))
        if D > 1:
            for side in "rl":
                def f(it, D=D, side=side):
                    T4 = spec.tensor((D, D, D, D), "M")
                    e, v = it.mod("tensor").vars[side + "_eigenmatrix"](T4)
                    e = nd.reshape(e, ())
                    act = spec.einsum("abcd,cd->ab", T4, v) if side == "r" else spec.einsum("ab,abcd->cd", v, T4)
                    return [check(spec.eq(act, smul(nd.symof(e), nd.symof(v))), "not an eigenmatrix", "%s_eigenmatrix D=%d" % (side, D))]
                if (d, D) in ((2, 2), (2, 3)):
                    obs.append(Ob("%s_eigenmatrix D=%d" % (side, D), "tensor:%s_eigenmatrix" % side, f))
    for d, l, m, r in [(2, 1, 2, 3), (3, 2, 2, 1), (2, 2, 3, 2)]:
        def f(it, d=d, l=l, m=m, r=r):
            X, Y = spec.tensor((l, m), "X"), spec.tensor((d, m, r), "Y")
            return [expect(it.mod("tensor").vars["ldot"](X, Y), spec.einsum("lm,smr->slr", X, Y), "value differs", "ldot %s" % ((d, l, m, r),))]
        obs.append(Ob("ldot %s" % ((d, l, m, r),), "tensor:ldot", f))

        def f(it, d=d, l=l, m=m, r=r):
            X, Y = spec.tensor((d, l, m), "X"), spec.tensor((m, r), "Y")
            return [expect(it.mod("tensor").vars["rdot"](X, Y), spec.einsum("slm,mr->slr", X, Y), "value differs", "rdot %s" % ((d, l, m, r),))]
        obs.append(Ob("rdot %s" % ((d, l, m, r),), "tensor:rdot", f))
    # finite chains
    grids = [(2, 2), (3, 2), (4, 2), (3, 3)] + ([(5, 2), (4, 3)] if big else [])
    for L, d in grids:
        for p in grid.profiles(L, d)[:2]:
            b = [1] + list(p) + [1]
            for extra in ((), (2,), (2, 3)):
                if extra and (L, d) not in ((3, 2), (4, 2)):
                    continue
                for i in range(L + 1):
                    for j in range(i + 1):
                        def f(it, L=L, d=d, p=p, b=b, extra=extra, i=i, j=j):
                            A = spec.mps_data(L, d, p)
                            m = spec.fMPS(it, A)
                            op = spec.tensor((b[i], b[i]) + extra, "op")
                            ref = {}
                            cur = nd.symof(op)
                            n = len(extra)
                            ref[i] = cur
                            ex = ["e%d" % k for k in range(n)]
                            for q in reversed(range(j, i)):
                                a = nd.symof(A[q])
                                cur = tn.einsum([a, a.conj(), cur], [["s", "x", "u"], ["s", "y", "v"], ["u", "v"] + ex], ["x", "y"] + ex)
                                ref[q] = cur
                            g = call(it, m, "left_transfer", op, j, i)
                            wh = "left_transfer from %d to %d, %s" % (i, j, grid.pstr(L, d, p))
                            out = [expect(g(q), ref[q], "value differs", wh + " at %d" % q) for q in range(j, i + 1)]
                            return out + [expect(call(it, m, "left_transfer", op, j, i, False), ref[j], "value differs", wh + " (ret_all=False)")]
                        obs.append(Ob("left_transfer %d->%d %s +%d" % (i, j, grid.pstr(L, d, p), len(extra)), "fMPS:fMPS.left_transfer", f))
                for i in range(L):
                    for j in range(i, L):
                        def f(it, L=L, d=d, p=p, b=b, extra=extra, i=i, j=j):
                            A = spec.mps_data(L, d, p)
                            m = spec.fMPS(it, A)
                            op = spec.tensor(extra + (b[i + 1], b[i + 1]), "op")
                            n = len(extra)
                            ex = ["e%d" % k for k in range(n)]
                            cur = nd.symof(op)
                            ref = {i + 1: cur}
                            for q in range(i + 1, j + 1):
                                a = nd.symof(A[q])
                                cur = tn.einsum([a.conj(), a, cur], [["s", "y", "v"], ["s", "x", "u"], ex + ["y", "x"]], ex + ["v", "u"])
                                ref[q + 1] = cur
                            g = call(it, m, "right_transfer", op, i, j)
                            wh = "right_transfer from %d to %d, %s" % (i, j, grid.pstr(L, d, p))
                            out = [expect(g(q), ref[q], "value differs", wh + " at %d" % q) for q in range(i + 1, j + 2)]
                            return out + [expect(call(it, m, "right_transfer", op, i, j, False), ref[j + 1], "value differs", wh + " (ret_all=False)")]
                        obs.append(Ob("right_transfer %d->%d %s +%d" % (i, j, grid.pstr(L, d, p), len(extra)), "fMPS:fMPS.right_transfer", f))
            for hand in ("left", "right"):
                def f(it, L=L, d=d, p=p, hand=hand):
                    m = call(it, spec.fMPS(it, spec.mps_data(L, d, p)), hand + "_canonicalise")
                    A = data(m)
                    out = []
                    for store in (False, True):
                        l, r = call(it, m, "get_envs", store)
                        cur = tn.eye(1)
                        wh = "get_envs after %s_canonicalise; %s" % (hand, grid.pstr(L, d, p))
                        out.append(expect(l(-1), cur, "value differs", wh + " l(-1)"))
                        for n in range(L):
                            a = nd.symof(A[n])
                            cur = tn.einsum([a, a.conj(), cur], [["s", "x", "u"], ["s", "y", "v"], ["x", "y"]], ["u", "v"])
                            out.append(expect(l(n), cur, "value differs", wh + " l(%d) is not the partial contraction from the left" % n))
                        cur = tn.eye(1)
                        out.append(expect(r(L - 1), cur, "value differs", wh + " r(%d)" % (L - 1)))
                        for n in reversed(range(L)):
                            a = nd.symof(A[n])
                            cur = tn.einsum([a, a.conj(), cur], [["s", "x", "u"], ["s", "y", "v"], ["u", "v"]], ["x", "y"])
                            out.append(expect(r(n - 1), cur, "value differs", wh + " r(%d) is not the partial contraction from the right" % (n - 1)))
                        if store and (m.d.get("l") is not l or m.d.get("r") is not r):
                            out.append(Fail("not stored", wh))
                    return out
                obs.append(Ob("get_envs %s %s" % (hand, grid.pstr(L, d, p)), "fMPS:fMPS.get_envs", f))
    return obs
