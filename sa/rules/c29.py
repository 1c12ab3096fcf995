"""Matrix-product operators: products, conversions and recombination of operators with abstract tensors, unequal bond dimensions and
unequal upper and lower legs, compared with the contraction of the whole network.  The operator encoded by a network is defined by
recombine: the conjugate transpose of the matrix with the upper legs as rows (the convention the overlaps rely on)."""
from .common import *
from .c19 import mpo_data, mpo_op, same
from .c16 import contract_mpo, generic, reference

FLOOR = 20


def dagger(M, u, d):
    return tn.transpose(tn.reshape(M, (u, d)), (1, 0)).conj()


def mat(a, b):
    return tn.einsum([a, b], [["i", "j"], ["j", "k"]], ["i", "k"])


def chain(L, ups, downs, dims, name="W", outer=1):
    b = [outer] + [dims[k % len(dims)] for k in range(L - 1)] + [outer]
    return [spec.tensor((ups[k % len(ups)], b[k + 1], downs[k % len(downs)], b[k]), "%s%d" % (name, k)) for k in range(L)]


def obligations(tier):
    obs = []
    big = tier != "quick"

    def add(name, entry, fn, **kw):
        obs.append(Ob(name, "fPEPS:" + entry, fn, **kw))

    def mk(it, Ws=None):
        return it.mod("fPEPS").vars["fMPO"](*([] if Ws is None else [list(Ws)]))

    for L in (1, 2, 3, 4) + ((5, 6) if big else ()) + tuple(v for v in grid.more(["fPEPS:fMPO.recombine", "fPEPS:fMPO.__mul__", "fPEPS:fMPO.overlap", "fPEPS:fMPO.apply"], ("fPEPS", "peps_tools", "ncon", "tensor"), cap=8)):
        for per in (1, 3):
            if per > 1 and L == 1:
                continue
            for ups, downs in (((2,), (2,)), ((3, 2), (2, 1))):
                def rec(it, L=L, per=per, ups=ups, downs=downs):
                    Ws = chain(L, ups, downs, (2, 3, 1), outer=per)
                    M, u, d = mpo_op(Ws)
                    p = mk(it, Ws)
                    out = [check(spec.eq(call(it, p, "recombine"), dagger(M, u, d)), "operator", "recombine is not the encoded operator"), same([p.d["data"]], [Ws], "operand", "recombine changes the operator")]
                    out.append(check(it.getattr(p, "L") == L and it.getattr(p, "d") == ups[0] and it.getattr(p, "X") == max(max(w.shape[1:]) for w in Ws), "attributes", "recorded L=%s d=%s X=%s" % (it.getattr(p, "L"), it.getattr(p, "d"), it.getattr(p, "X"))))
                    return out
                add("recombine L=%d legs=%s/%s%s" % (L, ups, downs, " periodic" if per > 1 else ""), "fMPO.recombine", rec)

                def prod(it, L=L, per=per, ups=ups, downs=downs):
                    A = chain(L, ups, downs, (2, 3, 1), "A", per)
                    B = chain(L, (2, 1), ups, (3, 2), "B", 2 if per > 1 else 1)
                    p, q = mk(it, A), mk(it, B)
                    r = call(it, p, "__mul__", q)
                    Ma, u, d = mpo_op(A)
                    Mb, u2, d2 = mpo_op(B)
                    ref = mat(dagger(Ma, u, d), dagger(Mb, u2, d2))
                    Mr, ur, dr = mpo_op(r.d["data"])
                    return [check(spec.eq(dagger(Mr, ur, dr), ref), "product", "A*B does not encode the product of the operators"), check(spec.eq(call(it, r, "recombine"), ref), "product", "recombine(A*B) is not recombine(A) recombine(B)"), same([p.d["data"]], [A], "operand", "the product changes its left operand"), same([q.d["data"]], [B], "operand", "the product changes its right operand"), check(it.getattr(r, "L") == L, "length", "the product records L=%s" % it.getattr(r, "L"))]
                add("product L=%d legs=%s/%s%s" % (L, ups, downs, " periodic" if per > 1 else ""), "fMPO.__mul__", prod)

        def triple(it, L=L):
            A, B, C = [chain(L, (2,), (2,), x, n) for x, n in (((2,), "A"), ((1, 2), "B"), ((2, 1), "C"))]
            p = lambda W: mk(it, W)
            ab_c = call(it, call(it, p(A), "__mul__", p(B)), "__mul__", p(C))
            a_bc = call(it, p(A), "__mul__", call(it, p(B), "__mul__", p(C)))
            f = lambda x: dagger(*mpo_op(x.d["data"]))
            return [check(spec.eq(f(ab_c), f(a_bc)), "associative", "(AB)C and A(BC) encode different operators")]
        if L <= 3:
            add("associative L=%d" % L, "fMPO.__mul__", triple)

        def state(it, L=L):
            inner = [[2, 3, 2][k % 3] for k in range(L - 1)]
            ds = spec.mps_data(L, 3, inner)
            m = spec.fMPS(it, ds)
            psi = spec.state(ds)
            p = call(it, mk(it), "from_mps", m)
            n = 3 ** L
            M, u, d = mpo_op(p.d["data"])
            vec = tn.reshape(psi, (n, 1))
            out = [check(spec.eq(dagger(M, u, d), vec), "state", "the operator made from a state is not its vector"), check(spec.eq(call(it, p, "recombine"), vec), "state", "recombine of the operator made from a state is not its vector"),
                   check(it.getattr(p, "L") == L and it.getattr(p, "d") == 3, "attributes", "recorded L=%s d=%s" % (it.getattr(p, "L"), it.getattr(p, "d"))), same([data(m)], [ds], "operand", "from_mps changes the state")]
            Ws = chain(L, (3,), (2,), (2, 1, 3))
            r = call(it, mk(it, Ws), "__mul__", m)
            out.append(check(spec.eq(dagger(*mpo_op(r.d["data"])), mat(dagger(*mpo_op(Ws)), vec)), "application", "an operator times a state does not encode the applied operator"))
            out.append(same([data(m)], [ds], "operand", "the product changes the state"))
            return out
        add("from_mps L=%d" % L, "fMPO.from_mps", state)

        def triv(it, L=L):
            t = call(it, mk(it), "trivial", L)
            Ws = chain(L, (1,), (1,), (2, 3))
            out = [check(spec.eq(call(it, t, "recombine"), tn.eye(1)), "identity", "the trivial operator is not the identity"), check(it.getattr(t, "L") == L, "length", "the trivial operator records L=%s" % it.getattr(t, "L"))]
            for a, b in ((t, mk(it, Ws)), (mk(it, Ws), t)):
                out.append(check(spec.eq(dagger(*mpo_op(call(it, a, "__mul__", b).d["data"])), dagger(*mpo_op(Ws))), "identity", "multiplying with the trivial operator changes the operator"))
            return out
        add("trivial L=%d" % L, "fMPO.trivial", triv)

        def structure(it, L=L):
            out = []
            for d, X in ((2, 3), (3, 1)):
                s = [tuple(x) for x in call(it, mk(it), "create_structure", L, d, X)]
                ok = len(s) == L and s[0][3] == 1 and s[-1][1] == 1 and all(x[0] == x[2] == d for x in s) and all(s[k][1] == s[k + 1][3] == X for k in range(L - 1))
                out.append(check(ok, "structure", "create_structure(%d, %d, %d) is %s" % (L, d, X, s)))
                r = call(it, mk(it), "random", L, d, X)
                out.append(check([tuple(x) for x in call(it, r, "structure")] == s and (it.getattr(r, "L"), it.getattr(r, "d"), it.getattr(r, "X")) == (L, d, X), "random", "random(%d, %d, %d)" % (L, d, X)))
            return out
        add("structure L=%d" % L, "fMPO.create_structure", structure)
    return obs
