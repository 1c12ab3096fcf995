"""Tangent space of uniform infinite states: for a generic complex tensor (its fixed points uninterpreted functions of the transfer
matrix) the null projectors, the fixed points returned, the linear equation handed to the root finder by Lh and Rh (the finder
itself replaced by an uninterpreted solution) and the tangent vector of dA_dt are compared with contractions written here from the
definition: bra legs are contracted with conjugated tensors, ket legs with tensors, rows of the Hamiltonian with the bra."""
import contextlib
from .common import *
from .c03 import cls, transfer, fixed, w, M

FLOOR = 20
ASSUMPTIONS = ["scipy.optimize.root returns a solution of the equation it is given; the sparse eigensolver returns the leading eigenvector"]


def envs(A):
    """(eigenvalue, l indexed (bra, ket), r indexed (ket, bra))"""
    lam, l, r = fixed(A)
    return lam, w(tn.transpose(nd.symof(l), (1, 0))), r


def pair(l, r):
    return w(spec.einsum("xa,ax->", l, r))


def normed(A):
    """fixed points scaled as eigs scales them: both by the same factor, paired to one"""
    lam, l, r = envs(A)
    n = nd.sqrt(pair(l, r))
    return lam, w(nd.symof(nd.div(l, n))), w(nd.symof(nd.div(r, n)))


def h4(h, d):
    return tn.reshape(nd.symof(h), (d,) * 4)


def left_term(A, h, l):
    """left environment with one Hamiltonian term absorbed: (bra, ket)"""
    d = A.shape[0]
    return w(spec.einsum("xa,sab,tbc,pxi,qiy,pqst->yc", l, A, A, nd.conj(A), nd.conj(A), h4(h, d)))


def right_term(A, h, r):
    """right environment with one Hamiltonian term absorbed: (ket, bra)"""
    d = A.shape[0]
    return w(spec.einsum("cy,sab,tbc,pxi,qiy,pqst->ax", r, A, A, nd.conj(A), nd.conj(A), h4(h, d)))


def gradient(A, h, l, r, K):
    """derivative of the energy with respect to the conjugated tensor, indices (s, bra, bra)"""
    d = A.shape[0]
    B, H = nd.conj(A), h4(h, d)
    F = spec.einsum("xa,sab,tbc,pxi,pqst,cy->qiy", l, A, A, B, H, r)
    F = F.add(spec.einsum("xa,sab,tbc,pqst,qiy,cy->pxi", l, A, A, H, B, r))
    return F.add(spec.einsum("xa,sab,by->sxy", K, A, r))


@contextlib.contextmanager
def solver(it, K, rec):
    """scipy.optimize.root replaced: records the function and its arguments, returns the serialised K as the solution"""
    v = it.mod("iMPS").vars
    old = v["root"]

    def root(fn, x0, args=(), **k):
        rec.append((fn, x0, args))
        x = nd.concatenate([nd.reshape(nd.real(K), (-1,)), nd.reshape(nd.imag(K), (-1,))])
        return Solution(x)
    v["root"] = root
    try:
        yield
    finally:
        v["root"] = old


class Solution:
    def __init__(self, x):
        self.x = x


def serial(K):
    return nd.concatenate([nd.reshape(nd.real(K), (-1,)), nd.reshape(nd.imag(K), (-1,))])


def obligations(tier):
    obs = []
    big = tier != "quick"
    for d, D in [(2, 2), (3, 2), (2, 3)] + ([(3, 3), (4, 2)] if big else []) + [x for v in grid.more(["iMPS:iMPS.dA_dt", "iMPS:iMPS.left_null_projector", "iMPS:iMPS.energy"], ("iMPS", "tensor", "ncon", "fMPS")) for x in ((2, v), (v, 2))]:
        wh = "d=%d D=%d" % (d, D)

        def f(it, d=d, D=D, wh=wh):
            A = spec.tensor((d, D, D), "A")
            lam, l, r = normed(A)
            e, l_, r_ = call(it, cls(it)([A]), "eigs")
            return [expect(l_, l, "left fixed point", "eigs: the left fixed point is not the (bra, ket) one paired to one with the right one; " + wh),
                    expect(r_, r, "right fixed point", "eigs: the right fixed point is not the (ket, bra) one paired to one with the left one; " + wh)]
        obs.append(Ob("fixed points %s" % wh, M + "eigs", f))

        def f(it, d=d, D=D, wh=wh):
            A = spec.tensor((d, D, D), "A")
            m = cls(it)([A])
            call(it, m, "get_envs")
            lam, l, r = normed(A)
            return [expect(m.d["l"], l, "left environment", "get_envs: stored left environment; " + wh), expect(m.d["r"], r, "right environment", "get_envs: stored right environment; " + wh)]
        obs.append(Ob("get_envs %s" % wh, M + "get_envs", f))

        for side in ("left", "right"):
            def f(it, d=d, D=D, wh=wh, side=side):
                A = spec.tensor((d, D, D), "A")
                lam, l, r = normed(A)
                m = cls(it)([A])
                P, v = call(it, m, side + "_null_projector", get_vL=True)
                P2 = call(it, m, side + "_null_projector")
                il, one = nd.inv(l if side == "left" else r), w(tn.eye(d))
                if side == "left":     # legs (s, ket; t, bra); inv(l) is (ket, bra)
                    ref = tn.einsum([nd.symof(one), nd.symof(il)], [["s", "t"], ["a", "x"]], ["s", "a", "t", "x"])
                    aa = spec.einsum("sab,by,txy->satx", A, il, nd.conj(A))
                else:                  # legs (s, ket; t, bra) on the right bonds; inv(r) is (bra, ket)
                    ref = tn.einsum([nd.symof(one), nd.symof(il)], [["s", "t"], ["x", "a"]], ["s", "a", "t", "x"])
                    aa = spec.einsum("sba,yb,tyx->satx", A, il, nd.conj(A))
                # projector = 1 (x) inv(env) - A inv(eigenvalue env) A^dagger
                ref = smul(nd.symof(lam), ref).add(aa.scale(-1))
                what = "%s_null_projector is not the projector on the directions orthogonal to the tensor in the metric of its environment; %s" % (side, wh)
                out = [expect(w(smul(nd.symof(lam), nd.symof(P))), ref, "projector", what),
                       expect(P2, P, "option", "%s_null_projector: the option returning the null space changes the projector; %s" % (side, wh)),
                       expect(m.d["vL" if side == "left" else "vR"], v, "null space", "%s_null_projector: the recorded null space is not the returned one; %s" % (side, wh))]
                n = v.shape[2] if side == "left" else v.shape[1]
                lab = ["s", "a", "i"] if side == "left" else ["s", "i", "a"]
                g = tn.einsum([nd.symof(v).conj(), nd.symof(v)], [lab, [("j" if q == "i" else q) for q in lab]], ["i", "j"])
                out.append(check(n == (d - 1) * D, "size", "%s_null_projector: %d null vectors instead of %d; %s" % (side, n, (d - 1) * D, wh)))
                out.append(check(spec.eq(g, tn.eye(n)), "orthonormal", "%s_null_projector: null vectors are not orthonormal; %s" % (side, wh)))
                return out
            obs.append(Ob("%s null projector %s" % (side, wh), M + side + "_null_projector", f))

        for side in ("L", "R"):
            def f(it, d=d, D=D, wh=wh, side=side):
                A, h = spec.tensor((d, D, D), "A"), spec.hermitian((d * d, d * d), (1, 0), "h")
                X, Y = spec.tensor((D, D), "X"), spec.tensor((D, D), "Y")
                lam, l, r = normed(A)
                rec = []
                m = cls(it)([A])
                with solver(it, X, rec):
                    got = call(it, m, side + "h", [h])
                    O, l_, r_, K = call(it, m, side + "h", [h], testing=True)
                what = "%sh %s: " % (side, wh)
                out = [expect(got, X, "solution", what + "the solution is not returned"), expect(K, X, "solution", what + "the solution is not returned in testing mode")]
                if side == "L":
                    T = spec.einsum("xy,sxa,syb->ab", Y, nd.conj(A), A)     # (bra, ket)
                    t = left_term(A, h, l)
                    e, y, env = pair(t, r), pair(Y, r), l
                else:
                    T = spec.einsum("sax,xy,sby->ab", A, Y, nd.conj(A))     # (ket, bra)
                    t = right_term(A, h, r)
                    e, y, env = pair(l, t), pair(l, Y), r
                ref = nd.symof(Y).add(T.scale(-1)).add(smul(nd.symof(y), nd.symof(env)))
                ref = ref.add(nd.symof(t).scale(-1)).add(smul(nd.symof(e), nd.symof(env)))
                fn, x0, args = rec[0]
                for nm, val in (("handed to the solver", fn(serial(Y), *args)), ("of testing mode", O(serial(Y)))):
                    out.append(expect(val, serial(w(ref)), "equation", what + "the residual %s is not (1 - transfer map + projector) K - (1 - projector) (environment with one term)" % nm))
                if nd.symof(x0).shape != (2 * D * D,):
                    out.append(Fail("guess", what + "the initial guess has the wrong size"))
                return out
            obs.append(Ob("%sh %s" % (side, wh), M + side + "h", f))

        def f(it, d=d, D=D, wh=wh):
            A, h = spec.tensor((d, D, D), "A"), spec.hermitian((d * d, d * d), (1, 0), "h")
            K = spec.tensor((D, D), "K")
            lam, l, r = normed(A)
            m = cls(it)([A])
            before = list(data(m))
            rec = []
            with solver(it, K, rec):
                B = call(it, m, "dA_dt", [h])
            b = data(B)[0]
            il = nd.inv(l)
            F = w(gradient(A, h, l, r, K))
            # lam i l B r = lam F - l A inv(l) (conj(A) F)
            lhs = smul(nd.symof(lam), spec.einsum("xa,sab,by->sxy", l, w(nd.symof(b).scale(1j)), r))
            G = spec.einsum("sxz,sxy->zy", w(nd.symof(A).conj()), F)     # legs (bra bond of conj(A), bra)
            sub = spec.einsum("xa,sab,bz,zy->sxy", l, A, il, w(G))
            rhs = smul(nd.symof(lam), nd.symof(F)).add(sub.scale(-1))
            what = "dA_dt %s: " % wh
            out = [check(spec.eq(lhs, rhs), "tangent vector", what + "i l B r is not the energy gradient projected on the tangent space"),
                   check(spec.eq(spec.einsum("sxy,xa,sab->yb", nd.conj(A), l, b), tn.zero((D, D))), "gauge", what + "the tangent vector is not in the left tangent gauge"),
                   expect(m.d["e"], pair(left_term(A, h, l), r), "energy", what + "the recorded energy is not the two-site expectation value"),
                   expect(data(m)[0], before[0], "state changed", what + "the state is changed"),
                   expect(B.d["l"], l, "environments", what + "left environment attached to the tangent vector"),
                   expect(B.d["r"], r, "environments", what + "right environment attached to the tangent vector")]
            out.append(check(len(rec) == 1 and len(data(B)) == 1, "solver", what + "the environment equation is solved %d times" % len(rec)))
            return out
        obs.append(Ob("dA_dt %s" % wh, M + "dA_dt", f))

        def f(it, d=d, D=D, wh=wh):
            A, h = spec.tensor((d, D, D), "A"), spec.tensor((d * d, d * d), "h")
            lam, l, r = normed(A)
            m = cls(it)([A])
            e = call(it, m, "energy", [h])
            ref = pair(left_term(A, h, l), r)
            return [expect(e, nd.real(ref), "value differs", "energy is not the two-site expectation value in the fixed points of the tensor; " + wh),
                    expect(m.d["e"], ref, "value differs", "the energy recorded is not the two-site expectation value in the fixed points; " + wh)]
        obs.append(Ob("energy %s" % wh, M + "energy", f))
    return obs
