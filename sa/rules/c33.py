"""Enlarging the bond dimension.  Enlarging by zeros is compared entry by entry with the state before.  A step of the dynamical
expansion is followed for several exact values of the time step; the state it gives is a polynomial in the time step, its
derivative at zero is obtained from these values and compared with -i H applied to the state, computed on the full vector."""
import numpy as np
from fractions import Fraction
from .common import *
from .c13 import act, grad, perp, env_r, canon
from .c14 import patched

from . import wide

BONDS_SKIP = r"null_projector|dynamical_expand|^grow "          # obligations that state the bond dimensions themselves
FLOOR = 40
ASSUMPTIONS = ["canonical form with invertible environments (Schmidt weights not zero)", "null_space returns an orthonormal basis of the null space"]


def derivative(points):
    """weights c with P'(0) = sum c_k P(t_k) for polynomials of degree < len(points)"""
    out = []
    for i, ti in enumerate(points):
        # derivative at 0 of the Lagrange polynomial of t_i
        s = Fraction(0)
        for j, tj in enumerate(points):
            if j == i:
                continue
            p = Fraction(1, ti - tj)
            for k, tk in enumerate(points):
                if k not in (i, j):
                    p *= Fraction(0 - tk, ti - tk)
            s += p
        out.append(float(s))
    return out


def deflate(psi, x):
    """x without its component along psi (times the squared norm)"""
    return smul(norm2(psi), x).add(smul(ip(psi, x), psi).scale(-1))


def shapes(m):
    return [tuple(x.shape) for x in data(m)]


def obligations(tier):
    obs = []
    big = tier != "quick"

    def add(name, entry, f, **kw):
        obs.append(Ob(name, entry, f, **kw))
    F = lambda it: it.mod("fMPS").vars["fMPS"]
    ham = lambda L, d, n="h": [spec.hermitian((d * d, d * d), (1, 0), "%s%d" % (n, i)) for i in range(L - 1)]
    # ------------------------------------------------------------------ padding with zeros
    for L, d, b, Ds in [(2, 2, [1], (1, 2, 3)), (2, 2, [2], (2, 4)), (3, 2, [1, 1], (1, 2, 3)), (3, 2, [1, 2], (2,)), (4, 2, [1, 1, 1], (2, 3, 4)), (4, 2, [2, 2, 2], (2, 3, 4, 8)), (3, 3, [2, 2], (2, 3)), (4, 2, [2, 1, 2], (2, 3)), (1, 2, [], (1, 2))] \
            + ([(5, 2, [2, 3, 3, 2], (3, 4)), (5, 2, [1, 2, 1, 1], (2, 4)), (4, 3, [2, 2, 2], (3, 5))] if big else []):
        for D in Ds:
            w = "expand(%d) of %s" % (D, grid.pstr(L, d, b))

            def f(it, L=L, d=d, b=b, D=D, w=w):
                A = spec.mps_data(L, d, b)
                st = spec.state(A)
                m = F(it)(list(A))
                r = call(it, m, "expand", D)
                if r is not m:
                    return [Fail("not in place", w + " does not return the state")]
                ref = [(d, *s) for s in call(it, m, "create_structure", L, d, D)]
                out = [proportional(spec.state(data(m)), st, w), unit(spec.state(data(m)), w)]
                if shapes(m) != ref:
                    out.append(Fail("structure", "%s has tensors %s instead of %s" % (w, shapes(m), ref)))
                if [(d, *s) for s in call(it, m, "create_structure", L, d, it.getattr(m, "D"))] != shapes(m):
                    out.append(Fail("recorded dimension", "%s records bond dimension %s for tensors %s" % (w, it.getattr(m, "D"), shapes(m))))
                return out
            add(w, "fMPS:fMPS.expand", f)

    for L, b, D in [(2, [1], 2), (3, [1, 1], 2), (3, [2, 2], 4), (4, [2, 2, 2], 4)]:
        for hname, h in histories(L):
            if L == 4 and "gate" not in hname:
                continue
            w = "expand(%d) of %s after %s" % (D, grid.pstr(L, 2, b), hname)

            def f(it, L=L, b=b, D=D, h=h, w=w):
                m = F(it)(spec.mps_data(L, 2, b))
                st = spec.state(prepared(it, m, h))
                call(it, m, "expand", D)
                ref = [(2, *x) for x in call(it, m, "create_structure", L, 2, D)]
                out = [proportional(spec.state(data(m)), st, w + " changes the state")]
                if all(a <= c for x, y in zip(shapes(m), ref) for a, c in zip(x, y)) and shapes(m) != ref:
                    out.append(Fail("structure", "%s has tensors %s instead of %s" % (w, shapes(m), ref)))
                return out
            add(w, "fMPS:fMPS.expand", f)

    # ------------------------------------------------------------------ along the evolution
    steps = [(2, 2, [1], 2), (2, 3, [1], 2), (2, 3, [1], 3), (2, 3, [2], 3), (3, 2, [1, 1], 2), (3, 2, [2, 2], 2), (3, 3, [2, 2], 3), (4, 2, [1, 1, 1], 2), (4, 2, [2, 2, 2], 4), (4, 2, [2, 2, 2], 3)]
    if big:
        steps += [(3, 3, [1, 1], 3), (4, 2, [1, 2, 1], 3), (4, 2, [2, 3, 2], 4), (4, 3, [1, 1, 1], 3), (3, 2, [2, 1], 2), (4, 2, [2, 1, 2], 3)]
    for L, d, b, D in steps:
        B = [1] + b + [1]
        room = [min(d * B[i] - B[i + 1], d * B[i + 2] - B[i + 1]) for i in range(L - 1)]
        full = all(k <= D - max(B) for k in room)
        for gauge in ("left", "right"):
            if gauge == "right" and (L, D) not in ((2, 2), (3, 3), (3, 2), (2, 3)):
                continue
            w = "dynamical_expand to %d of %s (%s canonical)" % (D, grid.pstr(L, d, b), gauge)

            def f(it, L=L, d=d, b=b, D=D, w=w, gauge=gauge, full=full, B=B, room=room):
                m0, A = canon(it, L, d, b, gauge)
                H = ham(L, d)
                tensors = A
                A = [spec.opaque(a, "A%d" % n) for n, a in enumerate(A)]
                psi = spec.state([nd.wrap(a, "c") for a in A])
                y = spec.opaque(act(H, A).scale(-1j), "y")
                pts = list(range(L + 1))
                out, P = [], None
                for t, c in zip(pts, derivative(pts)):
                    m = F(it)([nd.wrap(a, "c") for a in tensors])
                    r = call(it, m, "dynamical_expand", H, t, D, None)
                    if r is not m:
                        return [Fail("not in place", w + " does not return the state")]
                    ref = [B[i + 1] + min(room[i], D - max(B)) for i in range(L - 1)]
                    ref = [(d, x, z) for x, z in zip([1] + ref, ref + [1])]
                    if shapes(m) != ref:
                        return [Fail("structure", "%s has tensors %s instead of %s" % (w, shapes(m), ref))]
                    if it.getattr(m, "D") != max(max(s[1:]) for s in ref):
                        out.append(Fail("recorded dimension", "%s records bond dimension %s" % (w, it.getattr(m, "D"))))
                    flags = [k for k in ("canonical", "orthogonal") if it.getattr(m, k)]
                    if flags:
                        out.append(Fail("flags", "%s leaves the flags %s set" % (w, flags)))
                    x = spec.opaque(spec.state([nd.wrap(spec.opaque(a, "B"), "c") for a in data(m)]), "P")
                    if t == 0:
                        out.append(check(spec.eq(x, psi), "state changed", w + ": a vanishing step changes the state"))
                    P = x.scale(c) if P is None else P.add(x.scale(c))
                P = spec.opaque(P, "P")
                if full:
                    out.append(check(spec.eq(deflate(psi, P), deflate(psi, y)), "direction", w + " does not follow -i H to first order"))
                if gauge == "left":
                    for n in range(L):
                        out.append(check(spec.eq(perp(A[n], grad(A, n, P)), perp(A[n], grad(A, n, y))), "tangent part", w + ": the part inside the tangent space (site %d) is not the evolution" % n))
                return out
            add(w, "fMPS:fMPS.dynamical_expand", f)

    # ------------------------------------------------------------------ the projection error
    errs = [(2, 2, [1]), (2, 2, [2]), (2, 3, [1]), (3, 2, [1, 1]), (3, 2, [2, 2]), (3, 3, [2, 2]), (4, 2, [2, 2, 2])]
    if big:
        errs += [(4, 2, [1, 1, 1]), (2, 3, [2]), (4, 2, [2, 3, 2])]
    for L, d, b in errs:
        B = [1] + b + [1]
        room = [min(d * B[i] - B[i + 1], d * B[i + 2] - B[i + 1]) for i in range(L - 1)]
        if not all(k <= (d - 1) * max(B) for k in room):
            continue
        for gauge in ("left", "right"):
            w = "projection_error of %s (%s canonical)" % (grid.pstr(L, d, b), gauge)

            def f(it, L=L, d=d, b=b, gauge=gauge, w=w):
                m0, A = canon(it, L, d, b, "left")
                tensors = A
                A = [spec.opaque(a, "A%d" % n) for n, a in enumerate(A)]
                H = ham(L, d)
                y = spec.opaque(act(H, A), "y")
                psi = spec.state([nd.wrap(a, "c") for a in A])
                ref = norm2(y).add(tn.outer(ip(psi, y), ip(psi, y).conj()).scale(-1))
                for n in range(L):
                    g = spec.opaque(perp(A[n], grad(A, n, y)), "g")
                    ri = nd.symof(nd.inv(nd.wrap(env_r(A, n), "c")))
                    ref = ref.add(tn.einsum([g.conj(), g, ri], [["s", "l", "x"], ["s", "l", "u"], ["u", "x"]], []).scale(-1))
                m = F(it)([nd.wrap(a, "c") for a in tensors])
                if gauge == "right":
                    call(it, m, "right_canonicalise")
                dt = 0.25
                e = call(it, m, "projection_error", H, dt)
                return [check(spec.eq(nd.symof(nd.reshape(nd.to_arr(e), ())), ref.scale(dt * dt)), "value", w + " is not the squared step times the squared norm of the component outside the tangent space"),
                        check(spec.eq(nd.symof(nd.reshape(nd.to_arr(it.getattr(m, "ε")), ())), ref.scale(dt * dt)), "stored", w + ": the stored error is another one")] \
                    + [proportional(spec.opaque(spec.state([nd.wrap(spec.opaque(a, "B"), "c") for a in data(m)]), "P"), psi, w + " changes the state")]
            add(w, "fMPS:fMPS.projection_error", f)

    # ------------------------------------------------------------------ the null space to the right
    for L, d, b in [(2, 2, [1]), (2, 3, [2]), (3, 2, [2, 2]), (3, 3, [2, 2]), (4, 2, [1, 2, 1])]:
        B = [1] + b + [1]
        for gauge in ("left", "right"):
            for n in range(L):
                if d * B[n + 1] == B[n]:
                    continue
                w = "right_null_projector(%d) of %s (%s canonical)" % (n, grid.pstr(L, d, b), gauge)

                def f(it, L=L, d=d, b=b, B=B, gauge=gauge, n=n, w=w):
                    m, A = canon(it, L, d, b, gauge)
                    pr, vR = call(it, m, "right_null_projector", n, None, True)
                    v, r = nd.symof(vR), env_r(A, n)
                    k = d * B[n + 1] - B[n]
                    if tuple(v.shape) != (d, k, B[n + 1]):
                        return [Fail("dimension", "%s: null space of shape %s" % (w, v.shape))]
                    p = nd.symof(pr)
                    out = [check(spec.eq(tn.einsum([v.conj(), v], [["s", "i", "c"], ["s", "j", "c"]], ["i", "j"]), tn.eye(k)), "not orthonormal", w + ": null space is not orthonormal"),
                           check(spec.eq(tn.einsum([A[n].conj(), r, p], [["s", "a", "c"], ["u", "c"], ["s", "u", "t", "e"]], ["a", "t", "e"]), tn.zero((B[n], d, B[n + 1]))), "not null", w + " does not remove the tensor"),
                           # idempotent in the metric of the environment
                           check(spec.eq(tn.einsum([p, r, p], [["s", "a", "t", "c"], ["u", "c"], ["t", "u", "x", "y"]], ["s", "a", "x", "y"]), p), "not a projector", w + " is not a projector"),
                           check(spec.eq(tn.einsum([p, r], [["s", "a", "s", "c"], ["a", "c"]], []), tn.scalar(k)), "rank", w + " has another rank")]
                    return out
                add(w, "fMPS:fMPS.right_null_projector", f)

    # ------------------------------------------------------------------ decisions
    for e, th in ((0.5, 1.0), (0.5, 0.25), (0.0, 1e-8), (1e-7, 1e-8), (1e-9, None)):
        def f(it, e=e, th=th):
            C = F(it)
            A = spec.mps_data(2, 2, [1])
            m = C(list(A))
            call(it, m, "left_canonicalise")
            before = [nd.symof(x) for x in data(m)]
            H = ham(2, 2)
            asked = []

            def get(inst):
                def projection_error(h, dt):
                    asked.append((h, dt))
                    return e
                return projection_error
            out = []
            with patched(C, projection_error=I.Prop(get)):
                w = "error %s, threshold %s" % (e, th)
                if th is not None:
                    s = call(it, m, "should_expand", H, 0.5, th)
                    if bool(s) != (e > th):
                        out.append(Fail("decision", "should_expand is %s for %s" % (s, w)))
                r = call(it, m, "dynamical_expand", H, 0.5, 2, th) if th != 1e-8 else call(it, m, "dynamical_expand", H, 0.5, 2)
                if r is not m:
                    out.append(Fail("not in place", "dynamical_expand does not return the state"))
                grown = shapes(m) != [(2, 1, 1), (2, 1, 1)]
                if grown != (th is None or e > th):
                    out.append(Fail("decision", "dynamical_expand %s for %s" % ("expands" if grown else "does not expand", w)))
                if not grown:
                    out += [check(spec.eq(nd.symof(x), y), "state changed", "dynamical_expand changes the state it does not expand (%s)" % w) for x, y in zip(data(m), before)]
                for h, dt in asked:
                    if dt != 0.5 or len(h) != 1 or not spec.eq(nd.symof(nd.reshape(h[0], (4, 4))), nd.symof(H[0]))[0]:
                        out.append(Fail("decision", "the projection error asked for is that of another Hamiltonian or step"))
            return out
        add("decision error=%s threshold=%s" % (e, th), "fMPS:fMPS.dynamical_expand", f)

    # ------------------------------------------------------------------ growing
    for L, d, b, D, ref in [(2, 2, [1], 2, [2]), (4, 2, [1, 1, 1], 4, [2, 4]), (4, 2, [1, 1, 1], 3, [2, 3]), (4, 2, [1, 1, 1], 8, [2, 4]), (4, 2, [2, 2, 2], 2, []), (4, 2, [2, 2, 2], 4, [4]), (4, 3, [1, 1, 1], 5, [3, 5]), (3, 2, [1, 1], 4, [2]), (4, 2, [1, 1, 1], None, []), (4, 2, [2, 3, 2], 2, []), (6, 2, [1] * 5, 7, [2, 4, 7])]:
        def f(it, L=L, d=d, b=b, D=D, ref=ref):
            C = F(it)
            m = C(spec.mps_data(L, d, b))
            st = spec.state(data(m)) if L < 5 else None
            H = ham(L, d)
            asked = []

            def get(inst):
                def dynamical_expand(h, dt, D_, threshold=1e-8):
                    asked.append((h, dt, D_, threshold))
                    if len(asked) > 8:
                        raise nd.Raise(RuntimeError, "does not terminate")
                    call(it, inst, "expand", D_)
                    return inst
                return dynamical_expand
            out = []
            with patched(C, dynamical_expand=I.Prop(get)):
                r = call(it, m, "grow", H, 0.125, D)
            w = "grow to %s of %s" % (D, grid.pstr(L, d, b))
            if r is not m:
                out.append(Fail("not in place", w + " does not return the state"))
            if [x[2] for x in asked] != ref:
                out.append(Fail("steps", "%s expands to %s, in turn, instead of %s" % (w, [x[2] for x in asked], ref)))
            if any(x[1] != 0.125 or x[0] is not H or x[3] is not None for x in asked):
                out.append(Fail("steps", w + " expands with another Hamiltonian, step or threshold"))
            if st is not None:
                out.append(proportional(spec.state(data(m)), st, w + " (by zeros) changes the state"))
            return out
        add("grow L=%d d=%d %s to %s" % (L, d, b, D), "fMPS:fMPS.grow", f, maxpaths=64)
    for L, d, b, D, ref in [(2, 2, [1], 2, [2]), (3, 2, [1, 1], 2, [2, 2]), (4, 2, [1, 1, 1], 2, [2, 2, 2])]:
        def f(it, L=L, d=d, b=b, D=D, ref=ref):
            m, A = canon(it, L, d, b)
            w = "grow to %s of %s" % (D, grid.pstr(L, d, b))
            call(it, m, "grow", ham(L, d), 0.125, D)
            sh = [s[2] for s in shapes(m)][:-1]
            out = [] if sh == ref else [Fail("structure", "%s gives bonds %s" % (w, sh))]
            if it.getattr(m, "D") != max(sh):
                out.append(Fail("recorded dimension", "%s records %s" % (w, it.getattr(m, "D"))))
            return out
        add("grow for real L=%d to %s" % (L, D), "fMPS:fMPS.grow", f, maxpaths=64)

    def w_expand(it, m, A, L, d, p):
        out = []
        for D in (max(p), max(p) + 1, 2 * max(p)):
            B = spec.mps_data(L, d, [min(d ** (i + 1), d ** (L - 1 - i), x) for i, x in enumerate(p)])
            a = F(it)(list(B))
            call(it, a, "expand", D)
            out.append(proportional(spec.state(data(a)), spec.state(B), "expand(%d) of %s changes the state" % (D, grid.pstr(L, d, p))))
        return out
    wide.run(obs, wide.sizes(tier, "expand"), "expand", "expand", w_expand, lambda L, d, p: d > 1)
    return obs
