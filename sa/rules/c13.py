"""Time-derivative tensors: for a generic state brought to left-canonical form and generic (also non-Hermitian) Hamiltonians the
tensors of dA_dt are compared with the projected action of the Hamiltonian on the full state vector, written without inverses
(B r = -i (1 - A A^dagger) <d psi|H|psi>); null projectors, tangent vectors and their coordinates are compared with their
defining relations. The grid contains states whose sites without tangent directions are not the first ones."""
from .common import *

FLOOR = 60
E = "fMPS:fMPS."


def canon(it, L, d, p, hand="left", *a):
    m = call(it, spec.fMPS(it, spec.mps_data(L, d, p)), hand + "_canonicalise", *a)
    return m, [nd.symof(x) for x in data(m)]


def env_r(A, n):
    """right environment of the bond to the right of site n, (ket, bra)"""
    cur = tn.eye(1)
    for q in reversed(range(n + 1, len(A))):
        cur = tn.einsum([A[q], A[q].conj(), cur], [["s", "x", "u"], ["s", "y", "v"], ["u", "v"]], ["x", "y"])
    return cur


def env_l(A, n):
    """left environment of the bond to the left of site n, (ket, bra)"""
    cur = tn.eye(1)
    for q in range(n):
        cur = tn.einsum([A[q], A[q].conj(), cur], [["s", "x", "u"], ["s", "y", "v"], ["x", "y"]], ["u", "v"])
    return cur


def act(H, A):
    """H on the full vector; H: list of bond terms or one full matrix"""
    st = spec.state([nd.wrap(a, "c") for a in A])
    L, d = len(A), A[0].shape[0]
    if isinstance(H, list):
        res = None
        for i, h in enumerate(H):
            o = tn.reshape(nd.symof(h), (d,) * 4)
            lab = [("s", k) for k in range(L)]
            inp = [("t", k) if k in (i, i + 1) else ("s", k) for k in range(L)]
            t = tn.einsum([o, st], [[("s", i), ("s", i + 1), ("t", i), ("t", i + 1)], inp], lab)
            res = t if res is None else res.add(t)
        return res
    o = tn.reshape(nd.symof(H), (d,) * (2 * L))
    return tn.einsum([o, st], [[("s", k) for k in range(L)] + [("t", k) for k in range(L)], [("t", k) for k in range(L)]], [("s", k) for k in range(L)])


def grad(A, n, hv):
    """derivative of <psi|v> with respect to the conjugated tensor at n"""
    L = len(A)
    ops, labs = [hv], [[("s", k) for k in range(L)]]
    for k in range(L):
        if k != n:
            ops.append(A[k].conj())
            labs.append([("s", k), ("b", k), ("b", k + 1)])
    # the outer bonds have size one: closed, or open legs of the result
    for b in (0, L):
        ops.append(tn.ones((1,)))
        labs.append([("b", b)])
    return tn.einsum(ops, labs, [("s", n), ("b", n), ("b", n + 1)])


def perp(A, x):
    """(1 - A A^dagger) x for a left isometry A"""
    return x.add(tn.einsum([A, A.conj(), x], [["s", "l", "c"], ["t", "m", "c"], ["t", "m", "r"]], ["s", "l", "r"]).scale(-1))


def nulls(A):
    return [a.shape[0] * a.shape[1] - a.shape[2] for a in A]


def tangent_size(A):
    return sum((a.shape[0] * a.shape[1] - a.shape[2]) * a.shape[2] for a in A)


def obligations(tier):
    obs = []
    big = tier != "quick"
    it0 = I.Interp()
    G = [(2, 2, [2]), (2, 2, [1]), (2, 3, [2]), (3, 2, [2, 2]), (3, 2, [1, 2]), (3, 2, [2, 1]), (3, 3, [2, 3]), (3, 2, [1, 1]), (4, 2, [2, 3, 2]), (4, 2, [2, 2, 1]), (4, 2, [2, 1, 2])]
    if big:
        G += [(4, 2, [2, 4, 2]), (5, 2, [2, 2, 2, 2]), (5, 2, [1, 2, 2, 1]), (4, 3, [2, 2, 2]), (3, 4, [2, 3])]
    for v in grid.more([E + "dA_dt", E + "left_null_projector", E + "get_envs"], cap=12):
        if not any(g[0] == v for g in G):
            G.append((v, 2, [2] * (v - 1)))
        G.append((2, v, [2]))
        if v <= 9:
            G.append((4, 3, [3, v, 3]))
    for L, d, p in G:
        wh = grid.pstr(L, d, p)
        for kind in ("terms", "full"):
            if kind == "full" and (d ** L > 9 and p != [2, 3, 2]) and not (big and d ** L <= 27):
                continue

            def f(it, L=L, d=d, p=p, wh=wh, kind=kind):
                m, A = canon(it, L, d, p)
                H = [spec.tensor((d * d, d * d), "h%d" % i) for i in range(L - 1)] if kind == "terms" else spec.tensor((d ** L, d ** L), "H")
                B = call(it, m, "dA_dt", H) if kind == "terms" else call(it, m, "dA_dt", H, fullH=True)
                hv = act(H, A)
                out = []
                if len(data(B)) != L:
                    return [Fail("length", "dA_dt returns %d tensors; %s" % (len(data(B)), wh))]
                for n, b in enumerate(data(B)):
                    b = nd.symof(b)
                    if tuple(b.shape) != tuple(A[n].shape):
                        out.append(Fail("shape", "dA_dt at site %d has shape %s; %s" % (n, b.shape, wh)))
                        continue
                    lhs = tn.einsum([b, env_r(A, n)], [["s", "l", "x"], ["x", "r"]], ["s", "l", "r"])
                    rhs = perp(A[n], grad(A, n, hv)).scale(-1j)
                    out.append(check(spec.eq(lhs, rhs), "derivative differs", "dA_dt (%s) at site %d is not the projected action of the Hamiltonian; %s" % (kind, n, wh)))
                    g = tn.einsum([A[n].conj(), b], [["s", "l", "x"], ["s", "l", "y"]], ["x", "y"])
                    out.append(check(spec.eq(g, tn.zero(g.shape)), "gauge condition", "dA_dt (%s) at site %d violates the left gauge condition; %s" % (kind, n, wh)))
                for x, a in zip(data(m), A):
                    out.append(check(spec.eq(x, nd.wrap(a, "c")), "state changed", "dA_dt changes the state; " + wh))
                return out
            obs.append(Ob("dA_dt %s %s" % (kind, wh), E + "dA_dt", f))
        for hand in ("left", "right"):
            def f(it, L=L, d=d, p=p, wh=wh, hand=hand):
                m, A = canon(it, L, d, p, hand)
                out = []
                for n in range(L):
                    pr, v = call(it, m, "left_null_projector", n, get_vL=True)
                    s, v, pr = "left_null_projector(%d) after %s_canonicalise; %s" % (n, hand, wh), nd.symof(v), nd.symof(pr)
                    k = d * A[n].shape[1] - A[n].shape[2]
                    if tuple(v.shape) != (d, A[n].shape[1], k):
                        out.append(Fail("dimension", "%s: null space of shape %s" % (s, v.shape)))
                        continue
                    out.append(check(spec.eq(left_iso(nd.wrap(v, "c")), tn.eye(k)), "not orthonormal", s))
                    l = env_l(A, n)
                    # pr = 1/sqrt(l) vL vL^dagger 1/sqrt(l): l pr is a projector killing A and of the dimension of the null space
                    lp = tn.einsum([pr, l], [["s", "a", "t", "b"], ["x", "a"]], ["s", "x", "t", "b"])
                    out.append(check(spec.eq(tn.einsum([lp, lp], [["s", "a", "t", "b"], ["t", "b", "u", "c"]], ["s", "a", "u", "c"]), lp), "not a projector", s))
                    la = tn.einsum([l, A[n].conj()], [["a", "b"], ["s", "b", "r"]], ["s", "a", "r"])
                    z = tn.einsum([pr, la], [["s", "a", "t", "b"], ["s", "a", "r"]], ["t", "b", "r"])
                    out.append(check(spec.eq(z, tn.zero(z.shape)), "gauge condition", s + ": the projector does not annihilate the tensor"))
                    out.append(check(spec.eq(tn.einsum([lp], [["s", "a", "s", "a"]], []), tn.scalar(k)), "dimension", s + ": the projector has another rank than the null space"))
                if hand == "right":
                    for n in range(L):
                        pr, v = call(it, m, "right_null_projector", n, get_vR=True)
                        s, v, pr = "right_null_projector(%d) after right_canonicalise; %s" % (n, wh), nd.symof(v), nd.symof(pr)
                        k = d * A[n].shape[2] - A[n].shape[1]
                        if tuple(v.shape) != (d, k, A[n].shape[2]):
                            out.append(Fail("dimension", "%s: null space of shape %s" % (s, v.shape)))
                            continue
                        out.append(check(spec.eq(right_iso(nd.wrap(v, "c")), tn.eye(k)), "not orthonormal", s))
                        z = tn.einsum([A[n].conj(), v], [["s", "l", "r"], ["s", "k", "r"]], ["l", "k"])
                        out.append(check(spec.eq(z, tn.zero(z.shape)), "gauge condition", s))
                        out.append(check(spec.eq(tn.einsum([v, v.conj()], [["s", "k", "a"], ["t", "k", "b"]], ["s", "a", "t", "b"]), pr), "value differs", s))
                return out
            obs.append(Ob("null projectors %s %s" % (hand, wh), E + "left_null_projector", f))

            def f(it, L=L, d=d, p=p, wh=wh, hand=hand):
                m, A = canon(it, L, d, p, hand)
                k = tangent_size(A)
                sh = call(it, m, "tangent_space_dims")
                s = "after %s_canonicalise; %s" % (hand, wh)
                out = []
                want = [(a.shape[0] * a.shape[1] - a.shape[2], a.shape[2]) for a in A]
                if [tuple(int(y) for y in x) for x in sh] != want:
                    return [Fail("dimension", "tangent_space_dims gives %s instead of %s %s" % (sh, want, s))]
                v = spec.tensor((k,), "v")
                B = call(it, m, "import_tangent_vector", v)
                bs = [nd.symof(x) for x in data(B)]
                for n in range(L):
                    if tuple(bs[n].shape) != tuple(A[n].shape):
                        return [Fail("shape", "import_tangent_vector gives a tensor of shape %s at site %d %s" % (bs[n].shape, n, s))]
                    l = env_l(A, n)
                    z = tn.einsum([l, A[n].conj(), bs[n]], [["a", "b"], ["s", "b", "x"], ["s", "a", "y"]], ["x", "y"])
                    out.append(check(spec.eq(z, tn.zero(z.shape)), "gauge condition", "import_tangent_vector at site %d %s" % (n, s)))
                tot = None
                for n in range(L):
                    t = spec.state([nd.wrap(bs[q] if q == n else A[q], "c") for q in range(L)])
                    tot = t if tot is None else tot.add(t)
                out.append(check(spec.eq(norm2(tot), norm2(nd.symof(v))), "not isometric", "the coordinates of import_tangent_vector are not orthonormal " + s))
                back = call(it, m, "extract_tangent_vector", B)
                out.append(check(spec.eq(back, v), "round trip", "extract_tangent_vector(import_tangent_vector(v)) is not v " + s))
                return out
            if any(nulls([nd.symof(x) for x in spec.mps_data(L, d, p)])) :
                obs.append(Ob("tangent vectors %s %s" % (hand, wh), E + "import_tangent_vector", f))

        def f(it, L=L, d=d, p=p, wh=wh):
            m, A = canon(it, L, d, p)
            H = [spec.tensor((d * d, d * d), "h%d" % i) for i in range(L - 1)]
            B = call(it, m, "dA_dt", H)
            v = call(it, m, "extract_tangent_vector", B)
            C = call(it, m, "import_tangent_vector", v)
            return [check(spec.eq(x, y), "round trip", "import_tangent_vector(extract_tangent_vector(dA)) is not dA at site %d; %s" % (n, wh)) for n, (x, y) in enumerate(zip(data(C), data(B)))]
        if any(nulls([nd.symof(x) for x in spec.mps_data(L, d, p)])):
            obs.append(Ob("tangent round trip %s" % wh, E + "extract_tangent_vector", f))

        def f(it, L=L, d=d, p=p, wh=wh):
            m, A = canon(it, L, d, p)
            out = []
            for n in range(L):
                k = d * A[n].shape[1] - A[n].shape[2]
                if not k:
                    continue
                x = spec.tensor((k, A[n].shape[2]), "x")
                _, v = call(it, m, "left_null_projector", n, get_vL=True)
                t = call(it, m, "tangent_state", x, n)
                st = spec.state(data(t))
                out.append(check(spec.eq(norm2(st), norm2(nd.symof(x))), "not isometric", "tangent_state(x, %d) has not the norm of x; %s" % (n, wh)))
                z = tn.einsum([spec.state([nd.wrap(a, "c") for a in A]).conj(), st], [list(range(L))] * 2, [])
                out.append(check(spec.eq(z, tn.zero(z.shape)), "gauge condition", "tangent_state(x, %d) is not orthogonal to the state; %s" % (n, wh)))
                r = env_r(A, n)
                got = grad(A, n, st)   # vL x sqrt(r)
                out.append(check(spec.eq(tn.einsum([nd.symof(v).conj(), got], [["s", "l", "k"], ["s", "l", "r"]], ["k", "r"]), tn.einsum([nd.symof(x), sqrtm(r)], [["k", "a"], ["a", "r"]], ["k", "r"])), "value differs", "tangent_state(x, %d) is not the tangent vector with coordinates x; %s" % (n, wh)))
            return out
        if any(nulls([nd.symof(x) for x in spec.mps_data(L, d, p)])):
            obs.append(Ob("tangent_state %s" % wh, E + "tangent_state", f))
        def f(it, L=L, d=d, p=p, wh=wh):
            out = []
            for type in ("eye", "rand"):
                m, A = canon(it, L, d, p)
                k = tangent_size(A)
                V = nd.symof(call(it, m, "tangent_space_basis", type))
                if tuple(V.shape) != (k, k):
                    out.append(Fail("dimension", "tangent_space_basis(%r) has shape %s instead of %s; %s" % (type, V.shape, (k, k), wh)))
                    continue
                out.append(check(spec.eq(tn.einsum([V, V.conj()], [["i", "x"], ["j", "x"]], ["i", "j"]), tn.eye(k)), "not orthonormal", "tangent_space_basis(%r); %s" % (type, wh)))
                if type == "eye":
                    out.append(check(spec.eq(V, tn.eye(k)), "value differs", "tangent_space_basis('eye') is not the coordinate basis; " + wh))
            return [o for o in out if o]
        if any(nulls([nd.symof(x) for x in spec.mps_data(L, d, p)])):
            obs.append(Ob("tangent_space_basis %s" % wh, E + "tangent_space_basis", f))
    # ---- arbitrary gauge: nothing is known about the environments
    GG = [(2, 2, [2]), (2, 2, [1]), (3, 2, [2, 2]), (3, 2, [1, 2]), (3, 2, [2, 1]), (2, 3, [2]), (4, 2, [2, 3, 2])]
    if big:
        GG += [(3, 3, [2, 3]), (4, 2, [2, 2, 1]), (4, 2, [1, 2, 2]), (5, 2, [2, 2, 2, 2])]
    for L, d, p in GG:
        wh = "generic gauge, " + grid.pstr(L, d, p)
        for kind in ("terms", "full"):
            if kind == "full" and d ** L > 9:
                continue

            def f(it, L=L, d=d, p=p, wh=wh, kind=kind):
                A = [nd.symof(x) for x in spec.mps_data(L, d, p)]
                m = spec.fMPS(it, [nd.wrap(a, "c") for a in A])
                if kind == "terms":
                    H = [spec.tensor((d * d, d * d), "h%d" % i) for i in range(L - 1)]
                    B = call(it, m, "dA_dt", H)
                else:
                    H = spec.tensor((d ** L, d ** L), "H")
                    B = call(it, m, "dA_dt", H, fullH=True)
                out = []
                for n, b in enumerate(data(B)):
                    k = d * A[n].shape[1] - A[n].shape[2]
                    where = "dA_dt (%s) at site %d is not the projected action of the Hamiltonian; %s" % (kind, n, wh)
                    if k <= 0:
                        out.append(check(spec.eq(b, tn.zero(A[n].shape)), "derivative differs", where))
                        continue
                    P = left_projector(A, n)
                    if kind == "full":
                        Y = tn.einsum([grad(A, n, act(H, A)), inv_r(A, n)], [["t", "b", "x"], ["x", "c"]], ["t", "b", "c"])
                    else:
                        Y = tn.zero(A[n].shape)
                        for j, h in enumerate(H):
                            if j <= n:
                                Y = Y.add(term(A, n, j, nd.symof(h)))
                    ref = tn.einsum([P, Y], [["s", "a", "t", "b"], ["t", "b", "c"]], ["s", "a", "c"]).scale(-1j)
                    out.append(check(spec.eq(b, ref), "derivative differs", where))
                for x, a in zip(data(m), A):
                    out.append(check(spec.eq(x, nd.wrap(a, "c")), "state changed", "dA_dt changes the state; " + wh))
                return [o for o in out if o]
            obs.append(Ob("dA_dt %s %s" % (kind, wh), E + "dA_dt", f))

        def f(it, L=L, d=d, p=p, wh=wh):
            A = [nd.symof(x) for x in spec.mps_data(L, d, p)]
            m = spec.fMPS(it, [nd.wrap(a, "c") for a in A])
            out = []
            for n in range(L):
                for side in ("left", "right"):
                    k = d * A[n].shape[1] - A[n].shape[2] if side == "left" else d * A[n].shape[2] - A[n].shape[1]
                    if k <= 0:
                        continue
                    pr, v = call(it, m, side + "_null_projector", n, **{"get_v" + side[0].upper(): True})
                    pr2 = call(it, m, side + "_null_projector", n)
                    P = left_projector(A, n) if side == "left" else right_projector(A, n)
                    out.append(check(spec.eq(pr, P), "value differs", "%s_null_projector(%d) is not the projector on the directions orthogonal to the tensor in the metric of its environment; %s" % (side, n, wh)))
                    out.append(check(spec.eq(pr2, pr), "option", "%s_null_projector(%d) depends on the option returning the null space; %s" % (side, n, wh)))
                    lab = ["s", "a", "i"] if side == "left" else ["s", "i", "a"]
                    v = nd.symof(v)
                    g = tn.einsum([v.conj(), v], [lab, [("j" if q == "i" else q) for q in lab]], ["i", "j"])
                    out.append(check(v.shape[lab.index("i")] == k and spec.eq(g, tn.eye(k)), "not orthonormal", "%s_null_projector(%d): null vectors; %s" % (side, n, wh)))
            return [o for o in out if o]
        obs.append(Ob("null projectors %s" % wh, E + "left_null_projector", f))

        def f(it, L=L, d=d, p=p, wh=wh):
            A = [nd.symof(x) for x in spec.mps_data(L, d, p)]
            m = spec.fMPS(it, [nd.wrap(a, "c") for a in A])
            k = sum(max(d * a.shape[1] - a.shape[2], 0) * a.shape[2] for a in A)
            v = spec.tensor((k,), "v")
            B = call(it, m, "import_tangent_vector", v)
            out = []
            tot = tn.zero(())
            for n, b in enumerate(data(B)):
                l, r = env_l(A, n), env_r(A, n)
                b = nd.symof(b)
                z = tn.einsum([l, A[n].conj(), b], [["a", "b"], ["s", "b", "x"], ["s", "a", "y"]], ["x", "y"])
                out.append(check(spec.eq(z, tn.zero(z.shape)), "gauge condition", "import_tangent_vector at site %d; %s" % (n, wh)))
                tot = tot.add(tn.einsum([l, b.conj(), b, r], [["a", "b"], ["s", "b", "y"], ["s", "a", "x"], ["x", "y"]], []))
            out.append(check(spec.eq(tot, norm2(nd.symof(v))), "not isometric", "the coordinates of import_tangent_vector are not orthonormal; " + wh))
            back = call(it, m, "extract_tangent_vector", B)
            out.append(check(spec.eq(back, v), "round trip", "extract_tangent_vector(import_tangent_vector(v)) is not v; " + wh))
            return [o for o in out if o]
        obs.append(Ob("tangent vectors %s" % wh, E + "import_tangent_vector", f))
    return obs


def left_projector(A, n):
    """projector on the directions at site n orthogonal to A[n] in the metric of the left environment, legs (s, ket; t, bra)"""
    d = A[n].shape[0]
    i0 = nd.symof(nd.inv(nd.wrap(env_l(A, n), "c")))          # (bra, ket)
    i1 = nd.symof(nd.inv(nd.wrap(env_l(A, n + 1), "c")))
    P = tn.einsum([tn.eye(d), i0], [["s", "t"], ["b", "a"]], ["s", "a", "t", "b"])
    return P.add(tn.einsum([A[n], i1, A[n].conj()], [["s", "a", "x"], ["y", "x"], ["t", "b", "y"]], ["s", "a", "t", "b"]).scale(-1))


def right_projector(A, n):
    """the same to the right, legs (s, ket; t, bra) on the right bonds"""
    d = A[n].shape[0]
    i0 = nd.symof(nd.inv(nd.wrap(env_r(A, n), "c")))          # (bra, ket)
    i1 = nd.symof(nd.inv(nd.wrap(env_r(A, n - 1), "c")))
    P = tn.einsum([tn.eye(d), i0], [["s", "t"], ["b", "a"]], ["s", "a", "t", "b"])
    return P.add(tn.einsum([A[n], i1, A[n].conj()], [["s", "x", "a"], ["y", "x"], ["t", "y", "b"]], ["s", "a", "t", "b"]).scale(-1))


def inv_r(A, n):
    return nd.symof(nd.inv(nd.wrap(env_r(A, n), "c")))        # (bra, ket)


def term(A, n, j, h):
    """bond term j <= n of the derivative at site n: bra open at site n, right environment of site n divided out; legs (t, bra; ket)"""
    d = A[n].shape[0]
    o = tn.reshape(h, (d,) * 4)
    last = max(n, j + 1)
    ops, labs = [o], [[("s", j), ("s", j + 1), ("t", j), ("t", j + 1)]]
    for k in range(last + 1):
        ops.append(A[k])
        labs.append([("t" if k in (j, j + 1) else "s", k), ("k", k), ("k", k + 1)])
        if k != n:
            ops.append(A[k].conj())
            labs.append([("s", k), ("b", k), ("b", k + 1)])
    ops += [tn.ones((1,)), tn.ones((1,))] if n else [tn.ones((1,))]
    labs += [[("k", 0)], [("b", 0)]] if n else [[("k", 0)]]
    if last > n:
        ops += [env_r(A, last), inv_r(A, n)]
        labs += [[("k", last + 1), ("b", last + 1)], [("b", n + 1), "c"]]
        res = tn.einsum(ops, labs, [("s", n), ("b", n), "c"] if n else [("s", n), "c"])
    else:
        res = tn.einsum(ops, labs, [("s", n), ("b", n), ("k", n + 1)] if n else [("s", n), ("k", n + 1)])
    return res if n else tn.reshape(res, (d, 1, A[n].shape[2]))


def sqrtm(r):
    """square root of a diagonal environment"""
    return nd.symof(nd.diag(nd.sqrt(nd.diag(nd.wrap(r, "c")))))
