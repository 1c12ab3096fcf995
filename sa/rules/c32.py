"""Second-order tensors: for a generic state in left-canonical form and generic complex Hermitian bond terms, F1, F2, the
connection, the Jacobian blocks and the action of ddA_dt are compared with the Hamiltonian sandwiched between tangent vectors of the
full state (bra first index, ket second index; null-space coordinates of left_null_projector), written without inverses by
lowering every bond index with the square root of its environment."""
from .common import *
from .c13 import canon, env_r, sqrtm, act, nulls, tangent_size

FLOOR = 30
E = "fMPS:fMPS."


def tvec(A, v, sites):
    """full vector with the tensors at the given sites replaced by vL and their right bonds opened;
    legs: physical, then (null, bond) for every site"""
    L = len(A)
    ops, labs, out = [], [], [("s", k) for k in range(L)]
    left = lambda k: ("c", k - 1) if k - 1 in sites else ("b", k)
    for k in range(L):
        if k in sites:
            ops.append(v[k])
            labs.append([("s", k), left(k), ("k", k)])
        else:
            ops.append(A[k])
            labs.append([("s", k), left(k), ("b", k + 1)])
    for b in ([("b", 0)] + [("c", L - 1) if L - 1 in sites else ("b", L)]):
        ops.append(tn.ones((1,)))
        labs.append([b])
    for k in sites:
        out += [("k", k), ("c", k)]
    return tn.einsum(ops, labs, out)


def hact(H, x, L, d):
    """bond terms on the first L legs"""
    res = None
    n = len(x.shape) - L
    ex = [("e", i) for i in range(n)]
    for i, h in enumerate(H):
        o = tn.reshape(nd.symof(h), (d,) * 4)
        t = tn.einsum([o, x], [[("s", i), ("s", i + 1), ("t", i), ("t", i + 1)], [("t", k) if k in (i, i + 1) else ("s", k) for k in range(L)] + ex],
                      [("s", k) for k in range(L)] + ex)
        res = t if res is None else res.add(t)
    return res


def lower(G, axes_r):
    """multiply bond axes of G with square roots of environments"""
    lab = list(range(len(G.shape)))
    ops, labs, out = [G], [lab], list(lab)
    for ax, r in axes_r:
        ops.append(sqrtm(r))
        labs.append([ax, ("o", ax)])
        out[ax] = ("o", ax)
    return tn.einsum(ops, labs, out)


def setup(it, L, d, p):
    m, A = canon(it, L, d, p)
    v = [nd.symof(call(it, m, "left_null_projector", n, get_vL=True)[1]) for n in range(L)]
    H = [spec.hermitian((d * d, d * d), (1, 0), "h%d" % i) for i in range(L - 1)]
    return m, A, v, H


def f1ref(A, v, H, i, j):
    L, d = len(A), A[0].shape[0]
    x, y = tvec(A, v, [i]), hact(H, tvec(A, v, [j]), L, d)
    s = list(range(L))
    return tn.einsum([x.conj(), y], [s + ["a", "b"], s + ["c", "e"]], ["a", "b", "c", "e"])


def f2ref(A, v, H, i, j):
    L, d = len(A), A[0].shape[0]
    a, b = min(i, j), max(i, j)
    x = tvec(A, v, [a, b]).conj()
    y = hact(H, spec.state([nd.wrap(t, "c") for t in A]), L, d)
    s = list(range(L))
    g = tn.einsum([x, y], [s + ["a", "b", "c", "e"], s], ["a", "b", "c", "e"])
    return g if i < j else tn.transpose(g, (2, 3, 0, 1))


def perp_ax(A, G, ax, conj=False):
    """(1 - A A^dagger) on axes ax, ax+1 of G (its transpose for a ket index)"""
    a = A.conj() if conj else A
    lab = list(range(len(G.shape)))
    inn, out = list(lab), list(lab)
    inn[ax], inn[ax + 1] = "t", "m"
    return G.add(tn.einsum([a, a.conj(), G], [[ax, ax + 1, "c"], ["t", "m", "c"], inn], out).scale(-1))


def form(A, i, j, k):
    """d^3 <psi|psi> / dA_i* dA_j* dA_k for i < j, projected on the null spaces"""
    L = len(A)
    ops, labs = [], []
    for q in range(L):
        if q not in (i, j):
            ops.append(A[q].conj())
            labs.append([("s", q), ("x", q), ("x", q + 1)])
        if q != k:
            ops.append(A[q])
            labs.append([("s", q), ("y", q), ("y", q + 1)])
    out = []
    for q, c in ((i, "x"), (j, "x"), (k, "y")):
        out.append([("s", q), (c, q), (c, q + 1)])
    # a leg open in bra and ket at the same site: identity when no other tensor carries it
    cnt = {}
    res = []
    for g in out:
        for t in g:
            cnt[t] = cnt.get(t, 0) + 1
            n = (t, cnt[t])
            res.append(n)
    inner = set(t for l in labs for t in l)
    extra_o, extra_l = [], []
    dims = {}
    for o, l in zip(ops, labs):
        for t, n in zip(l, o.shape):
            dims[t] = n
    for q, c in ((i, "x"), (j, "x"), (k, "y")):
        for t, n in zip([("s", q), (c, q), (c, q + 1)], A[q].shape):
            dims[t] = n
    names = []
    for t in dict.fromkeys(t for t, _ in res):
        occ = [r for r in res if r[0] == t]
        tot = occ + ([t] if t in inner else [])
        n = dims[t]
        if len(tot) == 1:            # only one open leg: a free sum over nothing else
            extra_o.append(tn.ones((n,)))
            extra_l.append([occ[0]])
            if n != 1:
                raise AssertionError("open leg without partner")
            continue
        if len(tot) == 2:
            extra_o.append(tn.eye(n))
            extra_l.append([tot[0], tot[1]])
        else:                        # size-one boundary legs only
            raise AssertionError("leg used three times")
    for b in (("x", 0), ("y", 0), ("x", L), ("y", L)):
        if b in inner and not any(r[0] == b for r in res):
            extra_o.append(tn.ones((1,)))
            extra_l.append([b])
    G = tn.einsum(ops + extra_o, labs + extra_l, res)
    G = perp_ax(A[i], G, 0)
    G = perp_ax(A[j], G, 3)
    return perp_ax(A[k], G, 6, True)


def obligations(tier):
    obs = []
    big = tier != "quick"
    G = [(2, 2, [2]), (3, 2, [2, 2]), (3, 2, [1, 2]), (2, 3, [2]), (4, 2, [2, 2, 2])]
    if big:
        G += [(4, 2, [2, 3, 2]), (4, 2, [2, 4, 2]), (5, 2, [2, 2, 2, 2]), (4, 2, [2, 1, 2]), (3, 3, [2, 2]), (5, 2, [1, 2, 2, 1])]
    G += [(v, 2, [2] * (v - 1)) for v in grid.more(["fMPS:fMPS.F1", "fMPS:fMPS.F2", "fMPS:fMPS.christoffel", "fMPS:fMPS.jac", "fMPS:fMPS.ddA_dt"], ("fMPS",), 4, 6)] + [(2, v, [2]) for v in grid.more(["fMPS:fMPS.F1", "fMPS:fMPS.F2", "fMPS:fMPS.christoffel", "fMPS:fMPS.jac", "fMPS:fMPS.ddA_dt"], cap=9)]
    for L, d, p in G:
        wh = grid.pstr(L, d, p)
        for i in range(L):
            for j in range(L):
                def f(it, L=L, d=d, p=p, wh=wh, i=i, j=j):
                    m, A, v, H = setup(it, L, d, p)
                    g = nd.symof(call(it, m, "F1", i, j, H))
                    ref = f1ref(A, v, H, i, j)
                    s = "F1(%d, %d); %s" % (i, j, wh)
                    if tuple(g.shape) != tuple(ref.shape):
                        return [Fail("shape", "%s has shape %s instead of %s" % (s, g.shape, ref.shape))]
                    return [check(spec.eq(lower(g, [(1, env_r(A, i)), (3, env_r(A, j))]), ref), "value differs", s + " is not the Hamiltonian between the tangent vectors of the two sites")]
                obs.append(Ob("F1 %d,%d %s" % (i, j, wh), E + "F1", f))

                def f(it, L=L, d=d, p=p, wh=wh, i=i, j=j):
                    m, A, v, H = setup(it, L, d, p)
                    g = nd.symof(call(it, m, "F2", i, j, H))
                    s = "F2(%d, %d); %s" % (i, j, wh)
                    sh = (v[i].shape[2], A[i].shape[2], v[j].shape[2], A[j].shape[2])
                    if tuple(g.shape) != sh:
                        return [Fail("shape", "%s has shape %s instead of %s" % (s, g.shape, sh))]
                    if i == j:
                        return [check(spec.eq(g, tn.zero(g.shape)), "value differs", s + " is not zero")]
                    return [check(spec.eq(lower(g, [(1, env_r(A, i)), (3, env_r(A, j))]), f2ref(A, v, H, i, j)), "value differs", s + " is not the Hamiltonian between the second derivative and the state")]
                obs.append(Ob("F2 %d,%d %s" % (i, j, wh), E + "F2", f))

        # connection
        if L * d <= 8 and max(p) <= 2:
            for i in range(L):
                for j in range(L):
                    for k in range(L):
                        if L == 4 and not big and not (i != j and k in (i, j) and abs(i - j) > 1):
                            continue

                        def f(it, L=L, d=d, p=p, wh=wh, i=i, j=j, k=k):
                            m, A, v, H = setup(it, L, d, p)
                            g = nd.symof(call(it, m, "christoffel", i, j, k))
                            s = "christoffel(%d, %d, %d); %s" % (i, j, k, wh)
                            sh = tuple(A[i].shape) + tuple(A[j].shape) + tuple(A[k].shape)
                            if tuple(g.shape) != sh:
                                return [Fail("shape", "%s has shape %s instead of %s" % (s, g.shape, sh))]
                            if i == j:
                                return [check(spec.eq(g, tn.zero(sh)), "value differs", s + " is not zero")]
                            a, b = min(i, j), max(i, j)
                            lab = list(range(9))
                            gg = tn.einsum([g, env_r(A, i), env_r(A, j), env_r(A, k)], [lab, [2, "i"], [5, "j"], ["k", 8]], [0, 1, "i", 3, 4, "j", 6, 7, "k"])
                            ref = form(A, a, b, k).scale(-1)
                            if i > j:
                                ref = tn.transpose(ref, (3, 4, 5, 0, 1, 2, 6, 7, 8))
                            return [check(spec.eq(gg, ref), "value differs", s + " is not minus the overlap of second and first derivatives")]
                        obs.append(Ob("christoffel %d,%d,%d %s" % (i, j, k, wh), E + "christoffel", f))
                    if i != j:
                        def f(it, L=L, d=d, p=p, wh=wh, i=i, j=j):
                            m, A, v, H = setup(it, L, d, p)
                            k = min(i, j)
                            s = "closed christoffel(%d, %d, %d); %s" % (i, j, k, wh)
                            if not v[k].shape[2]:
                                return []
                            x = spec.tensor((v[k].shape[2], A[k].shape[2]), "x")
                            bx = tn.einsum([v[k], nd.symof(x)], [["s", "l", "k"], ["k", "r"]], ["s", "l", "r"])     # B r with B = vL x / r
                            g = nd.symof(call(it, m, "christoffel", i, j, k, closed=(None, None, nd.wrap(bx, "c"))))
                            a, b = min(i, j), max(i, j)
                            y = tvec(A, v, [a, b]).conj()
                            n = list(range(L))
                            # ket: B = vL x / r  ->  lower by contracting the open bond of the tangent vector with x / r
                            xr = nd.symof(nd.inv(nd.wrap(env_r(A, k), "c")))
                            t = tvec(A, v, [k])
                            ket = tn.einsum([t, nd.symof(x), xr], [n + ["a", "b"], ["a", "c"], ["c", "b"]], n)
                            ref = tn.einsum([y, ket], [n + ["a", "b", "c", "e"], n], ["a", "b", "c", "e"]).scale(-1)
                            if i > j:
                                ref = tn.transpose(ref, (2, 3, 0, 1))
                            if tuple(g.shape) != tuple(ref.shape):
                                return [Fail("shape", "%s has shape %s instead of %s" % (s, g.shape, ref.shape))]
                            return [check(spec.eq(lower(g, [(1, env_r(A, i)), (3, env_r(A, j))]), ref), "value differs", s + " is not minus the overlap of the second derivative with the tangent vector")]
                        obs.append(Ob("christoffel closed %d,%d %s" % (i, j, wh), E + "christoffel", f))

        # Jacobian
        if (L, d) in ((2, 2), (3, 2)) or big and d == 2:
            def f(it, L=L, d=d, p=p, wh=wh):
                m, A, v, H = setup(it, L, d, p)
                J1, J2, Gm = call(it, m, "jac", H, real_matrix=False)
                S = [n for n in range(L) if v[n].shape[2]]
                size = lambda n: v[n].shape[2] * A[n].shape[2]
                off, o = {}, 0
                for n in S:
                    off[n] = o
                    o += size(n)
                out = []
                if tuple(J1.shape) != (o, o) or tuple(J2.shape) != (o, o):
                    return [Fail("shape", "jac has blocks of shape %s, %s instead of %d; %s" % (J1.shape, J2.shape, o, wh))]
                blk = lambda M, i, j: tn.reshape(nd.symof(nd.getitem(M, (slice(off[i], off[i] + size(i)), slice(off[j], off[j] + size(j))))), (v[i].shape[2], A[i].shape[2], v[j].shape[2], A[j].shape[2]))
                for i in S:
                    for j in S:
                        low = lambda g: lower(g, [(1, env_r(A, i)), (3, env_r(A, j))])
                        out.append(check(spec.eq(low(blk(J1, i, j)), f1ref(A, v, H, i, j).scale(-1j)), "value differs", "jac: first block at sites %d, %d; %s" % (i, j, wh)))
                        ref = f2ref(A, v, H, i, j).scale(-1j) if i != j else tn.zero((v[i].shape[2], A[i].shape[2]) * 2)
                        out.append(check(spec.eq(low(blk(J2, i, j)), ref), "value differs", "jac: second block at sites %d, %d; %s" % (i, j, wh)))
                J = call(it, m, "jac", H)
                n = o
                re, im = nd.real, nd.imag
                K = nd.binop("+", J2, Gm)
                q = lambda a, b: nd.getitem(J, (slice(a * n, a * n + n), slice(b * n, b * n + n)))
                neg = lambda x: nd.binop("*", x, -1)
                for (a, b), r in {(0, 0): nd.binop("+", re(J1), re(K)), (0, 1): nd.binop("+", neg(im(J1)), im(K)), (1, 0): nd.binop("+", im(J1), im(K)), (1, 1): nd.binop("+", re(J1), neg(re(K)))}.items():
                    out.append(check(spec.eq(q(a, b), r), "real form differs", "jac: block %d, %d of the real matrix is not that of x -> J1 x + J2 conj(x); %s" % (a, b, wh)))
                return out
            obs.append(Ob("jac %s" % wh, E + "jac", f))

            def f(it, L=L, d=d, p=p, wh=wh):
                m, A, v, H = setup(it, L, d, p)
                J1, J2, Gm = call(it, m, "jac", H, real_matrix=False)
                x = spec.tensor((tangent_size(A),), "x")
                y = call(it, m, "ddA_dt", x, H)
                mv = lambda M, z: nd.wrap(tn.einsum([nd.symof(M), nd.symof(z)], [["i", "j"], ["j"]], ["i"]), "c")
                ref = nd.binop("+", mv(J1, x), mv(nd.binop("+", J2, Gm), nd.conj(x)))
                return [expect(y, ref, "value differs", "ddA_dt is not the Jacobian acting on the tangent vector; " + wh)]
            obs.append(Ob("ddA_dt %s" % wh, E + "ddA_dt", f))
    return sorted(obs, key=lambda o: not o.name.startswith(('jac', 'ddA_dt')))
