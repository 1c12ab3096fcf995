"""Built-in operators.  The tables of constants are propagated through the constructors for every spin and size of the grid and
compared with their defining algebra; embeddings, symmetrisations, expansions in generators and group elements are analysed with
abstract operators and abstract real coefficients."""
import itertools
import math
import numpy as np
from .common import *

FLOOR = 60
ASSUMPTIONS = ["n_body with an explicit local dimension is specified for two-site operators on the links of a chain (the way every caller uses it)", "ladders is specified for the spins it tabulates (1/2, 1, 3/2)"]


def num(x):
    if isinstance(x, (list, tuple)):
        x = nd.array(list(x))
    if not nd.deep_const(x):
        raise nd.Unsupported("table entry is not a constant")
    return np.asarray(nd.raw(x)).astype(complex)


def close(a, b, tag, what):
    a, b = np.asarray(a), np.asarray(b)
    return check(a.shape == b.shape and bool(np.allclose(a, b, atol=1e-12)), tag, what)


def perm_sign(p):
    s = 1
    p = list(p)
    for i in range(len(p)):
        for j in range(i):
            if p[j] == p[i]:
                return 0
            if p[j] > p[i]:
                s = -s
    return s


SWAP = np.eye(4)[[0, 2, 1, 3]]


def embed(op, i, n, d, k=1):
    """op (k sites) at 0-based site i of n"""
    w = tn.einsum([tn.eye(d ** i), nd.symof(op), tn.eye(d ** (n - i - k))], [["a", "A"], ["m", "M"], ["b", "B"]], ["a", "m", "b", "A", "M", "B"])
    return tn.reshape(w, (d ** n, d ** n))


def lin(v, mats):
    """sum_j v_j M_j of constant matrices"""
    return tn.einsum([nd.symof(v), nd.symof(nd.wrap(np.asarray(mats).astype(complex)))], [["j"], ["j", "a", "b"]], ["a", "b"])


def obligations(tier):
    obs = []
    big = tier != "quick"

    def add(name, entry, fn, **kw):
        obs.append(Ob(name, "spin:" + entry, lambda it: fn(it, it.mod("spin").vars), **kw))

    SP = grid.more(["spin:spins", "spin:ladders", "spin:N_body_spins", "spin:n_body"], ("spin", "tensor"), lo=3)
    for tw in list(range(1, 10 if not big else 16)) + [x for v in SP for x in (2 * v, 2 * v - 1) if x >= 10]:
        S = tw / 2
        for val in ([S, int(S)] if S == int(S) else [S]):
            def spin_algebra(it, v, S=S, val=val):
                s = [num(x) for x in v["spins"](val)]
                n = int(2 * S + 1)
                out = [check(all(x.shape == (n, n) for x in s), "size", "spin %s has dimension %s" % (S, [x.shape for x in s]))]
                for a in range(3):
                    b, c = (a + 1) % 3, (a + 2) % 3
                    out.append(close(s[a] @ s[b] - s[b] @ s[a], 1j * s[c], "commutator", "[S_%d, S_%d] is not i S_%d for spin %s" % (a, b, c, S)))
                    out.append(close(s[a], s[a].conj().T, "hermitian", "S_%d is not Hermitian for spin %s" % (a, S)))
                out.append(close(sum(x @ x for x in s), S * (S + 1) * np.eye(n), "casimir", "wrong total spin for spin %s" % S))
                out.append(close(s[2], np.diag(np.arange(S, -S - 1, -1)), "diagonal", "S_z is not diag(S, ..., -S) for spin %s" % S))
                out.append(check(bool(np.all((s[0] + 1j * s[1]).real >= -1e-12)) and np.allclose((s[0] + 1j * s[1]).imag, 0), "phases", "the raising operator is not real and non-negative for spin %s" % S))
                return out
            add("spins %s" % val, "spins", spin_algebra)

    for S in (0.5, 1, 1.5, 2, 2.5, 4.5):
        def lad(it, v, S=S):
            s = [num(x) for x in v["spins"](S)]
            m, p = [num(x) for x in v["ladders"](S)]
            return [close(m, s[0] - 1j * s[1], "lowering", "S_- is not S_x - i S_y for spin %s" % S), close(p, s[0] + 1j * s[1], "raising", "S_+ is not S_x + i S_y for spin %s" % S)]
        add("ladders %s" % S, "ladders", lad)

    def pauli(it, v):
        x, y, z = [num(a) for a in v["paulis"](0.5)]
        return [close(x, [[0, 1], [1, 0]], "x", "first Pauli matrix"), close(y, [[0, -1j], [1j, 0]], "y", "second Pauli matrix"), close(z, [[1, 0], [0, -1]], "z", "third Pauli matrix")]
    add("paulis", "paulis", pauli)

    # ---- embeddings
    for d, n in [(2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4)] + ([(4, 3), (2, 6), (3, 4)] if big else []) + [(2, v) for v in SP if 5 <= v <= 10] + [(v, 2) for v in SP if 4 <= v <= 9]:
        for i in range(1, n + 1):
            def nb(it, v, d=d, n=n, i=i):
                op = spec.tensor((d, d), "O")
                return [check(spec.eq(v["n_body"](op, i, n), embed(op, i - 1, n, d)), "embedding", "n_body(op, %d, %d) does not act on factor %d" % (i, n, i))]
            add("n_body d=%d i=%d n=%d" % (d, i, n), "n_body", nb)
    for d, n in [(2, 1), (2, 2), (2, 3), (3, 2), (2, 4), (5, 1)] + ([(3, 3), (2, 6), (4, 2)] if big else []) + [(2, v) for v in SP if 5 <= v <= 9] + [(v, 2) for v in SP if 4 <= v <= 9]:
        for i in range(n):
            def nl(it, v, d=d, n=n, i=i):
                op = spec.tensor((d * d, d * d), "O")
                return [check(spec.eq(v["n_body"](op, i, n, d=d), embed(op, i, n + 1, d, 2)), "embedding", "n_body(op, %d, %d, d=%d) does not act on link %d" % (i, n, d, i))]
            add("n_body link d=%d i=%d n=%d" % (d, i, n), "n_body", nl)

    def outside(it, v):
        out = []
        for i, n in ((3, 2), (2, 1), (5, 3)):
            try:
                v["n_body"](spec.tensor((2, 2), "O"), i, n)
                out.append(Fail("accepted", "n_body puts an operator on site %d of %d" % (i, n)))
            except nd.Raise:
                pass
        return out
    add("n_body outside", "n_body", outside)

    for fn, src in (("N_body_spins", "spins"), ("N_body_paulis", "paulis"), ("N_body_ladders", "ladders")):
        for S in ((0.5,) if src == "paulis" else (0.5, 1, 1.5, 2)):
            for n in (1, 2, 3, 4)[:4 if S <= 1 else 3 if S < 2 else 2]:
                for i in range(1, n + 1):
                    def nbs(it, v, fn=fn, src=src, S=S, n=n, i=i):
                        loc = [num(x) for x in v[src](S)]
                        got = [num(x) for x in v[fn](S, i, n)]
                        d = loc[0].shape[0]
                        out = [check(len(got) == len(loc), "number", "%d operators" % len(got))]
                        for g, l in zip(got, loc):
                            out.append(close(g, np.kron(np.kron(np.eye(d ** (i - 1)), l), np.eye(d ** (n - i))), "embedding", "%s(%s, %d, %d)" % (fn, S, i, n)))
                        return out
                    add("%s %s i=%d n=%d" % (fn, S, i, n), fn, nbs)

    for dims in ((2, 3), (2,), (3, 2, 2)):
        def ten(it, v, dims=dims):
            ops = [spec.tensor((x, x + (j == 1)), "o%d" % j) for j, x in enumerate(dims)]
            N, M = math.prod(o.shape[0] for o in ops), math.prod(o.shape[1] for o in ops)
            w = tn.einsum([nd.symof(o) for o in ops], [[("r", j), ("c", j)] for j in range(len(ops))], [("r", j) for j in range(len(ops))] + [("c", j) for j in range(len(ops))])
            return [check(spec.eq(v["tensor"](ops), tn.reshape(w, (N, M))), "product", "tensor is not the Kronecker product in the given order")]
        add("tensor %s" % (dims,), "tensor", ten)

    # ---- gates
    def gates(it, v):
        out = [close(num(v["swap"]()), SWAP, "swap", "swap does not exchange the factors"),
               close(num(v["CZ"]()), np.diag([1, 1, 1, -1]), "CZ", "CZ"),
               close(num(v["CNOT"]()), np.eye(4)[[0, 1, 3, 2]], "CNOT", "CNOT"),
               close(num(v["H"]), np.array([[1, 1], [1, -1]]) / np.sqrt(2), "H", "Hadamard gate")]
        for th in (0.0, 0.3, 1.7, math.pi, -2.1):
            g = num(v["CRy"](th))
            out += [close(g @ g.conj().T, np.eye(4), "unitary", "CRy(%s) is not unitary" % th), close(g[:2], np.eye(4)[:2], "control", "CRy(%s) acts when the control is 0" % th)]
            out.append(close(g @ num(v["CRy"](0.4)), num(v["CRy"](th + 0.4)), "angle", "CRy angles do not add up"))
            out.append(check(np.isclose(np.trace(g[2:, 2:]), 2 * math.cos(th / 2)), "angle", "CRy(%s) does not rotate by the angle" % th))
        return out
    add("gates", "CNOT", gates)

    def sym(it, v):
        U = spec.tensor((4, 4), "U")
        s, a = nd.symof(v["swap_symmetrise"](U)), nd.symof(v["swap_antisymmetrise"](U))
        W = nd.symof(nd.wrap(SWAP))
        w = lambda m: tn.einsum([W, m, W], [["a", "b"], ["b", "c"], ["c", "d"]], ["a", "d"])
        out = [check(spec.eq(s.add(a), nd.symof(U)), "sum", "symmetric and antisymmetric parts do not add up"), check(spec.eq(w(s), s), "symmetric part", "the symmetric part changes under swap"), check(spec.eq(w(a), a.scale(-1)), "antisymmetric part", "the antisymmetric part does not change sign under swap")]
        for m, r in ((SWAP, True), (np.eye(4)[[0, 1, 3, 2]], False), (np.diag([1., 2, 2, 5]), True), (np.diag([1., 2, 3, 5]), False), (np.diag([0., 1, -1, 0]), False)):
            out.append(check(bool(v["is_swap_symmetric"](nd.wrap(m))) is r, "test", "is_swap_symmetric is wrong for %s" % m.tolist()))
        return out
    add("swap symmetry", "swap_antisymmetrise", sym)

    def rows(it, v):
        out = []
        for n, i, j in ((3, 0, 2), (4, 2, 1), (3, 1, 1)):
            A = spec.tensor((n, 2), "A")
            before = A.sym()
            p = list(range(n))
            p[i], p[j] = p[j], p[i]
            got = nd.symof(v["swap_rows"](A, i, j))
            Pm = nd.symof(nd.wrap(np.eye(n)[p]))
            out += [check(spec.eq(got, tn.einsum([Pm, before], [["a", "b"], ["b", "c"]], ["a", "c"])), "rows", "swap_rows(A, %d, %d)" % (i, j)), check(spec.eq(A, before), "operand", "swap_rows changed its operand")]
        return out
    add("swap_rows", "swap_rows", rows)

    def commu(it, v):
        A, B = spec.tensor((3, 3), "A"), spec.tensor((3, 3), "B")
        ab, ba = spec.einsum("ab,bc->ac", A, B), spec.einsum("ab,bc->ac", B, A)
        return [check(spec.eq(v["comm"](A, B), ab.add(ba.scale(-1))), "commutator", "comm"), check(spec.eq(v["acomm"](A, B), ab.add(ba)), "anticommutator", "acomm")]
    add("comm", "comm", commu)

    def relations(it, v):
        s = {S: [num(x) for x in v["spins"](S)] for S in (0.5, 1, 1.5)}
        p = [num(x) for x in v["paulis"](0.5)]
        w = lambda l: [nd.wrap(x) for x in l]
        out = []
        for S, x in s.items():
            out.append(check(bool(v["CR"](*w(x))) is True, "spin relations", "CR refuses the operators of spin %s" % S))
            for bad in ([x[1], x[0], x[2]], [x[0], x[1], -x[2]], [2 * y for y in x], [x[0], x[1], 0 * x[2]], [x[0], x[2], x[1]]):
                out.append(check(bool(v["CR"](*w(bad))) is False, "spin relations", "CR accepts operators that violate the relations"))
        out.append(check(bool(v["pCR"](*w(p))) is True, "Pauli relations", "pCR refuses the Pauli matrices"))
        for bad in ([p[1], p[0], p[2]], s[0.5], [p[0], -p[1], p[2]], [p[0], p[2], p[1]]):
            out.append(check(bool(v["pCR"](*w(bad))) is False, "Pauli relations", "pCR accepts operators that violate the relations"))
        return out
    add("relations", "CR", relations)

    for n in (1, 2, 3, 4) + ((5,) if big else ()):
        def lc(it, v, n=n):
            e = num(v["levi_civita"](n))
            ref = np.zeros((n,) * n)
            for p in itertools.product(range(n), repeat=n):
                ref[p] = perm_sign(p)
            return [close(e, ref, "signature", "levi_civita(%d) is not the signature" % n)]
        add("levi_civita %d" % n, "levi_civita", lc)

    # ---- generators
    def gens(name, n, N, norm, args=()):
        def f(it, v):
            g = num(v[name](*args))
            out = [check(g.shape == (n, N, N), "number", "%s: shape %s instead of %s" % (name, g.shape, (n, N, N)))]
            for a in range(min(n, len(g))):
                out.append(close(g[a], g[a].conj().T, "hermitian", "%s[%d] is not Hermitian" % (name, a)))
                out.append(check(abs(np.trace(g[a])) < 1e-12, "trace", "%s[%d] is not traceless" % (name, a)))
                for b in range(a + 1):
                    t = np.trace(g[a] @ g[b])
                    if a != b:
                        out.append(check(abs(t) < 1e-12, "orthogonal", "%s[%d] and %s[%d] are not orthogonal" % (name, a, name, b)))
                    elif norm:
                        out.append(check(abs(t - norm) < 1e-12, "norm", "%s[%d] has tr(x x) = %s instead of %s" % (name, a, t, norm)))
            if name == "slambdas":
                for a in range(min(n, len(g))):
                    out.append(close(SWAP @ g[a] @ SWAP, g[a], "swap", "slambdas[%d] is not symmetric under swap" % a))
                    out.append(check(np.linalg.norm(g[a]) > 0.5, "zero", "slambdas[%d] vanishes" % a))
            return [x for x in out if x]
        add("%s %s" % (name, args), name, f)
    gens("lambdas", 15, 4, 2)
    gens("slambdas", 9, 4, None)
    for N in (2, 3, 4, 5, 6) + ((7, 8, 10) if big else ()):
        gens("su", N * N - 1, N, 2, (N,))

    def locs(it, v):
        g = num(v["locals"]())
        s = [np.array([[0, 1], [1, 0]]) / 2, np.array([[0, -1j], [1j, 0]]) / 2, np.diag([.5, -.5])]
        ref = [np.kron(np.eye(2), x) for x in s] + [np.kron(x, np.eye(2)) for x in s]
        return [close(g, np.array(ref), "local generators", "locals are not the spin operators of the second and of the first site")]
    add("locals", "locals", locs)

    # ---- group elements and components
    def element(name, make, n):
        def f(it, v):
            t = spec.tensor((n,), "v", kind="f")
            got = v[name](t)
            q = nd.binop("*", -1j, nd.wrap(lin(t, make(v)), "c"))
            return [check(spec.eq(got, nd.expm(q)), "exponential", "%s(v) is not exp(-i v.generators)" % name)]
        add(name, name, f)
    element("U1", lambda v: num(v["locals"]())[:3], 3)
    element("U2", lambda v: num(v["locals"]())[3:], 3)
    element("U4", lambda v: num(v["lambdas"]()), 15)
    element("U4s", lambda v: num(v["slambdas"]()), 9)
    element("SU4", lambda v: num(v["su"](4)), 15)
    if True:
        element("SU8", lambda v: num(v["su"](8)), 63)

    for N in (2, 3, 4):
        def sun(it, v, N=N):
            t = spec.tensor((N * N - 1,), "v", kind="f")
            q = nd.binop("*", -1j, nd.wrap(lin(t, num(v["su"](N))), "c"))
            return [check(spec.eq(v["SU"](t, N), nd.expm(q)), "exponential", "SU(v, %d) is not exp(-i v.generators)" % N)]
        add("SU %d" % N, "SU", sun)

        def comp(it, v, N=N):
            t = spec.tensor((N * N - 1,), "v")
            q = nd.wrap(lin(t, num(v["su"](N))), "c")
            return [check(spec.eq(v["components"](q), nd.symof(t)), "components", "components(v.generators) is not v")]
        add("components %d" % N, "components", comp)

    for N in (2, 3, 4):
        def ext(it, v, N=N):
            U = spec.tensor((N, N), "U")
            q = nd.binop("*", 1j, nd.logm(U))
            q = nd.binop("-", q, nd.binop("*", nd.div(nd.trace(q), N), nd.eye(N)))
            got = nd.wrap(lin(v["extractv"](U), num(v["su"](N))), "c")
            t = spec.tensor((N * N - 1,), "v", kind="f")
            return [expect(got, nd.symof(q), "extracted", "the generators summed with extractv(U) are not the traceless part of the logarithm of U"),
                    expect(v["to_new_v"](t), nd.symof(v["extractv"](v["SU"](t, N))), "extracted", "to_new_v(v) is not extractv of the group element of v")]
        add("extractv %d" % N, "extractv", ext)

    for N in (2, 4):
        for where in ("left", "mid", "right"):
            def ins(it, v, N=N, where=where):
                nq = int(math.log2(N))
                t = spec.tensor((N * N - 1,), "v")
                g = num(v["su"](N))
                G = num(v["su"](2 * N))
                got = lin(v["insu2N"](t, where), G)
                pos = {"left": 0, "mid": nq - 1, "right": nq}[where]
                ref = []
                for x in g:
                    y = np.kron(x, np.eye(2)).reshape((2,) * (2 * nq + 2))
                    order = list(range(nq))
                    order.insert(pos, nq)
                    y = y.transpose(order + [nq + 1 + o for o in order]).reshape(2 * N, 2 * N)
                    ref.append(y)
                return [check(spec.eq(got, lin(t, np.array(ref))), "embedding", "insu2N(v, %r) does not leave the new qubit alone" % where)]
            add("insu2N %d %s" % (N, where), "insu2N", ins)

    for N in (2, 4):
        def su2n(it, v, N=N):
            t = spec.tensor((N * N - 1,), "v", kind="f")
            q = nd.binop("*", -1j, nd.wrap(lin(v["insu2N"](t), num(v["su"](2 * N))), "c"))
            return [check(spec.eq(v["SU"](t, N, rep="2N"), nd.expm(q)), "exponential", "SU(v, %d, '2N') is not the exponential of the embedded generators" % N)]
        if N == 2 or big:
            add("SU 2N %d" % N, "SU", su2n)

    def phases(it, v):
        rng = np.random.RandomState(3)
        out = []
        for _ in range(3):
            U = rng.randn(3, 3) + 1j * rng.randn(3, 3)
            for ph in (0.0, 1.1, -2.8, 3.1):
                out.append(check(bool(v["equal_up_to_phase"](nd.wrap(U), nd.wrap(U * np.exp(1j * ph)))) is True, "phase", "equal_up_to_phase misses a global phase"))
            W = U.copy()
            W[1, 2] *= 1.5
            out.append(check(bool(v["equal_up_to_phase"](nd.wrap(U), nd.wrap(W))) is False, "difference", "equal_up_to_phase accepts different matrices"))
        return out
    add("equal_up_to_phase", "equal_up_to_phase", phases)

    for n in (1, 2, 3, 5):
        def sphere(it, v, n=n):
            rng = np.random.RandomState(n)
            out = []
            for _ in range(3):
                x = rng.randn(n) * 2
                got = num(v["Nsphere"](nd.wrap(x)))
                ref = np.array([np.prod(np.sin(x[:k])) * np.cos(x[k]) for k in range(n)] + [np.prod(np.sin(x))])
                out.append(close(got, ref, "coordinates", "Nsphere of %d angles" % n))
            return out
        add("Nsphere %d" % n, "Nsphere", sphere)
    return obs
