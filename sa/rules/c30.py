"""Energies, environments and helpers: the value returned on abstract operands is compared with its definition: the energy with the
contraction of the full state and the Hamiltonian, environments with the contraction of the sites on their side, helpers with the
defining relation of what they are named after."""
import numpy as np
from .common import *
from .c02 import sandwich, kron
from . import c02

from . import wide

BONDS_SKIP = r"mps_pad"          # obligations that state the bond dimensions themselves
FLOOR = 120
ASSUMPTIONS = ["null_space, qr and eigh return isometries with their defining relation"]


def obligations(tier):
    obs = []

    def add(name, entry, f, **kw):
        obs.append(Ob(name, entry, f, **kw))
    V = lambda it, m, n: it.mod(m).vars[n]
    mat = lambda n, *s: spec.tensor(s, n)
    big = tier != "quick"

    # ------------------------------------------------------------------ energies and environments of finite chains
    grids = [(2, 2, [1]), (2, 2, [2]), (3, 2, [2, 2]), (4, 2, [2, 3, 2]), (3, 3, [2, 3]), (4, 2, [1, 2, 1])]
    if big:
        grids += [(5, 2, [2, 3, 3, 2]), (4, 3, [3, 2, 3]), (6, 2, [2, 2, 4, 2, 2])]
    for L in (2, 3):
        for hname, h in histories(L):
            def f(it, L=L, h=h, hname=hname):
                m = V(it, "fMPS", "fMPS")(spec.mps_data(L, 2, [2] * (L - 1)))
                st = spec.state(prepared(it, m, h))
                hs = [spec.hermitian((4, 4), (1, 0), "h%d" % i) for i in range(L - 1)]
                ref = None
                for i, x in enumerate(hs):
                    x = sandwich(st, nd.symof(x), [i, i + 1], 2)
                    ref = x if ref is None else ref.add(x)
                return [expect(call(it, m, "energy", hs), ref, "value differs", "energy of bond terms after %s, L=%d" % (hname, L))]
            add("energy(terms) L=%d after %s" % (L, hname), "fMPS:fMPS.energy", f)
    for L, d, b in grids:
        w0 = grid.pstr(L, d, b)
        for gauge in ("left_canonicalise", "right_canonicalise", "mixed_canonicalise", "no gauge"):
            if gauge == "mixed_canonicalise" and L > 3 and not big:
                continue

            def state(it, L=L, d=d, b=b, gauge=gauge, cls="fMPS"):
                m = V(it, "fMPS", cls)(spec.mps_data(L, d, b))
                if gauge == "mixed_canonicalise":
                    call(it, m, gauge, L // 2)
                elif gauge != "no gauge":
                    call(it, m, gauge)
                return m

            def f(it, L=L, d=d, b=b, gauge=gauge, state=state, w0=w0):
                m = state(it)
                hs = [spec.hermitian((d * d, d * d), (1, 0), "h%d" % i) for i in range(L - 1)]
                st = spec.state(data(m))
                ref = None
                for i, h in enumerate(hs):
                    x = sandwich(st, nd.symof(h), [i, i + 1], d)
                    ref = x if ref is None else ref.add(x)
                w = "energy of bond terms after %s, %s" % (gauge, w0)
                return [expect(call(it, m, "energy", hs), ref, "value differs", w + " is not the sum of the expectation values")]
            add("energy(terms) %s %s" % (gauge, w0), "fMPS:fMPS.energy", f)

            def f(it, L=L, d=d, b=b, gauge=gauge, state=state, w0=w0):
                """bond terms and the operator they add up to have the same energy"""
                m = state(it)
                hs = [spec.hermitian((d * d, d * d), (1, 0), "h%d" % i) for i in range(L - 1)]
                full = None
                for i, h in enumerate(hs):
                    x = nd.symof(h)
                    if i:
                        x = nd.symof(nd.kron(nd.wrap(tn.eye(d ** i)), nd.wrap(x, "c")))
                    if L - 2 - i:
                        x = nd.symof(nd.kron(nd.wrap(x, "c"), nd.wrap(tn.eye(d ** (L - 2 - i)))))
                    full = x if full is None else full.add(x)
                st = spec.state(data(m))
                w = "energy of a full operator after %s, %s" % (gauge, w0)
                a = call(it, m, "energy", nd.wrap(full, "c"), True)
                return [expect(a, nd.symof(call(it, m, "energy", hs)), "forms differ", w + " differs from that of its bond terms"),
                        expect(a, sandwich(st, full, list(range(L)), d), "value differs", w + " is not the expectation value")]
            add("energy(full) %s %s" % (gauge, w0), "fMPS:fMPS.energy", f)

            def f(it, L=L, d=d, b=b, gauge=gauge, state=state, w0=w0):
                out = []
                m = state(it)
                A = [nd.symof(x) for x in data(m)]
                for stored in (False, True):
                    l, r = call(it, m, "get_envs", stored)
                    if stored:
                        for k, g in (("l", l), ("r", r)):
                            o = it.getattr(m, k)
                            out.append(check(spec.eq(nd.symof(o(0)), nd.symof(g(0))), "not stored", "get_envs(True) does not leave %s on the state" % k))
                    E = tn.eye(1)
                    w = "get_envs after %s, %s: " % (gauge, w0)
                    out.append(expect(l(-1), E, "left environment", w + "l(-1) is not trivial"))
                    for n in range(L):
                        E = tn.einsum([A[n].conj(), E, A[n]], [["s", "i", "a"], ["i", "j"], ["s", "j", "b"]], ["a", "b"])
                        out.append(expect(l(n), E, "left environment", w + "l(%d) is not the contraction of the sites up to %d" % (n, n)))
                    E = tn.eye(1)
                    out.append(expect(r(L - 1), E, "right environment", w + "r(%d) is not trivial" % (L - 1)))
                    for n in range(L - 1, -1, -1):
                        E = tn.einsum([A[n], E, A[n].conj()], [["s", "a", "i"], ["i", "j"], ["s", "b", "j"]], ["a", "b"])
                        out.append(expect(r(n - 1), E, "right environment", w + "r(%d) is not the contraction of the sites after %d" % (n - 1, n - 1)))
                return out
            add("get_envs %s %s" % (gauge, w0), "fMPS:fMPS.get_envs", f)

        # predicates over canonical forms
        for gauge, pred, envp in (("left_canonicalise", "is_left_canonical", "is_left_env_canonical"), ("right_canonicalise", "is_right_canonical", "is_right_env_canonical")):
            def f(it, L=L, d=d, b=b, gauge=gauge, pred=pred, envp=envp, w0=w0):
                m = V(it, "fMPS", "fMPS")(spec.mps_data(L, d, b))
                call(it, m, gauge)
                v = it.mod("tests").vars
                out = []
                r = v[envp](data(m), it.getattr(m, "Ls"))
                if r not in (True, np.True_):
                    out.append(Fail("predicate", "tests.%s is %s for the result of %s, %s" % (envp, r, gauge, w0)))
                r = v["has_trace_1"](it.getattr(m, "Ls"))
                if r not in (True, np.True_):
                    out.append(Fail("predicate", "tests.has_trace_1 is %s for the weights of %s, %s" % (r, gauge, w0)))
                return out
            add("predicates %s %s" % (gauge, w0), "tests:%s" % envp, f, maxpaths=16)

    def hand(it):
        """the isometry predicates on tensors with known products"""
        v = it.mod("tests").vars
        out = []
        q = np.linalg.qr(np.arange(36).reshape(6, 6) % 7 + np.eye(6) + 1j * np.eye(6)[::-1])[0]
        left = q[:, :2].reshape(2, 3, 2)                 # sum A^dagger A = 1 (2x2), A A^dagger is not
        right = np.ascontiguousarray(left.conj().transpose(0, 2, 1))
        W = lambda *x: [nd.wrap(np.array(y)) for y in x]
        for name, yes, no in (("is_left_canonical", left, right), ("is_right_canonical", right, left)):
            for mats, ref in ((W(yes), True), (W(yes, yes), True), (W(no), False), (W(yes, no), False), (W(no, yes), False), (W(yes * 1.001), False), (W(yes * 1j), True), (W(yes, yes + 0.01), False)):
                r = v[name](mats)
                if bool(r) != ref:
                    out.append(Fail("predicate", "tests.%s is %s for tensors that are %sisometric" % (name, r, "" if ref else "not ")))
        D = lambda *x: [nd.wrap(np.diag(np.array(y, float))) for y in x]
        for s, ref in ((D([1.], [.5, .5]), True), (D([1.], [1., 0.]), False), (D([1., 0.], [1.]), False), (D([1e-9, 1.]), True)):
            if bool(v["is_full_rank"](s)) != ref:
                out.append(Fail("predicate", "tests.is_full_rank is not %s" % ref))
        for s, ref in ((D([1.], [.5, .5]), True), (D([1.], [1., 1.]), False), (D([.5], [1.]), False), (D([1.5], [.5]), False)):
            if bool(v["has_trace_1"](s)) != ref:
                out.append(Fail("predicate", "tests.has_trace_1 is not %s" % ref))
        return out
    add("predicates by hand", "tests:is_left_canonical", hand)

    def props(it):
        """the report of update_properties on concrete states whose properties are known"""
        q = np.linalg.qr(np.arange(64).reshape(8, 8) % 7 + 2 * np.eye(8) + 1j * np.eye(8)[::-1])[0]
        left = [q[:2, :2].copy(), q[:4, :2], q[:4, :1]]
        left = [np.linalg.qr(x)[0].reshape(2, a, b) for x, (a, b) in zip(left, ((1, 2), (2, 2), (2, 1)))]
        rgt = [np.ascontiguousarray(x.conj().transpose(0, 2, 1)) for x in left[::-1]]
        names = ("is_left_canonical", "is_right_canonical", "has_norm_1", "is_left_env_canonical", "is_right_env_canonical", "is_full_rank", "has_trace_1")
        out = []
        for which, ts in (("left", left), ("right", rgt)):
            env = [np.eye(1)]
            for x in (ts[::-1] if which == "left" else ts):
                env.append(np.einsum("sab,bc,sdc->ad", x, env[-1], x.conj()) if which == "left" else np.einsum("sab,ac,scd->bd", x.conj(), env[-1], x))
            env = env[::-1] if which == "left" else env
            for scale in (1, 2):
                for has in (False, True):
                    m = V(it, "fMPS", "fMPS")([nd.wrap(x * (scale if i == 1 else 1)) for i, x in enumerate(ts)])
                    if has:
                        it.setattr(m, "Ls", [nd.wrap(x) for x in env])
                    call(it, m, "update_properties")
                    one = scale == 1
                    ref = dict(zip(names, (one and which == "left", one and which == "right", one, has and one and which == "left", has and one and which == "right", has, has)))
                    for n, x in ref.items():
                        out.append(check(bool(it.getattr(m, n)) == x, "reported property", "update_properties reports %s = %s for a %s canonical state%s%s" % (n, it.getattr(m, n), which, "" if one else " scaled at one site", " with weights" if has else "")))
        return [o for o in out if o]
    add("update_properties", "fMPS:fMPS.update_properties", props)

    def sympl(it):
        v = it.mod("fMPS").vars
        out = []
        for n in (1, 2, 3):
            J = np.block([[np.zeros((n, n)), np.eye(n)], [-np.eye(n), np.zeros((n, n))]])
            out.append(expect(v["sympmat"](n), nd.symof(nd.wrap(J)), "symplectic", "sympmat(%d) is not the symplectic form" % n))
            x = spec.tensor((2 * n,), "x", kind="f")
            y = nd.matmul(v["changebasis"](n), x)
            ref = nd.array([nd.getitem(x, (k // 2) + (k % 2) * n) for k in range(2 * n)])
            out.append(expect(y, nd.symof(ref), "symplectic", "changebasis(%d) does not interleave positions and momenta" % n))
        return out
    add("symplectic helpers", "fMPS:sympmat", sympl)

    # ------------------------------------------------------------------ matrix helpers
    T = lambda it, n: it.mod("tensor").vars[n]
    I_ = lambda n: tn.eye(n)
    mm = lambda a, b: tn.einsum([nd.symof(a), nd.symof(b)], [["i", "j"], ["j", "k"]], ["i", "k"])
    dag = lambda a: tn.einsum([nd.symof(a).conj()], [["i", "j"]], ["j", "i"])

    def shape(x, s, w):
        return [] if tuple(x.shape) == tuple(s) else [Fail("shape", "%s has shape %s instead of %s" % (w, tuple(x.shape), tuple(s)))]
    for k, M in ((1, 2), (1, 4), (2, 3), (2, 4), (3, 6), (2, 6)):
        def f(it, k=k, M=M):
            A = mat("A", k, M)
            N = T(it, "get_null_space")(A)
            w = "get_null_space of a %dx%d matrix" % (k, M)
            return shape(N, (M, M - k), w) or [check(spec.eq(mm(A, N), tn.zero((k, M - k))), "not null", w + " is not annihilated"), check(spec.eq(mm(dag(N), N), I_(M - k)), "not orthonormal", w + " is not orthonormal")]
        add("get_null_space %dx%d" % (k, M), "tensor:get_null_space", f)
    for sh in ((2,), (3,), (4,), (2, 2), (2, 3), (2, 2, 2)):
        def f(it, sh=sh):
            v = mat("v", *sh)
            n = int(np.prod(sh))
            U = T(it, "embed")(v)
            w = "embed of a tensor of shape %s" % (sh,)
            if shape(U, (n, n), w):
                return shape(U, (n, n), w)
            flat = nd.symof(nd.reshape(v, (n,)))
            nrm = norm2(flat)
            col = nd.symof(nd.getitem(U, (slice(None), 0)))
            # col |v| = v: compare col <v,v> with v <v,col>, and unit norm, and <v,col> real positive through its square
            out = [check(spec.eq(mm(dag(U), U), I_(n)), "not unitary", w + " is not unitary"),
                   check(spec.eq(smul(nrm, col), smul(ip(flat, col), flat)), "first column", w + " does not start with the vector"),
                   check(spec.eq(tn.outer(ip(flat, col), ip(flat, col)), nrm), "first column", w + ": the first column is not the vector over its norm")]
            if n == 4:
                out.append(check(spec.eq(nd.symof(T(it, "deembed")(U)), nd.symof(nd.reshape(nd.wrap(col, "c"), (2, 2)))), "deembed", "deembed does not return the vector embedded"))
            return out
        add("embed %s" % (sh,), "tensor:embed", f)

    def deembed(it):
        u = mat("u", 4, 4)
        return [expect(T(it, "deembed")(u), nd.symof(nd.reshape(nd.getitem(u, (slice(None), 0)), (2, 2))), "value", "deembed is not the first column")]
    add("deembed", "tensor:deembed", deembed)
    for n, m in ((2, 1), (3, 1), (4, 2), (4, 3), (1, 2), (1, 3), (2, 4), (3, 4), (2, 2), (3, 3)):
        def f(it, n=n, m=m):
            k = max(n, m)
            # an isometry: columns (or rows) of a unitary
            U = nd.qr_full(mat("Q", k, k)) if hasattr(nd, "qr_full") else it.mod("tensor").vars["qr"](mat("Q", k, k))[0]
            Q = nd.getitem(U, (slice(0, n), slice(0, m)))
            out = []
            for D in (None, k, k + 2, 1):
                R = T(it, "unitary_extension")(Q) if D is None else T(it, "unitary_extension")(Q, D)
                kk = k if D is None else max(k, D)
                w = "unitary_extension of a %dx%d isometry%s" % (n, m, "" if D is None else " to size %d" % D)
                if shape(R, (kk, kk), w):
                    out += shape(R, (kk, kk), w)
                    continue
                out.append(check(spec.eq(mm(dag(R), R), I_(kk)), "not unitary", w + " is not unitary"))
                out.append(check(spec.eq(nd.symof(nd.getitem(R, (slice(0, n), slice(0, m)))), nd.symof(Q)), "other isometry", w + " does not extend it"))
            return out
        add("unitary_extension %dx%d" % (n, m), "tensor:unitary_extension", f, maxpaths=32)
    for a, b in (((2, 2), (2, 2)), ((2, 3), (1, 2)), ((1, 1), (3, 2)), ((3, 1), (1, 3))):
        def f(it, a=a, b=b):
            A, B = mat("A", *a), mat("B", *b)
            S = T(it, "direct_sum")(A, B)
            w = "direct_sum of shapes %s and %s" % (a, b)
            sh = (a[0] + b[0], a[1] + b[1])
            if shape(S, sh, w):
                return shape(S, sh, w)
            g = lambda i, j: nd.symof(nd.getitem(S, (i, j)))
            u, v_, l, r = slice(0, a[0]), slice(a[0], None), slice(0, a[1]), slice(a[1], None)
            return [check(spec.eq(g(u, l), nd.symof(A)), "block", w + ": first block"), check(spec.eq(g(v_, r), nd.symof(B)), "block", w + ": second block"),
                    check(spec.eq(g(u, r), tn.zero((a[0], b[1]))), "block", w + ": upper right block is not zero"), check(spec.eq(g(v_, l), tn.zero((b[0], a[1]))), "block", w + ": lower left block is not zero")]
        add("direct_sum %s %s" % (a, b), "tensor:direct_sum", f)
    for sh in ((2, 2), (3, 2), (4, 3), (2, 3), (1, 3), (3, 1)):
        for fn in ("uqr", "urq"):
            def f(it, sh=sh, fn=fn):
                A = mat("A", *sh)
                x, y = T(it, fn)(A)
                w = "%s of a %dx%d matrix" % (fn, *sh)
                out = [check(spec.eq(mm(x, y), nd.symof(A)), "product", w + " does not multiply to the matrix")]
                k = min(sh)
                q = x if fn == "uqr" else y
                qq = mm(dag(q), q) if fn == "uqr" else mm(q, dag(q))
                out.append(check(spec.eq(qq, I_(k)), "not isometric", w + ": the orthogonal factor is not isometric"))
                return out
            if fn == "urq" and sh[0] > sh[1]:
                continue
            add("%s %s" % (fn, sh), "tensor:%s" % fn, f, maxpaths=16)
    for sh in ((2, 3), (2, 3, 2), (2, 1, 3), (2, 2, 3, 4)):
        def f(it, sh=sh):
            t = mat("t", *sh)
            s = nd.symof(t)
            n = len(sh)
            l = list(range(n))
            sw = l[:-2] + [n - 1, n - 2]
            out = []
            for fn, ref in (("T", tn.einsum([s], [l], sw)), ("H", tn.einsum([s.conj()], [l], sw)), ("C", s.conj())):
                out.append(expect(T(it, fn)(t), ref, "value", "tensor.%s of shape %s" % (fn, sh)))
            return out
        add("T H C %s" % (sh,), "tensor:H", f)

    def dots(it):
        A, l, r = mat("A", 2, 3, 4), mat("l", 5, 3), mat("r", 4, 2)
        return [expect(T(it, "ldot")(l, A), tn.einsum([nd.symof(l), nd.symof(A)], [["i", "j"], ["s", "j", "k"]], ["s", "i", "k"]), "value", "tensor.ldot"),
                expect(T(it, "rdot")(A, r), tn.einsum([nd.symof(A), nd.symof(r)], [["s", "i", "j"], ["j", "k"]], ["s", "i", "k"]), "value", "tensor.rdot"),
                expect(T(it, "eye_like")(mat("m", 3, 3)), tn.eye(3), "value", "tensor.eye_like")]
    add("ldot rdot eye_like", "tensor:ldot", dots)
    for n in (2, 3, 4):
        def f(it, n=n):
            M = spec.hermitian((n, n), (1, 0), "M")
            W, S = T(it, "diagonalise")(M)
            w = "diagonalise of a %dx%d matrix" % (n, n)
            out = [check(spec.eq(mm(mm(W, S), dag(W)), nd.symof(M)), "product", w + " does not reproduce it"), check(spec.eq(mm(dag(W), W), I_(n)), "not unitary", w + ": the vectors are not orthonormal")]
            # off-diagonal zero
            z = nd.symof(S)
            out.append(check(spec.eq(z, nd.symof(nd.diag(nd.diag(S)))), "not diagonal", w + ": the values are not diagonal"))
            return out
        add("diagonalise %d" % n, "tensor:diagonalise", f)

        def f(it, n=n):
            """largest value first"""
            rng = np.random.default_rng(n)
            h = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
            h = h + h.conj().T
            W, S = T(it, "diagonalise")(nd.wrap(h))
            v = np.diag(nd.raw(S)).real
            return [] if np.allclose(v, sorted(v)[::-1]) and np.allclose(v, np.linalg.eigvalsh(h)[::-1]) else [Fail("order", "diagonalise does not put the largest value first: %s" % v)]
        add("diagonalise order %d" % n, "tensor:diagonalise", f)

    def ranks(it):
        out = []
        for d_, k in (([1., 2.], 2), ([1., 0., 3.], 2), ([0.], 0), ([1e-20, 0], 1)):
            r = T(it, "rank")(nd.wrap(np.diag(d_)))
            if int(nd.raw(r)) != k:
                out.append(Fail("value", "rank of %s is %s" % (d_, r)))
        return out
    add("rank", "tensor:rank", ranks)
    for sh in ((3, 3), (2, 4), (4, 2)):
        for D in (1, 2, 3, 5):
            def f(it, sh=sh, D=D):
                A = mat("A", *sh)
                U, S, W = T(it, "tr_svd")(A, D)
                k = min(min(sh), D)
                w = "tr_svd of a %dx%d matrix to %d" % (*sh, D)
                out = shape(U, (sh[0], k), w + ": U") + shape(S, (k, k), w + ": S") + shape(W, (k, sh[1]), w + ": V")
                if out:
                    return out
                out = [check(spec.eq(mm(dag(U), U), I_(k)), "not isometric", w + ": left vectors"), check(spec.eq(mm(W, dag(W)), I_(k)), "not isometric", w + ": right vectors"),
                       check(spec.eq(mm(mm(dag(U), A), dag(W)), nd.symof(S)), "not singular triples", w + " does not keep singular triples")]
                if D >= min(sh):
                    out.append(check(spec.eq(mm(mm(U, S), W), nd.symof(A)), "product", w + " does not multiply to the matrix"))
                return out
            add("tr_svd %s D=%d" % (sh, D), "tensor:tr_svd", f)
    for n in (1, 2, 3):
        def f(it, n=n):
            U = T(it, "haar_unitary")(n)
            return shape(U, (n, n), "haar_unitary") or [check(spec.eq(mm(dag(U), U), I_(n)), "not unitary", "haar_unitary(%d) is not unitary" % n)]
        add("haar_unitary %d" % n, "tensor:haar_unitary", f)

    def lanczos(it):
        A, v, t = mat("A", 3, 3), mat("v", 3), 0.5
        ref = tn.einsum([nd.symof(nd.expm(nd.binop("*", A, t))), nd.symof(v)], [["i", "j"], ["j"]], ["i"])
        return [expect(T(it, "lanczos_expm")(A, v, t), ref, "value", "lanczos_expm is not the exponential times the vector")]
    add("lanczos_expm", "tensor:lanczos_expm", lanczos)

    pads = [(3, 2, [1, 1], [2, 2]), (4, 2, [2, 3, 1], [1, 4, 2]), (3, 2, [2, 2], [2, 2]), (3, 3, [3, 1], [2, 2]), (2, 2, [2], [1]), (1, 2, [], [])]
    for L, d, p, q in pads:
        def f(it, L=L, d=d, p=p, q=q):
            F = V(it, "fMPS", "fMPS")
            a, b = F(spec.mps_data(L, d, p)), F(spec.mps_data(L, d, q, "B"))
            va, vb = spec.state(data(a)), spec.state(data(b))
            x, y = T(it, "mps_pad")(a, b)
            w = "mps_pad of bonds %s and %s" % (p, q)
            sx, sy = [tuple(t.shape) for t in data(x)], [tuple(t.shape) for t in data(y)]
            out = []
            ref = [(d, *s) for s in zip([1] + [max(i, j) for i, j in zip(p, q)], [max(i, j) for i, j in zip(p, q)] + [1])]
            if sx != ref or sy != ref:
                return [Fail("structure", "%s gives shapes %s and %s" % (w, sx, sy))]
            return [check(spec.eq(spec.state(data(x)), va), "other state", w + " changes the first state"), check(spec.eq(spec.state(data(y)), vb), "other state", w + " changes the second state")]
        add("mps_pad %s %s" % (p, q), "tensor:mps_pad", f)

    # ------------------------------------------------------------------ Renyi entropy of a disentangled pair
    for d1, d2, Xl, Xr in ((2, 2, 1, 1), (2, 2, 2, 2), (2, 3, 2, 1), (2, 2, 3, 2), (3, 2, 1, 2)):
        def f(it, d1=d1, d2=d2, Xl=Xl, Xr=Xr):
            U = nd.reshape(it.mod("tensor").vars["qr"](mat("Q", d1 * d2, d1 * d2))[0], (d1, d2, d1, d2))
            th = mat("t", d1, d2, Xl, Xr)
            psi = tn.einsum([nd.symof(U), nd.symof(th)], [["a", "b", "c", "d"], ["c", "d", "l", "r"]], ["a", "b", "l", "r"])
            rho = tn.einsum([psi, psi.conj()], [["a", "b", "l", "r"], ["A", "b", "L", "r"]], ["a", "l", "A", "L"])
            p = tn.einsum([rho, rho], [["a", "l", "A", "L"], ["A", "L", "a", "l"]], [])
            w = "peps_tools.renyi for sites %d,%d bonds %d,%d" % (d1, d2, Xl, Xr)
            r = it.mod("peps_tools").vars["renyi"](U, th)
            return [expect(r,
                           nd.symof(nd.binop("*", nd.real(V(it, "fMPS", "log")(nd.wrap(p, "c"))), -1)), "value", w + " is not minus the log of the purity")]
        add("renyi %s" % ((d1, d2, Xl, Xr),), "peps_tools:renyi", f)

    def w_energy(it, m, A, L, d, p):
        out = []
        for g in (None, "left_canonicalise", "right_canonicalise"):
            a = spec.fMPS(it, A)
            if g:
                call(it, a, g)
            st = spec.state(data(a))
            hs = [spec.hermitian((d * d, d * d), (1, 0), "h%d" % i) for i in range(L - 1)]
            ref = None
            for i, x in enumerate(hs):
                x = sandwich(st, nd.symof(x), [i, i + 1], d)
                ref = x if ref is None else ref.add(x)
            out.append(expect(call(it, a, "energy", hs), ref, "value differs", "energy of bond terms after %s, %s" % (g, grid.pstr(L, d, p))))
        return out
    wide.run(obs, wide.sizes(tier, "energy", "get_envs"), "energy", "energy(terms)", w_energy, lambda L, d, p: d <= 6)
    return obs
