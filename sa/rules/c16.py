"""Hamiltonians: the terms are abstract coefficients (arbitrary complex numbers, different from zero; vanishing coefficients are
separate obligations) multiplying Pauli strings.  For every length the reference operator is the sum of the strings over all bonds
and of the single-site terms over all sites; the bond matrices, the full matrix and the contracted matrix-product operator are
compared with it."""
import contextlib
from .common import *
import numpy as np

FLOOR = 30
ASSUMPTIONS = ["single-site terms are given for both orders ('X', or equal 'IX' and 'XI'); the weight of one-sided terms is not specified"]

P = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.array([[1, 0], [0, -1]])}


@contextlib.contextmanager
def generic():
    """abstract coefficients differ from every number they are compared with"""
    nd.GENERIC = True
    try:
        yield
    finally:
        nd.GENERIC = False


def kron(*ms):
    r = np.ones((1, 1))
    for m in ms:
        r = np.kron(r, m)
    return r


def total(shape, terms):
    """sum of coefficient * constant matrix"""
    s = tn.zero(shape)
    for c, m in terms:
        s = s.add(tn.outer(nd.symof(c), nd.symof(nd.wrap(m.astype(complex)))))
    return s


def reference(strings, L):
    """two-site strings on every bond, single-site terms on every site"""
    terms = []
    for s, c in strings.items():
        if len(s) == 2 and "I" in s:
            if s[0] == "I":
                continue
            s = s[0]       # one of the two orders
        for i in range(L - len(s) + 1):
            terms.append((c, kron(*[P["I"]] * i, *[P[x] for x in s], *[P["I"]] * (L - len(s) - i))))
    return total((2 ** L, 2 ** L), terms)


def embed_sum(ms, L):
    s = tn.zero((2 ** L, 2 ** L))
    for i, m in enumerate(ms):
        a, b = 2 ** i, 2 ** (L - 2 - i)
        w = tn.einsum([tn.eye(a), nd.symof(m), tn.eye(b)], [["a", "A"], ["m", "M"], ["b", "B"]], ["a", "m", "b", "A", "M", "B"])
        s = s.add(tn.reshape(w, (2 ** L, 2 ** L)))
    return s


def contract_mpo(Ws):
    """operator of an open chain of W[left, right, row, column]: first row at the left, last column at the right"""
    L = len(Ws)
    ops, labs = [], []
    first = np.zeros(Ws[0].shape[0])
    first[0] = 1
    last = np.zeros(Ws[-1].shape[1])
    last[-1] = 1
    ops.append(nd.symof(nd.wrap(first)))
    labs.append([("b", 0)])
    for i, W in enumerate(Ws):
        ops.append(nd.symof(W))
        labs.append([("b", i), ("b", i + 1), ("r", i), ("c", i)])
    ops.append(nd.symof(nd.wrap(last)))
    labs.append([("b", L)])
    t = tn.einsum(ops, labs, [("r", i) for i in range(L)] + [("c", i) for i in range(L)])
    d = Ws[0].shape[2]
    return tn.reshape(t, (d ** L, d ** L))


def obligations(tier):
    obs = []
    big = tier != "quick"
    HS = [v for v in grid.more(["Hamiltonians:Hamiltonian.to_matrices", "Hamiltonians:Hamiltonian.to_full", "Hamiltonians:Hamiltonian.to_matrix"], ("Hamiltonians", "spin", "tensor")) if v <= 11]
    LS = [2, 3, 4, 5] + ([6, 7] if big else [])
    LS += [v for v in HS if v not in LS]
    J = lambda n: spec.scalar(n)
    models = {
        "all strings": lambda: {a + b: J("J" + a + b) for a in "XYZ" for b in "XYZ"},
        "fields": lambda: {"X": J("hx"), "Y": J("hy"), "Z": J("hz")},
        "ising": lambda: {"ZZ": J("J"), "X": J("h")},
        "everything": lambda: dict([(a + b, J("J" + a + b)) for a in "XYZ" for b in "XYZ"] + [("Z", J("hz")), ("X", J("hx")), ("Y", J("hy"))]),
        "one order first": lambda: (lambda h, g: {"IX": h, "XI": h, "ZI": g, "XY": J("J"), "IZ": g})(J("h"), J("g")),
        "numbers": lambda: {"ZZ": -1.0, "YX": 0.25, "X": 0.5, "Z": -0.75},
        "zeros": lambda: {"ZZ": 0, "XX": J("J"), "X": 0.0, "Y": J("h"), "XY": 0.0},
        "no coupling": lambda: {"XX": 0.0, "Z": J("h")},
        "only zeros": lambda: {"XX": 0.0, "Z": 0},
    }

    def full_strings(st):
        """single-letter terms written in both orders"""
        r = {}
        for k, v in st.items():
            if len(k) == 1:
                r["I" + k] = v
                r[k + "I"] = v
            else:
                r[k] = v
        return r

    def add(name, entry, fn, **kw):
        def wrapped(it):
            with generic():
                return fn(it)
        obs.append(Ob(name, "Hamiltonians:Hamiltonian." + entry, wrapped, **kw))

    def H(it, *a, **k):
        return it.mod("Hamiltonians").vars["Hamiltonian"](*a, **k)

    for mn, model in models.items():
        for L in LS:
            if L > 4 and mn in ("all strings", "everything") and not big:
                continue

            def bonds(it, model=model, L=L):
                st = model()
                h = H(it, dict(st))
                ms = call(it, h, "to_matrices", L)
                out = [check(len(ms) == L - 1, "number of matrices", "%d matrices for %d sites" % (len(ms), L))]
                if len(ms) == L - 1 and all(tuple(m.shape) == (4, 4) for m in ms):
                    out.append(check(spec.eq(embed_sum(ms, L), reference(full_strings(st), L)), "sum of bond matrices", "the bond matrices of %d sites do not add up to the terms" % L))
                else:
                    out.append(Fail("shape", "bond matrices of shapes %s" % [m.shape for m in ms]))
                return out
            add("to_matrices %s L=%d" % (mn, L), "to_matrices", bonds)

            def full(it, model=model, L=L):
                st = model()
                h = H(it, dict(st))
                return [check(spec.eq(call(it, h, "to_full", L), reference(full_strings(st), L)), "full matrix", "the full matrix of %d sites is not the sum of the terms" % L)]
            add("to_full %s L=%d" % (mn, L), "to_full", full)

        def two(it, model=model):
            st = model()
            h = H(it, dict(st))
            m = call(it, h, "to_matrix")
            return [check(spec.eq(m, reference(full_strings(st), 2)), "two-site matrix", "to_matrix is not the sum of the terms on two sites")]
        add("to_matrix %s" % mn, "to_matrix", two)

        def input_kept(it, model=model):
            st = model()
            mine = dict(st)
            h = H(it, mine)
            for L in (2, 3, 4):
                call(it, h, "to_matrices", L)
                call(it, h, "to_matrix")
            h2 = dict(it.getattr(h, "strings"))
            ref = full_strings(st)
            out = [check(list(mine) == list(st) and all(mine[k] is st[k] for k in st), "caller's dictionary changed", "the caller's dictionary of terms changed")]
            out.append(check(set(h2) == set(ref) and all(spec.eq(h2[k], ref[k])[0] for k in ref), "terms changed", "making matrices changed the terms of the Hamiltonian"))
            return out
        add("terms kept %s" % mn, "to_matrices", input_kept)

    # the two one-sided halves of a field together are the field, however each is shared out over the bonds
    for L in LS:
        for a in "XYZ":
            def halves(it, L=L, a=a):
                c = J("c")
                tot = None
                for st in ({"I" + a: c}, {a + "I": c}):
                    ms = call(it, H(it, dict(st)), "to_matrices", L)
                    if len(ms) != L - 1:
                        return [Fail("number of matrices", "%d matrices for %d sites" % (len(ms), L))]
                    s = embed_sum(ms, L)
                    tot = s if tot is None else tot.add(s)
                return [check(spec.eq(tot, reference({"I" + a: c, a + "I": c}, L)), "one-sided terms", "the operators of 'I%s' and '%sI' on %d sites do not add up to the field on every site" % (a, a, L))]
            add("one-sided %s L=%d" % (a, L), "to_matrices", halves)

    def lengths(it):
        """one object, several lengths in any order"""
        st = models["ising"]()
        out = []
        for seq in ((2, 4, 3), (4, 2), (3, 3, 5), (5, 2, 4)) + tuple((v, 2, v) for v in HS if v < 11):
            h = H(it, dict(st))
            for L in seq:
                out.append(check(spec.eq(call(it, h, "to_full", L), reference(full_strings(st), L)), "full matrix", "to_full(%d) in the sequence %s" % (L, seq)))
                ms = call(it, h, "to_matrices", L)
                out.append(check(len(ms) == L - 1 and spec.eq(embed_sum(ms, L), reference(full_strings(st), L)), "sum of bond matrices", "to_matrices(%d) in the sequence %s" % (L, seq)))
        return out
    add("sequences of lengths", "to_full", lengths)

    # Hamiltonians given as matrices
    for d, k, L in [(2, 1, 3), (2, 2, 2), (2, 2, 4), (2, 3, 4), (3, 1, 2), (3, 2, 3), (2, 4, 4), (3, 5, 5)] + ([(3, 2, 4), (4, 2, 2), (4, 1, 3), (2, 2, 6), (3, 3, 3)] if big else []) + [x for v in HS for x in ((2, 1, v), (2, 2, v), (v, 1, 2)) if x[0] ** x[2] < 3000]:
        def given(it, d=d, k=k, L=L):
            ms = [spec.tensor((d ** k, d ** k), "h%d" % i) for i in range(L - k + 1)]
            h = H(it, matrices=list(ms), d=d)
            got = call(it, h, "to_full")
            s = tn.zero((d ** L, d ** L))
            for i, m in enumerate(ms):
                w = tn.einsum([tn.eye(d ** i), nd.symof(m), tn.eye(d ** (L - k - i))], [["a", "A"], ["m", "M"], ["b", "B"]], ["a", "m", "b", "A", "M", "B"])
                s = s.add(tn.reshape(w, (d ** L, d ** L)))
            return [check(spec.eq(got, s), "full matrix", "the full matrix is not the sum of the embedded matrices")]
        add("to_full of matrices d=%d k=%d L=%d" % (d, k, L), "to_full", given)

    # matrix-product operator
    def heis(it, which):
        if which == "heisenberg":
            st = {"XX": J("Jx"), "YY": J("Jy"), "ZZ": J("Jz"), "X": J("hx"), "Y": J("hy"), "Z": J("hz")}
        elif which == "ising":
            st = {"ZZ": J("J"), "X": J("h")}
        elif which == "fields":
            st = {"Y": J("hy"), "Z": J("hz")}
        elif which == "numbers":
            st = {"YY": 0.5, "Z": -0.25, "XX": 2.0}
        else:
            h = J("h")
            st = {"YI": h, "YY": J("J"), "IY": h}
        return st

    for which in ("heisenberg", "ising", "fields", "numbers", "orders"):
        for L in [1, 2, 3, 4] + ([5] if big else []):
            def mpo(it, which=which, L=L):
                st = heis(it, which)
                h = H(it, dict(st))
                Ws = call(it, h, "to_mpo", L)
                out = [check(len(Ws) == L, "number of tensors", "%d tensors for %d sites" % (len(Ws), L))]
                if len(Ws) != L:
                    return out
                out.append(check(spec.eq(contract_mpo(Ws), reference(full_strings(st), L)), "operator", "the contracted matrix-product operator is not the sum of the terms"))
                return out
            add("to_mpo %s L=%d" % (which, L), "to_mpo", mpo)

    def reject(it, st):
        h = H(it, dict(st))
        try:
            call(it, h, "to_mpo", 3)
        except nd.Raise:
            return []
        return [Fail("accepted", "terms %s cannot be encoded, but to_mpo returns an operator" % sorted(st))]
    for st in ({"XY": 1.0}, {"XY": 1.0, "YX": 1.0}, {"IX": 1.0}, {"XI": 1.0}, {"IX": 1.0, "XI": 2.0}, {"ZZ": 1.0, "ZX": 0.5, "XZ": 0.5}, {"XX": 1.0, "YI": 0.5}):
        def rej(it, st=st):
            """either refused or encoded correctly"""
            h = H(it, dict(st))
            try:
                Ws = call(it, h, "to_mpo", 3)
            except nd.Raise:
                return []
            if any("I" in k and st.get(k[::-1]) != v for k, v in st.items()):
                return [Fail("accepted", "one-sided terms %s are not representable" % st)]
            return [check(spec.eq(contract_mpo(Ws), reference(full_strings(st), 3)), "operator", "terms %s are accepted, but the operator is another one" % sorted(st))]
        add("to_mpo refuses or encodes %s" % " ".join("%s=%s" % kv for kv in st.items()), "to_mpo", rej)

    # decomposition of a matrix
    def roundtrip(it):
        m = spec.tensor((4, 4), "M")
        h = call(it, H(it), "from_matrix", m)
        got = nd.symof(call(it, h, "to_matrix"))
        s = nd.symof(m)
        tr = tn.einsum([s], [["i", "i"]], [])
        ref = s.add(tn.outer(tr, tn.eye(4)).scale(-0.25))
        out = [check(spec.eq(got, ref), "round trip", "to_matrix(from_matrix(M)) is not M without its identity part")]
        st = dict(it.getattr(h, "strings"))
        out.append(check("II" not in st and all(len(k) == 2 and set(k) <= set("IXYZ") for k in st), "keys", "terms %s" % sorted(st)))
        return out
    add("from_matrix any matrix", "from_matrix", roundtrip)

    for mn in ("all strings", "ising", "everything", "numbers"):
        def strings(it, model=models[mn]):
            st = model()
            h = H(it, dict(st))
            h2 = call(it, H(it), "from_matrix", call(it, h, "to_matrix"))
            got = dict(it.getattr(h2, "strings"))
            ref = full_strings(st)
            return [check(set(got) >= set(ref) and all(spec.eq(v, ref.get(k, 0.0))[0] for k, v in got.items()), "coefficients", "from_matrix(to_matrix()) does not return the coefficients")]
        add("from_matrix of to_matrix %s" % mn, "from_matrix", strings)
    return obs
