"""Constructors: the example states, product states, structures, random and truncating constructors and the Vidal form are followed in
the source for a grid of lengths, local dimensions and bond limits (random draws are fresh atoms); the full state contracted from the
returned tensors is compared with the documented amplitudes, shapes with the shape rules of the class."""
import numpy as np
from .common import *
from .c24 import attrs
from .c19 import shapes_ok

BONDS_SKIP = r"Vidal form|^f(TFD|MPS)\("          # obligations that state the bond dimensions themselves
FLOOR = 150
ASSUMPTIONS = ["random draws are generic numbers (no exact zeros, no dependencies)", "the Schmidt matrices inverted for the Vidal form have no vanishing weight left after trimming"]


def bonds(L, d, D):
    """largest useful bond dimensions under a limit"""
    return [min(d ** n, d ** (L - n), D) for n in range(L + 1)]


def vec(x):
    return nd.symof(nd.wrap(np.asarray(x)))


def obligations(tier):
    obs = []

    def add(name, entry, f, **kw):
        obs.append(Ob(name, entry, f, **kw))
    V = lambda it, m, n: it.mod(m).vars[n]
    r2 = 2 ** -0.5
    up, dn, pl, mi = [1, 0], [0, 1], [r2, r2], [r2, -r2]

    # ------------------------------------------------------------------ two-site examples
    BELL = {1: [r2, 0, 0, r2], 2: [-r2, 0, 0, r2], 3: [0, r2, r2, 0], 4: [0, -r2, r2, 0]}
    COMPZ = {1: np.kron(up, up), 2: np.kron(up, dn), 3: np.kron(dn, up), 4: np.kron(dn, dn)}
    COMPX = {1: np.kron(pl, pl), 2: np.kron(pl, mi), 3: np.kron(mi, pl), 4: np.kron(mi, mi)}
    for fn, tab in (("bell", BELL), ("comp_z", COMPZ), ("comp_x", COMPX)):
        for i, amp in tab.items():
            def f(it, fn=fn, i=i, amp=amp):
                m = V(it, "mps_examples", fn)(i)
                st = spec.state(data(m))
                w = "mps_examples.%s(%d)" % (fn, i)
                if fn == "comp_z":
                    a = check(spec.eq(st, vec(np.reshape(amp, (2, 2)))), "other state", w + " is not the documented basis state")
                else:
                    a = proportional(st, vec(np.reshape(amp, (2, 2))), w + " is not the documented state", "other state")
                return [a, unit(st, w + " is not normalised")] + [Fail("attributes", "%s records %s=%s" % (w, k, m.d.get(k))) for k, v in (("L", 2), ("d", 2)) if m.d.get(k) != v]
            add("%s(%d)" % (fn, i), "mps_examples:%s" % fn, f, maxpaths=32)
    for i in (1, 2):
        def f(it, i=i):
            m = V(it, "mps_examples", "i_comp_z")(i)
            A = nd.symof(data(m)[0])
            return [check(spec.eq(A, vec(np.reshape([up, dn][i - 1], (2, 1, 1)))), "other state", "mps_examples.i_comp_z(%d) is not the documented uniform product state" % i)]
        add("i_comp_z(%d)" % i, "mps_examples:i_comp_z", f)

    def cat(it):
        out = []
        for a, k in (((), {}), ((0,), {}), ((0.25,), {})):
            m = V(it, "mps_examples", "i_cat")(*a)
            e = a[0] if a else 1e-2
            ref = np.full((2, 2, 2), e, float)
            ref[0, 0, 0] = ref[1, 1, 1] = 1
            A = data(m)[0]
            if tuple(A.shape) != (2, 2, 2):
                out.append(Fail("shape", "mps_examples.i_cat has a tensor of shape %s" % (A.shape,)))
                continue
            # branches |0..0> and |1..1> with mixing of strength e
            out.append(check(spec.eq(tn.einsum([nd.symof(A)], [[0, 1, 1]], [0, 1]), vec([[ref[s, i, i] for i in (0, 1)] for s in (0, 1)])), "other state", "mps_examples.i_cat(%s): other weights of the two branches" % e))
            # exchanging the two levels together with the two branches changes nothing
            X = vec([[0, 1], [1, 0]])
            out.append(check(spec.eq(tn.einsum([X, X, X, nd.symof(A)], [["a", "s"], ["i", "k"], ["j", "l"], ["s", "k", "l"]], ["a", "i", "j"]), nd.symof(A)), "not symmetric", "mps_examples.i_cat(%s) is not symmetric under exchange of the branches" % e))
        return out
    add("i_cat", "mps_examples:i_cat", cat)

    def aklt(it):
        m = V(it, "mps_examples", "AKLT")()
        A = nd.symof(data(m)[0])
        w = "mps_examples.AKLT"
        if tuple(A.shape) != (3, 2, 2):
            return [Fail("shape", "%s has a tensor of shape %s" % (w, A.shape))]
        s = np.sqrt(2)
        Sp = np.array([[0, s, 0], [0, 0, s], [0, 0, 0]])
        Sx, Sy, Sz = (Sp + Sp.T) / 2, (Sp - Sp.T) / 2j, np.diag([1., 0, -1])
        SS = sum(np.kron(x, x) for x in (Sx, Sy, Sz))
        P2 = (SS @ SS + 3 * SS + 2 * np.eye(9)) / 6
        pair = tn.einsum([A, A], [["s", "i", "j"], ["t", "j", "k"]], ["s", "t", "i", "k"])
        proj = tn.einsum([vec(P2.reshape(3, 3, 3, 3)), pair], [["a", "b", "s", "t"], ["s", "t", "i", "k"]], ["a", "b", "i", "k"])
        return [check(spec.eq(proj, tn.zero((3, 3, 2, 2))), "spin-2 pairs", w + ": neighbouring spins have a spin-2 component"),
                Fail("vanishes", w + ": a two-site state vanishes") if spec.eq(pair, tn.zero((3, 3, 2, 2)))[0] else None,
                check(spec.eq(right_iso(A), tn.eye(2)), "not normalised", w + " is not normalised"),
                check(spec.eq(left_iso(A), tn.eye(2)), "not normalised", w + " is not normalised")]
    add("AKLT", "mps_examples:AKLT", aklt)

    # ------------------------------------------------------------------ product states
    W = grid.more(["fMPS:fMPS.from_product_state", "fMPS:fMPS.create_structure", "fMPS:fMPS.random", "fMPS:fMPS.product_state_overlap"], cap=10)
    for L in [1, 2, 3, 5] + [v for v in W if v > 5]:
        for d in (2, 3):
            def f(it, L=L, d=d):
                vs = [spec.tensor((d,), "v%d" % i) for i in range(L)]
                m = call(it, V(it, "fMPS", "fMPS")(), "from_product_state", vs)
                w = "from_product_state, L=%d d=%d" % (L, d)
                st = tn.einsum([nd.symof(v) for v in vs], [[i] for i in range(L)], list(range(L)))
                return [check(spec.eq(spec.state(data(m)), st), "other state", w + " is not the product of the vectors")] + attrs(m, w)
            add("from_product_state L=%d d=%d" % (L, d), "fMPS:fMPS.from_product_state", f)

            def f(it, L=L, d=d):
                vs = [[spec.tensor((d,), "v%d%d" % (k, i)) for i in range(L)] for k in range(3)]
                ms = call(it, V(it, "fMPS", "fMPS")(), "from_product_states", vs)
                w = "from_product_states, L=%d d=%d" % (L, d)
                if len(ms) != 3:
                    return [Fail("number", "%s gives %d states for 3" % (w, len(ms)))]
                out = []
                for k, m in enumerate(ms):
                    st = tn.einsum([nd.symof(v) for v in vs[k]], [[i] for i in range(L)], list(range(L)))
                    out += [check(spec.eq(spec.state(data(m)), st), "other state", "%s: state %d is not the product of its vectors" % (w, k))] + attrs(m, w)
                return out
            add("from_product_states L=%d d=%d" % (L, d), "fMPS:fMPS.from_product_states", f)

    def arr_in(it):
        """an array (L, d) of vectors is a list of vectors"""
        vs = spec.tensor((3, 2), "v")
        m = call(it, V(it, "fMPS", "fMPS")(), "from_product_state", vs)
        st = tn.einsum([nd.symof(nd.getitem(vs, i)) for i in range(3)], [[0], [1], [2]], [0, 1, 2])
        return [check(spec.eq(spec.state(data(m)), st), "other state", "from_product_state of an array is not the product of its rows")]
    add("from_product_state array", "fMPS:fMPS.from_product_state", arr_in)

    # ------------------------------------------------------------------ chain structures
    for L in range(1, 8 if tier == "quick" else 12):
        for d in (2, 3, 4):
            def f(it, L=L, d=d):
                out = []
                for D in (1, 2, 3, 4, 5, 8, 9, 17, 64, None):
                    for cls in ("fMPS", "fTFD"):
                        s = call(it, V(it, "fMPS", cls)(), "create_structure", L, d, D)
                        p = call(it, V(it, "fMPS", cls)(), "create_structure", L, d, D, True)
                        b = bonds(L, d, d ** L if D is None else D)
                        ref = [(b[n], b[n + 1]) for n in range(L)]
                        w = "%s.create_structure(%d, %d, %s)" % (cls, L, d, D)
                        if [tuple(int(y) for y in x) for x in s] != ref:
                            out.append(Fail("structure", "%s is %s instead of %s" % (w, s, ref)))
                        if [tuple(int(y) for y in x) for x in p] != [(d,) + r for r in ref]:
                            out.append(Fail("structure", "%s with physical legs is %s" % (w, p)))
                return out
            add("create_structure L=%d d=%d" % (L, d), "fMPS:fMPS.create_structure", f)

    # ------------------------------------------------------------------ random chains
    def shapes(m, ref, w):
        got = [tuple(int(y) for y in x.shape) for x in data(m)]
        return [Fail("shapes", "%s has tensors of shape %s instead of %s" % (w, got, ref))] if got != ref else []
    for L in [1, 2, 3, 4, 5] + [v for v in W if v > 5]:
        for d in (2, 3):
            for D in [1, 2, 4, 5] + [v for v in W if v > 5]:
                def f(it, L=L, d=d, D=D):
                    out = []
                    for real in (False, True):
                        m = V(it, "fMPS", "fMPS")(spec.mps_data(3, 2, [2, 2]))
                        call(it, m, "left_canonicalise")        # a used object may be refilled
                        r = call(it, m, "random", L, d, D, real) if real else call(it, m, "random", L, d, D)
                        b = bonds(L, d, D)
                        w = "random(%d, %d, %d%s)" % (L, d, D, ", real" if real else "")
                        if r is not m:
                            out.append(Fail("result", w + " does not return the state"))
                        out += shapes(m, [(d, b[n], b[n + 1]) for n in range(L)], w) + attrs(m, w)
                        for k in ("canonical", "orthogonal"):
                            if it.getattr(m, k) not in (False, None):
                                out.append(Fail("flags", "%s claims to be %s=%s" % (w, k, it.getattr(m, k))))
                        for x in data(m):
                            im = nd.imag(x)
                            if real:
                                out.append(check(spec.eq(nd.symof(im), tn.zero(x.shape)), "not real", w + " has complex tensors"))
                            elif not (d == 2 and D == 1) and spec.eq(nd.symof(im), tn.zero(x.shape))[0]:
                                out.append(Fail("real", w + " has real tensors"))
                        if D == 1 and d == 2:
                            out.append(unit(spec.state(data(m)), w + " is not normalised"))
                        ks = [nd.symof(x).key() for x in data(m)]
                        if len(set(ks)) != len(ks):
                            out.append(Fail("not independent", w + " uses the same random numbers twice"))
                    return out
                add("random L=%d d=%d D=%d" % (L, d, D), "fMPS:fMPS.random", f, maxpaths=32)
    for L in (1, 2, 3, 4):
        for d in (2, 3):
            for D in (1, 2, 3):
                for pure in (True, False):
                    def f(it, L=L, d=d, D=D, pure=pure):
                        m = V(it, "fMPS", "fTFD")()
                        m = call(it, m, "random", L, d, D, pure)
                        b = bonds(L, d, D)
                        b2 = bonds(L, d ** 2, D ** 2)
                        w = "fTFD.random(%d, %d, %d, pure=%s)" % (L, d, D, pure)
                        out = [] if m.cls is V(it, "fMPS", "fTFD") else [Fail("class", "%s gives a %s" % (w, m.cls.name))]
                        got = [tuple(x.shape) for x in data(m)]
                        if pure:
                            out += shapes(m, [(d ** 2, b[n] ** 2, b[n + 1] ** 2) for n in range(L)], w)
                        else:
                            if len(got) != L or any(x[0] != d * d for x in got) or any(x[2] != y[1] for x, y in zip(got, got[1:])) or got[0][1] != 1 or got[-1][2] != 1:
                                out.append(Fail("shapes", "%s has tensors of shape %s" % (w, got)))
                        for k, v in (("L", L), ("d", d * d)):
                            if m.d.get(k) != v:
                                out.append(Fail("attributes", "%s records %s=%s" % (w, k, m.d.get(k))))
                        if not isinstance(m.d.get("D"), (int, np.integer)) or m.d.get("D") < max(max(x[1:]) for x in got):
                            out.append(Fail("attributes", "%s records bond dimension %s for tensors of shape %s" % (w, m.d.get("D"), got)))
                        # swap symmetric
                        st = spec.state(data(m))
                        l = []
                        for n in range(L):
                            l += [("a", n), ("b", n)]
                        st2 = nd.symof(nd.reshape(nd.wrap(st, "c"), (d,) * (2 * L)))
                        sw = tn.einsum([st2], [l], [x for n in range(L) for x in (("b", n), ("a", n))])
                        if pure:
                            out.append(check(spec.eq(sw, st2), "not symmetric", w + " is not symmetric under exchange of the copies"))
                        return out
                    add("fTFD.random L=%d d=%d D=%d pure=%s" % (L, d, D, pure), "fMPS:fTFD.random", f, maxpaths=32)
    for d in (2, 3):
        for D in (1, 2, 3):
            for p in (1, 2, 3):
                def f(it, d=d, D=D, p=p):
                    out = []
                    F = V(it, "iMPS", "iMPS")
                    w = "iMPS.random(%d, %d, %d)" % (d, D, p)
                    for kw in (True, False) if p == 1 else (True,):
                        m = call(it, F(), "random", d, D, p) if kw else call(it, F(), "random", d, D)
                        out += shapes(m, [(d, D, D)] * p, w)
                        for k, v in (("d", d), ("D", D), ("period", p)):
                            if m.d.get(k) != v:
                                out.append(Fail("attributes", "%s records %s=%s" % (w, k, m.d.get(k))))
                        ks = [nd.symof(x).key() for x in data(m)]
                        if len(set(ks)) != len(ks):
                            out.append(Fail("not independent", w + " uses the same random numbers twice"))
                    s = call(it, F(), "create_structure", d, D, p)
                    if [tuple(x) for x in s] != [(d, D, D)] * p:
                        out.append(Fail("structure", "iMPS.create_structure(%d, %d, %d) is %s" % (d, D, p, s)))
                    n = F([spec.tensor((d, D, D), "A%d" % k) for k in range(p)], "l" if p == 2 else None)
                    for k, v in (("d", d), ("D", D), ("period", p), ("canonical", "l" if p == 2 else None)):
                        if n.d.get(k) != v:
                            out.append(Fail("attributes", "iMPS of %d tensors records %s=%s" % (p, k, n.d.get(k))))
                    v = call(it, V(it, "iMPS", "ivMPS")(), "random", d, D, p)
                    for G, Lm in data(v):
                        if tuple(G.shape) != (d, D, D) or tuple(Lm.shape) != (D, D):
                            out.append(Fail("shapes", "ivMPS.random(%d, %d, %d) has tensors of shape %s and %s" % (d, D, p, G.shape, Lm.shape)))
                    if len(data(v)) != p:
                        out.append(Fail("shapes", "ivMPS.random(%d, %d, %d) has %d pairs" % (d, D, p, len(data(v)))))
                    return out
                add("iMPS.random d=%d D=%d period=%d" % (d, D, p), "iMPS:iMPS.random", f, maxpaths=250)

    # ------------------------------------------------------------------ lattice structures
    for Lx in (1, 2, 3, 4):
        for Ly in (1, 2, 3, 4):
            if Lx * Ly == 1:
                continue

            def f(it, Lx=Lx, Ly=Ly):
                out = []
                for d in (2, 3):
                    for X in (1, 2, 3):
                        ref = [[(d, X if j > 0 else 1, X if i < Lx - 1 else 1, X if j < Ly - 1 else 1, X if i > 0 else 1) for i in range(Lx)] for j in range(Ly)]
                        F = V(it, "fPEPS", "fPEPS")
                        w = "(Lx=%d, Ly=%d, d=%d, X=%d)" % (Lx, Ly, d, X)
                        s = [[tuple(int(z) for z in y) for y in x] for x in call(it, F(), "create_structure", Lx, Ly, d, X)]
                        if s != ref:
                            out.append(Fail("structure", "fPEPS.create_structure%s is %s instead of %s" % (w, s, ref)))
                        m = call(it, F(), "random", Lx, Ly, d, X)
                        got = [[tuple(int(z) for z in y.shape) for y in x] for x in data(m)]
                        if got != ref:
                            out.append(Fail("shapes", "fPEPS.random%s has tensors of shape %s" % (w, got)))
                        for k, v in (("Lx", Lx), ("Ly", Ly), ("d", d), ("X", X)):
                            if m.d.get(k) != v:
                                out.append(Fail("attributes", "fPEPS.random%s records %s=%s" % (w, k, m.d.get(k))))
                        ks = [nd.symof(y).key() for x in data(m) for y in x]
                        if len(set(ks)) != len(ks):
                            out.append(Fail("not independent", "fPEPS.random%s uses the same random numbers twice" % w))
                return out
            add("fPEPS structure %dx%d" % (Lx, Ly), "fPEPS:fPEPS.create_structure", f)
    for L in (1, 2, 3, 4, 5):
        def f(it, L=L):
            out = []
            F = V(it, "fPEPS", "fMPO")
            for d in (2, 3):
                for X in (1, 2, 3):
                    ref = [(d, X if n < L - 1 else 1, d, X if n > 0 else 1) for n in range(L)]
                    w = "(%d, %d, %d)" % (L, d, X)
                    s = [tuple(int(y) for y in x) for x in call(it, F(), "create_structure", L, d, X)]
                    if s != ref:
                        out.append(Fail("structure", "fMPO.create_structure%s is %s instead of %s" % (w, s, ref)))
                    m = call(it, F(), "random", L, d, X)
                    out += shapes(m, ref, "fMPO.random" + w)
                    for k, v in (("L", L), ("d", d), ("X", X)):
                        if m.d.get(k) != v:
                            out.append(Fail("attributes", "fMPO.random%s records %s=%s" % (w, k, m.d.get(k))))
            return out
        add("fMPO structure L=%d" % L, "fPEPS:fMPO.create_structure", f)

    # ------------------------------------------------------------------ truncating constructor
    for cls, d in (("fMPS", 2), ("fTFD", 4)):
        for L, b in ((2, [3]), (3, [2, 2]), (4, [2, 3, 2])):
            b = [min(x, d ** n, d ** (L - n)) for n, x in zip(range(1, L), b)]
            for D in (1, 2, 5):
                def f(it, cls=cls, L=L, b=b, D=D, d=d):
                    F = V(it, "fMPS", cls)
                    ts = spec.mps_data(L, d, b)
                    given = list(ts)
                    m = F(given, d, D)
                    n = call(it, F(list(ts)), "right_canonicalise", D)
                    w = "%s(data, %d, %d) of bonds %s" % (cls, d, D, b)
                    out = []
                    if len(data(m)) != L:
                        return [Fail("shapes", "%s has %d tensors" % (w, len(data(m))))]
                    got = [tuple(x.shape) for x in data(m)]
                    if any(x[2] != y[1] for x, y in zip(got, got[1:])) or any(max(x[1:]) > D for x in got) or any(x[0] != d for x in got):
                        out.append(Fail("shapes", "%s has tensors of shape %s" % (w, got)))
                    if not out:
                        out.append(proportional(spec.state(data(m)), spec.state(data(n)), w + " is not the right-canonical truncation of the tensors", "other state"))
                        out += [check(is_right(x), "not isometric", w + " is not right canonical") for x in data(m)]
                    for k, v in (("L", L), ("d", d), ("D", min(D, max(b)))):
                        if m.d.get(k) != v:
                            out.append(Fail("attributes", "%s records %s=%s" % (w, k, m.d.get(k))))
                    if any(x is not y for x, y in zip(given, ts)):
                        out.append(Fail("argument changed", w + " replaces tensors in the list it is given"))
                    return out
                add("%s(data, %d, D=%d) bonds=%s" % (cls, d, D, b), "fMPS:%s.__init__" % ("fMPS" if cls == "fMPS" else "fTFD"), f, maxpaths=64)

            def f(it, cls=cls, L=L, b=b, d=d):
                out = []
                for a in ((), (d,)):
                    ts = spec.mps_data(L, d, b)
                    m = V(it, "fMPS", cls)(ts, *a)
                    w = "%s(data%s)" % (cls, ", d" if a else "")
                    out += attrs(m, w)
                    if any(x is not y for x, y in zip(data(m), ts)):
                        out.append(Fail("other state", w + " does not keep the tensors"))
                    for k in ("canonical", "orthogonal"):
                        if it.getattr(m, k) not in (False, None):
                            out.append(Fail("flags", "%s claims %s=%s" % (w, k, it.getattr(m, k))))
                return out
            add("%s(data) bonds=%s" % (cls, b), "fMPS:%s.__init__" % ("fMPS" if cls == "fMPS" else "fTFD"), f)

    # ------------------------------------------------------------------ Vidal form
    for L, d, b in ((1, 2, []), (2, 2, [1]), (2, 2, [2]), (3, 2, [2, 2]), (4, 2, [2, 3, 2]), (3, 3, [2, 3])):
        def f(it, L=L, d=d, b=b):
            ts = spec.mps_data(L, d, b)
            old = spec.state(ts)
            m = spec.fMPS(it, ts)
            v = call(it, V(it, "fMPS", "vfMPS")(), "from_fMPS", m)
            w = "vfMPS.from_fMPS, L=%d d=%d bonds=%s" % (L, d, b)
            out = []
            pairs = data(v)
            if len(pairs) != L:
                return [Fail("shapes", "%s has %d pairs" % (w, len(pairs)))]
            back = call(it, v, "to_fMPS")
            out.append(proportional(spec.state(data(back)), old, w + ": converting there and back gives another state", "round trip"))
            out += attrs(back, w + " to_fMPS")
            if [tuple(x.shape) for x in data(back)] != [tuple(x.shape) for x in data(m)]:
                out.append(Fail("shapes", "%s: converting there and back gives shapes %s" % (w, [tuple(x.shape) for x in data(back)])))
            # canonical conditions: the left tensor of a bond weighted with its Schmidt matrix, and the right one
            for k, (Lm, G) in enumerate(pairs):
                G_, L_ = nd.symof(G), nd.symof(Lm)
                if len(G_.shape) != 3 or len(L_.shape) != 2:
                    return out + [Fail("shapes", "%s: pair %d has shapes %s and %s" % (w, k, L_.shape, G_.shape))]
                B = tn.einsum([L_, G_], [["i", "j"], ["s", "j", "k"] if G_.shape[0] == d and G_.shape[1] == L_.shape[1] else ["j", "s", "k"]], ["s", "i", "k"])
                out.append(check(spec.eq(B, nd.symof(data(m)[k])), "pairs", "%s: pair %d does not multiply to the tensor of the right canonical form" % (w, k)))
                out.append(check(spec.eq(tn.einsum([L_], [["i", "i"]], []), tn.scalar(1)), "weights", "%s: the weights at bond %d do not sum to one" % (w, k)))
            for k, x in (("L", L), ("d", d), ("D", max(b or [1]))):
                if v.d.get(k) != x:
                    out.append(Fail("attributes", "%s records %s=%s" % (w, k, v.d.get(k))))
            n = V(it, "fMPS", "vfMPS")(list(pairs), d)
            for k, x in (("L", L), ("d", d), ("D", max(b or [1]))):
                if n.d.get(k) != x:
                    out.append(Fail("attributes", "vfMPS of %d pairs records %s=%s" % (L, k, n.d.get(k))))
            r2 = call(it, n, "to_fMPS")
            out.append(proportional(spec.state(data(r2)), old, "vfMPS(pairs).to_fMPS is another state", "round trip"))
            return out
        add("Vidal form L=%d d=%d bonds=%s" % (L, d, b), "fMPS:vfMPS.from_fMPS", f, maxpaths=64)
    return obs
