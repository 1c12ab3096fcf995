"""Cached second-order tensors: sequences of requests (all pairs in several orders, transposed pairs first, the three kinds
interleaved, other Hamiltonians, changed tensors, copies) are interpreted on one object with a shared cache identifier and every
answer is compared with the answer of a fresh object without identifier; a twelve-site chain, whose site numbers have two digits,
checks that tables never mix up site tuples."""
from .common import *
from .c13 import canon, env_r

BONDS_SKIP = r" 13 sites"          # obligations that state the bond dimensions themselves
FLOOR = 15
E = "fMPS:fMPS."


def eqs(g, ref, s, tag="cached value differs"):
    g, ref = nd.symof(g), nd.symof(ref)
    if tuple(g.shape) != tuple(ref.shape):
        return Fail("cached shape", "%s has shape %s, fresh computation gives %s" % (s, g.shape, ref.shape))
    return check(spec.eq(g, ref), tag, s)


def bond(D, name):
    return spec.hermitian((D, D), (1, 0), name) if D > 1 else spec.tensor((1, 1), name)


class State:
    """a state in canonical form; fresh() gives an unused object with the same tensors"""

    def __init__(self, it, L, d, p, env=True):
        self.it = it
        self.m, self.A = canon(it, L, d, p)
        self.d = d
        self.H = self.ham("h")
        self.env = self.extra(self.m) if env else {}

    def ham(self, n):
        return [spec.hermitian((self.d ** 2, self.d ** 2), (1, 0), "%s%d" % (n, i)) for i in range(len(self.A) - 1)]

    def extra(self, m):
        return {}

    def fresh(self, data=None):
        m = self.it.mod("fMPS").vars["fMPS"](list(data or self.m.d["data"]))
        return m

    def ref(self, kind, sites, H=None, data=None, **k):
        """fresh answer, remembered per request"""
        key = (kind, sites, id(H), id(data) if data is not None else None) if not k else None
        memo = self.__dict__.setdefault("memo", {})
        if key is not None and key in memo:
            return memo[key]
        f = self.fresh(data)
        v = call(self.it, f, kind, *sites, **k) if kind == "christoffel" else call(self.it, f, kind, *sites, H or self.H, **k)
        if key is not None:
            memo[key] = v
        return v

    def ask(self, kind, sites, H=None, m=None, **k):
        m = m or self.m
        return call(self.it, m, kind, *sites, **k) if kind == "christoffel" else call(self.it, m, kind, *sites, H or self.H, **k)


def obligations(tier):
    obs = []
    big = tier != "quick"
    G = [(2, 2, [2]), (3, 2, [2, 2]), (4, 2, [2, 2, 2])]
    if big:
        G += [(3, 3, [2, 2]), (4, 2, [2, 3, 2]), (5, 2, [2, 2, 2, 2])]
    G += [(v, 2, [2] * (v - 1)) for v in grid.more(["fMPS:fMPS.F1", "fMPS:fMPS.F2", "fMPS:fMPS.christoffel", "fMPS:fMPS.jac"], ("fMPS",), 4, 6)] + [(2, v, [2]) for v in grid.more(["fMPS:fMPS.F1", "fMPS:fMPS.F2", "fMPS:fMPS.christoffel"], cap=9)]
    for L, d, p in G:
        wh = grid.pstr(L, d, p)
        pairs = [(i, j) for i in range(L) for j in range(L)]
        orders = {"forward": pairs, "backward": pairs[::-1], "by column": [(j, i) for i, j in pairs],
                  "from the middle": sorted(pairs, key=lambda q: (abs(q[0] - L // 2) + abs(q[1] - L // 2), q[0]))}
        if L == 4 and not big:
            orders = {"backward": pairs[::-1], "from the middle": orders["from the middle"]}
        for kind in ("F1", "F2"):
            for on, order in orders.items():
                def f(it, L=L, d=d, p=p, wh=wh, kind=kind, on=on, order=order):
                    s = State(it, L, d, p)
                    out = []
                    for q in order:
                        out.append(eqs(s.ask(kind, q, id="x"), s.ref(kind, q), "%s%s with a shared identifier, after %s; %s" % (kind, q, on, wh)))
                    for q in order[:3]:
                        out.append(eqs(s.ask(kind, q, id="x"), s.ref(kind, q), "%s%s asked again; %s" % (kind, q, wh)))
                    return out
                obs.append(Ob("%s all pairs %s %s" % (kind, on, wh), E + kind, f))
        if L <= 3:
            tri = [(i, j, k) for i in range(L) for j in range(L) for k in range(L)]
        else:
            tri = [(0, 2, 0), (2, 0, 0), (0, 2, 2), (1, 3, 1), (3, 1, 1), (0, 3, 0), (0, 1, 0), (1, 0, 0), (1, 0, 1)]
        for on, order in {"forward": tri, "backward": tri[::-1]}.items():
            def f(it, L=L, d=d, p=p, wh=wh, on=on, order=order):
                s = State(it, L, d, p)
                out = []
                for q in order:
                    out.append(eqs(s.ask("christoffel", q, id="x"), s.ref("christoffel", q), "christoffel%s with a shared identifier, after %s; %s" % (q, on, wh)))
                return out
            obs.append(Ob("christoffel all triples %s %s" % (on, wh), E + "christoffel", f))

        # every ordered pair of requests on an identifier of its own
        if L <= 3:
            for kind, qs in (("F1", pairs), ("F2", pairs), ("christoffel", [t for t in tri if len(set(t)) > 1])):
                def f(it, L=L, d=d, p=p, wh=wh, kind=kind, qs=qs):
                    s = State(it, L, d, p)
                    out = []
                    for n, q in enumerate(qs):
                        for k, r in enumerate(qs):
                            if q == r or L > 2 and sorted(q) != sorted(r) and not big:
                                continue
                            s.ask(kind, q, id="%d.%d" % (n, k))
                            out.append(eqs(s.ask(kind, r, id="%d.%d" % (n, k)), s.ref(kind, r), "%s%s asked second, after %s; %s" % (kind, r, q, wh)))
                    return out
                obs.append(Ob("%s ordered pairs %s" % (kind, wh), E + kind, f))

        # the kinds interleaved on one identifier, identifiers alternating, another Hamiltonian
        def f(it, L=L, d=d, p=p, wh=wh):
            s = State(it, L, d, p)
            H2 = s.ham("g")
            a, b = 0, L - 1
            seq = [("F1", (a, b), "x", None), ("F2", (a, b), "x", None), ("christoffel", (a, b, a), "x", None), ("F1", (b, a), "x", None), ("F2", (b, a), "x", None),
                   ("christoffel", (b, a, a), "x", None), ("F1", (a, b), "y", H2), ("F2", (a, b), "y", H2), ("F1", (a, a), "x", None), ("F2", (b, a), "x", None),
                   ("F1", (a, b), None, H2), ("F1", (a, b), None, None), ("F2", (a, b), None, H2), ("F2", (a, b), None, None), ("F1", (b, b), None, H2), ("F1", (b, b), "x", None)]
            out = []
            for kind, q, i, H in seq:
                k = {} if i is None else {"id": i}
                out.append(eqs(s.ask(kind, q, H, **k), s.ref(kind, q, H), "%s%s with identifier %r after other requests; %s" % (kind, q, i, wh)))
            return out
        obs.append(Ob("interleaved %s" % wh, E + "F1", f))

        # closed tensors share the identifier with open ones
        def f(it, L=L, d=d, p=p, wh=wh):
            s = State(it, L, d, p)
            a, b = 0, L - 1
            out = []
            B = [spec.tensor(x.shape, "b%d" % n) for n, x in enumerate(s.A)]
            C = spec.tensor(s.A[a].shape, "c")
            for i, j in ((a, b), (b, a)):
                for cl, nm in (((None, None, B[a]), "closed third"), ((None, None, C), "another closed third"), ((None, None, None), "open"), ((None, None, B[a]), "closed third again"),
                               ((B[i], None, None), "closed first"), ((None, None, None), "open again")):
                    g = s.ask("christoffel", (i, j, a), id="x", closed=cl)
                    r = s.ref("christoffel", (i, j, a), closed=cl) if nm[:4] != "open" else s.ref("christoffel", (i, j, a))
                    out.append(eqs(g, r, "christoffel(%d, %d, %d) %s on a shared identifier; %s" % (i, j, a, nm, wh)))
            return out
        obs.append(Ob("closed and open %s" % wh, E + "christoffel", f))

        # transfers cached by dA_dt: for these tensors only
        if L <= 3 or big:
            def f(it, L=L, d=d, p=p, wh=wh):
                s = State(it, L, d, p)
                a, b = 0, L - 1
                out = []
                B = spec.tensor(s.A[a].shape, "b")
                call(it, s.m, "dA_dt", s.H)
                cl = (None, None, B)
                for q in ((a, b, a), (b, a, a)):
                    out.append(eqs(s.ask("christoffel", q, closed=cl), s.ref("christoffel", q, closed=cl), "christoffel%s after dA_dt; %s" % (q, wh)))
                # another canonical state in the same object
                other, A2 = canon(it, L, d, p)
                for n in range(L):
                    it.setitem(s.m, n, other.d["data"][n])
                for q in ((a, b, a), (b, a, a)):
                    out.append(eqs(s.ask("christoffel", q, closed=cl), call(it, s.fresh(other.d["data"]), "christoffel", *q, closed=cl), "christoffel%s after dA_dt and assigning other tensors; %s" % (q, wh)))
                for q in ((a, b), (b, a), (a, a)):
                    out.append(eqs(s.ask("F1", q), call(it, s.fresh(other.d["data"]), "F1", *q, s.H), "F1%s after assigning other tensors; %s" % (q, wh)))
                    out.append(eqs(s.ask("F2", q), call(it, s.fresh(other.d["data"]), "F2", *q, s.H), "F2%s after assigning other tensors; %s" % (q, wh)))
                c = call(it, s.m, "copy")
                out.append(eqs(s.ask("christoffel", (a, b, a), m=c, closed=cl), call(it, s.fresh(other.d["data"]), "christoffel", a, b, a, closed=cl), "christoffel of a copy; " + wh))
                return out
            obs.append(Ob("after dA_dt %s" % wh, E + "christoffel", f))

        if (L, d) == (2, 2) or big and L == 3 and d == 2:
            def f(it, L=L, d=d, p=p, wh=wh):
                s = State(it, L, d, p)
                H2 = s.ham("g")
                out = []
                call(it, s.m, "F1", 0, 1, s.H, id="x")
                for H, nm in ((s.H, "first"), (H2, "second"), (s.H, "first")):
                    J = call(it, s.m, "jac", H, real_matrix=False)
                    R = call(it, s.fresh(), "jac", H, real_matrix=False)
                    out += [eqs(x, y, "jac of the %s Hamiltonian after earlier requests, block %d; %s" % (nm, n, wh)) for n, (x, y) in enumerate(zip(J, R))]
                other, A2 = canon(it, L, d, p)
                for n in range(L):
                    it.setitem(s.m, n, other.d["data"][n])
                J = call(it, s.m, "jac", s.H, real_matrix=False)
                R = call(it, s.fresh(other.d["data"]), "jac", s.H, real_matrix=False)
                out += [eqs(x, y, "jac after assigning other tensors, block %d; %s" % (n, wh)) for n, (x, y) in enumerate(zip(J, R))]
                return out
            obs.append(Ob("jac after other requests %s" % wh, E + "jac", f))

    # two-digit site numbers: generic tensors with generic environments and projectors handed in
    N = 13
    order = [(i, j) for i in range(N) for j in range(N)]
    orders = {"forward": order, "backward": order[::-1], "by column": [(j, i) for i, j in order]}
    for kind in ("F1", "F2", "christoffel"):
        for on, seq in orders.items():
            def f(it, kind=kind, seq=seq):
                D = [1] + [2] * (N - 1) + [1]
                A = spec.mps_data(N, 2, D[1:-1])
                ls, rs = ([bond(D[n], a + "%d" % n) for n in range(N + 1)] for a in "lr")
                cs = [[bond(D[n + 1], a + "%d" % n) for n in range(N)] for a in ("ir", "il", "cr", "cl")]
                env = {"envs": (lambda n: ls[n + 1], lambda n: rs[n + 1]),
                       "prs_vLs": [(spec.tensor((2, D[n], 2, D[n]), "p%d" % n), spec.tensor((2, D[n], 2 * D[n] - D[n + 1]), "v%d" % n)) for n in range(N)]}
                H = [spec.hermitian((4, 4), (1, 0), "h%d" % n) for n in range(N - 1)]
                m = spec.fMPS(it, A)
                if kind != "christoffel":
                    env["inv_envs"] = tuple(cs)
                out = []
                for q in seq:
                    if kind == "christoffel":
                        for k in {q[0], q[1]}:
                            out.append(eqs(call(it, m, kind, *q, k, id="x", **env), call(it, spec.fMPS(it, A), kind, *q, k, **env), "christoffel(%d, %d, %d) on %d sites" % (*q, k, N)))
                    elif max(q) > 9 and (big or min(q) < 3 or min(q) > 9):
                        out.append(eqs(call(it, m, kind, *q, H, id="x", **env), call(it, spec.fMPS(it, A), kind, *q, H, **env), "%s%s on %d sites" % (kind, q, N)))
                    if len(out) > 4 and any(out):
                        break
                return out
            obs.append(Ob("%s %d sites %s" % (kind, N, on), E + kind, f))
    return sorted(obs, key=lambda o: "%d sites" % N not in o.name)
