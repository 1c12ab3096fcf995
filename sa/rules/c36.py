"""Networks as sequences of tensors: comparison, indexing, iteration, copying and structure of the finite, thermofield, infinite and
two-dimensional containers, for generic tensors (taken to differ from everything they are not identical to) on a grid of lengths and
shapes that includes prefixes of one another and shapes that broadcast."""
from .. import nd, spec, interp as I
from ..rule import Ob, Fail, check, expect
from .common import call, data

FLOOR = 40


def ident(a, b):
    return nd.symof(a).shape == nd.symof(b).shape and bool(spec.eq(a, b))


def truth(x):
    return bool(x)


def chain(shapes, name="A"):
    return [spec.tensor(s, name) for s in shapes]


CHAINS = {"L=1": [(2, 1, 1)], "L=2": [(2, 1, 2), (2, 2, 1)], "L=3": [(2, 1, 2), (2, 2, 3), (2, 3, 1)], "L=4 d=3": [(3, 1, 2), (3, 2, 2), (3, 2, 3), (3, 3, 1)]}
KINDS = [("fMPS", "fMPS", CHAINS), ("fMPS", "fTFD", {"L=2": [(4, 1, 2), (4, 2, 1)], "L=3": [(4, 1, 2), (4, 2, 3), (4, 3, 1)]}),
         ("iMPS", "iMPS", {"period=1": [(2, 3, 3)], "period=2": [(3, 2, 2), (3, 2, 2)]})]


def generic(f):
    def g(it):
        nd.GENERIC = True
        try:
            return f(it)
        finally:
            nd.GENERIC = False
    return g


def eqs(a, b, want, what):
    """a == b and a != b in both directions"""
    out = []
    for x, y, o in ((a, b, ""), (b, a, " (swapped)")):
        for op, f, w in (("==", lambda: x == y, want), ("!=", lambda: x != y, not want)):
            try:
                r = f()
            except nd.Raise as e:
                out.append(Fail("comparison", "%s%s: %s raises %s" % (what, o, op, e)))
                continue
            if truth(r) != w:
                out.append(Fail("comparison", "%s%s: %s is %s" % (what, o, op, truth(r))))
    return out


def obligations(tier):
    obs = []
    for mod, nm, chains in KINDS:
        E = "%s:%s." % (mod, nm)
        K = lambda it, mod=mod, nm=nm: it.mod(mod).vars[nm]
        for lab, shapes in chains.items():
            wh = "%s %s" % (nm, lab)

            def f(it, K=K, shapes=shapes, wh=wh):
                ts = chain(shapes)
                m = K(it)(list(ts))
                n = len(ts)
                out = [check(len(m) == n, "length", wh + ": len is not the number of tensors")]
                out.append(check(len(list(m)) == n and all(ident(x, y) for x, y in zip(m, ts)), "iteration", wh + ": iteration does not give the tensors in order"))
                for k in range(n):
                    out.append(check(ident(m[k], ts[k]), "indexing", wh + ": m[%d] is not tensor %d" % (k, k)))
                    out.append(check(ident(m[k - n], ts[k]), "indexing", wh + ": m[%d] is not tensor %d" % (k - n, k)))
                    out.append(check(ident(m(k + 1), ts[k]), "indexing", wh + ": m(%d) is not tensor %d" % (k + 1, k)))
                return out
            obs.append(Ob("indexing " + wh, E + "__getitem__", generic(f)))

            def f(it, K=K, shapes=shapes, wh=wh):
                out = []
                for k in range(len(shapes)):
                    ts = chain(shapes)
                    m = K(it)(list(ts))
                    new = spec.tensor(shapes[k], "N")
                    m[k] = new
                    out.append(check(all(ident(x, new if i == k else y) for i, (x, y) in enumerate(zip(data(m), ts))) and len(data(m)) == len(ts), "assignment", wh + ": m[%d] = x" % k))
                    out.append(check(not m.d.get("orthogonal", False), "flags", wh + ": assignment keeps the orthogonality flag"))
                return out
            obs.append(Ob("assignment " + wh, E + "__setitem__", generic(f)))

            def f(it, K=K, shapes=shapes, wh=wh):
                ts = chain(shapes)
                m = K(it)(list(ts))
                out = eqs(m, m, True, wh + " with itself") + eqs(m, K(it)([nd.array(t) for t in ts]), True, wh + " with equal tensors")
                for k in range(len(ts)):
                    other = list(ts)
                    other[k] = spec.tensor(shapes[k], "B")
                    out += eqs(m, K(it)(other), False, wh + " with tensor %d replaced" % k)
                if len(ts) > 1:
                    out += eqs(m, K(it)(list(ts[:-1])), False, wh + " with its last tensor dropped")
                    out += eqs(m, K(it)(list(ts[1:])), False, wh + " with its first tensor dropped")
                # shapes that broadcast: every bond of size one against the same numbers repeated
                one = spec.tensor((shapes[0][0], 1, 1), "u")
                rep = nd.wrap(spec.einsum("sab,c->sac", one, nd.ones((3,))), "c", scalar=False)
                out += eqs(K(it)([one]), K(it)([rep]), False, nm_of(wh) + " with repeated entries along a bond")
                # shapes that do not broadcast
                out += eqs(K(it)([spec.tensor((2, 2, 2), "p")]), K(it)([spec.tensor((2, 3, 3), "q")]), False, nm_of(wh) + " with different bond dimension")
                return out
            obs.append(Ob("equality " + wh, E + "__eq__", generic(f)))

            def f(it, K=K, shapes=shapes, wh=wh):
                ts = chain(shapes)
                m = K(it)(list(ts))
                c = call(it, m, "copy")
                out = [check(c is not m and c.cls is m.cls, "copy", wh + ": copy is not a new object of the same class"),
                       check(len(data(c)) == len(ts) and all(ident(a, b) for a, b in zip(data(c), ts)), "copy", wh + ": copy has other tensors")]
                for n in ("d", "D", "L", "period"):
                    if n in m.d:
                        out.append(check(c.d.get(n) == m.d[n], "copy", wh + ": copy has another %s" % n))
                c[0] = spec.tensor(shapes[0], "N")
                out.append(check(ident(data(m)[0], ts[0]), "copy", wh + ": assigning to a copy changes the original"))
                return out
            obs.append(Ob("copy " + wh, E + "copy", generic(f)))

            if mod == "fMPS":
                def f(it, K=K, shapes=shapes, wh=wh):
                    m = K(it)(chain(shapes))
                    return [check([tuple(s) for s in call_or_get(it, m, "structure")] == [s[1:] for s in shapes], "structure", wh + ": structure does not list the bond dimensions"),
                            check((m.d["L"], m.d["d"], m.d["D"]) == (len(shapes), shapes[0][0], max(max(s[1:]) for s in shapes)), "attributes", wh + ": L, d, D of the constructor")]
                obs.append(Ob("structure " + wh, E + "structure", generic(f)))
    # two-dimensional networks
    def rows(n, m, name="P", d=2):
        shp = lambda i, j: (d, 1 if i == 0 else 2, 1 if j == m - 1 else 2, 1 if i == n - 1 else 2, 1 if j == 0 else 2)
        return [[spec.tensor(shp(i, j), name) for j in range(m)] for i in range(n)]
    P = lambda it: it.mod("fPEPS").vars["fPEPS"]
    for n, m_ in [(1, 2), (2, 2), (2, 3)]:
        wh = "fPEPS %dx%d" % (n, m_)

        def f(it, n=n, m_=m_, wh=wh):
            ts = rows(n, m_)
            m = P(it)([list(r) for r in ts])
            out = eqs(m, P(it)([[nd.array(x) for x in r] for r in ts]), True, wh + " with equal tensors")
            for i in range(n):
                for j in range(m_):
                    o = [list(r) for r in ts]
                    o[i][j] = spec.tensor(ts[i][j].shape, "B")
                    out += eqs(m, P(it)(o), False, wh + " with tensor (%d, %d) replaced" % (i, j))
            if n > 1:
                out += eqs(m, P(it)([list(r) for r in ts[:-1]]), False, wh + " with its last row dropped")
            if m_ > 1:
                out += eqs(m, P(it)([list(r[:-1]) for r in ts]), False, wh + " with its last column dropped")
            o = P(it)([list(r) for r in ts])
            o.d["oc"] = (0, 1)
            out += eqs(m, o, False, wh + " with a recorded centre")
            m.d["oc"] = (0, 0)
            out += eqs(m, o, False, wh + " with another centre")
            o.d["oc"] = (0, 0)
            out += eqs(m, o, True, wh + " with the same centre")
            return out
        obs.append(Ob("equality " + wh, "fPEPS:fPEPS.__eq__", generic(f)))

        def f(it, n=n, m_=m_, wh=wh):
            ts = rows(n, m_)
            m = P(it)([list(r) for r in ts])
            m.d["oc"] = (0, 1)
            m.d["X"] = 7
            c = call(it, m, "copy")
            out = [check(all(ident(x, y) for r, s in zip(data(c), ts) for x, y in zip(r, s)) and [len(r) for r in data(c)] == [m_] * n, "copy", wh + ": copy has other tensors"),
                   check((c.d.get("oc"), c.d.get("X"), c.d.get("d"), c.d["Lx"], c.d["Ly"]) == ((0, 1), 7, 2, m_, n), "copy", wh + ": copy loses attributes")]
            data(c)[0][0] = spec.tensor(ts[0][0].shape, "N")
            out.append(check(ident(data(m)[0][0], ts[0][0]), "copy", wh + ": replacing a tensor of a copy changes the original"))
            return out
        obs.append(Ob("copy " + wh, "fPEPS:fPEPS.copy", generic(f)))
    return obs


def nm_of(wh):
    return wh.split()[0]


def call_or_get(it, m, name):
    x = it.getattr(m, name)
    return x() if callable(x) else x
