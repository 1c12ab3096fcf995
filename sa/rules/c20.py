"""PEPS quantities: every method is applied to networks of abstract tensors on rectangular lattices with unequal bond dimensions and
compared with the contraction of the complete state of the same tensors."""
from .common import *
from .c19 import peps_data, peps_state, fpeps, rows_of, shapes_ok, same, labels

BONDS_SKIP = r"from_mps"          # obligations that state the bond dimensions themselves
FLOOR = 50
ASSUMPTIONS = ["environment and tm take (row, column), the other methods (column, row), as the code does; both are documented in DESIGN.md"]


def op_on(st, O, sites):
    """apply O (rows, columns over the named legs in order) to a state tensor"""
    n = len(st.shape)
    k = len(sites)
    dims = [st.shape[s] for s in sites]
    o = tn.reshape(nd.symof(O), tuple(dims) * 2)
    out = list(range(n))
    new = [("n", s) for s in range(k)]
    for a, s in enumerate(sites):
        out[s] = new[a]
    return tn.einsum([o, st], [new + list(sites), list(range(n))], out)


def flat(s):
    n = 1
    for x in s.shape:
        n *= x
    return tn.reshape(s, (n,))


def first(x):
    """single entry of a scalar or a one-by-one matrix"""
    s = nd.symof(x)
    return tn.reshape(s, ()) if s.shape else s


def obligations(tier):
    obs = []
    big = tier != "quick"
    sizes = [(2, 2), (2, 3), (3, 2), (1, 3), (3, 1)] + ([(3, 3), (2, 4), (4, 2)] if big else []) + [x for v in grid.more(["fPEPS:fPEPS.contract", "fPEPS:fPEPS.overlap", "fPEPS:fPEPS.rho", "fPEPS:fPEPS.E"], ("fPEPS", "peps_tools", "ncon", "tensor"), lo=4, cap=7) for x in ((1, v), (v, 1))]

    def add(name, entry, fn, **kw):
        obs.append(Ob(name, "fPEPS:" + entry, fn, **kw))

    def two(it, Ly, Lx, dy=None):
        x = peps_data(Ly, Lx)
        y = peps_data(Ly, Lx, name="Q", dims=dy or [3, 1, 2, 2])
        return x, y, fpeps(it, x), fpeps(it, y)

    for Ly, Lx in sizes:
        sz = "%dx%d" % (Ly, Lx)

        def state(it, Ly=Ly, Lx=Lx):
            x = peps_data(Ly, Lx)
            p = fpeps(it, x)
            st = peps_state(x)
            out = [check(spec.eq(call(it, p, "recombine"), flat(st)), "reading order", "recombine is not the state in reading order")]
            order = [j * Lx + (i if j % 2 == 0 else Lx - 1 - i) for j in range(Ly) for i in range(Lx)]
            out.append(check(spec.eq(call(it, p, "recombine", "row_snake"), flat(tn.transpose(st, tuple(order)))), "snake order", "recombine('row_snake') is not the state in snake order"))
            out.append(same(rows_of(p), x, "operand", "recombine changes the network"))
            return out
        add("recombine %s" % sz, "fPEPS.recombine", state)

        def overlap(it, Ly=Ly, Lx=Lx):
            x, y, p, q = two(it, Ly, Lx)
            ref = ip(peps_state(x), peps_state(y))
            out = [check(spec.eq(first(call(it, p, "overlap", q)), ref), "overlap", "overlap is not <self|other>"),
                   check(spec.eq(first(call(it, p, "full_overlap", q)), ref), "overlap", "full_overlap is not <self|other>"),
                   same(rows_of(p), x, "operand", "overlap changes the network"), same(rows_of(q), y, "operand", "overlap changes the other network")]
            n = first(call(it, p, "norm"))
            out.append(check(spec.eq(n, nd.symof(nd.sqrt(nd.wrap(norm2(peps_state(x)), "f")))), "norm", "norm is not the square root of <self|self>"))
            return out
        add("overlap %s" % sz, "fPEPS.overlap", overlap)

        def normalised(it, Ly=Ly, Lx=Lx):
            x = peps_data(Ly, Lx)
            st = peps_state(x)
            p = fpeps(it, x)
            q = call(it, p, "normalise")
            new = peps_state(rows_of(q))
            return [check(q is p, "receiver", "normalise returns another network"), unit(new, "normalise of %dx%d" % (Ly, Lx)), proportional(new, st, "normalise changes the state")]
        add("normalise %s" % sz, "fPEPS.normalise", normalised)

        def local(it, Ly=Ly, Lx=Lx):
            out = []
            x = peps_data(Ly, Lx)
            st = peps_state(x)
            for j in range(Ly):
                for i in range(Lx):
                    O = spec.tensor((2, 2), "O")
                    p = fpeps(it, x)
                    ref = op_on(st, O, [j * Lx + i])
                    q = call(it, p, "apply", O, (i, j))
                    out.append(check(spec.eq(peps_state(rows_of(q)), ref), "apply", "apply at (%d, %d) of %dx%d" % (i, j, Ly, Lx)))
                    out.append(same(rows_of(p), x, "operand", "apply changes the network"))
                    e = nd.symof(nd.real(nd.wrap(ip(st, ref), "c")))
                    out.append(check(spec.eq(first(call(it, p, "E", O, (i, j))), e), "expectation", "E at (%d, %d) of %dx%d is not Re <psi|O|psi>" % (i, j, Ly, Lx)))
            return [o for o in out if o]
        add("apply, E %s" % sz, "fPEPS.E", local)

        regions = [(a, b, w, h) for a in range(Lx) for b in range(Ly) for w in range(1, Lx - a + 1) for h in range(1, Ly - b + 1) if w * h <= (4 if big else 3) or (w, h) == (2, 2)]
        if Ly * Lx > 6:
            regions = [r for r in regions if r[2] * r[3] in (2, 4)][:6]

        def orders(a, b, w, h, Lx=Lx):
            """sites of a block in reading order and in column order"""
            return ([(b + k) * Lx + a + l for k in range(h) for l in range(w)], [(b + k) * Lx + a + l for l in range(w) for k in range(h)])

        def block(it, reading, Ly=Ly, Lx=Lx, regions=regions, orders=orders):
            out = []
            x = peps_data(Ly, Lx)
            st = peps_state(x)
            for a, b, w, h in regions:
                if reading and (w == 1 or h == 1):
                    continue
                n = 2 ** (w * h)
                O = spec.tensor((n, n), "O")
                p = fpeps(it, x)
                e = [nd.symof(nd.real(nd.wrap(ip(st, op_on(st, O, sites)), "c"))) for sites in orders(a, b, w, h)]
                got = first(call(it, p, "E_k", O, ((a, b), (w, h))))
                where = "%dx%d block at (%d, %d) of %dx%d" % (h, w, a, b, Ly, Lx)
                if reading:
                    out.append(check(spec.eq(got, e[0]), "reading order", "E_k of the %s does not take the operator in reading order" % where))
                else:
                    # the order of the sites of a block that is more than one row high and one column wide is the other obligation
                    out.append(check(any(spec.eq(got, v) for v in e), "expectation", "E_k of the %s is not Re <psi|O|psi>" % where))
                out.append(same(rows_of(p), x, "operand", "E_k changes the network"))
            return [o for o in out if o]
        add("E_k %s" % sz, "fPEPS.E_k", lambda it, f=block: f(it, False))
        if any(r[2] > 1 and r[3] > 1 for r in regions):
            add("E_k order %s" % sz, "fPEPS.E_k", lambda it, f=block: f(it, True))

        def contract(it, Ly=Ly, Lx=Lx, regions=regions):
            out = []
            x = peps_data(Ly, Lx)
            st = peps_state(x)
            n = Lx * Ly
            for a, b, w, h in regions:
                q = call(it, fpeps(it, x), "contract", ((a, b), (w, h)))
                new = rows_of(q)
                # rows b..b+h and columns a..a+w become one
                bad = shapes_ok(new)
                if bad or len(new) != Ly - h + 1 or any(len(r) != Lx - w + 1 for r in new):
                    out.append(bad or Fail("lattice", "contracting a %dx%d block leaves rows of lengths %s" % (h, w, [len(r) for r in new])))
                    continue
                def grouped(column):
                    groups = []
                    for k in range(Ly - h + 1):
                        rj = [k] if k < b else list(range(b, b + h)) if k == b else [k + h - 1]
                        for l in range(Lx - w + 1):
                            ri = [l] if l < a else list(range(a, a + w)) if l == a else [l + w - 1]
                            groups.append([jj * Lx + ii for ii in ri for jj in rj] if column else [jj * Lx + ii for jj in rj for ii in ri])
                    return tn.reshape(tn.transpose(st, tuple(s for g in groups for s in g)), tuple(2 ** len(g) for g in groups))
                # the order of the sites inside the composite leg is not documented
                out.append(check(any(spec.eq(peps_state(new), grouped(c)) for c in (False, True)), "contract", "contracting the %dx%d block at (%d, %d)" % (h, w, a, b)))
                out.append(check((it.getattr(q, "Lx"), it.getattr(q, "Ly")) == (Lx - w + 1, Ly - h + 1), "size", "contract records the wrong size"))
            return [o for o in out if o]
        add("contract %s" % sz, "fPEPS.contract", contract)

        if Lx > 1 and Ly > 1:
            def plus(it, Ly=Ly, Lx=Lx):
                out = []
                for dy in ([3, 1, 2, 2], [1], [2]):
                    x, y, p, q = two(it, Ly, Lx, dy)
                    z = rows_of(call(it, p, "add", q))
                    bad = shapes_ok(z)
                    if bad:
                        return [bad]
                    out.append(check(spec.eq(peps_state(z), peps_state(x).add(peps_state(y))), "sum", "add is not the sum of the states"))
                    out += [same(rows_of(p), x, "operand", "add changes the network"), same(rows_of(q), y, "operand", "add changes the other network")]
                return out
            add("add %s" % sz, "fPEPS.add", plus)

        def mpos(it, Ly=Ly, Lx=Lx):
            """the rows and columns of the doubled network"""
            from .c19 import mpo_op
            x, y, p, q = two(it, Ly, Lx)
            out = []
            def doubled(rows, rows2):
                r = []
                for u, v in zip(rows, rows2):
                    r.append([])
                    for a, b in zip(u, v):
                        w = spec.einsum("sabcd,sefgh->aebfcgdh", a, nd.wrap(nd.symof(b).conj(), "c"))
                        r[-1].append(tn.reshape(w, tuple(m * n for m, n in zip(a.shape[1:], b.shape[1:]))))
                return r
            D = doubled(x, y)
            for args, E in (((q,), D), ((), doubled(x, x))):
                got = call(it, p, "row_mpos", *args)
                out.append(same([m.d["data"] for m in got], E, "rows", "row_mpos%s are not the rows of the doubled network" % ("(other)" if args else "()")))
                got = call(it, p, "col_mpos", *args)
                tr = [[tn.transpose(E[j][i], (3, 2, 1, 0)) for j in range(Ly)] for i in range(Lx)]
                out.append(same([m.d["data"] for m in got], tr, "columns", "col_mpos%s are not the columns of the doubled network" % ("(other)" if args else "()")))
            return out
        add("row and column operators %s" % sz, "fPEPS.row_mpos", mpos)

        def env(it, Ly=Ly, Lx=Lx):
            x = peps_data(Ly, Lx)
            p = fpeps(it, x)
            out = []
            for j in range(Ly):
                for i in range(Lx):
                    e = nd.symof(call(it, p, "environment", (j, i)))
                    ops, labs = [], []
                    for b in range(Ly):
                        for a in range(Lx):
                            if (b, a) == (j, i):
                                continue
                            ops += [nd.symof(x[b][a]), nd.symof(x[b][a]).conj()]
                            l = labels(b, a, Lx, Ly)
                            labs += [[("k",) + k for k in l], [l[0] and ("k",) + l[0]] + [("b",) + k for k in l[1:]]]
                    l = labels(j, i, Lx, Ly)[1:]
                    s = x[j][i].shape[1:]
                    outl = []
                    for k, n in zip(l, s):
                        outl += [("k",) + k, ("b",) + k]
                    present = set(q for z in labs for q in z)
                    for k in outl:
                        if k not in present:
                            ops.append(tn.ones((1,)))
                            labs.append([k])
                    ref = tn.reshape(tn.einsum(ops, labs, outl), tuple(n * n for n in s))
                    out.append(check(spec.eq(e, ref), "environment", "environment of row %d, column %d of %dx%d" % (j, i, Ly, Lx)))
                    t = nd.symof(call(it, p, "tm", (j, i)))
                    A = nd.symof(x[j][i])
                    out.append(check(spec.eq(t, tn.einsum([A, A.conj()], [["s", "a", "b", "c", "d"], ["s", "e", "f", "g", "h"]], list("aebfcgdh"))), "transfer tensor", "tm of row %d, column %d" % (j, i)))
            out.append(same(rows_of(p), x, "operand", "environment changes the network"))
            return [o for o in out if o]
        if Lx > 1:
            add("environment %s" % sz, "fPEPS.environment", env)

        def copies(it, Ly=Ly, Lx=Lx):
            x, y, p, q = two(it, Ly, Lx)
            it.setattr(p, "oc", (0, Ly - 1))
            c = call(it, p, "copy")
            out = [same(rows_of(c), x, "copy", "copy has other tensors"), check(tuple(it.getattr(c, "oc")) == (0, Ly - 1) and all(it.getattr(c, k) == it.getattr(p, k) for k in ("Lx", "Ly", "d", "X")), "copy", "copy loses attributes")]
            out.append(same(rows_of(call(it, p, "copy", rows_of(q))), y, "copy", "copy(data) does not copy the data it is given"))
            return out
        add("copy %s" % sz, "fPEPS.copy", copies)

    # ---- product networks
    for Ly, Lx, d in [(2, 3, 2), (3, 2, 3), (1, 3, 2)]:
        def dens(it, Ly=Ly, Lx=Lx, d=d):
            x = [[nd.wrap(tn.reshape(spec.tensor((d,), "p%d%d" % (j, i)).sym(), (d, 1, 1, 1, 1)), "c", scalar=False) for i in range(Lx)] for j in range(Ly)]
            y = [[nd.wrap(tn.reshape(spec.tensor((d,), "q%d%d" % (j, i)).sym(), (d, 1, 1, 1, 1)), "c", scalar=False) for i in range(Lx)] for j in range(Ly)]
            p, q = fpeps(it, x), fpeps(it, y)
            out = []
            for a in range(Lx):
                for b in range(Ly):
                    for w in range(1, Lx - a + 1):
                        for h in range(1, Ly - b + 1):
                            r = nd.symof(call(it, p, "rho", ((a, b), (w, h))))
                            s = nd.symof(call(it, p, "rho_proj", q, ((a, b), (w, h))))
                            if r.shape != (w, h, d, d) or s.shape != (w, h, d, d):
                                out.append(Fail("shape", "densities of shapes %s, %s" % (r.shape, s.shape)))
                                continue
                            for i in range(w):
                                for j in range(h):
                                    u = tn.reshape(nd.symof(x[b + j][a + i]), (d,))
                                    v = tn.reshape(nd.symof(y[b + j][a + i]), (d,))
                                    g = lambda z: nd.symof(nd.getitem(nd.wrap(z, "c"), (i, j)))
                                    out.append(check(spec.eq(g(r), tn.outer(u, u.conj())), "density", "rho of site (%d, %d)" % (a + i, b + j)))
                                    out.append(check(spec.eq(g(s), tn.outer(u, v.conj())), "transition density", "rho_proj of site (%d, %d)" % (a + i, b + j)))
            return [o for o in out if o]
        add("densities of products %dx%d d=%d" % (Ly, Lx, d), "fPEPS.rho", dens)

        def norm1(it, Ly=Ly, Lx=Lx, d=d):
            x = peps_data(Ly, Lx, d, dims=[1])
            st = peps_state(x)
            q = call(it, fpeps(it, x), "normalise")
            new = peps_state(rows_of(q))
            return [unit(new, "normalise of a product"), proportional(new, st, "normalise changes the product")]
        add("normalise product %dx%d d=%d" % (Ly, Lx, d), "fPEPS.normalise", norm1)

    # ---- chains
    for L, Lx in [(4, None), (4, 2), (6, 2), (6, 3), (6, 6), (3, 1), (9, None)] + ([(8, 2), (8, 4), (12, 3)] if big else []):
        def chain(it, L=L, Lx=Lx):
            ds = spec.mps_data(L, 2, [[2, 3, 2, 1][k % 4] for k in range(L - 1)])
            ds[0] = spec.tensor((2, 1, 2), "A")
            m = spec.fMPS(it, ds)
            p = it.call(it.getattr(it.mod("fPEPS").vars["fPEPS"](), "from_mps"), m, Lx) if False else call(it, it.mod("fPEPS").vars["fPEPS"](), "from_mps", *((m,) if Lx is None else (m, Lx)))
            rows = rows_of(p)
            w = Lx or int(L ** .5)
            if len(rows) != L // w or any(len(r) != w for r in rows):
                return [Fail("lattice", "rows of lengths %s" % [len(r) for r in rows])]
            bad = shapes_ok(rows)
            if bad:
                return [bad]
            order = [j * w + (i if j % 2 == 0 else w - 1 - i) for j in range(L // w) for i in range(w)]
            return [check(spec.eq(tn.transpose(peps_state(rows), tuple(order)), spec.state(ds)), "state", "from_mps of %d sites in rows of %d is another state" % (L, w)), same([data(m)], [ds], "operand", "from_mps changes the chain")]
        add("from_mps L=%d Lx=%s" % (L, Lx), "fPEPS.from_mps", chain)

    # ---- bond truncations
    for Ly, Lx in [(2, 2), (2, 3), (3, 2), (3, 3)]:
        def cuts(it, Ly=Ly, Lx=Lx):
            out = []
            mk = lambda: peps_data(Ly, Lx, dims=[3, 4, 2])

            def expected(x, legs, D):
                """legs: set of bonds cut to D"""
                new = []
                for j in range(Ly):
                    new.append([])
                    for i in range(Lx):
                        t = x[j][i]
                        ax = {1: ("v", j - 1, i), 2: ("h", j, i), 3: ("v", j, i), 4: ("h", j, i - 1)}
                        idx = [slice(None)] * 5
                        for a, b in ax.items():
                            if b in legs:
                                idx[a] = slice(None, D)
                        new[-1].append(nd.getitem(t, tuple(idx)))
                return new
            for D in (1, 2, 5):
                for r in range(Ly):
                    if r > 0:
                        x = mk()
                        out.append(same(rows_of(call(it, fpeps(it, x), "truncate_above", r, D)), expected(x, {("v", r - 1, i) for i in range(Lx)}, D), "above", "truncate_above(%d, %d)" % (r, D)))
                    if r < Ly - 1:
                        x = mk()
                        out.append(same(rows_of(call(it, fpeps(it, x), "truncate_below", r, D)), expected(x, {("v", r, i) for i in range(Lx)}, D), "below", "truncate_below(%d, %d)" % (r, D)))
                    x = mk()
                    out.append(same(rows_of(call(it, fpeps(it, x), "truncate_along_row", r, D)), expected(x, {("h", r, i) for i in range(Lx - 1)}, D), "row", "truncate_along_row(%d, %d)" % (r, D)))
                for c in range(Lx):
                    if c > 0:
                        x = mk()
                        out.append(same(rows_of(call(it, fpeps(it, x), "truncate_left", c, D)), expected(x, {("h", j, c - 1) for j in range(Ly)}, D), "left", "truncate_left(%d, %d)" % (c, D)))
                    x = mk()
                    out.append(same(rows_of(call(it, fpeps(it, x), "truncate_along_column", c, D)), expected(x, {("v", j, c) for j in range(Ly - 1)}, D), "column", "truncate_along_column(%d, %d)" % (c, D)))
            for f, bad in (("truncate_above", 0), ("truncate_below", Ly - 1), ("truncate_left", 0)):
                try:
                    call(it, fpeps(it, mk()), f, bad, 2)
                    out.append(Fail("accepted", "%s(%d) of a border" % (f, bad)))
                except nd.Raise:
                    pass
            return [o for o in out if o]
        add("truncations %dx%d" % (Ly, Lx), "fPEPS.truncate_below", cuts)

        def fix(it, Ly=Ly, Lx=Lx):
            """after one tensor was replaced by one with other dimensions, the bonds around it fit again"""
            out = []
            for j in range(Ly):
                for i in range(Lx):
                    x = peps_data(Ly, Lx, dims=[3, 2, 4])
                    s = x[j][i].shape
                    for ch in ((1, -1, 1, 2), (-1, 1, 2, -1)):
                        new = [s[0]] + [max(1, n + c) if n > 1 else 1 for n, c in zip(s[1:], ch)]
                        y = [list(r) for r in x]
                        y[j][i] = spec.tensor(tuple(new), "N")
                        p = fpeps(it, y)
                        q = rows_of(call(it, p, "fix_neighbours", i, j))
                        bad = shapes_ok(q)
                        out.append(bad)
                        if not bad:
                            for b in range(Ly):
                                for a in range(Lx):
                                    t = q[b][a]
                                    out.append(check(spec.eq(t, nd.getitem(y[b][a], tuple(slice(None, n) for n in t.shape))), "entries", "fix_neighbours(%d, %d) does not keep the leading entries" % (i, j)))
                                    full = [max(n, min(n, m)) for n, m in zip(t.shape, y[b][a].shape)]
                            mn = [min(u, w) for u, w in zip(new, s)]
                            out.append(check(tuple(q[j][i].shape) == tuple(mn), "bond", "fix_neighbours(%d, %d) leaves shape %s instead of %s" % (i, j, q[j][i].shape, tuple(mn))))
            return [o for o in out if o]
        add("fix_neighbours %dx%d" % (Ly, Lx), "fPEPS.fix_neighbours", fix)

    # ---- isometric networks
    for Ly, Lx, chi in [(2, 2, 2), (2, 3, 2), (3, 2, 2), (1, 3, 2), (3, 1, 2), (2, 2, 3)] + ([(3, 3, 2), (2, 4, 3), (4, 2, 2)] if big else []):
        for j in range(Ly):
            for i in range(Lx):
                def iso(it, Ly=Ly, Lx=Lx, chi=chi, i=i, j=j):
                    p = it.mod("fPEPS").vars["fPEPS"]()
                    shapes = call(it, p, "create_structure", Lx, Ly, 2, chi)
                    x = [[spec.tensor(tuple(s), "P%d%d" % (b, a)) for a, s in enumerate(r)] for b, r in enumerate(shapes)]
                    q = call(it, fpeps(it, x), "isometrise", (i, j))
                    rows = rows_of(q)
                    bad = shapes_ok(rows)
                    if bad:
                        return [bad]
                    out = [check(tuple(it.getattr(q, "oc")) == (i, j), "centre", "isometrise((%d, %d)) records centre %s" % (i, j, it.getattr(q, "oc")))]
                    for b in range(Ly):
                        for a in range(Lx):
                            t = nd.symof(rows[b][a])
                            legs = []      # legs pointing to the centre
                            if a < i:
                                legs.append(2)
                            if a > i:
                                legs.append(4)
                            if b < j:
                                legs.append(3)
                            if b > j:
                                legs.append(1)
                            la = list("sabcd")
                            lb = [c.upper() if k in legs else c for k, c in enumerate(la)]
                            got = tn.einsum([t.conj(), t], [la, lb], [la[k] for k in legs] + [lb[k] for k in legs])
                            ref = tn.scalar(1)
                            for k in legs:
                                ref = tn.outer(ref, tn.eye(t.shape[k]))
                            n = len(legs)
                            ref = tn.transpose(ref, tuple(range(0, 2 * n, 2)) + tuple(range(1, 2 * n, 2))) if n else ref
                            out.append(check(spec.eq(got, ref), "isometry", "site (%d, %d) is no isometry towards the centre (%d, %d)" % (a, b, i, j)))
                    O = spec.tensor((2, 2), "O")
                    c = nd.symof(rows[j][i])
                    e = tn.einsum([c.conj(), nd.symof(O), c], [list("sabcd"), ["s", "t"], list("tabcd")], [])
                    for args in ((O,), (O, (i, j))):
                        out.append(check(spec.eq(call(it, q, "iso_E", *args), nd.symof(nd.real(nd.wrap(e, "c")))), "expectation", "iso_E at the centre (%d, %d)" % (i, j)))
                    return [o for o in out if o]
                add("isometrise %dx%d chi=%d centre=(%d, %d)" % (Ly, Lx, chi, i, j), "fPEPS.isometrise", iso)

    def no_centre(it):
        try:
            call(it, fpeps(it, peps_data(2, 2)), "iso_E", spec.tensor((2, 2), "O"))
            return [Fail("accepted", "iso_E of a network that is not isometric")]
        except nd.Raise:
            return []
    add("iso_E needs a centre", "fPEPS.iso_E", no_centre)
    return obs
