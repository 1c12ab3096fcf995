"""Moving the orthogonality centre of a two-dimensional network: the disentangler is replaced by an arbitrary unitary, the move is
interpreted on abstract tensors, and the state of the moved network is contracted and compared with the original; the recorded centre, the
isometry of the column left behind and the one-site values read at the new centre are compared as well."""
import contextlib
from .common import *
from .c19 import peps_data, peps_state, fpeps, rows_of, shapes_ok, same

FLOOR = 40
ASSUMPTIONS = ["the disentangler of a centre move returns a unitary (every value it returns is the polar factor of a matrix, decided separately); which one it returns is irrelevant for the state and is left open"]


class Endless(Exception):
    """raised by the stand-in for the entropy when the iteration does not stop"""


def unitary(n, name):
    if n == 1:
        return spec.tensor((1, 1), name)
    q, _ = nd.np_qr(spec.tensor((n, n), name))
    return q


@contextlib.contextmanager
def kept(it):
    """names replaced by an obligation are put back"""
    ds = [it.mod("fPEPS").vars, it.mod("peps_tools").vars, it.mod("fPEPS").vars["fPEPS"].d]
    old = [dict(d) for d in ds]
    try:
        yield
    finally:
        for d, o in zip(ds, old):
            d.clear()
            d.update(o)


def arbitrary(it, seen=None):
    """replace the disentangler by one that returns an arbitrary unitary"""
    k = [0]

    def U2(psi, **kw):
        k[0] += 1
        if len(psi.shape) != 4:
            raise nd.Raise(ValueError("not enough values to unpack"))
        n = psi.shape[0] * psi.shape[1]
        if seen is not None:
            seen.append(psi)
        if n == 1:
            return 0.0, nd.eye(1)
        return 0.0, unitary(n, "disentangler%d" % k[0])
    it.mod("fPEPS").vars["U2"] = U2


MOVES = {"right": (1, 0), "left": (-1, 0), "down": (0, 1), "up": (0, -1)}


# the move zips one column from its end: what it leaves behind points along the zip and towards the new centre
LEGS = {"right": (1, 2), "left": (1, 4), "down": (3, 4), "up": (1, 4)}


def _iso(t, legs, scaled):
    t = nd.symof(t)
    la = list("sabcd")
    lb = [c.upper() if k in legs else c for k, c in enumerate(la)]
    got = tn.einsum([t.conj(), t], [la, lb], [la[k] for k in legs] + [lb[k] for k in legs])
    n = 1
    for k in legs:
        n *= t.shape[k]
    got = tn.reshape(got, (n, n))
    if scaled:
        tr = tn.einsum([got], [["i", "i"]], [])
        return spec.eq(got.scale(n), tn.outer(tr, tn.eye(n)))
    return spec.eq(got, tn.eye(n))


def obligations(tier):
    big = tier != "quick"
    obs = []

    def add(name, entry, fn, mod="fPEPS", **kw):
        def run(it):
            with kept(it):
                return fn(it)
        obs.append(Ob(name, mod + ":" + entry, run, **kw))

    # ---- one move of an arbitrary network
    sizes = [(2, 2), (2, 3), (3, 2), (1, 2), (2, 1)] + ([(3, 3), (1, 3), (3, 1)] if big else [])
    for Ly, Lx in sizes:
        for j in range(Ly):
            for i in range(Lx):
                for mv, (di, dj) in MOVES.items():
                    if not (0 <= i + di < Lx and 0 <= j + dj < Ly):
                        if (Ly, Lx) == (2, 2):
                            def edge(it, i=i, j=j, mv=mv, Ly=Ly, Lx=Lx):
                                arbitrary(it)
                                p = fpeps(it, peps_data(Ly, Lx), oc=(i, j))
                                try:
                                    q = call(it, p, "moses_move_" + mv)
                                except nd.Raise:
                                    return []
                                return [Fail("accepted", "moving the centre (%d, %d) of a %dx%d network off the lattice" % (i, j, Lx, Ly))]
                            add("move %s off the edge (%d, %d)" % (mv, i, j), "fPEPS.moses_move_" + mv, edge)
                        continue

                    def move(it, Ly=Ly, Lx=Lx, i=i, j=j, mv=mv, di=di, dj=dj):
                        arbitrary(it)
                        rows = peps_data(Ly, Lx, dims=[2, 2, 1] if Ly * Lx > 4 else [2, 3])
                        old = peps_state(rows)
                        p = fpeps(it, rows, oc=(i, j), d=2, X=2)
                        q = call(it, p, "moses_move_" + mv)
                        new = rows_of(q)
                        if len(new) != Ly or any(len(r) != Lx for r in new):
                            return [Fail("lattice", "the lattice changes its size")]
                        bad = shapes_ok(new)
                        if bad:
                            return [bad]
                        out = [check(tuple(it.getattr(q, "oc")) == (i + di, j + dj), "centre", "moving %s from (%d, %d) records the centre %s" % (mv, i, j, it.getattr(q, "oc"))),
                               check(it.getattr(q, "d") == 2 and it.getattr(q, "X") == 2, "dimensions", "the move loses the recorded dimensions")]
                        for r in new:
                            for t in r:
                                if len(t.shape) != 5:
                                    return out + [Fail("legs", "a tensor with %d legs" % len(t.shape))]
                        st = peps_state(new)
                        out.append(check(spec.eq(st, old), "state", "moving the centre of a %dx%d network %s from (%d, %d) changes the state" % (Lx, Ly, mv, i, j)))
                        out.append(same(rows_of(p), rows, "operand", "the move changes the network it is applied to"))
                        # column (row) left behind points to the new centre; the factor split off the new centre sits at the old one
                        for n in range(Ly if di else Lx):
                            b, a = (n, i) if di else (j, n)
                            out.append(check(_iso(new[b][a], LEGS[mv], (b, a) == (j, i)), "isometry", "site (%d, %d) left behind by a move %s is no isometry towards the new centre" % (a, b, mv)))
                        # tensors away from the two columns (rows) involved stay
                        for b in range(Ly):
                            for a in range(Lx):
                                line = a if di else b
                                if line not in ((i, i + di) if di else (j, j + dj)):
                                    out.append(check(new[b][a].shape == rows[b][a].shape and spec.eq(new[b][a], rows[b][a]), "other sites", "the move changes site (%d, %d)" % (a, b)))
                        return [o for o in out if o]
                    add("move %s %dx%d from (%d, %d)" % (mv, Lx, Ly, i, j), "fPEPS.moses_move_" + mv, move, tier="thorough" if Ly * Lx == 9 else "quick")

    # ---- isometric networks: the values read at the new centre
    for Ly, Lx in [(2, 2), (2, 3), (3, 2)] + ([(3, 3)] if big else []):
        for j in range(Ly):
            for i in range(Lx):
                def iso(it, Ly=Ly, Lx=Lx, i=i, j=j):
                    arbitrary(it)
                    p = it.mod("fPEPS").vars["fPEPS"]()
                    shapes = call(it, p, "create_structure", Lx, Ly, 2, 2)
                    x = [[spec.tensor(tuple(s), "P%d%d" % (b, a)) for a, s in enumerate(r)] for b, r in enumerate(shapes)]
                    p = call(it, fpeps(it, x), "isometrise", (i, j))
                    st = peps_state(rows_of(p))
                    O = spec.tensor((2, 2), "O")
                    out = []
                    for mv, (di, dj) in MOVES.items():
                        if not (0 <= i + di < Lx and 0 <= j + dj < Ly):
                            continue
                        q = call(it, p, "moses_move_" + mv)
                        k = (j + dj) * Lx + i + di
                        la = [str(n) for n in range(Ly * Lx)]
                        lb = ["x" if n == k else str(n) for n in range(Ly * Lx)]
                        e = tn.einsum([st.conj(), nd.symof(O), st], [lb, ["x", str(k)], la], [])
                        out.append(check(spec.eq(call(it, q, "iso_E", O), nd.symof(nd.real(nd.wrap(e, "c")))), "expectation", "value at the centre moved %s from (%d, %d)" % (mv, i, j)))
                        out.append(check(spec.eq(call(it, p, "iso_E", O, (i + di, j + dj)), nd.symof(nd.real(nd.wrap(e, "c")))), "expectation", "iso_E at site (%d, %d) of a network centred at (%d, %d)" % (i + di, j + dj, i, j)))
                        out.append(check(tuple(it.getattr(p, "oc")) == (i, j), "operand", "the move changes the centre of the network it is applied to"))
                    return [o for o in out if o]
                add("isometric %dx%d from (%d, %d)" % (Lx, Ly, i, j), "fPEPS.iso_E", iso, tier="thorough" if Ly * Lx == 9 else "quick")
    # ---- several moves
    paths = [((0, 0), (1, 1)), ((1, 1), (0, 0)), ((0, 1), (1, 0)), ((1, 0), (0, 1)), ((0, 0), (0, 0))]
    for a, b in paths:
        def far(it, a=a, b=b):
            arbitrary(it)
            rows = peps_data(2, 2, dims=[2, 1] if a != b else [2, 3])
            p = fpeps(it, rows, oc=a)
            q = call(it, p, "moses_move_oc_to", b)
            return [check(tuple(it.getattr(q, "oc")) == b, "centre", "moving the centre from %s to %s records %s" % (a, b, it.getattr(q, "oc"))),
                    check(spec.eq(peps_state(rows_of(q)), peps_state(rows)), "state", "moving the centre from %s to %s changes the state" % (a, b)),
                    same(rows_of(p), rows, "operand", "the move changes the network it is applied to"),
                    check(tuple(it.getattr(p, "oc")) == a, "operand", "the move changes the centre of the network it is applied to")]
        add("move %s to %s" % (a, b), "fPEPS.moses_move_oc_to", lambda it, f=far: [o for o in f(it) if o])

    # which moves are made, and how far: a longer lattice, the single moves counted
    for Lx, Ly, a, b in [(4, 3, (0, 0), (3, 2)), (4, 3, (3, 2), (0, 0)), (4, 3, (1, 2), (3, 0)), (4, 3, (3, 0), (1, 2)), (4, 3, (2, 1), (2, 1)), (4, 3, (0, 1), (3, 1)), (3, 4, (1, 3), (1, 0))]:
        def count(it, Lx=Lx, Ly=Ly, a=a, b=b):
            cls = it.mod("fPEPS").vars["fPEPS"]
            log = []

            def mover(mv):
                def m(self, chi=None):
                    i, j = self.d["oc"]
                    log.append((mv, chi))
                    q = call(it, self, "copy")
                    q.d["oc"] = (i + MOVES[mv][0], j + MOVES[mv][1])
                    return q
                return m
            for mv in MOVES:
                cls.d["moses_move_" + mv] = I.Prop(lambda self, f=mover(mv): lambda *a, **k: f(self, *a, **k))
            rows = [[spec.tensor((2, 1, 1, 1, 1), "P%d%d" % (r, c)) for c in range(Lx)] for r in range(Ly)]
            q = call(it, fpeps(it, rows, oc=a), "moses_move_oc_to", b, 7)
            out = [check(tuple(it.getattr(q, "oc")) == b, "centre", "from %s to %s ends at %s" % (a, b, it.getattr(q, "oc"))),
                   check(len(log) == abs(a[0] - b[0]) + abs(a[1] - b[1]), "detour", "from %s to %s in %d moves" % (a, b, len(log))),
                   check(all(c == 7 for _, c in log), "dimension", "the bond dimension asked for does not reach the single moves")]
            return [o for o in out if o]
        add("moves from %s to %s" % (a, b), "fPEPS.moses_move_oc_to", count)

    def several(it):
        arbitrary(it)
        p = it.mod("fPEPS").vars["fPEPS"]()
        shapes = call(it, p, "create_structure", 2, 2, 2, 2)
        x = [[spec.tensor(tuple(s), "P%d%d" % (b, a)) for a, s in enumerate(r)] for b, r in enumerate(shapes)]
        p = call(it, fpeps(it, x), "isometrise", (0, 0))
        st = peps_state(rows_of(p))
        ops = [(spec.tensor((2, 2), "O"), (0, 1)), (spec.tensor((2, 2), "N"), (0, 0)), (spec.tensor((2, 2), "M"), (1, 0))]
        got = call(it, p, "iso_Es", ops)
        out = [check(tuple(got.shape) == (3,), "length", "values for three operators have shape %s" % (tuple(got.shape),))]
        for n, (O, (i, j)) in enumerate(ops):
            k = j * 2 + i
            lb = ["x" if m == k else str(m) for m in range(4)]
            e = tn.einsum([st.conj(), nd.symof(O), st], [lb, ["x", str(k)], [str(m) for m in range(4)]], [])
            out.append(check(spec.eq(nd.getitem(got, n), nd.symof(nd.real(nd.wrap(e, "c")))), "expectation", "entry %d of iso_Es" % n))
        return [o for o in out if o]
    add("iso_Es", "fPEPS.iso_Es", several)

    for mv in ("right", "left", "up", "down"):
        def centre(it, mv=mv):
            arbitrary(it)
            try:
                call(it, fpeps(it, peps_data(2, 2)), "moses_move_" + mv)
            except nd.Raise:
                return []
            return [Fail("accepted", "moving the centre of a network without one")]
        add("move %s needs a centre" % mv, "fPEPS.moses_move_" + mv, centre)

    # ---- splitting one tensor in three
    for shp in [(2, 3, 2, 2, 2, 1), (2, 1, 2, 1, 3, 2), (2, 4, 1, 1, 1, 1), (2, 2, 3, 2, 1, 2), (3, 2, 2, 1, 2, 1), (2, 1, 1, 1, 1, 1)]:
        def split(it, shp=shp):
            seen = []
            arbitrary(it, seen)
            v = it.mod("fPEPS").vars
            t = spec.tensor(shp, "Z")
            d, AX, r, tt, p, q = shp
            a, b, c = v["split_tensor"](t, None)
            if len(a.shape) != 5 or len(b.shape) != 3 or len(c.shape) != 4:
                return [Fail("legs", "pieces of shapes %s, %s, %s" % (a.shape, b.shape, c.shape))]
            out = [check((a.shape[0], a.shape[3], a.shape[4]) == (d, p, q), "legs", "first piece has shape %s" % (a.shape,)),
                   check(b.shape[0] == AX and b.shape[2] == a.shape[1], "legs", "second piece has shape %s" % (b.shape,)),
                   check((c.shape[1], c.shape[2], c.shape[3]) == (r, tt, a.shape[2]) and c.shape[0] == b.shape[1], "legs", "third piece has shape %s" % (c.shape,))]
            out = [o for o in out if o]
            if out:
                return out
            back = tn.einsum([nd.symof(a), nd.symof(b), nd.symof(c)], [["d", "m", "n", "p", "q"], ["A", "x", "m"], ["x", "r", "t", "n"]], ["d", "A", "r", "t", "p", "q"])
            out = [check(spec.eq(back, t), "product", "the pieces do not contract to the tensor"),
                   check(spec.eq(v["unsplit_tensor"](a, b, c), back), "unsplit", "unsplit_tensor is not the contraction of the pieces"),
                   check(_iso(a, (1, 2), False), "isometry", "the first piece is no isometry")]
            bb = nd.symof(b)
            n = b.shape[1]
            out.append(check(spec.eq(tn.einsum([bb.conj(), bb], [["A", "x", "m"], ["A", "y", "m"]], ["x", "y"]), tn.eye(n)), "isometry", "the second piece is no isometry"))
            if len(seen) != 1 or seen[0].shape[0] * seen[0].shape[1] != min(d * p * q, AX * r * tt) or tuple(seen[0].shape[2:]) != (AX, r * tt):
                out.append(Fail("disentangler", "the disentangler is called with shapes %s" % [x.shape for x in seen]))
            return [o for o in out if o]
        add("split %s" % (shp,), "split_tensor", split)

    # ---- the disentangler
    for dims in [(2, 2, 2, 2), (2, 2, 3, 2), (3, 2, 2, 1)]:
        def entropy(it, dims=dims):
            v = it.mod("peps_tools").vars
            n = dims[0] * dims[1]
            U = unitary(n, "U")
            psi = spec.tensor(dims, "psi")
            got = v["renyi"](nd.reshape(U, dims[:2] + dims[:2]), psi)
            u = tn.reshape(nd.symof(U), dims[:2] + dims[:2])
            x = tn.einsum([u, nd.symof(psi)], [["a", "b", "c", "e"], ["c", "e", "l", "r"]], ["a", "b", "l", "r"])
            pur = tn.einsum([x, x.conj(), x, x.conj()], [["a", "b", "l", "r"], ["A", "b", "L", "r"], ["A", "B", "L", "R"], ["a", "B", "l", "R"]], [])
            ref = nd.neg(it.getattr(it.mod("peps_tools").vars["np"], "log")(nd.real(nd.wrap(pur, "c"))))
            return [o for o in [check(spec.eq(got, ref), "entropy", "renyi is not minus the logarithm of the purity of the split state")] if o]
        add("entropy %s" % (dims,), "renyi", entropy, mod="peps_tools")

        for values in [[3.0, 2.0, 2.0], [3.0, 2.0, 1.0, 0.5, 0.5], [5.0, 4.0, 3.0, 2.0, 1.0, 1.0], [100.0 - k for k in range(64)]]:
            def dis(it, dims=dims, values=values):
                m = it.mod("peps_tools")
                seq = list(values)
                given = []

                def renyi(U, psi):
                    given.append(U)
                    if len(given) > 60:
                        raise Endless()
                    return seq[len(given) - 1] if len(given) <= len(seq) else seq[-1]
                m.vars["renyi"] = renyi
                psi = spec.tensor(dims, "psi")
                try:
                    got = m.vars["U2"](psi, max_iter=4)
                except Endless:
                    return [Fail("termination", "the disentangler does not stop after its maximal number of steps when the entropy keeps changing")]
                if not isinstance(got, tuple) or len(got) != 2:
                    return [Fail("result", "the disentangler returns no entropy and unitary")]
                S, U = got
                n = dims[0] * dims[1]
                if tuple(U.shape) != (n, n):
                    return [Fail("shape", "disentangler of shape %s" % (U.shape,))]
                u = nd.symof(U)
                out = [check(spec.eq(tn.einsum([u.conj(), u], [["i", "j"], ["i", "k"]], ["j", "k"]), tn.eye(n)), "unitary", "the disentangler is not unitary"),
                       check(spec.eq(tn.einsum([u, u.conj()], [["i", "j"], ["k", "j"]], ["i", "k"]), tn.eye(n)), "unitary", "the disentangler is not unitary"),
                       check(float(nd.concrete_number(S) if not isinstance(S, float) else S) == values[min(len(given), len(values)) - 1], "entropy", "the entropy returned is not that of the last step"),
                       check(bool(given) and spec.eq(nd.reshape(given[-1], (n, n)), U), "entropy", "the entropy returned is not that of the unitary returned")]
                return [o for o in out if o]
            add("disentangler %s after %d steps" % (dims, len(values)), "U2", dis, mod="peps_tools")

    def fac(it):
        f = it.mod("fPEPS").vars["factors"]
        out = []
        for n in range(1, 65):
            a, b = [int(x) for x in f(n)]
            best = max(k for k in range(1, n + 1) if n % k == 0 and k * k <= n)
            out.append(check(a * b == n and min(a, b) == best, "factors", "factors(%d) = %d, %d" % (n, a, b)))
        return [o for o in out if o]
    add("factors", "factors", fac)
    return obs
