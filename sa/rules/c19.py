"""Lattice transformations: the transformed network of abstract tensors (rectangular lattices, a different dimension for every bond)
is contracted and compared with the relabelled state of the original; recorded sizes, centres and dimensions are compared with the
transformed lattice; repeated and combined transformations are compared tensor by tensor."""
from .common import *

FLOOR = 30


def peps_data(Ly, Lx, d=2, name="P", dims=None, ds=None):
    """rows of tensors (phys, up, right, down, left); bond dimensions 2, 3, 1, ... in turn"""
    cyc = dims or [2, 3, 2, 1, 3]
    n = [0]

    def nxt():
        n[0] += 1
        return cyc[(n[0] - 1) % len(cyc)]
    v = [[nxt() for _ in range(Lx)] for _ in range(Ly - 1)]
    h = [[nxt() for _ in range(Lx - 1)] for _ in range(Ly)]
    rows = []
    for j in range(Ly):
        row = []
        for i in range(Lx):
            shp = (d, v[j - 1][i] if j else 1, h[j][i] if i < Lx - 1 else 1, v[j][i] if j < Ly - 1 else 1, h[j][i - 1] if i else 1)
            row.append(spec.tensor(shp, "%s%d%d" % (name, j, i)))
        rows.append(row)
    return rows


def labels(j, i, Lx, Ly):
    return [("s", j, i), ("v", j - 1, i), ("h", j, i), ("v", j, i), ("h", j, i - 1)]


def peps_state(rows):
    """state tensor with one leg per site in reading order (outer legs of dimension one are summed)"""
    Ly, Lx = len(rows), len(rows[0])
    ops, labs = [], []
    for j in range(Ly):
        for i in range(Lx):
            ops.append(nd.symof(rows[j][i]))
            labs.append(labels(j, i, Lx, Ly))
    return tn.einsum(ops, labs, [("s", j, i) for j in range(Ly) for i in range(Lx)])


def fpeps(it, rows, **attrs):
    p = it.mod("fPEPS").vars["fPEPS"]([list(r) for r in rows])
    for k, v in attrs.items():
        p.d[k] = v
    return p


def rows_of(p):
    return p.d["data"]


def shapes_ok(rows):
    Ly, Lx = len(rows), len(rows[0])
    for j in range(Ly):
        for i in range(Lx):
            s = rows[j][i].shape
            if j + 1 < Ly and s[3] != rows[j + 1][i].shape[1]:
                return Fail("bonds", "the bond below site (%d, %d) has two dimensions" % (i, j))
            if i + 1 < Lx and s[2] != rows[j][i + 1].shape[4]:
                return Fail("bonds", "the bond right of site (%d, %d) has two dimensions" % (i, j))
    return None


def same(a, b, tag, what):
    if len(a) != len(b) or any(len(x) != len(y) for x, y in zip(a, b)):
        return Fail(tag, what)
    for x, y in zip(a, b):
        for s, t in zip(x, y):
            if s.shape != t.shape or not spec.eq(s, t)[0]:
                return Fail(tag, what)
    return None


def mpo_data(L, d=2, dims=(2, 3, 1, 2), name="W", periodic=False):
    b = [dims[k % len(dims)] for k in range(L - 1)]
    out = 3 if periodic else 1
    b = [out] + b + [out]
    return [spec.tensor((d, b[k + 1], d, b[k]), "%s%d" % (name, k)) for k in range(L)]


def mpo_op(Ws):
    """M[(ups), (downs)] with the outer left and right legs joined"""
    L = len(Ws)
    labs = [[("u", k), ("b", (k + 1) % L), ("d", k), ("b", k)] for k in range(L)]
    if L == 1:
        labs = [[("u", 0), ("b", 0), ("d", 0), ("b", 0)]]
    t = tn.einsum([nd.symof(w) for w in Ws], labs, [("u", k) for k in range(L)] + [("d", k) for k in range(L)])
    u = v = 1
    for w in Ws:
        u *= w.shape[0]
        v *= w.shape[2]
    return t, u, v


def obligations(tier):
    obs = []
    big = tier != "quick"
    sizes = [(2, 2), (2, 3), (3, 2), (1, 3), (3, 1), (3, 3), (2, 4)] + ([(4, 2), (3, 4), (4, 3), (1, 5)] if big else []) + [x for v in grid.more(["fPEPS:fPEPS.T", "fPEPS:fPEPS.R", "fPEPS:fPEPS.U", "fPEPS:fPEPS.__init__"], ("fPEPS", "peps_tools", "ncon", "tensor"), lo=4, cap=9) for x in ((1, v), (v, 1), (2, v), (v, 2))]

    def add(name, entry, fn, **kw):
        obs.append(Ob(name, "fPEPS:" + entry, fn, **kw))

    place = {"T": lambda j, i, Ly, Lx: (i, j), "R": lambda j, i, Ly, Lx: (j, Lx - 1 - i), "U": lambda j, i, Ly, Lx: (Ly - 1 - j, i)}
    for Ly, Lx in sizes:
        for t in "TRU":
            def trans(it, Ly=Ly, Lx=Lx, t=t):
                rows = peps_data(Ly, Lx, d=3 if (Ly, Lx) == (2, 2) else 2)
                old = peps_state(rows)
                out = []
                p = fpeps(it, rows)
                q = it.getattr(p, t)
                new = rows_of(q)
                nLy, nLx = (Lx, Ly) if t == "T" else (Ly, Lx)
                if len(new) != nLy or any(len(r) != nLx for r in new):
                    return [Fail("lattice", "%s of a %dx%d lattice has rows of lengths %s" % (t, Ly, Lx, [len(r) for r in new]))]
                bad = shapes_ok(new)
                if bad:
                    return [bad]
                at = {place[t](j, i, Ly, Lx): j * Lx + i for j in range(Ly) for i in range(Lx)}
                perm = [at[(j, i)] for j in range(nLy) for i in range(nLx)]
                out.append(check(spec.eq(peps_state(new), tn.transpose(old, tuple(perm))), "state", "%s of a %dx%d lattice is not the state with its sites relabelled" % (t, Ly, Lx)))
                out.append(check((it.getattr(q, "Lx"), it.getattr(q, "Ly")) == (nLx, nLy), "size", "%s of Ly=%d, Lx=%d records Lx=%s, Ly=%s" % (t, Ly, Lx, it.getattr(q, "Lx"), it.getattr(q, "Ly"))))
                out.append(check(it.getattr(q, "d") == it.getattr(p, "d") and it.getattr(q, "X") == it.getattr(p, "X"), "dimensions", "%s changes the recorded dimensions" % t))
                out.append(check(not it.hasattr(q, "oc") if hasattr(it, "hasattr") else "oc" not in q.d, "centre", "%s invents an orthogonality centre" % t))
                out.append(same(rows_of(it.getattr(q, t)), rows, "involution", "applying %s twice changes the tensors" % t))
                out.append(same(rows_of(p), rows, "operand", "%s changes the network it is applied to" % t))
                return out
            add("%s %dx%d" % (t, Ly, Lx), "fPEPS." + t, trans)

            def centre(it, Ly=Ly, Lx=Lx, t=t):
                rows = peps_data(Ly, Lx)
                out = []
                for j in range(Ly):
                    for i in range(Lx):
                        q = it.getattr(fpeps(it, rows, oc=(i, j)), t)
                        b, a = place[t](j, i, Ly, Lx)
                        got = tuple(it.getattr(q, "oc"))
                        out.append(check(got == (a, b), "centre", "%s moves the centre (%d, %d) of Ly=%d, Lx=%d to %s instead of %s" % (t, i, j, Ly, Lx, got, (a, b))))
                        out.append(check(tuple(it.getattr(it.getattr(q, t), "oc")) == (i, j), "centre", "applying %s twice moves the centre" % t))
                return out
            add("%s centre %dx%d" % (t, Ly, Lx), "fPEPS." + t, centre)

        def combined(it, Ly=Ly, Lx=Lx):
            rows = peps_data(Ly, Lx)
            g = lambda p, s: rows_of(_chain(it, p, s))
            p = lambda: fpeps(it, rows)
            return [same(g(p(), "TRT"), g(p(), "U"), "T R T", "T R T is not U"), same(g(p(), "TUT"), g(p(), "R"), "T U T", "T U T is not R"), same(g(p(), "RU"), g(p(), "UR"), "R U", "R and U do not commute"), same(g(p(), "TRTRTRTR"), rows, "quarter turn", "four quarter turns are not the identity")]
        add("combined %dx%d" % (Ly, Lx), "fPEPS.T", combined)

        def recorded(it, Ly=Ly, Lx=Lx):
            rows = peps_data(Ly, Lx)
            p = fpeps(it, rows)
            X = max(max(x.shape[1:]) for r in rows for x in r)
            return [check((it.getattr(p, "Lx"), it.getattr(p, "Ly"), it.getattr(p, "d"), it.getattr(p, "X")) == (Lx, Ly, 2, X), "size", "%d rows of %d tensors record Lx=%s, Ly=%s, d=%s, X=%s" % (Ly, Lx, it.getattr(p, "Lx"), it.getattr(p, "Ly"), it.getattr(p, "d"), it.getattr(p, "X")))]
        add("recorded size %dx%d" % (Ly, Lx), "fPEPS.__init__", recorded)

    # ---- single tensors
    def tensors(it):
        v = it.mod("fPEPS").vars
        A = spec.tensor((2, 3, 4, 5, 6), "A")
        s = A.sym()
        cc, ac, tr = v["rotate_peps_tensor_cc"], v["rotate_peps_tensor_ac"], v["transpose_peps_tensor"]
        out = [check(spec.eq(ac(cc(A)), s), "rotations", "clockwise and anticlockwise rotations are not inverse"), check(spec.eq(tr(tr(A)), s), "transpose", "transposing a tensor twice changes it")]
        B = A
        for _ in range(4):
            B = cc(B)
        out.append(check(spec.eq(B, s), "rotations", "four rotations are not the identity"))
        out.append(check(spec.eq(cc(A), tn.transpose(s, (0, 4, 1, 2, 3))) if True else True, "rotations", "a clockwise turn does not put the left leg up"))
        out.append(check(spec.eq(tr(A), tn.transpose(s, (0, 4, 3, 2, 1))), "transpose", "transposing does not exchange up and left, right and down"))
        return out
    add("tensor rotations", "rotate_peps_tensor_cc", tensors)

    # ---- matrix-product operators
    def fmpo(it, Ws):
        return it.mod("fPEPS").vars["fMPO"](list(Ws))

    for L in (2, 3, 4) + ((5,) if big else ()) + tuple(v for v in grid.more(["fPEPS:fMPO.transpose_ud", "fPEPS:fMPO.rotate_90", "fPEPS:fMPO.reverse", "fPEPS:fMPO.transpose_lr"], ("fPEPS", "peps_tools", "ncon", "tensor"), cap=9)):
        for per in (False, True):
            def flips(it, L=L, per=per):
                Ws = mpo_data(L, periodic=per)
                Ws[0] = spec.tensor((3, Ws[0].shape[1], 2, Ws[0].shape[3]), "V")     # unequal upper and lower legs
                old, u, d = mpo_op(Ws)
                n = L
                out = []
                q = call(it, fmpo(it, Ws), "transpose_ud")
                out.append(check(spec.eq(mpo_op(q.d["data"])[0], tn.transpose(old, tuple(range(n, 2 * n)) + tuple(range(n)))), "transpose", "transpose_ud is not the transposed operator"))
                q2 = call(it, q, "transpose_ud")
                out.append(same([q2.d["data"]], [Ws], "involution", "transpose_ud twice changes the tensors"))
                q = call(it, call(it, fmpo(it, Ws), "reverse"), "transpose_lr")
                rev = tuple(reversed(range(n)))
                out.append(check(spec.eq(mpo_op(q.d["data"])[0], tn.transpose(old, rev + tuple(n + k for k in rev))), "reverse", "reverse and transpose_lr do not reverse the sites"))
                q = call(it, call(it, fmpo(it, Ws), "transpose_lr"), "reverse")
                out.append(check(spec.eq(mpo_op(q.d["data"])[0], tn.transpose(old, rev + tuple(n + k for k in rev))), "reverse", "transpose_lr and reverse do not reverse the sites"))
                for f in ("transpose_lr", "reverse"):
                    out.append(same([call(it, call(it, fmpo(it, Ws), f), f).d["data"]], [Ws], "involution", "%s twice changes the tensors" % f))
                return out
            add("flips L=%d%s" % (L, " periodic" if per else ""), "fMPO.transpose_ud", flips)

        def turns(it, L=L):
            Ws = [spec.tensor((2, 3, 4, 5), "W%d" % k) for k in range(L)]
            p = fmpo(it, Ws)
            out = []
            out.append(same([call(it, call(it, p, "rotate_90"), "unrotate_90").d["data"]], [Ws], "rotations", "unrotate_90 does not undo rotate_90"))
            out.append(same([call(it, call(it, p, "unrotate_90"), "rotate_90").d["data"]], [Ws], "rotations", "rotate_90 does not undo unrotate_90"))
            q = p
            for _ in range(2):
                q = call(it, q, "rotate_90")
            half = call(it, call(it, fmpo(it, Ws), "transpose_ud"), "transpose_lr")
            out.append(same([q.d["data"]], [half.d["data"]], "half turn", "two quarter turns do not exchange up and down, left and right"))
            out.append(same([p.d["data"]], [Ws], "operand", "rotate_90 changes the operator it is applied to"))
            q = call(it, p, "rotate_90")
            out.append(check(all(spec.eq(a, tn.transpose(nd.symof(w), (3, 0, 1, 2)))[0] for a, w in zip(q.d["data"], Ws)), "rotation", "rotate_90 does not turn clockwise"))
            return out
        add("turns L=%d" % L, "fMPO.rotate_90", turns)
    return obs


def _chain(it, p, s):
    for c in s:
        p = it.getattr(p, c)
    return p
