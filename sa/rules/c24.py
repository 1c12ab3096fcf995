"""State-arithmetic rule: for generic tensors with unequal bond profiles the full state extracted from a sum, a scalar multiple,
an append or extension equals the corresponding expression of the operand states; item-wise operators equal the entry-wise expression of every
tensor; results have the class of the receiver and their recorded attributes describe their tensors."""
from .common import *

from . import wide

FLOOR = 50


def mk(it, cls, data_):
    return it.mod("fMPS").vars[cls](list(data_))


def iscls(it, r, cls, w):
    return None if isinstance(r, I.Inst) and r.cls is it.mod("fMPS").vars[cls] else Fail("class", "%s returns %s instead of %s" % (w, r, cls))


def attrs(m, w):
    ts = data(m)
    out = []
    if m.d.get("L") != len(ts):
        out.append(Fail("attributes", "%s records length %s for %d tensors" % (w, m.d.get("L"), len(ts))))
    if m.d.get("d") != ts[0].shape[0]:
        out.append(Fail("attributes", "%s records local dimension %s for %s" % (w, m.d.get("d"), ts[0].shape[0])))
    if m.d.get("D") != max(max(x.shape[1:]) for x in ts):
        out.append(Fail("attributes", "%s records bond dimension %s" % (w, m.d.get("D"))))
    return out


def obligations(tier):
    it0 = I.Interp()
    obs = []
    big = tier != "quick"
    for cls, ds in (("fMPS", (2, 3)), ("fTFD", (4,))):
        pre = "fMPS:%s." % cls
        for L in grid.lengths(it0, pre + "add", (1, 2, 3, 4), 6):
            for d in ds:
                if d ** L > 300:
                    continue
                ps = grid.profiles(L, d)
                for p, q in ([(ps[0], ps[-1]), (ps[-1], ps[0])] if len(ps) > 1 else [(ps[0], ps[0])]):
                    def f(it, L=L, d=d, p=p, q=q, cls=cls):
                        A, B = spec.mps_data(L, d, p), spec.mps_data(L, d, q, "B")
                        r = call(it, mk(it, cls, A), "add", mk(it, cls, B))
                        w = "%s.add; %s and %s" % (cls, grid.pstr(L, d, p), q)
                        s = tn.einsum([spec.state(A)], [list(range(L))], list(range(L)))
                        return [check(spec.eq(spec.state(data(r)), nd.symof(nd.binop("+", nd.wrap(spec.state(A), "c"), nd.wrap(spec.state(B), "c")))), "state differs", w + " is not the sum of the states"),
                                iscls(it, r, cls, w)] + attrs(r, w)
                    obs.append(Ob("%s.add %s + %s" % (cls, grid.pstr(L, d, p), q), pre + "add", f))
                p = ps[0]

                def f(it, L=L, d=d, p=p, cls=cls):
                    A = spec.mps_data(L, d, p)
                    z = spec.scalar("z")
                    m = mk(it, cls, A)
                    r = call(it, m, "mul", z)
                    w = "%s.mul; %s" % (cls, grid.pstr(L, d, p))
                    return [check(spec.eq(spec.state(data(r)), smul(nd.symof(z), spec.state(A))), "state differs", w + " is not the scalar multiple of the state"), iscls(it, r, cls, w)] + attrs(r, w)
                obs.append(Ob("%s.mul %s" % (cls, grid.pstr(L, d, p)), pre + "mul", f))
                for op, nm in (("+", "__add__"), ("-", "__sub__")):
                    def f(it, L=L, d=d, p=p, cls=cls, op=op, nm=nm):
                        A, B = spec.mps_data(L, d, p), spec.mps_data(L, d, p, "B")
                        r = it.binop(op, mk(it, cls, A), mk(it, cls, B)) if False else call(it, mk(it, cls, A), nm, mk(it, cls, B))
                        w = "%s.%s; %s" % (cls, nm, grid.pstr(L, d, p))
                        if len(data(r)) != L:
                            return [Fail("length", w)]
                        return [check(spec.eq(x, nd.binop(op, a, b)), "entry differs", w) for x, a, b in zip(data(r), A, B)] + [iscls(it, r, cls, w)] + attrs(r, w)
                    obs.append(Ob("%s.%s %s" % (cls, nm, grid.pstr(L, d, p)), pre + nm, f))
                for nm in ("__mul__", "__rmul__", "__truediv__"):
                    def f(it, L=L, d=d, p=p, cls=cls, nm=nm):
                        A = spec.mps_data(L, d, p)
                        z = spec.scalar("z")
                        r = call(it, mk(it, cls, A), nm, z)
                        w = "%s.%s; %s" % (cls, nm, grid.pstr(L, d, p))
                        if len(data(r)) != L:
                            return [Fail("length", w)]
                        ref = [nd.div(a, z) if nm == "__truediv__" else nd.binop("*", z, a) for a in A]
                        return [check(spec.eq(x, y), "entry differs", w) for x, y in zip(data(r), ref)] + [iscls(it, r, cls, w)] + attrs(r, w)
                    obs.append(Ob("%s.%s %s" % (cls, nm, grid.pstr(L, d, p)), pre + nm, f))
                if L < 2:
                    continue

                def f(it, L=L, d=d, p=p, cls=cls):
                    A = spec.mps_data(L, d, p)
                    t = spec.tensor((d, 1, 1), "X")
                    r = call(it, mk(it, cls, A), "append", t)
                    w = "%s.append; %s" % (cls, grid.pstr(L, d, p))
                    ref = tn.einsum([spec.state(A), nd.symof(t)], [list(range(L)), ["x", "a", "b"]], list(range(L)) + ["x"])
                    return [check(spec.eq(spec.state(data(r)), ref), "state differs", w + " is not the tensor appended"), iscls(it, r, cls, w)] + attrs(r, w)
                obs.append(Ob("%s.append %s" % (cls, grid.pstr(L, d, p)), pre + "append", f))

                def f(it, L=L, d=d, p=p, cls=cls):
                    A, B = spec.mps_data(L, d, p), spec.mps_data(2, d, [2], "B")
                    r = call(it, mk(it, cls, A), "extend", mk(it, cls, B))
                    w = "%s.extend; %s" % (cls, grid.pstr(L, d, p))
                    ref = tn.einsum([spec.state(A), spec.state(B)], [list(range(L)), ["x", "y"]], list(range(L)) + ["x", "y"])
                    return [check(spec.eq(spec.state(data(r)), ref), "state differs", w + " is not the product of the two states"), iscls(it, r, cls, w)] + attrs(r, w)
                if d ** L <= 64:
                    obs.append(Ob("%s.extend %s" % (cls, grid.pstr(L, d, p)), pre + "extend", f))

                # derived: norm of a sum, equality of a scaled difference
        if cls == "fMPS":
            for L in (2, 3):
                for hname, h in histories(L):
                    def f(it, L=L, h=h, hname=hname):
                        d, out = 2, []
                        for nm in ("mul", "add", "radd", "append", "extend", "apply", "copy"):
                            m = mk(it, "fMPS", spec.mps_data(L, d, [2] * (L - 1)))
                            A = prepared(it, m, h)
                            st, B, w = spec.state(A), spec.mps_data(L, d, [2] * (L - 1), "B"), "%s after %s" % (nm, hname)
                            idx = list(range(L))
                            if nm == "mul":
                                z = spec.scalar("z")
                                r, ref = call(it, m, "mul", z), smul(nd.symof(z), st)
                            elif nm in ("add", "radd"):
                                o = mk(it, "fMPS", B)
                                r = call(it, m, "add", o) if nm == "add" else call(it, o, "add", m)
                                ref = nd.symof(nd.binop("+", nd.wrap(st, "c"), nd.wrap(spec.state(B), "c")))
                            elif nm == "append":
                                t = spec.tensor((d, 1, 1), "X")
                                r, ref = call(it, m, "append", t), tn.einsum([st, nd.symof(t)], [idx, ["x", "a", "b"]], idx + ["x"])
                            elif nm == "extend":
                                r = call(it, m, "extend", mk(it, "fMPS", B))
                                ref = tn.einsum([st, spec.state(B)], [idx, [("b", i) for i in idx]], idx + [("b", i) for i in idx])
                            elif nm == "apply":
                                O = spec.tensor((d, d), "O")
                                r, ref = call(it, m, "apply", (O, L - 1)), tn.einsum([nd.symof(O), st], [["n", L - 1], idx], idx[:-1] + ["n"])
                            else:
                                r, ref = call(it, m, "copy"), st
                            out += [check(spec.eq(spec.state(data(r)), ref), "state differs", w), iscls(it, r, "fMPS", w)] + attrs(r, w)
                        return out
                    obs.append(Ob("arithmetic L=%d after %s" % (L, hname), pre + "mul", f))

        def f(it, cls=cls):
            d = 2 if cls == "fMPS" else 4
            A, B = spec.mps_data(3, d, [2, 3]), spec.mps_data(3, d, [3, 2], "B")
            z = spec.scalar("z")
            r = call(it, call(it, mk(it, cls, A), "mul", z), "add", mk(it, cls, B))
            r2 = call(it, mk(it, cls, B), "add", call(it, mk(it, cls, A), "mul", z))
            ref = nd.symof(nd.binop("+", nd.wrap(smul(nd.symof(z), spec.state(A)), "c"), nd.wrap(spec.state(B), "c")))
            return [check(spec.eq(spec.state(data(x)), ref), "state differs", "linear combination") for x in (r, r2)]
        obs.append(Ob("%s linear combination" % cls, pre + "add", f))

    # infinite chains: the item-wise operators
    for d, D, period in [(2, 2, 1), (3, 2, 1), (2, 1, 1), (2, 2, 2), (2, 3, 3)]:
        def f(it, d=d, D=D, period=period):
            C = it.mod("iMPS").vars["iMPS"]
            A, B = ([spec.tensor((d, D, D), "%s%d" % (x, i)) for i in range(period)] for x in "AB")
            z = spec.scalar("z")
            m, o = C(list(A)), C(list(B))
            out = []
            for nm, arg, ref in [("__add__", o, lambda a, b: nd.binop("+", a, b)), ("__sub__", o, lambda a, b: nd.binop("-", a, b)), ("__mul__", z, lambda a, b: nd.binop("*", z, a)),
                                 ("__rmul__", z, lambda a, b: nd.binop("*", z, a)), ("__truediv__", z, lambda a, b: nd.div(a, z))]:
                ts = data(call(it, m, nm, arg))
                out.append(check(len(ts) == period and all(spec.eq(t, ref(a, b)) for t, a, b in zip(ts, A, B)), "entry differs", "iMPS.%s is not item-wise; d=%d D=%d period=%d" % (nm, d, D, period)))
            return [x for x in out if x] + [check(all(spec.eq(x, y) for x, y in zip(data(m), A)), "operand changed", "an item-wise operator of iMPS changes its operand")]
        obs.append(Ob("iMPS item-wise d=%d D=%d period=%d" % (d, D, period), "iMPS:iMPS.__add__", f))

    def w_arith(it, m, A, L, d, p):
        w, idx, st = grid.pstr(L, d, p), list(range(L)), spec.state(A)
        B = spec.mps_data(L, d, [3] * (L - 1), "B")
        z, t = spec.scalar("z"), spec.tensor((d, 1, 1), "X")
        o = mk(it, "fMPS", B)
        s = nd.symof(nd.binop("+", nd.wrap(st, "c"), nd.wrap(spec.state(B), "c")))
        out = [check(spec.eq(spec.state(data(r)), ref), "state differs", "%s; %s" % (nm, w)) for nm, r, ref in
               [("add", call(it, m, "add", o), s), ("add", call(it, o, "add", m), s), ("mul", call(it, m, "mul", z), smul(nd.symof(z), st)),
                ("append", call(it, m, "append", t), tn.einsum([st, nd.symof(t)], [idx, ["x", "a", "b"]], idx + ["x"])), ("copy", call(it, m, "copy"), st)]]
        for op, nm in (("+", "__add__"), ("-", "__sub__")):
            C = spec.mps_data(L, d, p, "C")
            out += [check(spec.eq(x, nd.binop(op, a, c)), "entry differs", "%s; %s" % (nm, w)) for x, a, c in zip(data(call(it, m, nm, mk(it, "fMPS", C))), A, C)]
        out += [check(spec.eq(x, nd.binop("*", z, a)), "entry differs", "__mul__; " + w) for x, a in zip(data(call(it, m, "__mul__", z)), A)]
        return out
    wide.run(obs, wide.sizes(tier, "add", "mul", "append", "extend", "__add__", "__sub__", "__mul__", "copy"), "add", "arithmetic", w_arith)
    return obs
