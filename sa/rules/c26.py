"""Doubled states: the tensors extracted from from_fMPS encode the product of the state with itself, expectation values of a
generic operator act on the requested copy, the copy-swap swaps the two copies of every site, derivatives are those of the
Hamiltonian acting on both copies, every operation returns a doubled state."""
from .common import *
from .c02 import sandwich, ratio
from .c24 import iscls, attrs

FLOOR = 40
P = "fMPS:fTFD."


def tfd(it, mod, data_):
    return it.mod(mod).vars["fTFD"](list(data_))


def copyop(O, lr, d):
    """the operator on one copy of a site, as a matrix on the pair (first copy, second copy)"""
    one = tn.eye(d)
    o = tn.einsum([nd.symof(O), one], [["a", "x"], ["b", "y"]], ["a", "b", "x", "y"] if lr == 0 else ["b", "a", "y", "x"])
    return nd.wrap(tn.reshape(o, (d * d, d * d)), "c")


def both(h, n, d):
    """h on n sites acting on the first plus on the second copies; index order site by site (first, second)"""
    hh = tn.reshape(nd.symof(h), (d,) * (2 * n))
    res = None
    for lr in (0, 1):
        one = [tn.eye(d)] * n
        lab = [("r", i) for i in range(n)] + [("c", i) for i in range(n)]
        ops, labs = [hh] + one, [lab] + [[("R", i), ("C", i)] for i in range(n)]
        out = []
        for k, K in (("r", "R"), ("c", "C")):
            for i in range(n):
                out += [(k, i), (K, i)] if lr == 0 else [(K, i), (k, i)]
        t = nd.wrap(tn.reshape(tn.einsum(ops, labs, out), (d ** (2 * n),) * 2), "c")
        res = t if res is None else nd.binop("+", res, t)
    return res


def swapped(st, d, L):
    """exchange the copies of every site of a state over pairs"""
    x = tn.reshape(st, (d, d) * L)
    perm = []
    for i in range(L):
        perm += [2 * i + 1, 2 * i]
    return tn.reshape(tn.transpose(x, perm), (d * d,) * L)


def obligations(tier):
    obs = []
    big = tier != "quick"
    for L, d, p in [(1, 2, []), (2, 2, [2]), (3, 2, [2, 2]), (3, 2, [1, 2]), (2, 3, [3])] + ([(4, 2, [2, 3, 2])] if big else []) + [(v, 2, [2] * (v - 1)) for v in grid.more(["fMPS:fTFD.E", "fMPS:fTFD.copy", "fMPS:fTFD.add", "fMPS:fTFD.mul"], cap=8)]:
        w = grid.pstr(L, d, p)
        for mod in ("fMPS", "projects.fTFD"):
            pre = mod + ":fTFD."

            def f(it, L=L, d=d, p=p, w=w, mod=mod):
                A = spec.mps_data(L, d, p)
                r = call(it, it.mod(mod).vars["fTFD"](), "from_fMPS", spec.fMPS(it, A))
                s = spec.state(A)
                ref = tn.einsum([s, s], [[("a", i) for i in range(L)], [("b", i) for i in range(L)]], [x for i in range(L) for x in (("a", i), ("b", i))])
                ts = data(r)
                out = [check(spec.eq(spec.state(ts), tn.reshape(ref, (d * d,) * L)), "state differs", "from_fMPS is not the state times itself; " + w)]
                if r.d.get("L") != L or r.d.get("d") != d * d or r.d.get("D") != max(max(x.shape[1:]) for x in ts):
                    out.append(Fail("attributes", "from_fMPS; %s records %s" % (w, {k: r.d.get(k) for k in "LdD"})))
                return out
            obs.append(Ob("from_fMPS %s %s" % (mod, w), pre + "from_fMPS", f))
            D2 = [b * b for b in p]
            if d == 2 or L < 3:
                def f(it, L=L, d=d, D2=D2, w=w, mod=mod):
                    A = spec.mps_data(L, d * d, D2)
                    m = tfd(it, mod, A)
                    r = call(it, m, "symmetry")
                    out = [check(spec.eq(spec.state(data(r)), swapped(spec.state(A), d, L)), "state differs", "symmetry does not exchange the copies; " + w)]
                    if r.cls is not it.mod(mod).vars["fTFD"]:
                        out.append(Fail("class", "symmetry returns %s" % r))
                    rr = call(it, r, "symmetry")
                    return out + [check(spec.eq(a, b), "not an involution", "symmetry twice; " + w) for a, b in zip(data(rr), A)]
                obs.append(Ob("symmetry %s %s" % (mod, w), pre + "symmetry", f))
            if L >= 2:
                for H_ in (0, 1):
                    if H_ and (mod != "fMPS" or L > 2 or d > 2):
                        continue

                    def f(it, L=L, d=d, D2=D2, w=w, mod=mod, H_=H_):
                        bd = [min(b, 4) for b in D2]
                        A = spec.mps_data(L, d * d, bd)
                        ref = spec.fMPS(it, A)
                        if H_:
                            h = spec.tensor((d ** L, d ** L), "H")
                            a = call(it, tfd(it, mod, A), "dA_dt", h, fullH=True)
                            b = call(it, ref, "dA_dt", both(h, L, d), fullH=True)
                        else:
                            h = [spec.tensor((d * d, d * d), "h") for _ in range(L - 1)]
                            a = call(it, tfd(it, mod, A), "dA_dt", h)
                            b = call(it, ref, "dA_dt", [both(x, 2, d) for x in h])
                        return [check(spec.eq(x, y), "value differs", "dA_dt%s is not the derivative under the Hamiltonian on both copies; site %d %s" % ("(fullH)" if H_ else "", i, w)) for i, (x, y) in enumerate(zip(data(a), data(b)))]
                    if d == 2:
                        obs.append(Ob("dA_dt %s %s%s" % (mod, w, " full" if H_ else ""), pre + "dA_dt", f))
            for site in range(L):
                for lr in ((0, 1) if mod == "fMPS" else (0,)):
                    if L * d > 6 and not big:
                        continue

                    def f(it, L=L, d=d, D2=D2, w=w, mod=mod, site=site, lr=lr):
                        bd = [min(b, 3) for b in D2]
                        A = spec.mps_data(L, d * d, bd)
                        O, Q = spec.tensor((d, d), "O"), spec.tensor((d, d), "Q")
                        a = (lr,) if mod == "fMPS" else ()
                        r = call(it, tfd(it, mod, A), "E", O, site, *a)
                        st = spec.state(A)
                        full = lambda o: nd.div(nd.wrap(sandwich(st, copyop(o, lr, d), [site], d * d), "c"), nd.wrap(norm2(st), "c"))
                        v = full(O)
                        out = [expect(nd.real(nd.wrap(nd.symof(r), "c")), nd.real(v), "value differs", "E(op, %d, %s) does not act on that copy; %s" % (site, lr, w))]
                        rs = call(it, tfd(it, mod, A), "Es", [O, Q], site, *a)
                        for x, o in zip(rs, (O, Q)):
                            out.append(expect(x, full(o), "value differs", "Es(ops, %d, %s) does not act on that copy; %s" % (site, lr, w)))
                        return out
                    obs.append(Ob("E %s %s site=%d copy=%d" % (mod, w, site, lr), pre + "E", f))
        # operations keep the class
        if L > 1 and d == 2:
            def f(it, L=L, d=d, p=p, w=w):
                A, B = spec.mps_data(L, d * d, p), spec.mps_data(L, d * d, p, "B")
                z, O = spec.scalar("z"), spec.tensor((d * d, d * d), "O")
                out = []
                for nm, args in [("copy", ()), ("mul", (z,)), ("add", (tfd(it, "fMPS", B),)), ("append", (spec.tensor((d * d, 1, 1), "X"),)), ("extend", (tfd(it, "fMPS", B),)),
                                 ("apply", ((O, 0),)), ("__mul__", (z,)), ("__truediv__", (z,)), ("__add__", (tfd(it, "fMPS", B),)), ("__sub__", (tfd(it, "fMPS", B),)),
                                 ("left_canonicalise", ()), ("right_canonicalise", ()), ("mixed_canonicalise", (0,)), ("left_orthogonalise", ()), ("right_orthogonalise", ())]:
                    r = call(it, tfd(it, "fMPS", A), nm, *args)
                    out.append(iscls(it, r, "fTFD", "fTFD.%s" % nm))
                return out
            obs.append(Ob("class kept %s" % w, P + "add", f))

            def f(it, L=L, d=d, p=p, w=w):
                bd = [min(b * b, 4) if b > 1 else 1 for b in p]
                A = spec.mps_data(L, d * d, bd)
                r = call(it, tfd(it, "fMPS", A), "symmetrise")
                s = call(it, tfd(it, "fMPS", A), "symmetry")
                return [check(spec.eq(x, nd.binop("+", a, b)), "value differs", "symmetrise is not the item-wise sum with the exchanged state; " + w) for x, a, b in zip(data(r), A, data(s))] + [iscls(it, r, "fTFD", "symmetrise")]
            obs.append(Ob("symmetrise %s" % w, P + "symmetrise", f))
            for sites in ([0], [0, 1]):
                for dbl in (False, True):
                    def f(it, L=L, d=d, p=p, w=w, sites=sites, dbl=dbl):
                        bd = [min(b, 3) for b in p]
                        A, B = spec.mps_data(L, d * d, bd), spec.mps_data(L, d, [1] * (L - 1), "B")
                        r = call(it, tfd(it, "fMPS", A), "local_overlap", spec.fMPS(it, B), sites, dbl)
                        st = spec.state(A)
                        ops = []
                        for i in sites:
                            b = nd.reshape(B[i], (d,))
                            rho = nd.wrap(spec.einsum("a,b->ab", b, nd.conj(b)), "c")
                            ops.append(nd.wrap(tn.reshape(spec.einsum("ab,cd->acbd", rho, rho), (d * d, d * d)), "c") if dbl else copyop(rho, 1, d))
                        from .c02 import kron
                        return [expect(r, ratio(st, kron(ops, d * d), sites, d * d), "value differs", "local_overlap(%s, double=%s) is not the expectation of the product state's projector; %s" % (sites, dbl, w))]
                    obs.append(Ob("local_overlap %s double=%s %s" % (sites, dbl, w), P + "local_overlap", f))

    for pure in (True, False):
        for L, d, D in [(3, 2, 2), (4, 2, 2), (2, 2, 3)]:
            def f(it, L=L, d=d, D=D, pure=pure):
                r = call(it, it.mod("fMPS").vars["fTFD"](), "random", L, d, D, pure)
                ts = data(r)
                w = "random(%d, %d, %d, pure=%s)" % (L, d, D, pure)
                out = [iscls(it, r, "fTFD", w)] + [f for f in attrs(r, w) if 'bond dimension' not in f.detail]   # D is the requested one, as for fMPS.random
                out.append(None if r.d.get('D') >= max(max(x.shape[1:]) for x in ts) else Fail('attributes', '%s records bond dimension %s' % (w, r.d.get('D'))))
                s = call(it, r, "symmetry")
                return out + [check(spec.eq(x, y), "not symmetric", w + " is not invariant under the exchange of copies") for x, y in zip(ts, data(s))]
            obs.append(Ob("random L=%d d=%d D=%d pure=%s" % (L, d, D, pure), P + "random", f))
    # the item-wise operators of both modules
    for mod in ("fMPS", "projects.fTFD"):
        for L, p in [(1, []), (2, [2]), (3, [2, 3])]:
            def f(it, mod=mod, L=L, p=p):
                A, B, z, w = spec.mps_data(L, 4, p), spec.mps_data(L, 4, p, "B"), spec.scalar("z"), grid.pstr(L, 4, p)
                m, o = tfd(it, mod, A), tfd(it, mod, B)
                out = []
                for nm, arg, ref in [("__add__", o, lambda a, b: nd.binop("+", a, b)), ("__sub__", o, lambda a, b: nd.binop("-", a, b)), ("__mul__", z, lambda a, b: nd.binop("*", z, a)),
                                     ("__rmul__", z, lambda a, b: nd.binop("*", z, a)), ("__truediv__", z, lambda a, b: nd.binop("/", a, z))]:
                    r = call(it, m, nm, arg)
                    ts = data(r)
                    out.append(check(r.cls is it.mod(mod).vars["fTFD"], "class", "%s of %s returns a %s" % (nm, mod, r.cls.name)))
                    out.append(check(len(ts) == L and all(spec.eq(t, ref(a, b)) for t, a, b in zip(ts, A, B)), "value differs", "%s of %s is not item-wise; %s" % (nm, mod, w)))
                return out
            obs.append(Ob("item-wise %s %s" % (mod, grid.pstr(L, 4, p)), mod + ":fTFD.__add__", f))
    for L, d, D in [(1, 2, 2), (3, 2, 2), (2, 3, 2), (4, 2, 3)]:
        def f(it, L=L, d=d, D=D):
            C = it.mod("projects.fTFD").vars["fTFD"]
            r = call(it, C(), "random", L, d, D)
            ts, w = data(r), "projects.fTFD.random(%d, %d, %d)" % (L, d, D)
            out = [check(r.cls is C, "class", w + " changes the class")]
            out.append(check(len(ts) == L and all(x.shape[0] == d * d for x in ts) and ts[0].shape[1] == 1 and ts[-1].shape[2] == 1 and all(a.shape[2] == b.shape[1] for a, b in zip(ts, ts[1:]))
                             and all(x.shape[1] <= D * D for x in ts), "structure", "%s has shapes %s" % (w, [x.shape for x in ts])))
            s = call(it, r, "symmetry")
            return out + [check(spec.eq(x, y), "not symmetric", w + " is not invariant under the exchange of copies") for x, y in zip(ts, data(s))]
        obs.append(Ob("random projects L=%d d=%d D=%d" % (L, d, D), "projects.fTFD:fTFD.random", f))
    return obs
