"""Reduced and transition density matrices: the matrix an entry point returns is compared with the contraction of the projector
(ket times conjugated bra) over the sites that are not named, rows and columns in the requested order.  The partial traces of matrices
and vectors are compared with the sum over the discarded factors for generic (non-Hermitian) matrices and unequal factor dimensions."""
import numpy as np
from .common import *

from . import wide

BONDS = ("first", "last")          # on a product state rho is a list, which has obligations of its own
FLOOR = 80
ASSUMPTIONS = ["the order of the kept factors of the stand-alone partial traces is the order of the spaces (keep is a set)",
               "rho_proj is defined for product states only (it returns nothing otherwise); for product states rho lists one matrix per site, of the tensors as they are"]


def density(ket, bra, sites):
    """rows: ket legs of the sites in order, columns: bra legs"""
    n = len(ket.shape)
    a = [("s", i) if i not in sites else ("k", i) for i in range(n)]
    b = [("s", i) if i not in sites else ("b", i) for i in range(n)]
    r = tn.einsum([ket, bra.conj()], [a, b], [("k", i) for i in sites] + [("b", i) for i in sites])
    N = 1
    for i in sites:
        N *= ket.shape[i]
    return tn.reshape(r, (N, N))


def expectm(got, ref, what, tag="density"):
    got = nd.symof(got)
    if got.shape != ref.shape:
        return Fail(tag, "%s has shape %s instead of %s" % (what, got.shape, ref.shape))
    return check(spec.eq(got, ref), tag, what)


def obligations(tier):
    obs = []
    big = tier != "quick"
    E = "fMPS:fMPS."

    def add(name, entry, fn, **kw):
        obs.append(Ob(name, entry, fn, **kw))

    shapes = [(2, 2), (3, 2), (4, 2), (2, 3), (3, 3)] + ([(5, 2), (4, 3), (6, 2)] if big else [])
    for L, d in shapes:
        subsets = [list(range(i, i + k)) for k in range(1, L + 1) for i in range(L - k + 1)]
        if L <= 4:
            subsets += [list(p) for k in range(2, L + 1) for c in itertools.combinations(range(L), k) for p in itertools.permutations(c)
                        if list(p) not in subsets and d ** k <= (16 if big else 9) and (big or k == 2)]
        else:
            subsets += [[0, L - 1], [0, 2], [L - 2, 0], [1, L - 1, 2]]
        for p in grid.profiles(L, d)[:2 if big else 1]:
            for sites in subsets:
                if d ** len(sites) > 27:
                    continue
                hist = gauges(L, sites[0]) if (L, d) in ((3, 2),) or (big and L == 4 and d == 2) else gauges(L, sites[0])[:2]
                for hname, h in hist:
                    def f(it, L=L, d=d, p=p, sites=sites, h=h):
                        A = spec.mps_data(L, d, p)
                        a = chain(it, *h)(spec.fMPS(it, A))
                        st = spec.state(A)
                        r = it.getattr(a, "rho")(list(sites), False) if set(p) <= {1} else it.getattr(a, "rho")(list(sites))
                        ref = nd.symof(nd.div(nd.wrap(density(st, st, sites), "c"), nd.wrap(norm2(st), "c")))
                        return [expectm(r, ref, "rho(%s) is not the partial trace; %s" % (sites, grid.pstr(L, d, p)))]
                    add("rho %s sites=%s after %s" % (grid.pstr(L, d, p), sites, hname), E + "rho", f)

    for L in (2, 3):
        for hname, h in histories(L):
            for sites in [list(x) for k in (1, 2) for x in itertools.permutations(range(L), k)]:
                def f(it, L=L, h=h, hname=hname, sites=sites):
                    a = spec.fMPS(it, spec.mps_data(L, 2, [2] * (L - 1)))
                    st = spec.state(prepared(it, a, h))
                    ref = nd.symof(nd.div(nd.wrap(density(st, st, sites), "c"), nd.wrap(norm2(st), "c")))
                    return [expectm(call(it, a, "rho", list(sites)), ref, "rho(%s) after %s is not the partial trace; L=%d" % (sites, hname, L))]
                add("rho %s L=%d after %s" % (sites, L, hname), E + "rho", f)

    # the sites come as any sequence, of any integers
    for L in (2, 3):
        for sites in [list(x) for k in (1, 2, 3) for x in itertools.combinations(range(L), k)]:
            for kn, kf in [("tuple", tuple), ("numpy integers", lambda x: [np.int64(i) for i in x]), ("array", lambda x: nd.wrap(np.array(x)))]:
                def f(it, L=L, sites=sites, kf=kf, kn=kn):
                    A = spec.mps_data(L, 2, [2] * (L - 1))
                    st = spec.state(A)
                    ref = nd.symof(nd.div(nd.wrap(density(st, st, sites), "c"), nd.wrap(norm2(st), "c")))
                    return [expectm(call(it, spec.fMPS(it, A), "rho", kf(sites)), ref, "rho(%s) given as %s is not the partial trace; L=%d" % (sites, kn, L))]
                add("rho sites %s as %s L=%d" % (sites, kn, L), E + "rho", f)

    # product states
    for L, d in [(1, 2), (2, 2), (3, 2), (4, 2), (3, 3), (2, 4)] + ([(5, 2), (4, 3)] if big else []):
        def product(it, L=L, d=d):
            out = []
            F = it.mod("fMPS").vars["fMPS"]
            A = [spec.tensor((d, 1, 1), "A%d" % i) for i in range(L)]
            B = [spec.tensor((d, 1, 1), "B%d" % i) for i in range(L)]
            ket, bra = spec.state(A), spec.state(B)
            for k in range(1, L + 1):
                for sites in (itertools.permutations(range(L), k) if L < 4 else itertools.combinations(range(L), k)):
                    sites = list(sites)
                    a, b = F(list(A)), F(list(B))
                    r = it.getattr(a, "rho")(list(sites))
                    out.append(check(len(r) == k, "density", "rho(%s) of a product state has %d matrices" % (sites, len(r))))
                    for i, x in zip(sites, r):
                        v = tn.reshape(nd.symof(A[i]), (d,))
                        out.append(expectm(x, tn.outer(v, v.conj()), "rho(%s) of a product state, site %d" % (sites, i)))
                    if d ** k <= 27:
                        out.append(expectm(it.getattr(a, "rho_proj")(b, list(sites)), density(ket, bra, sites), "rho_proj(%s) of product states" % sites, "transition density"))
                    for m, X in ((a, A), (b, B)):
                        out.append(check(all(spec.eq(x, y) for x, y in zip(data(m), X)), "operand", "the densities changed a product state"))
            return [o for o in out if o]
        add("product L=%d d=%d" % (L, d), E + "rho_proj", product)

    def whole(it):
        """density of all sites without truncation or a list: single_string False for a product state"""
        F = it.mod("fMPS").vars["fMPS"]
        A = [spec.tensor((2, 1, 1), "A%d" % i) for i in range(3)]
        st = spec.state(A)
        out = []
        for sites in ([0], [1], [2], [0, 1], [1, 2], [0, 1, 2]):
            r = it.getattr(F(list(A)), "rho")(sites, False)
            out.append(expectm(r, nd.symof(nd.div(nd.wrap(density(st, st, sites), "c"), nd.wrap(norm2(st), "c"))), "rho(%s, single_string=False) of a product state" % sites))
        return [o for o in out if o]
    add("product as one matrix", E + "rho", whole)

    # overlaps of reduced density matrices
    def reduced(A, sites, raw):
        st = spec.state(A)
        if raw:
            r = tn.scalar(1)
            for i in sites:
                v = tn.reshape(nd.symof(A[i]), (A[i].shape[0],))
                r = tn.outer(r, tn.outer(v, v.conj()))
            k = len(sites)
            d = A[0].shape[0]
            return tn.reshape(tn.transpose(r, tuple(range(0, 2 * k, 2)) + tuple(range(1, 2 * k, 2))), (d ** k, d ** k))
        return nd.symof(nd.div(nd.wrap(density(st, st, sites), "c"), nd.wrap(norm2(st), "c")))

    def local(A, B, sites):
        pa, pb = (all(x.shape[1:] == (1, 1) for x in X) for X in (A, B))
        a, b = reduced(A, sites, pa), reduced(B, sites, pb and not pa)
        return nd.real(nd.wrap(tn.einsum([a, b], [["i", "j"], ["j", "i"]], []), "c"))

    for L, d, pa, pb in [(2, 2, (2,), (2,)), (3, 2, (2, 2), (2, 2)), (3, 2, (2, 2), (1, 1)), (3, 2, (1, 1), (2, 2)), (3, 2, (1, 1), (1, 1)), (2, 3, (2,), (3,)), (2, 3, (1,), (2,))] + ([(4, 2, (2, 3, 2), (2, 2, 2)), (4, 2, (1, 1, 1), (2, 3, 2))] if big else []):
        parts = [list(range(i, i + k)) for k in range(1, L + 1) for i in range(L - k + 1)]
        pair = lambda it, L=L, d=d, pa=pa, pb=pb: [spec.mps_data(L, d, p, name=n) for p, n in ((pa, "A"), (pb, "B"))]
        wh = "L=%d d=%d bonds %s and %s" % (L, d, pa, pb)

        def lo(it, pair=pair, parts=parts, wh=wh):
            out = []
            for s in parts:
                A, B = pair(it)
                out.append(expect(it.getattr(spec.fMPS(it, A), "local_overlap")(spec.fMPS(it, B), s), local(A, B, s), "local overlap", "local_overlap on sites %s is not tr(rho rho'); %s" % (s, wh)))
            return [o for o in out if o]
        add("local overlap " + wh, E + "local_overlap", lo)

        def ap(it, pair=pair, parts=parts, wh=wh, L=L):
            out = []
            A, B = pair(it)
            sel = [parts[0], parts[-1], parts[L - 1]]
            ref = nd.mean(nd.array([local(A, B, s) for s in sel]))
            out.append(expect(it.getattr(spec.fMPS(it, A), "approx_overlap")(spec.fMPS(it, B), sel), ref, "mean", "approx_overlap is not the mean of the local overlaps; " + wh))
            for k in range(1, L + 1):
                A, B = pair(it)
                sel = [s for s in parts if len(s) == k]
                ref = nd.mean(nd.array([local(A, B, s) for s in sel]))
                out.append(expect(it.getattr(spec.fMPS(it, A), "k_local_approx_overlap")(spec.fMPS(it, B), k), ref, "mean", "k_local_approx_overlap(k=%d) is not the mean over the blocks of %d sites; %s" % (k, k, wh)))
            A, B = pair(it)
            ref = ip(spec.state(A), spec.state(B))
            out.append(expect(it.getattr(spec.fMPS(it, A), "k_local_approx_overlap")(spec.fMPS(it, B)), it.getattr(spec.fMPS(it, A), "overlap")(spec.fMPS(it, B)), "overlap", "k_local_approx_overlap without k is not the overlap; " + wh))
            return [o for o in out if o]
        add("approximate overlaps " + wh, E + "k_local_approx_overlap", ap)

    # stand-alone functions
    dims_ = [[2, 3], [3, 2], [2, 3, 2], [2, 3, 4], [2, 2, 2], [1, 2, 3], [2, 2, 2, 2], [4]] + ([[2, 3, 2, 3], [3, 1, 4, 2], [2] * 5, [5, 2], [2, 2, 3, 2]] if big else [])
    for dims in dims_:
        n = len(dims)
        N = 1
        for x in dims:
            N *= x
        keeps = [list(c) for k in range(1, n + 1) for c in itertools.combinations(range(n), k)]
        for mod in ("tensor", "spin"):
            def ptrace(it, dims=dims, n=n, N=N, keeps=keeps, mod=mod):
                out = []
                f = it.mod(mod).vars["partial_trace"]
                for keep in keeps:
                    M = spec.tensor((N, N), "M")
                    for kp, dm in ((keep, dims), (nd.wrap(keep_array(keep)), nd.wrap(keep_array(dims)))):
                        m = tn.reshape(nd.symof(M), tuple(dims) * 2)
                        lab = list(range(n)) + [n + i if i in keep else i for i in range(n)]
                        K = 1
                        for i in keep:
                            K *= dims[i]
                        ref = tn.reshape(tn.einsum([m], [lab], keep + [n + i for i in keep]), (K, K))
                        out.append(expectm(f(M, kp, dm), ref, "%s.partial_trace keeping %s of %s" % (mod, keep, dims), "partial trace"))
                return [o for o in out if o]
            add("%s.partial_trace %s" % (mod, dims), mod + ":partial_trace", ptrace)

        def vector(it, dims=dims, n=n, N=N, keeps=keeps):
            out = []
            f = it.mod("tensor").vars["ρA"]
            for keep in keeps:
                u = spec.tensor((N,), "u")
                v = tn.reshape(nd.symof(u), tuple(dims))
                for kp, dm in ((keep, dims), (nd.wrap(keep_array(keep)), nd.wrap(keep_array(dims)))):
                    out.append(expectm(f(u, kp, dm), density(v, v, keep), "ρA keeping %s of %s" % (keep, dims), "partial trace"))
            u = spec.tensor((N,), "u")
            s = nd.symof(u)
            out.append(expectm(f(u, [], dims), tn.outer(s, s.conj()), "ρA without a list of factors", "partial trace"))
            return [o for o in out if o]
        add("ρA %s" % dims, "tensor:ρA", vector)

    def w_rho(it, m, A, L, d, p):
        st, out = spec.state(A), []
        for sites in ([0], [L - 1], [L // 2], [L // 2 - 1, L // 2], [L - 1, 0]):
            if d ** len(sites) > 16:
                continue
            ref = nd.symof(nd.div(nd.wrap(density(st, st, sites), "c"), nd.wrap(norm2(st), "c")))
            out.append(expectm(call(it, spec.fMPS(it, A), "rho", list(sites)), ref, "rho(%s); %s" % (sites, grid.pstr(L, d, p))))
        return out
    wide.run(obs, wide.sizes(tier, "rho"), "rho", "rho", w_rho)
    return obs


def keep_array(x):
    import numpy as np
    return np.array(x)
