"""Robust decomposition: the routine is followed in the source with the library's decomposition replaced by a driver model whose
behaviour per driver (succeeds / does not converge / rejects its input) and per attempt is enumerated together with every option
combination.  A driver that is allowed to overwrite its input destroys it when it fails.  The factors returned must be those of the
driver that succeeded for the caller's matrix with the caller's options; when all drivers fail, the failure must reach the caller."""
import contextlib, itertools
import numpy as np
from .common import *
from .. import models

FLOOR = 20
ASSUMPTIONS = ["a driver given overwrite_a=True leaves arbitrary numbers in its input, one given overwrite_a=False leaves it alone (as documented by scipy)"]
DRIVERS = ("gesdd", "gesvd")


class Driver:
    """scipy.linalg.svd with a planned outcome per driver"""

    def __init__(self, plan):
        self.plan, self.calls = plan, []

    def __call__(self, a, full_matrices=True, compute_uv=True, overwrite_a=False, check_finite=True, lapack_driver="gesdd"):
        if lapack_driver not in DRIVERS:
            raise nd.Raise(ValueError, "lapack_driver must be \"gesdd\" or \"gesvd\"")
        sym = nd.symof(a)
        self.calls.append((lapack_driver, sym, bool(full_matrices), bool(compute_uv), bool(overwrite_a), bool(check_finite)))
        out = self.plan[lapack_driver]
        if overwrite_a and isinstance(a, nd.Arr):
            nd.setitem(a, Ellipsis, spec.tensor(tuple(sym.shape), "junk%d" % len(self.calls)))
        if out == "diverges":
            raise nd.Raise(np.linalg.LinAlgError, "SVD did not converge")
        if out == "rejects":
            raise nd.Raise(ValueError, "array must not contain infs or NaNs")
        return ("factors", len(self.calls) - 1)


@contextlib.contextmanager
def driver(it, d, warned):
    names = {"scipy.linalg.svd": d, "warnings.warn": lambda *a, **k: warned.append(a)}
    old = {}
    for n, fn in names.items():
        v = models.resolve_ext(it, n)
        old[n] = v
        if isinstance(v, I.ExtFunc):
            old[n] = (v, v.fn)
            v.fn = fn
        else:
            models._cache[n] = I.ExtFunc(n, fn)
    try:
        yield
    finally:
        for n, v in old.items():
            if isinstance(v, tuple):
                v[0].fn = v[1]
            else:
                models._cache[n] = v


def raises(f):
    """(value, exception)"""
    try:
        return f(), None
    except nd.Raise as e:
        return None, e


def isexc(e, t):
    return isinstance(getattr(e, "exc", None), type) and issubclass(e.exc, t)


def obligations(tier):
    obs = []
    shapes = [(3, 4), (4, 3)] if tier == "quick" else [(3, 4), (4, 3), (2, 2), (1, 3), (5, 1)]
    outcomes = ("ok", "diverges", "rejects")

    for shape in shapes:
        for p1, p2 in itertools.product(outcomes, repeat=2):
            def f(it, shape=shape, p1=p1, p2=p2):
                m = it.mod("svd_robust")
                svd = m.vars["svd"]
                out = []
                for drv, full, uv, over, fin, warn in itertools.product(DRIVERS, *[(True, False)] * 5):
                    for pos in (False, True):
                        a = spec.tensor(shape, "a")
                        ref = nd.symof(a)
                        d, warned = Driver({"gesdd": p1, "gesvd": p2}), []
                        with driver(it, d, warned):
                            if pos:
                                v, e = raises(lambda: svd(a, full, uv, over, fin, drv, warn))
                            else:
                                v, e = raises(lambda: svd(a, full_matrices=full, compute_uv=uv, overwrite_a=over, check_finite=fin, lapack_driver=drv, warn=warn))
                        s = "%s asked for, %s; full_matrices=%s compute_uv=%s overwrite_a=%s check_finite=%s warn=%s" % (drv, ", ".join("%s %s" % x for x in zip(DRIVERS, (p1, p2))), full, uv, over, fin, warn)
                        first = p1 if drv == "gesdd" else p2
                        second = p2 if drv == "gesdd" and p1 == "diverges" else None
                        if first == "ok" or second == "ok":
                            if e is not None:
                                out.append(Fail("error", s + ": raises %s although a driver succeeds" % getattr(e.exc, "__name__", e.exc)))
                                continue
                            if not (isinstance(v, tuple) and len(v) == 2 and v[0] == "factors"):
                                out.append(Fail("result", s + ": the result is not what the driver returned"))
                                continue
                            c = d.calls[v[1]]
                            if not spec.eq(c[1], ref)[0]:
                                out.append(Fail("matrix", s + ": the factors returned are not those of the matrix given"))
                            if (c[2], c[3]) != (full, uv):
                                out.append(Fail("options", s + ": the factors are computed with full_matrices=%s compute_uv=%s" % (c[2], c[3])))
                            if c[5] != fin:
                                out.append(Fail("check_finite", s + ": the check for finite numbers is %s" % ("on" if c[5] else "off")))
                            if first == "ok" and c[0] != drv:
                                out.append(Fail("driver", s + ": the factors come from %s" % c[0]))
                        else:
                            if e is None:
                                out.append(Fail("no error", s + ": returns although no driver succeeds"))
                            elif (p2 if second else first) == "diverges" and not isexc(e, np.linalg.LinAlgError):
                                out.append(Fail("error type", s + ": raises %s" % getattr(e.exc, "__name__", e.exc)))
                            elif (p2 if second else first) == "rejects" and not isexc(e, ValueError):
                                out.append(Fail("error type", s + ": raises %s" % getattr(e.exc, "__name__", e.exc)))
                        if drv == "gesvd" and any(c[0] == "gesdd" for c in d.calls):
                            out.append(Fail("driver", s + ": gesdd is run"))
                        if not over and not spec.eq(a, ref)[0]:
                            out.append(Fail("operand", s + ": the matrix given is overwritten"))
                        if not warn and warned:
                            out.append(Fail("warning", s + ": warns"))
                        if warn and drv == "gesdd" and p1 == "diverges" and not warned:
                            out.append(Fail("warning", s + ": the failure of the fast driver goes unreported"))
                return uniq(out)
            obs.append(Ob("outcomes %dx%d %s/%s" % (shape + (p1, p2)), "svd_robust:svd", f))

        def g(it, shape=shape):
            """defaults, and the factors themselves"""
            svd = it.mod("svd_robust").vars["svd"]
            out = []
            a = spec.tensor(shape, "a")
            k = min(shape)
            for full in (True, False):
                for drv in DRIVERS:
                    r = svd(a, full_matrices=full, lapack_driver=drv)
                    U, S, V = r
                    n, m = shape
                    want = ((n, n), (k,), (m, m)) if full else ((n, k), (k,), (k, m))
                    if tuple(tuple(x.shape) for x in (U, S, V)) != want:
                        out.append(Fail("shapes", "%s full_matrices=%s: shapes %s" % (drv, full, [tuple(x.shape) for x in (U, S, V)])))
                        continue
                    u, s, v = nd.symof(U), nd.symof(S), nd.symof(V)
                    u, v = nd.symof(nd.getitem(U, (slice(None), slice(0, k)))), nd.symof(nd.getitem(V, (slice(0, k),)))
                    out.append(expect(a, tn.einsum([u, s, v], [["i", "k"], ["k"], ["k", "j"]], ["i", "j"]), "factors", "%s full_matrices=%s: the factors do not multiply to the matrix" % (drv, full)))
            d, warned = Driver({"gesdd": "ok", "gesvd": "ok"}), []
            with driver(it, d, warned):
                svd(a)
            c = d.calls[-1]
            if (c[0], c[2], c[3], c[5]) != ("gesdd", True, True, True):
                out.append(Fail("defaults", "without options: %s full_matrices=%s compute_uv=%s check_finite=%s" % (c[0], c[2], c[3], c[5])))
            return [x for x in out if x]
        obs.append(Ob("factors %dx%d" % shape, "svd_robust:svd", g))

    def unknown(it):
        svd = it.mod("svd_robust").vars["svd"]
        out = []
        for p1, p2 in itertools.product(outcomes, repeat=2):
            for bad in ("gesdx", "", "GESVD", None):
                d, warned = Driver({"gesdd": p1, "gesvd": p2}), []
                with driver(it, d, warned):
                    v, e = raises(lambda: svd(spec.tensor((2, 3), "a"), lapack_driver=bad))
                if e is None or not isexc(e, ValueError):
                    out.append(Fail("unknown driver", "lapack_driver=%r is not rejected" % (bad,)))
        return uniq(out)
    obs.append(Ob("unknown driver", "svd_robust:svd", unknown))

    def old(it):
        """without a library that offers the slow driver the wrapper of the LAPACK routine gets the same matrix and options"""
        m = it.mod("svd_robust")
        svd = m.vars["svd"]
        keep = {k: m.vars.get(k) for k in ("_old_scipy", "_load_lapack", "svd_gesvd")}
        out = []
        try:
            for p1, drv, full, uv, fin in itertools.product(("ok", "diverges"), DRIVERS, *[(True, False)] * 3):
                calls = []

                def own(a, full_matrices=True, compute_uv=True, check_finite=True):
                    calls.append((nd.symof(a), bool(full_matrices), bool(compute_uv), bool(check_finite)))
                    return ("own", 0)
                loaded = []
                m.vars["_old_scipy"] = True
                m.vars["_load_lapack"] = I.ExtFunc("_load_lapack", lambda *a, **k: loaded.append(1))
                m.vars["svd_gesvd"] = I.ExtFunc("svd_gesvd", own)
                a = spec.tensor((3, 2), "a")
                ref = nd.symof(a)
                d = Driver({"gesdd": p1, "gesvd": "rejects"})
                with driver(it, d, []):
                    v, e = raises(lambda: svd(a, full, uv, True, fin, drv))
                s = "old library, %s asked for, gesdd %s" % (drv, p1)
                if e is not None:
                    out.append(Fail("error", s + ": raises %s" % e.msg))
                elif p1 == "ok" and drv == "gesdd":
                    if v[0] != "factors":
                        out.append(Fail("driver", s + ": the factors do not come from gesdd"))
                elif v[0] != "own" or not spec.eq(calls[-1][0], ref)[0] or calls[-1][1:] != (full, uv, fin):
                    out.append(Fail("options", s + ": the routine does not get the matrix and options of the caller"))
        finally:
            m.vars.update({k: v for k, v in keep.items() if v is not None})
        return uniq(out)
    obs.append(Ob("old library", "svd_robust:svd", old))
    return obs


def uniq(fs):
    seen, out = set(), []
    for f in fs:
        if f is not None and f.tag not in seen:
            seen.add(f.tag)
            out.append(f)
    return out
