"""Trajectory histories: sequences of trajectory operations are followed in the source; next to each the list of the states the
sequence visits is kept (every integration step is the analysed single step without recording, which C14 decides; the derivative is
an uninterpreted function).  At the end the number of history entries, the bond dimension recorded for each, the states every decoding
method returns and the observables are compared with that list."""
import types
import numpy as np
from .common import *
from .c14 import patched, Derivative

REAL = False          # the gauge of a decomposition of a real array is not that of the same array stored as complex; states are compared tensor by tensor here
FLOOR = 40
F = "fTDVP:Trajectory."
ASSUMPTIONS = ["bond dimensions of the states are those of the standard structure (the history stores one bond dimension per state)",
               "weights that vanish are exact zeros or rounding noise together",
               "the derivative is a function of the tensors of the state and the Hamiltonian only"]


def same_list(a, b):
    return isinstance(a, list) and len(a) == len(b) and all(spec.eq(x, nd.symof(y)) for x, y in zip(a, b))


class Ref:
    """the states a trajectory visits"""

    def __init__(self, it, tr, C, T, H, full):
        self.it, self.tr, self.C, self.T, self.H, self.full = it, tr, C, T, H, full
        self.m0 = data(tr.d["mps"])[:]
        self.m = self.m0[:]
        self.hist = []
        self.ed = None
        self.pre = []
        self.olds = []        # (trajectory, history) of originals that were copied
        self.dynH = []
        self.asked = []
        self.mixed = False

    def state(self, ts=None):
        return self.C(list(self.m if ts is None else ts))

    def times(self, n):
        return nd.wrap(np.linspace(0, 0.1 * (n - 1), n))

    # -------------------------------------------------------------- operations
    def integrate(self, kind, n):
        t = self.times(n)
        y = call(self.it, self.state(), "left_canonicalise")
        step = self.T(self.state(), self.H, **({"fullH": True} if self.full else {}))
        dt = nd.binop("-", nd.getitem(t, 1), nd.getitem(t, 0))
        for k in range(n):
            self.hist.append(data(y)[:])
            self.m = self.hist[-1]
            if k < n - 1:
                y = call(self.it, step, kind, self.C(list(data(y))), dt, store=False)
        call(self.it, self.tr, kind + "int", t)

    def euler(self, n=2):
        self.integrate("euler", n)

    def rk4(self, n=2):
        self.integrate("rk4", n)

    def expand(self, D):
        self.m = data(call(self.it, self.state(), "expand", D))[:]
        call(self.it, self.tr, "expand", D)

    def contract(self, D):
        self.m = data(call(self.it, self.state(), "left_canonicalise", D))[:]
        call(self.it, self.tr, "contract", D)

    def dynexpand(self, D, own=False):
        H = [spec.tensor((4, 4), "own")] if own else None
        self.m = data(call(self.it, self.state(), "expand", D))[:]

        def get(inst):
            def dynamical_expand(H, dt, D_, threshold=1e-8):
                self.dynH.append((H, dt, D_))
                call(self.it, inst, "expand", D_)
                return inst
            return dynamical_expand
        with patched(self.C, dynamical_expand=I.Prop(get)):
            if own:
                call(self.it, self.tr, "dynamical_expand", D, 0.1, H)
            else:
                call(self.it, self.tr, "dynamical_expand", D, 0.1)
        self.asked.append((H if own else self.H, D))

    def clear(self):
        self.m, self.hist = self.m0[:], []
        call(self.it, self.tr, "clear")

    def setmps(self, bonds):
        L = len(self.m)
        self.m = spec.mps_data(L, 2, bonds, "N")
        self.it.setattr(self.tr, "mps", self.state())

    def copy(self):
        old = self.tr
        self.tr = call(self.it, old, "copy")
        self.olds.append((old, self.hist[:], self.m[:]))

    def branch(self):
        """go on with the original while a copy exists"""
        c = call(self.it, self.tr, "copy")
        self.olds.append((c, self.hist[:], self.m[:]))

    def save(self):
        n = len(self.hist)
        self.saved = [nd.symof(x) for x in self.tr.d["mps_history"]]
        call(self.it, self.tr, "save", "/scratch/", False, False)

    def edint(self, n=3):
        t = self.times(n)
        L = len(self.m)
        psi = tn.reshape(spec.state(self.m), (2 ** L,))
        if self.full:
            h = nd.symof(self.H)
        else:
            h = None
            for i, x in enumerate(self.H):
                e = tn.reshape(tn.einsum([tn.eye(2 ** i), nd.symof(x), tn.eye(2 ** (L - 2 - i))], [["a", "d"], ["b", "e"], ["c", "f"]], ["a", "b", "c", "d", "e", "f"]), (2 ** L, 2 ** L))
                h = e if h is None else h.add(e)
        U = nd.symof(nd.expm(nd.binop("*", nd.wrap(h, "c"), -1j * 0.1)))
        self.ed = [psi]
        for _ in range(n - 1):
            self.ed.append(tn.einsum([U, self.ed[-1]], [["a", "b"], ["b"]], ["a"]))
        call(self.it, self.tr, "edint", t)
        self.m = data(self.tr.d["mps"])[:]
        self.pre = [proportional(spec.state(self.m), tn.reshape(self.ed[-1], (2,) * L), "edint: the current state is not the last one", "current state")]
        self.mixed = self.mixed or bool(self.hist)

    def odeint(self, n=3):
        t = self.times(n)
        y = call(self.it, self.state(), "left_canonicalise")
        call(self.it, self.tr, "odeint", t)
        self.hist = [data(y)[:]] + [None] * (n - 1)
        shapes = [x.shape for x in data(y)]
        last = self.tr.d["mps"]
        self.m = data(last)[:]
        self.shapes = shapes

    # -------------------------------------------------------------- observations
    def same(self, ms, hist, what, tag):
        out = []
        if len(ms) != len(hist):
            return [Fail("length", "%s: %d states instead of %d" % (what, len(ms), len(hist)))]
        for k, (m, ts) in enumerate(zip(ms, hist)):
            if ts is None:
                continue
            us = data(m)
            if [u.shape for u in us] != [x.shape for x in ts]:
                out.append(Fail(tag, "%s: state %d has shapes %s instead of %s" % (what, k, [u.shape for u in us], [x.shape for x in ts])))
                continue
            for i, (u, x) in enumerate(zip(us, ts)):
                out.append(check(spec.eq(u, x), tag, "%s: tensor %d of state %d is not that of the visited state" % (what, i, k)))
        return out

    def look(self, what):
        it, tr = self.it, self.tr
        out = list(self.pre)
        h = tr.d["mps_history"]
        if len(h) != len(self.hist):
            out.append(Fail("length", "%s: %d history entries for %d recorded steps" % (what, len(h), len(self.hist))))
        if self.hist:
            out += self.same(call(it, tr, "mps_list"), self.hist, what + ": mps_list", "decoding")
            out += self.same(call(it, tr, "deserialize"), self.hist, what + ": deserialize", "decoding")
        out += self.same([tr.d["mps"]], [self.m], what + ": current state", "current state")
        for o, hist, m in self.olds:
            out += self.same([o.d["mps"]], [m], what + ": state of the other copy", "copy")
            if len(o.d["mps_history"]) != len(hist):
                out.append(Fail("copy", "%s: the other copy has %d history entries instead of %d" % (what, len(o.d["mps_history"]), len(hist))))
            elif hist:
                out += self.same(call(it, o, "mps_list"), hist, what + ": other copy", "copy")
        if [(id(a), c) for a, b, c in self.dynH] != [(id(a), c) for a, c in self.asked]:
            out.append(Fail("Hamiltonian", what + ": the expansion uses another Hamiltonian or bond dimension than asked"))
        return out


def build(it, full, L, bonds, C=None):
    Cf = it.mod("fMPS").vars["fMPS"]
    T = it.mod("fTDVP").vars["Trajectory"]
    A = spec.mps_data(L, 2, bonds)
    H = spec.hermitian((2 ** L, 2 ** L), (1, 0), "H") if full else [spec.hermitian((4, 4), (1, 0), "h%d" % i) for i in range(L - 1)]
    tr = T(Cf(list(A)), H, **({"fullH": True} if full else {}))
    return Ref(it, tr, Cf, T, H, full)


def run(it, L, bonds, seq, full, what, then=None):
    nd.ZEROS_APART = False
    try:
        ref = build(it, full, L, bonds)
        D = Derivative(ref.C)
        with patched(ref.C, dA_dt=D.prop()):
            for name, *args in seq:
                getattr(ref, name)(*args)
        return (then or (lambda r: r.look(what)))(ref)
    finally:
        nd.ZEROS_APART = True


def equation(it, L, bonds, full):
    """what odeint hands to the library integrator: the right-hand side is the derivative of the state encoded by the vector at
    every call, the interval is the one asked for, the initial value is the canonicalised state"""
    nd.ZEROS_APART = False
    V = it.mod("fTDVP").vars
    old = V["solve_ivp"]
    try:
        ref = build(it, full, L, bonds)
        D = Derivative(ref.C)
        t = nd.wrap(np.array([0.5, 0.75, 1.0, 1.25]))
        rec = []

        def solve_ivp(f, t_span, y0, method="RK45", t_eval=None, **kw):
            n = nd.to_arr(y0).shape[0]
            vs = [y0] + [spec.tensor((n,), "v%d" % k, kind="f") for k in range(6)] + [y0]
            rec.append((t_span, y0, t_eval, kw, vs, [f(0.5 + 0.1 * k, v) for k, v in enumerate(vs)]))
            return old(f, t_span, y0, method, t_eval, **kw)
        V["solve_ivp"] = solve_ivp
        out = []
        with patched(ref.C, dA_dt=D.prop()):
            y = call(it, ref.state(), "left_canonicalise")
            call(it, ref.tr, "odeint", t)
            if len(rec) != 1:
                return [Fail("solver", "odeint hands %d problems to the integrator" % len(rec))]
            span, y0, t_eval, kw, vs, fs = rec[0]
            enc = lambda v: call(it, ref.C(), "deserialize", v, L, 2, y.d["D"], real=True)
            out.append(check([float(nd.raw(x)) for x in span] == [0.5, 1.25], "interval", "odeint integrates over another interval than the times it is given"))
            out.append(expect(nd.to_arr(t_eval), nd.symof(t), "times", "odeint asks for the solution at other times than it is given"))
            for i, (a, b) in enumerate(zip(data(enc(y0)), data(y))):
                out.append(check(spec.eq(a, b), "initial value", "odeint does not start from the current state: tensor %d" % i))
            for k, (v, fv) in enumerate(zip(vs, fs)):
                want = call(it, ref.C(list(D.of(data(enc(v)), ref.H, full))), "serialize", real=True)
                out.append(check(tuple(nd.to_arr(fv).shape) == tuple(nd.to_arr(want).shape) and spec.eq(fv, want), "right-hand side", "the right-hand side odeint hands to the integrator is not the derivative of the encoded state at its call %d" % k))
            lo, hi = kw.get("min_step"), kw.get("max_step")
            if lo is not None and hi is not None:
                lo, hi = [float(nd.raw(x)) for x in (lo, hi)]
                out.append(check(lo < hi, "step", "no step is both at least min_step and at most max_step without being equal to both"))
        return [o for o in out if o]
    finally:
        V["solve_ivp"] = old
        nd.ZEROS_APART = True


def sname(seq):
    return "; ".join("%s%s" % (s[0], "(%s)" % ",".join(map(str, s[1:])) if s[1:] else "") for s in seq)


def sequences(tier):
    e, r = ("euler",), ("rk4",)
    x2, x4 = ("expand", 2), ("expand", 4)
    out = [(3, [1, 1], s) for s in [
        [e], [("euler", 3)], [r], [e, r], [e, e],
        [x2, e], [e, x2, e], [r, x2, r], [e, x2], [x2, x2, e],
        [e, ("dynexpand", 2), e], [("dynexpand", 2, True), e],
        [e, ("clear",)], [e, ("clear",), e], [e, x2, e, ("clear",), e], [x2, ("clear",), e], [e, ("setmps", [2, 2])], [e, ("setmps", [2, 2]), e], [("setmps", [2, 2]), e],
        [e, ("copy",), e], [e, ("branch",), e], [("branch",), e], [("copy",), x2, e], [e, ("branch",), x2, e], [e, ("copy",), ("clear",), e], [e, ("branch",), ("setmps", [2, 2]), e]]]
    out += [(3, [2, 2], s) for s in [[e], [r], [e, ("contract", 1), e], [e, ("contract", 1)], [("contract", 1), e], [e, ("contract", 1), x2, e], [("contract", 2), e],
                                     [e, ("clear",), ("contract", 1), e], [e, ("setmps", [1, 1]), e], [("odeint",)], [e, ("odeint",)], [("odeint",), ("clear",), e], [("odeint",), ("branch",)]]]
    out += [(3, [2, 2], s) for s in [[("edint",)], [("edint",), e], [e, ("edint",)], [e, ("clear",), ("edint",)]]]
    out += [(2, [1], s) for s in [[e, x2, e, ("setmps", [1]), e, x2, r], [e, ("copy",), x2, e, ("branch",), ("clear",), e]]]
    out += [(4, [2, 2, 2], [e, x4, ("euler", 1 + 1)])] if tier != "quick" else []
    if tier != "quick":
        one = [e, r, x2, ("clear",), ("setmps", [1]), ("copy",), ("branch",), ("contract", 1), ("dynexpand", 2)]
        for a in one:
            for b in one:
                for c in one:
                    s = [e, a, b, c, e]
                    out.append((2, [2], s))
    return out


def obligations(tier):
    obs = []
    TH = grid.more([F + x for x in ("eulerint", "rk4int", "odeint", "edint", "mps_list", "clear", "copy", "set_mps")], ("fTDVP", "tensor"), lo=3)
    extra = [(2, [1], [("euler", v)]) for v in TH] + [(2, [1], [("euler", 1), ("expand", 2), ("euler", v), ("clear",), ("euler", 1)]) for v in TH]
    extra += [(v, [1] * (v - 1), [("euler", 1), ("euler", 1)]) for v in TH if 4 < v < 9]
    for L, bonds, seq in sequences(tier) + extra:
        for full in ((False, True) if len(seq) == 1 else (False,)):
            nm = "L=%d bonds=%s%s: %s" % (L, ",".join(map(str, bonds)), " full H" if full else "", sname(seq))
            last = [s[0] for s in seq if s[0] in ("euler", "rk4", "odeint", "edint", "expand", "contract", "clear", "copy")][-1:] or ["copy"]
            ent = {"euler": "eulerint", "rk4": "rk4int"}.get(last[0], last[0])

            def f(it, L=L, bonds=bonds, seq=seq, full=full, nm=nm):
                return run(it, L, bonds, seq, full, nm)
            obs.append(Ob(nm, F + ent, f, maxpaths=64))
    # observables: one row per recorded state
    e, r = ("euler",), ("rk4",)
    for L, bonds, seq in [(2, [1], [e, ("expand", 2), e]), (3, [2, 2], [("euler", 3)]), (2, [2], [r, ("contract", 1), e])]:
        def obsv(which, seq=seq):
            def then(ref):
                it, tr, out = ref.it, ref.tr, []
                s = "%s after %s" % (which, sname(seq))
                n = len(ref.hist)
                if which == "mps_evs":
                    ops = [spec.tensor((2, 2), "o%d" % k) for k in range(2)]
                    for site in range(len(ref.m)):
                        v = call(it, tr, "mps_evs", ops, site)
                        if v.shape != (n, 2):
                            return [Fail("rows", "%s: shape %s for %d states and 2 operators" % (s, v.shape, n))]
                        for k, ts in enumerate(ref.hist):
                            st = spec.state(ts)
                            l = [("s", i) for i in range(len(ts))]
                            for j, o in enumerate(ops):
                                l2 = [("t", 0) if i == site else x for i, x in enumerate(l)]
                                x = tn.einsum([st.conj(), nd.symof(o), st], [l, [("s", site), ("t", 0)], l2], [])
                                ref_v = nd.real(nd.wrap(x, "c"))
                                got = nd.wrap(tn.outer(nd.symof(nd.getitem(v, (k, j))), norm2(st)), "c")
                                out.append(expect(got, nd.symof(ref_v), "value", "%s: entry (%d,%d) at site %d is not the expectation value in the visited state" % (s, k, j, site)))
                if which == "mps_energies":
                    v = call(it, tr, "mps_energies")
                    if v.shape != (n,):
                        return [Fail("rows", "%s: shape %s for %d states" % (s, v.shape, n))]
                    for k, ts in enumerate(ref.hist):
                        x = call(it, call(it, ref.state(ts), "left_canonicalise"), "energy", ref.H)
                        out.append(expect(nd.getitem(v, k), nd.symof(x), "value", "%s: entry %d is not the energy of the visited state" % (s, k)))
                if which == "schmidts":
                    v = call(it, tr, "schmidts")
                    if len(v) != n:
                        return [Fail("rows", "%s: %d rows for %d states" % (s, len(v), n))]
                    for k, ts in enumerate(ref.hist):
                        m = call(it, ref.state(ts), "left_canonicalise")
                        ls = [nd.diag(x) for x in m.d["Ls"]]
                        if [x.shape for x in ls] != [x.shape for x in v[k]]:
                            out.append(Fail("value", "%s: row %d has shapes %s" % (s, k, [x.shape for x in v[k]])))
                            continue
                        out += [expect(a, nd.symof(b), "value", "%s: row %d bond %d" % (s, k, i)) for i, (a, b) in enumerate(zip(v[k], ls))]
                if which == "loschmidt":
                    v = call(it, tr, "loschmidt")
                    if len(v) != n:
                        return [Fail("rows", "%s: %d values for %d states" % (s, len(v), n))]
                    a = spec.state(ref.hist[0])
                    for k, ts in enumerate(ref.hist):
                        b = spec.state(ts)
                        x = ip(a, b)
                        got = nd.symof(v[k])
                        out.append(check(spec.eq(tn.outer(got, got), tn.outer(x, x.conj())), "value", "%s: entry %d is not |<first|state>|" % (s, k)))
                return out
            return then
        for which in ("mps_evs", "mps_energies", "schmidts", "loschmidt"):
            nm = "%s L=%d bonds=%s: %s" % (which, L, ",".join(map(str, bonds)), sname(seq))
            obs.append(Ob(nm, F + which, lambda it, L=L, bonds=bonds, seq=seq, w=which, o=obsv, nm=nm: run(it, L, bonds, seq, False, nm, o(w)), maxpaths=64))
    # the problem handed to the library integrator
    for L, bonds in [(2, [2]), (3, [2, 2])] + ([(3, [1, 1]), (4, [2, 2, 2])] if tier != "quick" else []):
        for full in (False, True):
            nm = "equation of odeint L=%d bonds=%s%s" % (L, ",".join(map(str, bonds)), " full H" if full else "")
            obs.append(Ob(nm, F + "odeint", lambda it, L=L, bonds=bonds, full=full: equation(it, L, bonds, full), maxpaths=16))
    # exact evolution
    for L, bonds in [(2, [2]), (3, [2, 2])]:
        for full in (False, True):
            for which in ("history", "mps_list", "mps_evs", "ed_evs", "loschmidt", "schmidts", "energies"):
                def then(ref, which=which, L=L):
                    it, tr, out = ref.it, ref.tr, []
                    n = len(ref.ed)
                    s = "%s after edint%s L=%d" % (which, " (full H)" if ref.full else "", L)
                    nrm = lambda v: tn.einsum([v, v.conj()], [["a"], ["a"]], [])
                    if which == "history":
                        h = tr.d["ed_history"]
                        if h.shape != (n, 2 ** L):
                            return [Fail("rows", "%s: shape %s" % (s, h.shape))]
                        out += [expect(nd.getitem(h, k), v, "evolution", "%s: row %d is not the state evolved with the sum of the terms" % (s, k)) for k, v in enumerate(ref.ed)]
                        out += [proportional(spec.state(data(tr.d["mps"])), tn.reshape(ref.ed[-1], (2,) * L), s + ": the current state is not the last one", "current state")]
                    if which == "mps_list":
                        v = call(it, tr, "mps_list")
                        if len(v) != n:
                            return [Fail("rows", "%s: %d states for %d" % (s, len(v), n))]
                        out += [proportional(spec.state(data(m)), tn.reshape(x, (2,) * L), "%s: state %d" % (s, k), "decoding") for k, (m, x) in enumerate(zip(v, ref.ed))]
                    if which in ("mps_evs", "ed_evs"):
                        ops = [spec.tensor((2, 2), "o%d" % k) for k in range(2)] if which == "mps_evs" else [spec.tensor((2 ** L, 2 ** L), "o%d" % k) for k in range(2)]
                        for site in (range(L) if which == "mps_evs" else [None]):
                            v = call(it, tr, which, ops, *([] if site is None else [site]))
                            if v.shape != (n, 2):
                                return [Fail("rows", "%s: shape %s" % (s, v.shape))]
                            for k, x in enumerate(ref.ed):
                                st = tn.reshape(x, (2,) * L)
                                for j, o in enumerate(ops):
                                    if site is None:
                                        y = tn.einsum([x.conj(), nd.symof(o), x], [["a"], ["a", "b"], ["b"]], [])
                                    else:
                                        l = [("s", i) for i in range(L)]
                                        y = tn.einsum([st.conj(), nd.symof(o), st], [l, [("s", site), "t"], ["t" if i == site else a for i, a in enumerate(l)]], [])
                                    got = nd.symof(nd.getitem(v, (k, j)))
                                    if site is not None:
                                        got = tn.outer(got, nrm(x))
                                    out.append(expect(nd.wrap(got, "c"), nd.symof(nd.real(nd.wrap(y, "c"))), "value", "%s: entry (%d,%d)" % (s, k, j)))
                    if which == "loschmidt":
                        v = call(it, tr, "loschmidt")
                        if len(v) != n:
                            return [Fail("rows", "%s: %d values" % (s, len(v)))]
                        for k, x in enumerate(ref.ed):
                            y = tn.einsum([ref.ed[0].conj(), x], [["a"], ["a"]], [])
                            g = nd.symof(v[k])
                            out.append(check(spec.eq(tn.outer(g, g), tn.outer(y, y.conj())), "value", "%s: entry %d" % (s, k)))
                    if which == "schmidts":
                        v = call(it, tr, "schmidts")
                        if len(v) != n or any(len(r) != L + 1 for r in v):
                            out.append(Fail("rows", "%s: %d rows, %s bonds" % (s, len(v), [len(r) for r in v])))
                    if which == "energies":
                        v = call(it, tr, "ed_energies")
                        if v.shape != (n, 1):
                            return [Fail("rows", "%s: shape %s" % (s, v.shape))]
                    return out
                nm = "edint %s L=%d%s" % (which, L, " full H" if full else "")
                obs.append(Ob(nm, F + ("edint" if which == "history" else "ed_energies" if which == "energies" else which),
                              lambda it, L=L, bonds=bonds, full=full, nm=nm, t=then: run(it, L, bonds, [("edint",)], full, nm, t), maxpaths=64))
    # the commutator correlation of exact evolution
    for L, bonds in [(2, [2]), (3, [2, 2])]:
        def f(it, L=L, bonds=bonds):
            def then(ref):
                N = 2 ** L
                V, W = spec.tensor((N, N), "V"), spec.tensor((N, N), "W")
                ts = [0.25, 0.5, 1.0]
                got = call(it, ref.tr, "ed_OTOC", nd.wrap(np.array(ts)), (V, W))
                if len(got) != len(ts):
                    return [Fail("rows", "ed_OTOC gives %d values for %d times" % (len(got), len(ts)))]
                psi = nd.wrap(tn.reshape(spec.state(ref.m), (N,)), "c")
                out = []
                for t, x in zip(ts, got):
                    U = nd.expm(nd.binop("*", nd.wrap(nd.symof(ref.H), "c"), -1j * t))
                    Wt = nd.matmul(nd.matmul(nd.conj(nd.transpose(U)), W), U)
                    K = nd.binop("-", nd.matmul(Wt, V), nd.matmul(V, Wt))
                    y = nd.matmul(nd.conj(psi), nd.matmul(K, nd.matmul(K, psi)))
                    out.append(expect(x, nd.symof(nd.neg(nd.real(y))), "value", "ed_OTOC at time %s is not minus the expectation value of the squared commutator of the evolved and the fixed operator" % t))
                return out
            return run(it, L, bonds, [], True, "ed_OTOC", then)
        obs.append(Ob("ed_OTOC L=%d" % L, F + "ed_OTOC", f))
    # saving writes the whole history
    def sv(it):
        def then(ref):
            v = it.vfs
            if len(v) != 1:
                return [Fail("save", "save writes %d files instead of one" % len(v))]
            (k, x), = v.items()
            out = [] if k.startswith("/scratch/") else [Fail("save", "save writes to %s" % k)]
            if x.shape[0] != len(ref.hist):
                return out + [Fail("save", "save writes %d rows for %d states" % (x.shape[0], len(ref.hist)))]
            return out + [expect(nd.getitem(x, n), y, "save", "row %d of the saved file" % n) for n, y in enumerate(ref.saved)] + ref.look("after save")
        it.vfs = {}
        return run(it, 2, [2], [("euler", 3), ("save",)], False, "save", then)
    obs.append(Ob("save", F + "save", sv))

    # saving and going on; saving exponents with their basis and state; stopping
    def svc(it):
        def then(ref):
            call(it, ref.tr, "save", "/scratch/", False)
            ref.m, ref.hist = ref.m0[:], []
            out = ref.look("after save with clear")
            out.append(check(len(it.vfs) == 1, "save", "save writes %d files instead of one" % len(it.vfs)))
            with patched(ref.C, dA_dt=Derivative(ref.C).prop()):
                ref.euler(2)
            return [o for o in out if o] + ref.look("save with clear; euler")
        it.vfs = {}
        return run(it, 2, [2], [("euler", 2), ("expand", 2), ("euler", 2)], False, "save", then)
    obs.append(Ob("save and clear", F + "save", svc))
    for which in ("Q", "q", None):
        def sve(it, which=which):
            def then(ref):
                tr, out = ref.tr, []
                lys, Q = spec.tensor((3, 4), "lys", kind="f"), spec.tensor((4, 4), "Q", kind="f")
                for k, x in [("lys", lys), ("exps", spec.tensor((3, 4), "exps", kind="f"))] + ([(which, Q)] if which else []):
                    it.setattr(tr, k, x)
                call(it, tr, "save", "/scratch/", True, False)
                v = dict(it.vfs)
                want = {"": lys}
                if which:
                    want["_basis"] = Q
                    want["_state"] = None
                for k, x in want.items():
                    ks = [y for y in v if y.endswith(k + (".npy" if y.endswith(".npy") else "")) and (k or not y.endswith(("_basis", "_state", "_basis.npy", "_state.npy")))]
                    if len(ks) != 1:
                        out.append(Fail("save", "save of exponents writes %d files for %s" % (len(ks), k or "the exponents")))
                    elif x is not None:
                        out.append(expect(v[ks[0]], nd.symof(x), "save", "the file %s does not hold %s" % (ks[0], "the basis" if k else "the exponents")))
                    else:
                        m = call(it, ref.C(), "load", ks[0][:-4] if ks[0].endswith(".npy") and ks[0] not in it.vfs else ks[0])
                        out += ref.same([m], [ref.m], "the stored state", "save")
                if len(v) != len(want):
                    out.append(Fail("save", "save of exponents writes %s" % sorted(v)))
                return [o for o in out if o] + ref.look("after save of exponents")
            it.vfs = {}
            return run(it, 2, [2], [("euler", 2)], False, "save", then)
        obs.append(Ob("save exponents with %s" % which, F + "save", sve))

    # stopping leaves the current and the initial state, the Hamiltonian and the rest behind, each in its own file of a new folder
    for present in ([], ["/scratch/run_1"], ["/scratch/run_1", "/scratch/run_2", "/scratch/other_7"]):
        for lyap in (False, True):
            def st(it, present=present, lyap=lyap):
                V = it.mod("fTDVP").vars
                files, made = {}, []

                class Handle:
                    def __init__(self, p):
                        self.p = p

                    def __enter__(self):
                        return self

                    def __exit__(self, *a):
                        return False

                    def close(self):
                        pass

                def then(ref):
                    tr, out = ref.tr, []
                    W, vL = spec.tensor((2, 2), "W"), spec.tensor((2, 2), "vL")
                    lys, lys_, Q = [spec.tensor((3, 4), x, kind="f") for x in ("lys", "lys_", "Q")]
                    it.setattr(tr, "W", W)
                    it.setattr(tr, "run_name", "run")
                    it.setattr(tr, "vL", vL)
                    if lyap:
                        for k, x in (("has_run_lyapunov", True), ("lys", lys), ("lys_", lys_), ("Q", Q)):
                            it.setattr(tr, k, x)
                    dump = lambda obj, f, *a, **k: files.__setitem__(f.p, obj)
                    ns = types.SimpleNamespace
                    import fnmatch
                    import os.path
                    sub = {"glob": ns(glob=lambda pat, **k: [x for x in present if fnmatch.fnmatch(x, pat)]), "pickle": ns(dump=dump), "open": lambda p, *a, **k: Handle(p),
                           "os": ns(makedirs=lambda p, *a, **k: made.append(p), mkdir=lambda p, *a, **k: made.append(p),
                                    path=ns(join=os.path.join, basename=os.path.basename, exists=lambda p: p in present or p in made, isdir=lambda p: p in present or p in made))}
                    old = {k: V[k] for k in sub if k in V}
                    V.update(sub)
                    try:
                        d = call(it, tr, "stop", "/scratch")
                    finally:
                        for k in sub:
                            if k in old:
                                V[k] = old[k]
                            else:
                                del V[k]
                    out.append(check(isinstance(d, str) and d not in present and d in made, "stop", "stop does not make a folder of its own (returns %r with %s there)" % (d, present)))
                    allf = dict(it.vfs)
                    allf.update(files)
                    for p in allf:
                        out.append(check(p.startswith(str(d) + "/"), "stop", "stop writes %s outside its folder" % p))

                    def one(suffix, what, no=()):
                        ks = [p for p in allf if p.endswith((suffix, suffix + ".npy")) and not p.endswith(tuple(no) + tuple(x + ".npy" for x in no))]
                        if len(ks) != 1:
                            out.append(Fail("stop", "stop writes %d files for %s" % (len(ks), what)))
                            return None
                        return ks[0]
                    for suf, no, ts, what in (("_state", ("_initial_state",), ref.m, "the current state"), ("_initial_state", (), ref.m0, "the initial state")):
                        k = one(suf, what, no)
                        if k:
                            out.extend(ref.same([call(it, ref.C(), "load", k)], [ts], what + " that stop stores", "stop"))
                    k = one("_ham", "the Hamiltonian")
                    out.append(check(k is None or allf[k] is ref.H or same_list(allf[k], ref.H), "stop", "stop does not store the Hamiltonian"))
                    for suf, x, what in [("_mpo", W, "the operator"), ("_vL", vL, "the basis")] + ([("_inst_exps", lys, "the exponents"), ("_inst_exps_", lys_, "the second exponents"), ("_basis", Q, "the basis")] if lyap else []):
                        k = one(suf, what)
                        if k:
                            out.append(expect(allf[k], nd.symof(x), "stop", "stop does not store %s in %s" % (what, k)))
                    return [o for o in out if o] + ref.look("after stop")
                it.vfs = {}
                return run(it, 2, [2], [("euler", 2), ("expand", 2)], False, "stop", then)
            obs.append(Ob("stop with %d folders%s" % (len(present), " and exponents" if lyap else ""), F + "stop", st))

    # infinite chains
    def infinite(it, seq, s):
        C = it.mod("iMPS").vars["iMPS"]
        T = it.mod("iTDVP").vars["Trajectory"]
        m = [spec.tensor((2, 2, 2), "A")]
        H = [spec.hermitian((4, 4), (1, 0), "h")]
        D = Derivative(C)
        out, hist = [], []
        first = C(list(m))
        with patched(C, dA_dt=D.prop()):
            tr = T(first, H)
            step = T(C(list(m)), H)
            it.setattr(first, "data", [spec.tensor((2, 2, 2), "other")])
            for kind, n in seq:
                if kind == "set":
                    m = [spec.tensor((2, n, n), "B%d" % n)]
                    it.setattr(tr, "mps", C(list(m)))
                    continue
                t = nd.wrap(np.linspace(0, 0.1 * (n - 1), n))
                dt = nd.binop("-", nd.getitem(t, 1), nd.getitem(t, 0))
                y = call(it, C(list(m)), "left_canonicalise")
                for k in range(n):
                    hist.append(data(y)[:])
                    if k < n - 1:
                        y = call(it, step, kind, C(list(data(y))), dt, store=False)
                m = hist[-1]
                call(it, tr, kind + "int", t)
        h = tr.d["mps_history"]
        if len(h) != len(hist):
            return [Fail("length", "%s records %d states for %d steps" % (s, len(h), len(hist)))]
        if len(tr.d["Ds"]) < len(h):
            return [Fail("length", "%s records %d bond dimensions for %d states" % (s, len(tr.d["Ds"]), len(h)))]
        ms = []
        for k, x in enumerate(h):
            Dk = int(nd.raw(tr.d["Ds"][k]))
            if Dk != hist[k][0].shape[1]:
                out.append(Fail("decoding", "%s: bond dimension %d is recorded for state %d of bond dimension %d" % (s, Dk, k, hist[k][0].shape[1])))
                continue
            ms.append(call(it, C(), "deserialize", x, 2, Dk, real=True))
            out += [expect(a, nd.symof(b), "decoding", "%s: state %d is not the visited one" % (s, k)) for a, b in zip(data(ms[-1]), hist[k])]
        out += [expect(a, nd.symof(b), "current state", s + ": the current state is not the last recorded one") for a, b in zip(data(tr.d["mps"]), m)]
        if len(set(x[0].shape for x in hist)) == 1:
            les = nd.to_arr(call(it, tr, "loschmidts"))
            if les.shape[:1] != (len(hist),):
                out.append(Fail("rows", "%s: %s values of loschmidts" % (s, les.shape)))
            else:
                # the same observable of a history that holds only the first state and the state in question
                for k, x in enumerate(hist):
                    two = T(C(list(hist[0])), H)
                    it.setattr(two, "mps_history", [h[0], h[k]])
                    it.setattr(two, "Ds", [hist[0][0].shape[1]] * 3)
                    out.append(expect(nd.getitem(les, k), nd.symof(nd.getitem(call(it, two, "loschmidts"), 1)), "value", "%s: entry %d of loschmidts is not that of the first and of this state" % (s, k)))
        return [o for o in out if o]
    for kind in ("euler", "rk4"):
        for seq in [[(kind, 2)]] + [[(kind, 3)]] * (kind == "euler" or tier != "quick") + [[("set", 3), (kind, 2)], [(kind, 2), ("set", 3), (kind, 2)]] + [[(kind, 2), (kind, 2)]] * (kind == "euler"):
            nm = "iTDVP " + "; ".join("%s(%d)" % x for x in seq)
            obs.append(Ob(nm, "iTDVP:Trajectory.%sint" % kind, lambda it, seq=seq, nm=nm: infinite(it, seq, nm), maxpaths=64))
    return obs
