"""Integrator steps: the derivative is replaced by an uninterpreted function of the tensors and the Hamiltonian (equal tensors give
equal derivatives, nothing else is known), so what the step computes holds for every derivative.  The unnormalised combination is
compared with the Euler and the classical fourth-order Runge-Kutta scheme; the state handed in, the stored Hamiltonian and the
caller's Hamiltonian are compared before and after."""
import contextlib
from .common import *

FLOOR = 16
ASSUMPTIONS = ["the derivative is a function of the tensors of the state and the Hamiltonian only (C12, C13 decide this for dA_dt)"]


@contextlib.contextmanager
def patched(cls, **new):
    old = {k: cls.d.get(k) for k in new}
    cls.d.update(new)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is None:
                cls.d.pop(k, None)
            else:
                cls.d[k] = v


class Derivative:
    """uninterpreted function (tensors, Hamiltonian, fullH) -> tensors"""

    def __init__(self, cls):
        self.cls = cls
        self.table = []
        self.calls = []

    def of(self, ts, H, full):
        for n, (us, h, f, out) in enumerate(self.table):
            if h is H and f == full and len(us) == len(ts) and all(a.shape == b.shape for a, b in zip(us, ts)) and all(spec.eq(a, b)[0] for a, b in zip(us, ts)):
                return out
        n = len(self.table)
        out = [spec.tensor(t.shape, "f%d_%d" % (n, i)) for i, t in enumerate(ts)]
        self.table.append((list(ts), H, full, out))
        return out

    def prop(self):
        def get(inst):
            def dA_dt(H, *a, fullH=False, **k):
                self.calls.append((H, fullH))
                return self.cls(list(self.of(list(inst.d["data"]), H, bool(fullH))))
            return dA_dt
        return I.Prop(get)


def comb(*terms):
    """sum of coefficient * tensors"""
    out = None
    for c, ts in terms:
        ts = [nd.binop("*", c, t) for t in ts]
        out = ts if out is None else [nd.binop("+", a, b) for a, b in zip(out, ts)]
    return out


def scheme(kind, f, y, dt):
    h2 = nd.binop("/", dt, 2.0)
    if kind == "euler":
        return comb((1.0, y), (dt, f(y)))
    k1 = f(y)
    k2 = f(comb((1.0, y), (h2, k1)))
    k3 = f(comb((1.0, y), (h2, k2)))
    k4 = f(comb((1.0, y), (dt, k3)))
    h6 = nd.binop("/", dt, 6.0)
    h3 = nd.binop("/", dt, 3.0)
    return comb((1.0, y), (h6, k1), (h3, k2), (h3, k3), (h6, k4))


def obligations(tier):
    obs = []
    big = tier != "quick"
    cases = [("fTDVP", "fMPS", "fMPS", lambda: spec.mps_data(2, 2, [2]), "L=2"), ("fTDVP", "fMPS", "fMPS", lambda: spec.mps_data(3, 2, [2, 2]), "L=3"),
             ("iTDVP", "iMPS", "iMPS", lambda: [spec.tensor((2, 2, 2), "A")], "D=2")]
    if big:
        cases += [("fTDVP", "fMPS", "fMPS", lambda: spec.mps_data(3, 3, [3, 2]), "L=3 d=3"), ("iTDVP", "iMPS", "iMPS", lambda: [spec.tensor((3, 3, 3), "A")], "D=3 d=3"), ("fTDVP", "fMPS", "fMPS", lambda: spec.mps_data(4, 2, [2, 3, 2]), "L=4")]
    for mod, smod, scls, mk, wh in cases:
        for kind in ("euler", "rk4"):
            for own in (False, True):
                for full in ((False, True) if mod == "fTDVP" else (False,)):
                    def f(it, mod=mod, smod=smod, scls=scls, mk=mk, wh=wh, kind=kind, own=own, full=full):
                        C = it.mod(smod).vars[scls]
                        T = it.mod(mod).vars["Trajectory"]
                        A = mk()
                        y = C(list(A))
                        H0, H1 = [spec.hermitian((4, 4), (1, 0), "h")], [spec.hermitian((4, 4), (1, 0), "g")]
                        tr = T(C(mk()), H0, **({"fullH": True} if full else {}))
                        dt = spec.scalar("dt", True)
                        D = Derivative(C)
                        before = {k: v for k, v in y.d.items()}
                        same = I.Prop(lambda inst: lambda *a, **k: inst)
                        with patched(C, dA_dt=D.prop(), left_canonicalise=same, canonicalise=same):
                            r = call(it, tr, kind, y, dt, **({"H": H1} if own else {}))
                        s = "%s.%s; %s%s%s" % (mod, kind, wh, " with its own Hamiltonian" if own else "", " fullH" if full else "")
                        H = H1 if own else H0
                        out = []
                        bad = [c for c in D.calls if c[0] is not H]
                        if bad:
                            out.append(Fail("Hamiltonian", s + ": the derivative is taken with %s Hamiltonian" % ("the stored" if own else "another")))
                        if [c for c in D.calls if bool(c[1]) != full]:
                            out.append(Fail("fullH", s + ": the derivative is asked with another interpretation of the Hamiltonian"))
                        ref = scheme(kind, lambda ts: D.of(ts, H, full), list(A), dt)
                        out += [expect(x, z, "scheme", s + ": tensor %d is not that of the scheme" % n) for n, (x, z) in enumerate(zip(r.d["data"], ref))]
                        if len(r.d["data"]) != len(ref):
                            out.append(Fail("scheme", s + " changes the number of tensors"))
                        if r is y:
                            out.append(Fail("operand", s + " returns the state it was given"))
                        if len(y.d["data"]) != len(A) or not all(spec.eq(a, b)[0] for a, b in zip(y.d["data"], A)):
                            out.append(Fail("operand", s + " changes the tensors of the state it was given"))
                        if tr.d["H"] is not H0:
                            out.append(Fail("stored Hamiltonian", s + " replaces the stored Hamiltonian"))
                        return out
                    obs.append(Ob("%s.%s %s%s%s" % (mod, kind, wh, " H" if own else "", " full" if full else ""), "%s:Trajectory.%s" % (mod, kind), f))

            # the result is brought to canonical form, with the real derivative; operand untouched also by dA_dt itself
            if wh in ("L=2", "D=2"):
                def f(it, mod=mod, smod=smod, scls=scls, mk=mk, wh=wh, kind=kind):
                    C = it.mod(smod).vars[scls]
                    T = it.mod(mod).vars["Trajectory"]
                    A = mk()
                    y = C(list(A))
                    H0 = [spec.hermitian((4, 4), (1, 0), "h")]
                    tr = T(C(mk()), H0)
                    D = Derivative(C)
                    dt = spec.scalar("dt", True)
                    with patched(C, dA_dt=D.prop()):
                        r = call(it, tr, kind, y, dt)
                        ref = call(it, C(scheme(kind, lambda ts: D.of(ts, H0, False), list(A), dt)), "left_canonicalise")
                    s = "%s.%s; %s" % (mod, kind, wh)
                    out = [expect(x, z, "normal form", s + ": the step is not the canonical form of the scheme's tensors, site %d" % n) for n, (x, z) in enumerate(zip(r.d["data"], ref.d["data"]))]
                    if not all(spec.eq(a, b)[0] for a, b in zip(y.d["data"], A)):
                        out.append(Fail("operand", s + " changes the tensors of the state it was given"))
                    return out
                obs.append(Ob("%s.%s canonical %s" % (mod, kind, wh), "%s:Trajectory.%s" % (mod, kind), f))

    # the derivatives themselves leave the state alone
    for mod, smod, scls, mk, wh in cases[:3]:
        def f(it, smod=smod, scls=scls, mk=mk, wh=wh):
            C = it.mod(smod).vars[scls]
            y = C(mk())
            it.getattr(y, "left_canonicalise")()
            A = list(y.d["data"])
            before = [nd.symof(a) for a in A]
            H = [spec.hermitian((4, 4), (1, 0), "h%d" % n) for n in range(max(len(A) - 1, 1))]
            hb = [nd.symof(h) for h in H]
            call(it, y, "dA_dt", H)
            out = [expect(a, b, "operand", "dA_dt changes tensor %d of its state; %s" % (n, wh)) for n, (a, b) in enumerate(zip(y.d["data"], before))]
            out += [expect(a, b, "operand", "dA_dt changes term %d of the Hamiltonian; %s" % (n, wh)) for n, (a, b) in enumerate(zip(H, hb))]
            if len(y.d["data"]) != len(before) or len(H) != len(hb):
                out.append(Fail("operand", "dA_dt changes the length of its operands; " + wh))
            return out
        obs.append(Ob("%s.dA_dt operands %s" % (scls, wh), "%s:%s.dA_dt" % (smod, scls), f))
    return obs
