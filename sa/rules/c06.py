"""Isometry and truthful-bookkeeping rule.  After every gauge operation on generic tensors the tensors left of the
recorded centre satisfy sum A^dagger A = 1 and those right of it sum B B^dagger = 1 (for truncating variants too); the
recorded environment matrices satisfy the environment recursion of the other side.  Typestate part: for every history
'gauge operation ; further operation' the flags (canonical, orthogonal, oc) that are set afterwards are entailed by the
tensors, and the expectation value an entry point computes from these flags is the true one."""
from .common import *
from .c05 import gaugeops, opname, specials

from . import wide

FLOOR = 60
F = "fMPS:fMPS."


def promised(m):
    """does the object promise an orthogonality centre?"""
    if flag(m, "canonical") is True or flag(m, "orthogonal") is True:
        return flag(m, "oc")
    return None


def flag(m, name):
    """recorded attribute, instance or class level; None when absent"""
    if name in m.d:
        return m.d[name]
    v, c = m.cls.lookup(name)
    return v if c is not None else None


def flags_true(m, what):
    """every promise made by the bookkeeping is entailed by the tensors"""
    oc = promised(m)
    out = []
    if oc is None:
        return out
    ts = data(m)
    for i, A in enumerate(ts):
        if i < oc and A.shape[2] <= A.shape[0] * A.shape[1] * 64:
            out.append(check(is_left(A), "untrue flags", "%s leaves canonical/orthogonal set with centre %s but tensor %d is not a left isometry" % (what, oc, i)))
        elif i > oc:
            out.append(check(is_right(A), "untrue flags", "%s leaves canonical/orthogonal set with centre %s but tensor %d is not a right isometry" % (what, oc, i)))
    return out


def isometric(m, oc, what):
    out = []
    for i, A in enumerate(data(m)):
        if i < oc:
            out.append(check(is_left(A), "not isometric", "%s: tensor %d is not a left isometry" % (what, i)))
        elif i > oc:
            out.append(check(is_right(A), "not isometric", "%s: tensor %d is not a right isometry" % (what, i)))
    return out


def envs_right(m, what):
    """right canonical: A^dagger L_m A = L_{m+1}, diagonal"""
    out = []
    Ls = m.d.get("Ls")
    ts = data(m)
    if Ls is None or len(Ls) != len(ts) + 1:
        return [Fail("environments", "%s does not record one environment per bond" % what)]
    for i, A in enumerate(ts):
        a, l = nd.symof(A), nd.symof(Ls[i])
        n = tn.einsum([a.conj(), l, a], [["s", "x", "i"], ["x", "y"], ["s", "y", "j"]], ["i", "j"])
        out.append(check(spec.eq(n, nd.symof(Ls[i + 1])), "environments", "%s: the recorded matrix of bond %d is not the left environment of the state" % (what, i + 1)))
    return out


def envs_left(m, what):
    out = []
    Ls = m.d.get("Ls")
    ts = data(m)
    if Ls is None or len(Ls) != len(ts) + 1:
        return [Fail("environments", "%s does not record one environment per bond" % what)]
    for i, A in enumerate(ts):
        a, l = nd.symof(A), nd.symof(Ls[i + 1])
        n = tn.einsum([a, l, a.conj()], [["s", "i", "x"], ["x", "y"], ["s", "j", "y"]], ["i", "j"])
        out.append(check(spec.eq(n, nd.symof(Ls[i])), "environments", "%s: the recorded matrix of bond %d is not the right environment of the state" % (what, i)))
    return out


def laterops(L):
    """operations a user can apply to a state in some gauge"""
    U = lambda: spec.tensor((4, 4), "U")
    ops = []
    for i in range(L - 1):
        for w in ("l", "r"):
            ops.append(("apply_two_site on (%d,%d) which=%s" % (i, i + 1, w), "apply_two_site", lambda it, m, i=i, w=w: call(it, m, "apply_two_site", (U(), (i, i + 1)), w)))
    ops.append(("apply_two_site on (0,%d)" % (L - 1), "apply_two_site", lambda it, m: call(it, m, "apply_two_site", (U(), (0, L - 1)))))
    for s in range(L):
        ops.append(("apply at %d" % s, "apply", lambda it, m, s=s: call(it, m, "apply", (spec.tensor((2, 2), "O"), s))))
        ops.append(("item assignment at %d" % s, "__setitem__", lambda it, m, s=s: (it.setitem(m, s, spec.tensor(m.d["data"][s].shape, "X")), m)[1]))
        if L > 2:
            ops.append(("post_select at %d" % s, "post_select", lambda it, m, s=s: call(it, m, "post_select", s, 1)))
    ops.append(("copy", "copy", lambda it, m: call(it, m, "copy")))
    ops.append(("mul", "mul", lambda it, m: call(it, m, "mul", spec.scalar("z"))))
    ops.append(("match_gauge_to", "match_gauge_to", lambda it, m: call(it, m, "match_gauge_to", spec.fMPS(it, [spec.tensor(x.shape, "B") for x in data(m)]))))
    for fr in range(L):
        for to in range(fr + 1, L + 1):
            ops.append(("right_orthogonalise(%d,%d)" % (fr, to), "right_orthogonalise", lambda it, m, fr=fr, to=to: call(it, m, "right_orthogonalise", fr, to)))
            ops.append(("left_orthogonalise(%d,%d)" % (fr, to), "left_orthogonalise", lambda it, m, fr=fr, to=to: call(it, m, "left_orthogonalise", fr, to)))
    return ops


def obligations(tier):
    it0 = I.Interp()
    obs = []
    base = [(2, 2), (3, 2), (3, 3), (4, 2)] + ([(5, 2), (4, 3), (6, 2)] if tier == "thorough" else [])
    for L in grid.lengths(it0, F + "right_canonicalise", (2, 3, 4), 6):
        if (L, 2) not in base:
            base.append((L, 2))
    for L, d in base:
        for p in grid.profiles(L, d)[: 2 if tier == "quick" else 4]:
            for o in gaugeops(L):
                kws = [{}] if o[0].endswith("orthogonalise") else [{}, {"sweep_back": False}] + ([{"D": 1}, {"D": 2}] if L <= 4 else [])
                for kw in kws:
                    def f(it, L=L, d=d, p=p, o=o, kw=kw):
                        A = spec.mps_data(L, d, p)
                        m = spec.fMPS(it, A)
                        call(it, m, o[0], *o[1], **kw)
                        oc = o[1][0] if o[1] else (0 if o[0].startswith("right") else L)
                        w = "%s%s; %s" % (opname(o), kw or "", grid.pstr(L, d, p))
                        out = []
                        if not (flag(m, "canonical") is True or flag(m, "orthogonal") is True) or flag(m, "oc") != oc:
                            out.append(Fail("flags", "%s records canonical=%s orthogonal=%s oc=%s instead of centre %s" % (w, flag(m, "canonical"), flag(m, "orthogonal"), flag(m, "oc"), oc)))
                        out += isometric(m, oc, w)
                        if o[0] == "right_canonicalise":
                            out += isometric(m, -1, w)
                            if not kw:
                                out += envs_right(m, w)
                        if o[0] == "left_canonicalise" and not kw:
                            out += envs_left(m, w)
                        return out
                    obs.append(Ob("%s%s %s" % (opname(o), "".join(" %s=%s" % x for x in kw.items()), grid.pstr(L, d, p)), F + o[0], f))
    for nm, mk in specials(tier):
        for o in gaugeops(len(nm[1]) + 1):
            def f(it, nm=nm, mk=mk, o=o):
                m = spec.fMPS(it, mk())
                # all vanishing weights are exact zeros, or all are rounding noise (an isometry on directions of weight
                # zero is not promised when they are trimmed on one bond and kept on the next)
                nd.ZEROS_APART = False
                try:
                    call(it, m, o[0], *o[1])
                finally:
                    nd.ZEROS_APART = True
                w = "%s; %s" % (opname(o), nm[0])
                oc = o[1][0] if o[1] else (0 if o[0].startswith("right") else len(data(m)))
                out = isometric(m, oc, w) + flags_true(m, w)
                D = max(max(x.shape[1:]) for x in data(m))
                if o[0].endswith("canonicalise") and m.d.get("D") != D:
                    out.append(Fail("bond dimension", "%s records bond dimension %s, the tensors have %s" % (w, m.d.get("D"), D)))
                if o[0] == "right_canonicalise":
                    out += envs_right(m, w)
                if o[0] == "left_canonicalise":
                    out += envs_left(m, w)
                return out
            obs.append(Ob("%s %s" % (opname(o), nm[0]), F + o[0], f, maxpaths=64))
    # constructions from a vector
    for L, d in [(2, 2), (3, 2), (4, 2), (3, 3)]:
        for nm in ("left_from_state", "right_from_state"):
            def f(it, L=L, d=d, nm=nm):
                m = call(it, it.mod("fMPS").vars["fMPS"](), nm, spec.tensor((d,) * L, "psi"))
                w = "%s L=%d d=%d" % (nm, L, d)
                out = flags_true(m, w)
                if promised(m) is None:
                    out.append(Fail("flags", w + " records no centre"))
                return out + isometric(m, L if nm[0] == "l" else -1, w)
            obs.append(Ob("%s L=%d d=%d" % (nm, L, d), F + nm, f))
    # histories: gauge operation, then something else
    for L in ((3,) if tier == "quick" else (3, 4)):
        d = 2
        p = [2] * (L - 1)
        firsts = [("left_canonicalise", ()), ("right_canonicalise", ()), ("mixed_canonicalise", (1,)), ("mixed_orthogonalise", (1,)), ("mixed_canonicalise", (2,)),
                  ("left_orthogonalise", ()), ("right_orthogonalise", ()), ("mixed_orthogonalise", (0,))]
        if tier != "quick":
            firsts = gaugeops(L)
        for o in firsts:
            for lname, ent, op in laterops(L):
                def f(it, L=L, d=d, p=p, o=o, lname=lname, op=op):
                    A = spec.mps_data(L, d, p)
                    m = spec.fMPS(it, A)
                    call(it, m, o[0], *o[1])
                    r = op(it, m)
                    w = "%s after %s" % (lname, opname(o))
                    out = flags_true(r, w)
                    if flag(r, "L") is not None and flag(r, "L") != len(data(r)):
                        out.append(Fail("length", "%s leaves the recorded length %s with %d tensors" % (w, flag(r, "L"), len(data(r)))))
                    return out
                obs.append(Ob("%s; %s L=%d" % (opname(o), lname, L), F + ent, f))
        # a gauge operation on a state with a history: isometries, flags and environments are those of the tensors it leaves
        for hname, h in histories(L):
            for o in gaugeops(L):
                def f(it, L=L, d=d, p=p, o=o, h=h, hname=hname):
                    m = spec.fMPS(it, spec.mps_data(L, d, p))
                    prepared(it, m, h)
                    call(it, m, o[0], *o[1])
                    w = "%s after %s" % (opname(o), hname)
                    oc = o[1][0] if o[1] else {"l": L if o[0].endswith("canonicalise") else L - 1, "r": 0}[o[0][0]]
                    out = flags_true(m, w) + isometric(m, oc, w)
                    if o[0] == "right_canonicalise":
                        out += envs_right(m, w)
                    if o[0] == "left_canonicalise":
                        out += envs_left(m, w)
                    return out
                obs.append(Ob("%s L=%d after %s" % (opname(o), L, hname), F + o[0], f))
        # fresh objects promise nothing that is untrue and every gauge-guarded entry point is usable
        def g(it, L=L, d=d, p=p):
            m = spec.fMPS(it, spec.mps_data(L, d, p))
            out = flags_true(m, "construction")
            if promised(m) is not None or flag(m, "canonical") is not False or flag(m, "orthogonal") is not False:
                out.append(Fail("flags", "a freshly built state must record that it is in no gauge"))
            return out
        obs.append(Ob("fresh state L=%d" % L, F + "__init__", g))
    for D in (1, 2, 4):
        def h(it, D=D):
            m = call(it, it.mod("fMPS").vars["fMPS"](), "random", 4, 2, D)
            out = []
            for fl in ("canonical", "orthogonal"):
                if flag(m, fl) is not False and not (flag(m, fl) is True and flags_true(m, "") == []):
                    out.append(Fail("flags", "random(L, d, %d) does not record %s" % (D, fl)))
            return out
        obs.append(Ob("random D=%d" % D, F + "random", h))

    def w_iso(it, m, A, L, d, p):
        out = []
        for o in [("right_canonicalise", ()), ("left_canonicalise", ()), ("right_orthogonalise", ()), ("left_orthogonalise", ())] + [(n, (c,)) for n in ("mixed_canonicalise", "mixed_orthogonalise") for c in (0, L // 2, L - 1)]:
            a = spec.fMPS(it, A)
            call(it, a, o[0], *o[1])
            oc = o[1][0] if o[1] else {"l": L if o[0].endswith("canonicalise") else L - 1, "r": 0}[o[0][0]]
            w = "%s; %s" % (opname(o), grid.pstr(L, d, p))
            out += flags_true(a, w) + isometric(a, oc, w)
            if o[0] == "right_canonicalise":
                out += envs_right(a, w)
            if o[0] == "left_canonicalise":
                out += envs_left(a, w)
        return out
    wide.run(obs, wide.sizes(tier, "right_canonicalise", "left_canonicalise", "mixed_canonicalise", "mixed_orthogonalise", "right_orthogonalise"), "right_canonicalise", "isometries", w_iso)
    return obs
