"""Gauge-invariance rule: for generic tensors, the full state extracted after every gauge operation (and after
sequences of two of them) is a scalar multiple of the full state before; forms that normalise have unit norm."""
from .common import *
import numpy as np

from . import wide

FLOOR = 60
F = "fMPS:fMPS."


def gaugeops(L):
    ops = [("right_canonicalise", ()), ("left_canonicalise", ()), ("right_orthogonalise", ()), ("left_orthogonalise", ())]
    for oc in range(L):
        ops.append(("mixed_canonicalise", (oc,)))
        ops.append(("mixed_orthogonalise", (oc,)))
    return ops


def opname(o):
    return "%s(%s)" % (o[0], ",".join(map(str, o[1])))


def padded(bs, small, d=2):
    """tensors with the bonds bs that represent a state with the smaller bonds"""
    b, c = [1] + list(bs) + [1], [1] + list(small) + [1]
    out = []
    for i in range(len(b) - 1):
        a = nd.symof(spec.tensor((d, c[i], c[i + 1]), "A%d" % i))
        out.append(nd.wrap(einsum3(rect(b[i], c[i]), a, rect(b[i + 1], c[i + 1])), "c"))
    return out


def rect(n, m):
    return nd.symof(nd.wrap(np.eye(n, m)))


def einsum3(p, a, q):
    return tn.einsum([p, a, q], [["x", "l"], ["s", "l", "r"], ["y", "r"]], ["s", "x", "y"])


def pairs():
    """two maximally entangled pairs (0,3), (1,2) of a chain of four sites in rotated local bases, as exact tensors"""
    us = [nd.qr_syms(nd.symof(spec.tensor((2, 2), "u%d" % i)))[0] for i in range(4)]
    e = tn.eye(2)
    A0 = tn.reshape(us[0], (2, 1, 2))
    A1 = tn.reshape(tn.einsum([us[1], e], [["s", "b"], ["a", "c"]], ["s", "a", "c", "b"]), (2, 2, 4))
    A2 = tn.reshape(tn.einsum([us[2], e], [["s", "b"], ["a", "c"]], ["s", "a", "b", "c"]), (2, 4, 2))
    A3 = tn.reshape(us[3], (2, 2, 1))
    return [nd.wrap(x, "c") for x in (A0, A1, A2, A3)]


def specials(tier):
    out = [(("rank-deficient bonds %s of rank %s" % (b, c), b), (lambda b=b, c=c: padded(b, c)))
           for b, c in [([2], [1]), ([2, 2], [1, 2]), ([2, 2], [1, 1]), ([2, 4, 2], [2, 2, 2])] + ([([2, 4, 2], [2, 3, 2]), ([2, 3, 2], [2, 1, 2])] if tier == "thorough" else [])]
    out.append((("equal Schmidt values", [2, 4, 2]), pairs))
    return out


def obligations(tier):
    it0 = I.Interp()
    obs = []
    base = [(2, 2), (3, 2), (3, 3), (4, 2)] + ([(1, 2), (5, 2), (4, 3), (6, 2)] if tier == "thorough" else [(5, 2)])
    for L in grid.lengths(it0, F + "right_canonicalise", (2, 3, 4), 7):
        if (L, 2) not in base:
            base.append((L, 2))
    for L, d in base:
        for p in grid.profiles(L, d)[: (2 if L >= 4 else 3) if tier == "quick" else 4]:
            for o in gaugeops(L):
                for kw in ([{}] if o[0].endswith("orthogonalise") else [{}, {"sweep_back": False}]):
                    if kw and L not in (3, 4):
                        continue

                    def f(it, L=L, d=d, p=p, o=o, kw=kw):
                        A = spec.mps_data(L, d, p)
                        a = spec.fMPS(it, A)
                        r = call(it, a, o[0], *o[1], **kw)
                        st = spec.state(data(r))
                        w = "%s changes the state; %s" % (opname(o), grid.pstr(L, d, p))
                        return [proportional(st, spec.state(A), w), unit(st, w.replace("changes the state", "does not return a normalised state")),
                                None if r is a else Fail("receiver", "%s does not return its receiver" % opname(o))]
                    obs.append(Ob("%s%s %s" % (opname(o), " sweep_back=False" if kw else "", grid.pstr(L, d, p)), F + o[0], f))
    # sequences of two gauge operations
    L, d = 3, 2
    p = [2, 2]
    seq = [o for o in gaugeops(L) if not (o[1] and o[1][0] == 2 and o[0] == "mixed_canonicalise")]
    for o1, o2 in itertools.product(seq, seq):
        def f(it, o1=o1, o2=o2):
            A = spec.mps_data(L, d, p)
            a = spec.fMPS(it, A)
            call(it, a, o1[0], *o1[1])
            call(it, a, o2[0], *o2[1])
            st = spec.state(data(a))
            w = "%s after %s changes the state" % (opname(o2), opname(o1))
            return [proportional(st, spec.state(A), w), unit(st, w)]
        obs.append(Ob("%s then %s" % (opname(o1), opname(o2)), F + o2[0], f))
    for hname, h in histories(L):
        if "gate" not in hname:
            continue
        for o in seq:
            def f(it, o=o, h=h, hname=hname, L=L, d=d, p=p):
                a = spec.fMPS(it, spec.mps_data(L, d, p))
                A = prepared(it, a, h)
                call(it, a, o[0], *o[1])
                st = spec.state(data(a))
                w = "%s after %s changes the state" % (opname(o), hname)
                return [proportional(st, spec.state(A), w), unit(st, w)]
            obs.append(Ob("%s after %s" % (opname(o), hname), F + o[0], f))
    # states of smaller Schmidt rank than their bonds (zero-padded tensors, as bond expansion leaves them) and
    # states with equal Schmidt values (maximally entangled pairs in rotated local bases)
    for nm, mk in specials(tier):
        for o in gaugeops(len(nm[1]) + 1):
            def f(it, nm=nm, mk=mk, o=o):
                A = mk()
                a = spec.fMPS(it, A)
                call(it, a, o[0], *o[1])
                st = spec.state(data(a))
                w = "%s changes the state; %s" % (opname(o), nm[0])
                return [proportional(st, spec.state(A), w), unit(st, w.replace("changes the state", "does not return a normalised state"))]
            obs.append(Ob("%s %s" % (opname(o), nm[0]), F + o[0], f, maxpaths=64))
    # partial sweeps keep the state exactly
    for L in (3, 4):
        for fr, to in itertools.combinations(range(L + 1), 2):
            for nm in ("right_orthogonalise", "left_orthogonalise"):
                def f(it, L=L, fr=fr, to=to, nm=nm):
                    A = spec.mps_data(L, 2)
                    a = spec.fMPS(it, A)
                    call(it, a, nm, fr, to)
                    return [proportional(spec.state(data(a)), spec.state(A), "%s(%d,%d) changes the state" % (nm, fr, to))]
                obs.append(Ob("%s(fr=%d,to=%d) L=%d" % (nm, fr, to, L), F + nm, f))
    # vectors
    for L, d in [(2, 2), (3, 2), (4, 2), (2, 3), (3, 3)] + ([(5, 2), (6, 2), (4, 3)] if tier == "thorough" else [(5, 2)]):
        for nm in ("left_from_state", "right_from_state"):
            def f(it, L=L, d=d, nm=nm):
                psi = spec.tensor((d,) * L, "psi")
                m = call(it, it.mod("fMPS").vars["fMPS"](), nm, psi)
                w = "%s does not represent the given vector; L=%d d=%d" % (nm, L, d)
                out = [proportional(spec.state(data(m)), nd.symof(psi), w), unit(spec.state(data(m)), w)]
                if not all(x.shape[0] == d for x in data(m)) or m.d.get("L") != L or m.d.get("d") != d:
                    out.append(Fail("attributes", "%s records wrong L or d" % nm))
                rec = call(it, m, "recombine")
                out.append(check(spec.eq(rec, spec.state(data(m))), "recombine differs", "recombine is not the contraction of the tensors; " + w))
                return out
            obs.append(Ob("%s L=%d d=%d" % (nm, L, d), F + nm, f))
    for L, d in [(2, 2), (3, 2), (4, 2), (3, 3)]:
        for p in grid.profiles(L, d)[:3]:
            def f(it, L=L, d=d, p=p):
                A = spec.mps_data(L, d, p)
                r = call(it, spec.fMPS(it, A), "recombine")
                return [check(spec.eq(r, spec.state(A)), "recombine differs", "recombine is not the contraction of the tensors; " + grid.pstr(L, d, p))]
            obs.append(Ob("recombine %s" % grid.pstr(L, d, p), F + "recombine", f))

            def g(it, L=L, d=d, p=p):
                A, B = spec.mps_data(L, d, p), spec.mps_data(L, d, p, "B")
                a = spec.fMPS(it, A)
                call(it, a, "match_gauge_to", spec.fMPS(it, B))
                return [proportional(spec.state(data(a)), spec.state(A), "match_gauge_to changes the state; " + grid.pstr(L, d, p)),
                        check(spec.eq(norm2(spec.state(data(a))), norm2(spec.state(A))), "norm changed", "match_gauge_to changes the norm")]
            obs.append(Ob("match_gauge_to %s" % grid.pstr(L, d, p), F + "match_gauge_to", g))

    def w_gauge(it, m, A, L, d, p):
        out = []
        for o in [("right_canonicalise", ()), ("left_canonicalise", ()), ("right_orthogonalise", ()), ("left_orthogonalise", ())] + [(n, (c,)) for n in ("mixed_canonicalise", "mixed_orthogonalise") for c in (0, L // 2, L - 1)]:
            a = spec.fMPS(it, A)
            st = spec.state(data(call(it, a, o[0], *o[1])))
            w = "%s changes the state; %s" % (opname(o), grid.pstr(L, d, p))
            out += [proportional(st, spec.state(A), w), unit(st, w)]
        return out
    wide.run(obs, wide.sizes(tier, "right_canonicalise", "left_canonicalise", "mixed_canonicalise", "mixed_orthogonalise", "right_orthogonalise"), "right_canonicalise", "gauge", w_gauge)

    def w_recombine(it, m, A, L, d, p):
        return [check(spec.eq(nd.symof(call(it, m, "recombine")), spec.state(A)), "recombine differs", "recombine; " + grid.pstr(L, d, p))]
    wide.run(obs, wide.sizes(tier, "recombine"), "recombine", "recombine", w_recombine, lambda L, d, p: d ** L <= 2 ** 12)

    def w_vec(it, m, A, L, d, p):
        out = []
        for nm in ("left_from_state", "right_from_state"):
            psi = spec.tensor((d,) * L, "psi")
            out.append(proportional(spec.state(data(call(it, it.mod("fMPS").vars["fMPS"](), nm, psi))), nd.symof(psi), "%s; L=%d d=%d" % (nm, L, d)))
        return out
    wide.run(obs, wide.sizes(tier, "left_from_state", "right_from_state"), "left_from_state", "from state", w_vec, lambda L, d, p: d > 1 and d ** L <= 2 ** 9)
    return obs
