"""Operands: every public method and helper that returns a quantity or a new object is followed in the source on abstract operands;
before the call a deep snapshot of the receiver and of all arguments is taken (values of every array, structure of every list,
dictionary and object), afterwards it is compared.  Finite states may change their gauge where an expectation value or density was
asked for: then their state vector must be the old one up to normalisation.  No list of an operand may be shared with the result, and a
copy and its original must not see each other's site assignments and in-place operations."""
import numpy as np
from .common import *
from .c19 import peps_data, peps_state, fpeps, mpo_data
from .c12 import bond
from .c13 import canon

REAL = False          # the rule does not depend on input arrays
FLOOR = 100
ASSUMPTIONS = ["attributes that only remember results (environments, energies, caches) may be added to or replaced on the receiver"]
# the attributes that make up an object; everything else an object holds is a remembered result
STATE = {"data", "L", "d", "D", "X", "Lx", "Ly", "period", "p", "strings", "matrices", "canonical", "orthogonal", "oc", "A", "B"}


def isarr(x):
    return isinstance(x, nd.Arr)


def snap(o, memo=None):
    """deep value of an object"""
    memo = {} if memo is None else memo
    if isarr(o):
        return ("array", tuple(o.shape), nd.symof(o))
    if isinstance(o, tn.Sym):
        return ("array", tuple(o.shape), o)
    if isinstance(o, (list, tuple)):
        if id(o) in memo:
            return ("again", memo[id(o)])
        memo[id(o)] = len(memo)
        return (type(o).__name__, [snap(x, memo) for x in o])
    if isinstance(o, dict):
        if id(o) in memo:
            return ("again", memo[id(o)])
        memo[id(o)] = len(memo)
        return ("dict", [(repr(k) if not isinstance(k, str) else k, snap(v, memo)) for k, v in o.items()])
    if isinstance(o, I.Inst):
        if id(o) in memo:
            return ("again", memo[id(o)])
        memo[id(o)] = len(memo)
        return ("object", {k: snap(v, memo) for k, v in o.d.items() if k in STATE})
    if isinstance(o, np.ndarray):
        return ("const", o.shape, o.tobytes())
    if isinstance(o, (int, float, complex, str, bool, bytes, type(None), np.generic)):
        return ("const", o)
    return ("other", id(o))


def differ(a, b, path="", new=()):
    """first place where two snapshots differ (None if they agree); objects may have gained attributes"""
    if a[0] != b[0]:
        if {a[0], b[0]} <= {"array", "const"}:
            return "%s changes its type" % path
        return "%s is a %s instead of a %s" % (path, b[0], a[0])
    if a[0] == "array":
        if a[1] != b[1]:
            return "%s has shape %s instead of %s" % (path, b[1], a[1])
        if a[2] is b[2] or spec.eq(b[2], a[2])[0]:
            return None
        return "%s has other entries" % path
    if a[0] in ("list", "tuple"):
        if len(a[1]) != len(b[1]):
            return "%s has %d instead of %d elements" % (path, len(b[1]), len(a[1]))
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            d = differ(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if a[0] == "dict":
        if [k for k, _ in a[1]] != [k for k, _ in b[1]]:
            return "%s has keys %s instead of %s" % (path, [k for k, _ in b[1]], [k for k, _ in a[1]])
        for (k, x), (_, y) in zip(a[1], b[1]):
            d = differ(x, y, "%s[%s]" % (path, k))
            if d:
                return d
        return None
    if a[0] == "object":
        for k, x in a[1].items():
            if k not in b[1]:
                return "%s loses its attribute %s" % (path, k)
            d = differ(x, b[1][k], "%s.%s" % (path, k))
            if d:
                return d
        return None
    try:
        same = a[1:] == b[1:] or all(x == y for x, y in zip(a[1:], b[1:]))
    except Exception:
        same = False
    return None if same else "%s is %s instead of %s" % (path, b[1], a[1])


def lists(o, acc=None, memo=None):
    """all list objects (of tensors) reachable from an object"""
    acc = {} if acc is None else acc
    memo = set() if memo is None else memo
    if id(o) in memo:
        return acc
    memo.add(id(o))
    if isinstance(o, list):
        acc[id(o)] = o
        for x in o:
            lists(x, acc, memo)
    elif isinstance(o, tuple):
        for x in o:
            lists(x, acc, memo)
    elif isinstance(o, dict):
        for x in o.values():
            lists(x, acc, memo)
    elif isinstance(o, I.Inst):
        for k, x in o.d.items():
            if k in STATE:
                lists(x, acc, memo)
    return acc


def vector(o):
    """state tensor of an object whose gauge may change"""
    return spec.state(o.d["data"])


def watch(ops, f, gauge=(), skip=(), alias=True, what=""):
    """run f and report operands it changed.  ops: name -> object"""
    before = {n: snap(o) for n, o in ops.items() if n not in gauge and n not in skip}
    vec = {n: vector(ops[n]) for n in gauge}
    mine = {}
    for n, o in ops.items():
        mine.update(lists(o))
    keep = [list(x) for x in mine.values()]        # keeps the identities alive
    out = []
    r = f()
    for n, s in before.items():
        d = differ(s, snap(ops[n]), n)
        if d:
            out.append(Fail("%s changed" % n, "%s: %s" % (what, d)))
    for n, v in vec.items():
        w = vector(ops[n])
        x = proportional(w, v, "%s: the state of %s is another one afterwards" % (what, n), "%s changed" % n)
        if x:
            out.append(x)
    if alias:
        for i, o in enumerate(ops.values()):
            if r is o and isinstance(o, (I.Inst, list)):
                out.append(Fail("result is operand", "%s returns its operand" % what))
                return out
        for k, l in lists(r).items():
            if k in mine and l:
                out.append(Fail("shared", "%s: the result shares a list with an operand" % what))
                break
    return out


def obligations(tier):
    obs = []

    def add(name, entry, fn, **kw):
        obs.append(Ob(name, entry, fn, **kw))

    V = lambda it, m, n: it.mod(m).vars[n]
    L, d, p, q = 4, 2, [2, 3, 2], [2, 4, 2]
    herm = lambda n, k: spec.hermitian((2 ** k, 2 ** k), (1, 0), n)
    mat = lambda n, *s: spec.tensor(s, n)
    bonds = lambda L=4: [herm("h%d" % i, 2) for i in range(L - 1)]

    # ------------------------------------------------------------------ finite states
    def finite(method, args, gauge=(), cls="fMPS", bond=None, canonical=False, skip=(), alias=True, L=L, d=d, prop=False, kw=None, tag="", **ob):
        """args: it -> dict of named arguments (in order)"""
        name = "%s.%s%s" % (cls, method, tag)

        def f(it):
            b = bond if bond is not None else (p if d == 2 else [2] * (L - 1))
            m = V(it, "fMPS", cls)(spec.mps_data(L, d, b))
            if canonical:
                call(it, m, "left_canonicalise")
                m.d.setdefault("data", None)
            a = args(it)
            ops = {"receiver": m, **a}

            def go():
                if prop:
                    return it.getattr(m, method)
                return call(it, m, method, *a.values(), **(kw or {}))
            return watch(ops, go, gauge, skip, alias, name)
        add(name, "fMPS:%s.%s" % (cls if method in ("E", "Es", "local_overlap", "dA_dt", "left_null_projector", "add", "symmetry", "symmetrise", "get_vL") or cls == "fMPS" else "fMPS", method), f, **ob)

    other = lambda b=q, cls="fMPS", L=L, d=d: (lambda it: {"other": V(it, "fMPS", cls)(spec.mps_data(L, d, b, "B"))})
    none = lambda it: {}
    vecs = lambda it: {"vectors": [spec.tensor((2,), "v%d" % i) for i in range(L)]}
    for m in ("overlap", "full_overlap", "add"):
        finite(m, other())
    for m in ("__add__", "__sub__"):
        finite(m, other(p))
    for m in ("__eq__", "__ne__"):
        finite(m, other(p), maxpaths=64)
    for m in ("mul", "__mul__", "__rmul__", "__truediv__"):
        finite(m, lambda it: {"factor": spec.scalar("z")})
    finite("product_state_overlap", vecs)
    finite("from_product_state", vecs, skip=("receiver",))
    finite("from_product_states", lambda it: {"vectors": [[spec.tensor((2,), "v%d%d" % (k, i)) for i in range(3)] for k in range(2)]}, skip=("receiver",))
    for m in ("norm", "recombine", "structure", "__str__", "get_envs", "copy", "serialize", "links"):
        finite(m, none)
    finite("serialize", none, kw={"real": True}, tag="(real)")
    finite("bond_dimension", none, prop=True)
    finite("__getitem__", lambda it: {"k": 1})
    finite("__call__", lambda it: {"k": 1})
    finite("left_transfer", lambda it: {"op": mat("X", 3, 3), "j": 0, "i": 2})
    finite("right_transfer", lambda it: {"op": mat("X", 3, 3), "i": 1, "j": 3})
    finite("apply", lambda it: {"opsite": (mat("O", 2, 2), 1)})
    finite("E", lambda it: {"op": mat("O", 2, 2), "site": 2}, gauge=("receiver",))
    finite("E_", lambda it: {"op": mat("O", 2, 2), "site": 2}, gauge=("receiver",))
    finite("Es", lambda it: {"ops": [mat("O", 2, 2), mat("P", 2, 2)], "site": 1}, gauge=("receiver",))
    finite("E_k", lambda it: {"ops": [mat("O", 2, 2), mat("P", 2, 2)], "sites": [1, 2]}, gauge=("receiver",), kw={"single_string": True}, tag="(string)")
    finite("E_k", lambda it: {"op": mat("O", 4, 4), "sites": [2, 1]}, gauge=("receiver",))
    finite("E_L", lambda it: {"op": mat("O", 16, 16)}, gauge=("receiver",))
    finite("rho", lambda it: {"sites": [2, 0]}, gauge=("receiver",))
    finite("rho", lambda it: {"sites": [1, 2]}, gauge=("receiver",), bond=[1, 1, 1], tag="(product)")
    finite("rho_proj", lambda it: {**other([1, 1, 1])(it), "sites": [1, 3]}, gauge=("receiver", "other"), bond=[1, 1, 1])
    finite("local_overlap", lambda it: {**other()(it), "sites": [1, 2]}, gauge=("receiver", "other"))
    finite("local_overlap", lambda it: {**other([1, 1, 1])(it), "sites": [1, 2]}, gauge=("receiver", "other"), tag="(product)")
    finite("approx_overlap", lambda it: {**other()(it), "As": [[0, 1], [2]]}, gauge=("receiver", "other"))
    finite("k_local_approx_overlap", lambda it: {**other()(it), "k": 1}, gauge=("receiver", "other"))
    finite("k_local_approx_overlap", other(), tag="(no k)")
    finite("energy", lambda it: {"H": bonds()}, gauge=("receiver",))
    finite("energy", lambda it: {"H": herm("H", 4)}, gauge=("receiver",), kw={"fullH": True}, tag="(full)")
    finite("entanglement_entropy", lambda it: {"site": 1}, gauge=("receiver",))
    finite("left_from_state", lambda it: {"state": mat("S", 2, 2, 2)}, skip=("receiver",), alias=False)
    finite("right_from_state", lambda it: {"state": mat("S", 2, 2, 2)}, skip=("receiver",), alias=False)
    finite("deserialize", lambda it: {"vector": mat("v", 2 * (1 * 2 + 2 * 3 + 3 * 2 + 2 * 1)), "L": 4, "d": 2, "D": 3}, skip=("receiver",))
    finite("extend", other(), skip=("receiver",), alias=False)
    finite("append", lambda it: {"tensor": mat("T", 2, 1, 1)}, skip=("receiver",), alias=False)
    finite("apply_two_site", lambda it: {"opsites": (mat("O", 4, 4), (0, 2))}, skip=("receiver",), alias=False)
    finite("apply_two_site", lambda it: {"opsites": (mat("O", 4, 4), (3, 1))}, skip=("receiver",), alias=False, kw={"which": "r", "D": 2}, tag="(truncated)")
    finite("match_gauge_to", other(p), skip=("receiver",), gauge=("other",), alias=False, bond=p)
    for m in ("dA_dt", "projection_error"):
        finite(m, lambda it, m=m: {"H": bonds(), **({"dt": 0.1} if m != "dA_dt" else {})}, canonical=True, maxpaths=48)
    finite("dA_dt", lambda it: {"H": herm("H", 4)}, canonical=True, kw={"fullH": True}, tag="(full)")
    finite("ddA_dt", lambda it: {"v": mat("v", 2), "H": bonds(2)}, canonical=True, L=2, bond=[1], maxpaths=48)
    for n in range(3):
        finite("left_null_projector", lambda it, n=n: {"n": n}, canonical=True, kw={"get_vL": True}, tag="(%d)" % n)
        finite("right_null_projector", lambda it, n=n: {"n": n}, canonical=True, kw={"get_vR": True}, tag="(%d)" % n)
    for m in ("tangent_space_dims", "tangent_space_basis"):
        finite(m, none, canonical=True, L=3, bond=[2, 1] if m == "tangent_space_basis" else [2, 2])
    finite("extract_tangent_vector", lambda it: {"tangent": V(it, "fMPS", "fMPS")(spec.mps_data(3, 2, [2, 1], "B"))}, canonical=True, L=3, bond=[2, 1])
    finite("import_tangent_vector", lambda it: {"vector": mat("v", 3)}, canonical=True, L=3, bond=[2, 1], allow=(ValueError, IndexError, TypeError))
    for i, j in ((0, 2), (1, 1)):
        finite("F1", lambda it, i=i, j=j: {"i": i, "j": j, "H": bonds(3)}, canonical=True, L=3, bond=[2, 1], tag="(%d,%d)" % (i, j))
        finite("F2", lambda it, i=i, j=j: {"i": i, "j": j, "H": bonds(3)}, canonical=True, L=3, bond=[2, 1], tag="(%d,%d)" % (i, j))
    finite("christoffel", lambda it: {"i": 0, "j": 1, "k": 2}, canonical=True, L=3, bond=[2, 1], kw={"testing": False})
    finite("jac", lambda it: {"H": bonds(3)}, canonical=True, L=3, bond=[2, 1], kw={"real_matrix": False})

    # doubled states
    finite("add", other([2, 2], "fTFD", 3, 4), cls="fTFD", L=3, d=4, bond=[4, 4])
    finite("symmetry", none, cls="fTFD", L=3, d=4, bond=[4, 4])
    finite("symmetrise", none, cls="fTFD", L=3, d=4, bond=[4, 4])
    finite("E", lambda it: {"op": mat("O", 2, 2), "site": 1}, gauge=("receiver",), cls="fTFD", L=3, d=4, bond=[4, 4])
    finite("Es", lambda it: {"ops": [mat("O", 2, 2), mat("P", 2, 2)], "site": 1}, gauge=("receiver",), cls="fTFD", L=3, d=4, bond=[4, 4])
    finite("local_overlap", lambda it: {**other([1, 1], L=3)(it), "sites": [0, 1]}, gauge=("receiver", "other"), cls="fTFD", L=3, d=4, bond=[4, 4])
    finite("dA_dt", lambda it: {"H": bonds(3)}, canonical=True, cls="fTFD", L=3, d=4, bond=[4, 4])

    def from_fmps(it):
        m = spec.fMPS(it, spec.mps_data(3, 2, [2, 2]))
        return watch({"state": m}, lambda: call(it, V(it, "fMPS", "fTFD")(), "from_fMPS", m), what="fTFD.from_fMPS")
    add("fTFD.from_fMPS", "fMPS:fTFD.from_fMPS", from_fmps)

    def from_vidal(it):
        m = spec.fMPS(it, spec.mps_data(3, 2, [2, 2]))
        return watch({"state": m}, lambda: call(it, V(it, "fMPS", "vfMPS")(), "from_fMPS", m), gauge=("state",), what="vfMPS.from_fMPS")
    add("vfMPS.from_fMPS", "fMPS:vfMPS.from_fMPS", from_vidal)

    # module functions of the finite-state module
    def helper(mod, fn, args, kw=None, tag="", skip=(), alias=True, **ob):
        def f(it):
            a = args(it)
            return watch(a, lambda: V(it, mod, fn)(*a.values(), **(kw or {})), (), skip, alias, "%s.%s" % (mod, fn))
        add("%s.%s%s" % (mod, fn, tag), "%s:%s" % (mod, fn), f, **ob)

    two = lambda it: {"tensors": [mat("A", 2, 2, 3), mat("B", 2, 3, 2)]}
    helper("fMPS", "group_tensors", two)
    helper("fMPS", "apply_unitary", lambda it: {**two(it), "U": mat("U", 4, 4)}, kw={"D": 2})
    helper("fMPS", "apply_isometry", lambda it: {**two(it), "I": mat("I", 2, 4)}, allow=(Exception,))
    for fn in ("separate_tensor_svd", "separate_tensor_qr", "separate_tensor_rq"):
        helper("fMPS", fn, lambda it: {"tensor": mat("A", 4, 2, 3)})
    helper("fMPS", "separate_tensor_svd", lambda it: {"tensor": mat("A", 4, 2, 3)}, kw={"D": 2, "which": "r"}, tag="(truncated)")
    helper("fMPS", "lt_", lambda it: {"op": mat("X", 2, 2), "As": spec.mps_data(4, 2, [2, 2, 2]), "j": 1, "i": 3}, allow=(Exception,))

    # ------------------------------------------------------------------ infinite states
    def infinite(method, args, cls="iMPS", mod="iMPS", canonical=None, skip=(), alias=True, kw=None, tag="", gauge=False, **ob):
        name = "%s.%s%s" % (cls, method, tag)

        def f(it):
            D = 2
            if cls == "ivMPS":
                s = nd.diag(spec.tensor((D,), "s", "f"))
                m = V(it, "iMPS", cls)([(spec.tensor((2, D, D), "G"), s)])
            else:
                m = V(it, "iMPS", cls)([spec.tensor((2, D, D), "A")])
            if canonical:
                call(it, m, "canonicalise", canonical)
            a = args(it)
            return watch({"receiver": m, **a}, lambda: call(it, m, method, *a.values(), **(kw or {})), (), skip, alias, name)
        add(name, "iMPS:%s.%s" % (cls, method), f, **ob)
    iother = lambda it: {"other": V(it, "iMPS", "iMPS")([spec.tensor((2, 2, 2), "B")])}
    for m in ("__add__", "__sub__"):
        infinite(m, iother)
    infinite("__eq__", iother, maxpaths=64)
    infinite("__ne__", iother, maxpaths=64)
    for m in ("__mul__", "__rmul__", "__truediv__"):
        infinite(m, lambda it: {"factor": spec.scalar("z")})
    for m in ("transfer_matrix", "eigs", "get_envs", "copy", "serialize", "left_null_projector", "right_null_projector"):
        infinite(m, none, **({"canonical": "l"} if m == "left_null_projector" else {"canonical": "r"} if m == "right_null_projector" else {}))
    infinite("serialize", none, kw={"real": True}, tag="(real)")
    infinite("deserialize", lambda it: {"vector": mat("v", 8), "d": 2, "D": 2}, skip=("receiver",), alias=False)
    for c in ("l", "r", "m"):
        infinite("E", lambda it, c=c: {"op": mat("O", 2, 2), "c": c}, canonical=c, tag="(%s)" % c)
        infinite("Es", lambda it, c=c: {"ops": [mat("O", 2, 2), mat("P", 2, 2)], "c": c}, canonical=c, tag="(%s)" % c)
    infinite("energy", lambda it: {"H": [herm("h", 2)]}, canonical="r")
    infinite("dA_dt", lambda it: {"H": [herm("h", 2)]}, canonical="l")
    infinite("Lh", lambda it: {"H": [herm("h", 2)]}, canonical="l", allow=(AssertionError,))
    for c, m in (("r", "E"), ("r", "Es")):
        infinite(m, lambda it, m=m: {"op": mat("O", 2, 2)} if m == "E" else {"ops": [mat("O", 2, 2)]}, skip=("receiver",), tag="(no gauge)")
    infinite("E", lambda it: {"op": mat("O", 2, 2)}, cls="ivMPS")
    infinite("transfer_matrix", none, cls="ivMPS", alias=False)
    infinite("to_iMPS", none, cls="ivMPS")

    def uniform_overlap(it):
        """an overlap changes gauge, not states: the argument's tensor may only be replaced by that of its own canonical form"""
        F = V(it, "iMPS", "iMPS")
        a, b = F([spec.tensor((2, 2, 2), "A")]), F([spec.tensor((2, 2, 2), "B")])
        ta, tb = list(a.d["data"]), list(b.d["data"])
        ra, rb = [call(it, F(list(t)), "left_canonicalise") for t in (ta, tb)]
        call(it, a, "overlap", b)
        out = []
        for n, m, old, ref in (("receiver", a, ta, ra), ("other", b, tb, rb)):
            x = m.d["data"]
            if len(x) != 1 or not (spec.eq(x[0], old[0])[0] or spec.eq(x[0], ref.d["data"][0])[0]):
                out.append(Fail("%s changed" % n, "iMPS.overlap leaves another state behind"))
        return out
    add("iMPS.overlap", "iMPS:iMPS.overlap", uniform_overlap)
    for c in ("Map", "TransferMatrix"):
        for m in ("mv", "mvr", "asmatrix"):
            def f(it, c=c, m=m):
                A, B, x = mat("A", 2, 2, 2), mat("B", 2, 2, 2), mat("x", 4)
                o = V(it, "iMPS", c)(*((A, B) if c == "Map" else (A,)))
                return watch({"A": A, "B": B, "x": x, "map": o}, lambda: call(it, o, m, *([x] if m != "asmatrix" else [])), alias=False, what="%s.%s" % (c, m))
            add("%s.%s" % (c, m), "iMPS:%s.%s" % (c, m), f)

    # ------------------------------------------------------------------ lattice states and operators
    def lattice(method, args, skip=(), alias=True, kw=None, tag="", shape=(2, 2), prop=False, dims=None, **ob):
        name = "fPEPS.%s%s" % (method, tag)

        def f(it):
            m = fpeps(it, peps_data(*shape, dims=dims or [2, 3, 2, 1]))
            a = args(it)
            return watch({"receiver": m, **a}, lambda: it.getattr(m, method) if prop else call(it, m, method, *a.values(), **(kw or {})), (), skip, alias, name)
        add(name, "fPEPS:fPEPS.%s" % method, f, **ob)
    pother = lambda it: {"other": fpeps(it, peps_data(2, 2, name="Q", dims=[3, 2, 1, 2]))}
    psame = lambda it: {"other": fpeps(it, peps_data(2, 2, name="Q", dims=[2, 3, 2, 1]))}
    for m in ("add", "overlap", "full_overlap"):
        lattice(m, pother)
    lattice("__eq__", psame, maxpaths=64)
    for m in ("norm", "recombine", "row_mpos", "col_mpos", "copy", "__str__"):
        lattice(m, none)
    for m in ("bond_dimension", "structure"):
        lattice(m, none, prop=True)
    lattice("row_mpos", pother, tag="(other)")
    lattice("col_mpos", pother, tag="(other)")
    lattice("recombine", lambda it: {"order": "snake"}, tag="(snake)", allow=(Exception,))
    for s in ((0, 0), (1, 0), (1, 1)):
        lattice("environment", lambda it, s=s: {"site": s}, tag="%s" % (s,))
        lattice("tm", lambda it, s=s: {"site": s}, tag="%s" % (s,))
        lattice("E", lambda it, s=s: {"op": mat("O", 2, 2), "site": s}, tag="%s" % (s,))
    lattice("rho", lambda it: {"sites": ((0, 0), (2, 1))}, dims=[1])
    lattice("rho_proj", lambda it: {"other": fpeps(it, peps_data(2, 2, name="Q", dims=[1])), "sites": ((0, 0), (2, 1))}, dims=[1])
    lattice("contract", lambda it: {"sites": ((0, 0), (2, 1))})
    lattice("E_k", lambda it: {"op": mat("O", 4, 4), "sites": ((0, 0), (1, 2))})
    for m in ("row_contract", "col_contract"):
        lattice(m, lambda it: {"fr": 0, "to": 2})
    lattice("from_state", lambda it: {"state": mat("S", 2, 2, 2, 2)}, skip=("receiver",), alias=False, allow=(Exception,))
    lattice("from_mps", lambda it: {"mps": spec.fMPS(it, spec.mps_data(4, 2, [2, 3, 2])), "Lx": 2}, skip=("receiver",), alias=False)
    lattice("apply", lambda it: {"op": mat("O", 2, 2), "site": (0, 1)}, skip=("receiver",), alias=False)

    def mpo(method, args, kw=None, tag="", skip=(), alias=True, **ob):
        def f(it):
            m = V(it, "fPEPS", "fMPO")(mpo_data(3, dims=(2, 3)))
            a = args(it)
            return watch({"receiver": m, **a}, lambda: call(it, m, method, *a.values(), **(kw or {})), (), skip, alias, "fMPO." + method)
        add("fMPO.%s%s" % (method, tag), "fPEPS:fMPO.%s" % method, f, **ob)
    for m in ("recombine", "structure", "__str__"):
        mpo(m, none)
    mpo("__mul__", lambda it: {"other": V(it, "fPEPS", "fMPO")(mpo_data(3, dims=(3, 2), name="R"))})
    mpo("__mul__", lambda it: {"other": spec.fMPS(it, spec.mps_data(3, 2, [2, 2]))}, tag="(state)")
    mpo("from_mps", lambda it: {"mps": spec.fMPS(it, spec.mps_data(3, 2, [2, 2]))}, skip=("receiver",), alias=False)

    pt = lambda *s: mat("P", *s)
    for fn, sh in (("rotate_peps_tensor_cc", (2, 1, 2, 3, 2)), ("rotate_peps_tensor_ac", (2, 1, 2, 3, 2)), ("transpose_peps_tensor", (2, 1, 2, 3, 2)), ("transfer_tensor", (2, 1, 2, 3, 2)), ("tensor_isometrise_center", (2, 2, 2, 2, 1))):
        helper("fPEPS", fn, lambda it, sh=sh: {"tensor": pt(*sh)})
    for fn in ("tensor_isometrise_diag", "tensor_isometrise_lrud", "tensor_grouping_diag", "tensor_grouping_lrud"):
        for w in (1, 2, 3, 4):
            helper("fPEPS", fn, lambda it, w=w: {"tensor": pt(2, 2, 2, 1, 2), "where": w}, tag="(%s)" % w, allow=(Exception,) if "isometrise" in fn else ())
    col = lambda it: {"a": [[pt(2, 2, 1, 2, 1) for _ in range(2)] for _ in range(2)]}
    helper("fPEPS", "row_truncate", lambda it: {"row": [pt(2, 2, 2, 2, 2) for _ in range(3)], "D": 1})
    helper("fPEPS", "col_truncate", lambda it: {"col": [pt(2, 2, 2, 2, 2) for _ in range(3)], "D": 1})
    helper("fPEPS", "tr_svd", lambda it: {"a": mat("M", 3, 4), "D": 2})

    # ------------------------------------------------------------------ Hamiltonians
    def ham(method, args, tag, strings, **ob):
        def f(it):
            src = {k: spec.scalar("c_" + k) for k in strings}
            a = args(it)
            from .c16 import generic
            with generic():
                H = V(it, "Hamiltonians", "Hamiltonian")(src)
                return watch({"receiver": H, "strings": src, **a}, lambda: call(it, H, method, *a.values()), alias=method != "to_matrices", what="Hamiltonian." + method)
        add("Hamiltonian.%s %s" % (method, tag), "Hamiltonians:Hamiltonian.%s" % method, f, **ob)
    for strings in (("ZZ", "X"), ("ZZ", "XX", "IX", "XI"), ("ZIZ", "X"), ("XZX",)):
        for m, a in (("to_matrix", none), ("to_matrices", lambda it: {"L": 4}), ("to_full", lambda it: {"L": 4}), ("to_mpo", lambda it: {"L": 4}), ("__str__", none)):
            if m != "__str__" and any(len(s) > 2 for s in strings) or m == "to_mpo" and "IX" in strings:
                continue
            ham(m, a, "+".join(strings), strings)

    def ham_init(it):
        src = {"ZZ": spec.scalar("c"), "X": spec.scalar("g")}
        return watch({"strings": src}, lambda: V(it, "Hamiltonians", "Hamiltonian")(src), alias=False, what="Hamiltonian()")
    add("Hamiltonian construction", "Hamiltonians:Hamiltonian.__init__", ham_init)

    def from_matrix(it):
        M = mat("M", 4, 4)
        return watch({"matrix": M}, lambda: call(it, V(it, "Hamiltonians", "Hamiltonian")(), "from_matrix", M), what="Hamiltonian.from_matrix")
    add("Hamiltonian.from_matrix", "Hamiltonians:Hamiltonian.from_matrix", from_matrix, allow=(Exception,))

    def given_matrices(it):
        ms = [herm("h%d" % i, 2) for i in range(3)]
        H = V(it, "Hamiltonians", "Hamiltonian")(matrices=ms)
        return watch({"receiver": H, "matrices": ms}, lambda: [call(it, H, "to_full", 4), call(it, H, "to_matrices", 4)] and None, what="Hamiltonian(matrices)")
    add("Hamiltonian from matrices", "Hamiltonians:Hamiltonian.to_full", given_matrices, allow=(Exception,))

    # ------------------------------------------------------------------ helpers
    T = lambda fn, a, **k: helper("tensor", fn, lambda it: a(), **k)
    T("embed", lambda: {"v": mat("v", 8)}, allow=(Exception,))
    T("deembed", lambda: {"u": mat("u", 4, 4)})
    T("uqr", lambda: {"A": mat("A", 3, 2)})
    T("urq", lambda: {"A": mat("A", 2, 3)})
    T("eye_like", lambda: {"A": mat("A", 3, 3)})
    T("direct_sum", lambda: {"A": mat("A", 2, 2, 3), "B": mat("B", 2, 3, 2)}, allow=(Exception,))
    T("unitary_extension", lambda: {"Q": mat("Q", 4, 2)}, maxpaths=16)
    T("ρA", lambda: {"u": mat("u", 12), "keep": [1, 0], "dims": [2, 3, 2]})
    T("partial_trace", lambda: {"rho": mat("rho", 12, 12), "keep": [2, 0], "dims": [2, 3, 2]})
    helper("spin", "partial_trace", lambda it: {"rho": mat("rho", 12, 12), "keep": [2, 0], "dims": [2, 3, 2]})
    for fn in ("T", "H", "C"):
        T(fn, lambda: {"tensor": mat("t", 2, 3, 2)})
    for mD in (True, False):
        T("truncate_A", lambda: {"A": mat("A", 2, 3, 2), "S": nd.diag(spec.tensor((3,), "s", "f")), "V": mat("V", 3, 3), "D": 2}, kw={"minD": mD}, tag="(%s)" % mD, maxpaths=64, allow=(Exception,))
        T("truncate_B", lambda: {"U": mat("U", 3, 3), "S": nd.diag(spec.tensor((3,), "s", "f")), "B": mat("B", 2, 3, 2), "D": 2}, kw={"minD": mD}, tag="(%s)" % mD, maxpaths=64, allow=(Exception,))
    T("tr_svd", lambda: {"A": mat("A", 3, 4), "D": 2})
    T("diagonalise", lambda: {"M": herm("M", 2)})
    T("rotate_to_hermitian", lambda: {"r": mat("r", 2, 2)}, kw={"ret_phase": True})
    T("r_eigenmatrix", lambda: {"M": mat("M", 4, 4)}, maxpaths=32, allow=(AssertionError,))
    T("l_eigenmatrix", lambda: {"M": mat("M", 4, 4)}, maxpaths=32, allow=(AssertionError,))
    T("rank", lambda: {"M": nd.diag(spec.tensor((3,), "s", "f"))}, maxpaths=32)
    T("ldot", lambda: {"mat": mat("m", 3, 2), "mats": mat("A", 2, 2, 3)}, allow=(Exception,))
    T("rdot", lambda: {"mats": mat("A", 2, 2, 3), "mat": mat("m", 3, 2)}, allow=(Exception,))
    T("get_null_space", lambda: {"A": mat("A", 2, 4)}, maxpaths=16)
    T("loc", lambda: {"st": [0, 1], "uv": [1, 1], "d": 2})
    T("loc_3", lambda: {"rs": [0, 1], "tu": [1, 1], "vw": [1, 0], "d": 2})
    T("split_up", lambda: {"H": mat("H", 4, 4), "d": 2})
    T("split_up_3", lambda: {"H": mat("H", 8, 8), "d": 2})

    def pad(it):
        F = V(it, "fMPS", "fMPS")
        a, b = F(spec.mps_data(4, 2, [2, 3, 1])), F(spec.mps_data(4, 2, [1, 4, 2], "B"))
        va, vb = vector(a), vector(b)
        return watch({"first": a, "second": b}, lambda: V(it, "tensor", "mps_pad")(a, b) and None, skip=("first", "second"), what="tensor.mps_pad") + [
            check(spec.eq(vector(x), v), "state changed", "tensor.mps_pad: padding changes a state") for x, v in ((a, va), (b, vb))]
    add("tensor.mps_pad", "tensor:mps_pad", pad)

    S = lambda fn, a, **k: helper("spin", fn, lambda it: a(), **k)
    S("is_swap_symmetric", lambda: {"U": mat("U", 4, 4)}, maxpaths=8)
    S("swap_symmetrise", lambda: {"U": mat("U", 4, 4)})
    S("swap_antisymmetrise", lambda: {"U": mat("U", 4, 4)})
    S("tensor", lambda: {"ops": [mat("A", 2, 2), mat("B", 3, 3)]})
    S("n_body", lambda: {"op": mat("A", 2, 2), "i": 1, "n": 3})
    S("swap_rows", lambda: {"A": mat("A", 3, 3), "i": 0, "j": 2})
    S("comm", lambda: {"A": mat("A", 2, 2), "B": mat("B", 2, 2)})
    S("acomm", lambda: {"A": mat("A", 2, 2), "B": mat("B", 2, 2)})
    for fn, n in (("U1", 3), ("U2", 3), ("U4", 15), ("SU4", 15), ("insu2N", 3)):
        S(fn, lambda n=n: {"v": spec.tensor((n,), "v", "f")})
    S("SU", lambda: {"v": spec.tensor((3,), "v", "f"), "N": 2})
    S("components", lambda: {"Q": mat("Q", 2, 2)})
    S("equal_up_to_phase", lambda: {"U": mat("U", 2, 2), "V": mat("V", 2, 2)}, maxpaths=8)
    helper("ncon", "ncon", lambda it: {"tensors": [mat("A", 2, 3), mat("B", 3, 4), mat("C", 4, 2)], "labels": [[-1, 1], [1, 2], [2, -2]], "order": [2, 1], "forder": [-2, -1]})
    helper("ncon", "ncon", lambda it: {"tensors": [mat("A", 2, 3, 3), mat("B", 2, 4)], "labels": [[1, 2, 2], [1, -1]]}, tag="(trace)")
    helper("peps_tools", "group_legs", lambda it: {"T": mat("T", 2, 3, 2, 1), "legs": [[0, 2], [1], [3]]}, allow=(Exception,))
    helper("peps_tools", "E2", lambda it: {"U": mat("U", 4, 4), "θ": mat("t", 2, 2, 2, 2)}, allow=(Exception,))
    helper("peps_tools", "renyi", lambda it: {"U": mat("U", 4, 4), "θ": mat("t", 2, 2, 2, 2)}, allow=(Exception,))

    # ------------------------------------------------------------------ copies
    INPLACE = {
        "fMPS": [("site assignment", lambda it, m: it.setitem(m, 1, mat("N", 2, 2, 3))), ("left_canonicalise", lambda it, m: call(it, m, "left_canonicalise")),
                 ("right_canonicalise", lambda it, m: call(it, m, "right_canonicalise", 2)), ("mixed_canonicalise", lambda it, m: call(it, m, "mixed_canonicalise", 1)),
                 ("mixed_orthogonalise", lambda it, m: call(it, m, "mixed_orthogonalise", 2)), ("apply_two_site", lambda it, m: call(it, m, "apply_two_site", (mat("O", 4, 4), (0, 1)))),
                 ("post_select", lambda it, m: call(it, m, "post_select", 1)), ("append", lambda it, m: call(it, m, "append", mat("N", 2, 1, 1))),
                 ("extend", lambda it, m: call(it, m, "extend", spec.fMPS(it, spec.mps_data(2, 2, [2], "X")))), ("expand", lambda it, m: call(it, m, "expand", 4)),
                 ("left_from_state", lambda it, m: call(it, m, "left_from_state", mat("S", 2, 2, 2, 2))), ("tensor entry", lambda it, m: nd.setitem(m.d["data"][1], (0, 0, 0), spec.scalar("z")))],
        "iMPS": [("site assignment", lambda it, m: it.setitem(m, 0, mat("N", 2, 2, 2))), ("canonicalise", lambda it, m: call(it, m, "canonicalise", "l")),
                 ("right", lambda it, m: call(it, m, "right_canonicalise"))],
        "fPEPS": [("site assignment", lambda it, m: m.d["data"][1].__setitem__(0, mat("N", 2, 2, 2, 1, 1))), ("apply", lambda it, m: call(it, m, "apply", mat("O", 2, 2), (0, 1))),
                  ("truncate_above", lambda it, m: call(it, m, "truncate_above", 1, 1)), ("truncate_left", lambda it, m: call(it, m, "truncate_left", 1, 1)),
                  ("truncate_along_row", lambda it, m: call(it, m, "truncate_along_row", 0, 1)), ("truncate_along_column", lambda it, m: call(it, m, "truncate_along_column", 0, 1)),
                  ("T", lambda it, m: it.getattr(m, "T")), ("R", lambda it, m: it.getattr(m, "R")), ("isometrise", lambda it, m: call(it, m, "isometrise", (0, 0)))],
    }
    for cls, ops in INPLACE.items():
        for nm, op in ops:
            for which in ("copy", "original"):
                def f(it, cls=cls, nm=nm, op=op, which=which):
                    if cls == "fPEPS":
                        m = fpeps(it, peps_data(2, 2, dims=[2, 3, 2, 1]))
                    elif cls == "iMPS":
                        m = V(it, "iMPS", cls)([mat("A", 2, 2, 2)])
                    else:
                        m = spec.fMPS(it, spec.mps_data(4, 2, [2, 3, 2]))
                    c = call(it, m, "copy")
                    if c is m:
                        return [Fail("copy", "%s.copy returns the object itself" % cls)]
                    if nm == "tensor entry":
                        # arrays may be shared as long as no operation of the library writes into them
                        return []
                    s = snap(m)
                    x = differ(s, snap(c), "copy")
                    if x and cls != "iMPS":
                        return [Fail("copy", "%s.copy: %s" % (cls, x))]
                    changed, kept = (c, m) if which == "copy" else (m, c)
                    s = snap(kept)
                    r = op(it, changed)
                    x = differ(s, snap(kept), "the " + ("original" if which == "copy" else "copy"))
                    if x:
                        return [Fail("not independent", "%s: after %s on the %s %s" % (cls, nm, which, x))]
                add("%s.copy; %s on the %s" % (cls, nm, which), "%s:%s.copy" % ("fPEPS" if cls == "fPEPS" else "iMPS" if cls == "iMPS" else "fMPS", cls), f)
    return obs
