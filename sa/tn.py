"""Abstract domain for ndarray values: linear combinations of labelled
contraction networks (an "einsum normal form").

A value abstracts an array by *where every index comes from*: a term is a
coefficient times a set of atoms (inputs of the analysed function, or results
of opaque library routines, identified by value number) whose axes carry wires;
atoms sharing a wire are contracted over it, and each open axis of the value is
an ordered group of wires.  Identities, traces, diagonals, kron, reshape,
transpose and broadcasting are all wire manipulations, so they need no rewrite
rules; isometries, decompositions and slices have explicit rules in simplify().

Nothing here runs the analysed program: values are built by the abstract
interpreter from the syntax tree.
"""
from __future__ import annotations
import itertools, math, hashlib
from fractions import Fraction
import numpy as np

TOL = 1e-9


class DomainError(Exception):
    """the abstract operation is not representable in the domain"""


class ShapeError(Exception):
    """operands do not fit: the concrete program would raise ValueError"""


# ------------------------------------------------------------------ wires
DIM = []


def wire(dim):
    DIM.append(dim)
    return len(DIM) - 1


def group_of(dim):
    return () if dim == 1 else (wire(dim),)


def gdim(g):
    n = 1
    for w in g:
        n *= DIM[w]
    return n


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ("id", "key", "name", "dims", "real", "herm", "iso", "recon",
                 "sample", "kind", "info", "diag")

    def __repr__(self):
        return self.name


ATOMS = []
_atom_by_key = {}


def atom(key, dims, name=None, real=False, herm=None, iso=(), recon=None,
         sample=None, kind="opaque", info=None):
    a = _atom_by_key.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(ATOMS)
    a.key = key
    a.name = name or str(key)
    a.dims = tuple(dims)
    a.real = real
    a.herm = herm
    a.iso = tuple(iso)
    a.recon = recon
    a.sample = sample
    a.kind = kind
    a.info = info
    ATOMS.append(a)
    _atom_by_key[key] = a
    return a


def basis_atom(n, k):
    def sample(ev):
        v = np.zeros(n, complex)
        v[k] = 1
        return v
    return atom(("e", n, k), (n,), name="e%d/%d" % (k, n), real=True,
                sample=sample, kind="e", info=(n, k))


def sel_atom(n, idx):
    idx = tuple(int(i) for i in idx)

    def sample(ev):
        m = np.zeros((n, len(idx)), complex)
        for j, i in enumerate(idx):
            m[i, j] = 1
        return m
    return atom(("sel", n, idx), (n, len(idx)), name="sel%d%s" % (n, list(idx)),
                real=True, sample=sample, kind="sel", info=(n, idx))


def regroup_atom(d1, d2):
    def sample(ev):
        n = int(np.prod(d1))
        return np.eye(n).reshape(tuple(d1) + tuple(d2)).astype(complex)
    return atom(("regroup", tuple(d1), tuple(d2)), tuple(d1) + tuple(d2),
                name="regroup%s>%s" % (d1, d2), real=True, sample=sample)


def const_atom(a):
    a = np.asarray(a, dtype=complex)
    r = np.round(a, 10) + 0.0
    key = ("const", a.shape, r.tobytes())
    real = bool(np.abs(a.imag).max() < 1e-12) if a.size else True
    herm = None
    iso = []
    if a.ndim == 2 and a.shape[0] == a.shape[1]:
        if np.allclose(a, a.conj().T, atol=1e-12):
            herm = (1, 0)
    dims = tuple(x for x in a.shape if x != 1)
    b = a.reshape(dims)
    return atom(key, dims, name="const%s" % (a.shape,), real=real,
                herm=herm if len(dims) == 2 else None,
                iso=iso, sample=lambda ev: b.copy(), kind="const", info=b)


# ------------------------------------------------------------------ terms
# term = (num, mono, atoms, out)
#   num: complex; mono: dict scalar_id -> Fraction
#   atoms: tuple of (aid, conj, axes) with axes tuple of wire groups
#   out: tuple of wire groups

def subst_atoms(atoms, m):
    return tuple((aid, cj, tuple(tuple(x for w in g for x in m.get(w, (w,))) for g in axes))
                 for aid, cj, axes in atoms)


def subst_out(out, m):
    return tuple(tuple(x for w in g for x in m.get(w, (w,))) for g in out)


def wires_of(atoms, out):
    s = set()
    for _, _, axes in atoms:
        for g in axes:
            s.update(g)
    for g in out:
        s.update(g)
    return s


def fresh(atoms, out):
    m = {w: (wire(DIM[w]),) for w in sorted(wires_of(atoms, out))}
    return subst_atoms(atoms, m), subst_out(out, m)


class Net:
    """mutable network used while wiring terms together"""

    def __init__(self, atoms=(), out=()):
        self.atoms = list(atoms)
        self.out = list(out)
        self.pending = []   # extra groups that must follow substitutions

    def subst(self, m, groups):
        self.atoms = list(subst_atoms(self.atoms, m))
        self.out = list(subst_out(self.out, m))
        for i, g in enumerate(groups):
            groups[i] = tuple(x for w in g for x in m.get(w, (w,)))

    def unify(self, i, j, groups):
        """identify wire groups groups[i] and groups[j] (in place); returns"""
        while True:
            a, b = groups[i], groups[j]
            if gdim(a) != gdim(b):
                raise ShapeError("dimension mismatch %d vs %d" % (gdim(a), gdim(b)))
            p = 0
            while p < len(a) and p < len(b) and a[p] == b[p]:
                p += 1
            if p == len(a) and p == len(b):
                return
            wa, wb = a[p], b[p]
            da, db = DIM[wa], DIM[wb]
            if da == db:
                self.subst({wb: (wa,)}, groups)
            elif db % da == 0 and da < db:
                self.subst({wb: (wire(da), wire(db // da))}, groups)
            elif da % db == 0 and db < da:
                self.subst({wa: (wire(db), wire(da // db))}, groups)
            else:
                # misaligned grouping: insert an explicit regroup node
                ra, rb = a[p:], b[p:]
                # shortest prefixes of equal total dimension
                done = False
                for x in range(1, len(ra) + 1):
                    for y in range(1, len(rb) + 1):
                        if gdim(ra[:x]) == gdim(rb[:y]):
                            ra, rb = ra[:x], rb[:y]
                            done = True
                            break
                    if done:
                        break
                at = regroup_atom([DIM[w] for w in ra], [DIM[w] for w in rb])
                # new wires for b's side, keep ra as they are: the b-side wires
                # are linked to ra through the node, then groups[j] aliases ra
                self.atoms.append((at.id, False, tuple((w,) for w in ra) + tuple((w,) for w in rb)))
                # positions p.. of groups j now considered equal: replace in groups only
                groups[j] = b[:p] + ra + b[p + len(rb):]


def split_group(net, groups, gi, shape):
    """split groups[gi] into consecutive groups of the given dims; returns list"""
    res = []
    rest = list(groups[gi])

    for n in shape:
        if n == 1:
            res.append(())
            continue
        cur = []
        need = n
        while need > 1:
            if not rest:
                raise ShapeError("reshape")
            w = rest[0]
            dw = DIM[w]
            if need % dw == 0:
                cur.append(w)
                need //= dw
                rest.pop(0)
            elif dw % need == 0:
                a, b = wire(need), wire(dw // need)
                m = {w: (a, b)}
                net.subst(m, groups)
                rest = [x for y in rest for x in m.get(y, (y,))]
                res = [tuple(x for y in g for x in m.get(y, (y,))) for g in res]
                cur = [x for y in cur for x in m.get(y, (y,))]
            else:
                # misaligned: take enough wires so that the total is divisible
                tot = 1
                take = []
                for x in rest:
                    take.append(x)
                    tot *= DIM[x]
                    if tot % need == 0:
                        break
                else:
                    raise ShapeError("reshape")
                new = [wire(need)] + ([wire(tot // need)] if tot // need > 1 else [])
                at = regroup_atom([DIM[w] for w in take], [DIM[w] for w in new])
                net.atoms.append((at.id, False, tuple((x,) for x in take) + tuple((x,) for x in new)))
                rest = new + rest[len(take):]
        res.append(tuple(cur))
    if gdim(rest) != 1:
        raise ShapeError("reshape")
    # wires substituted later may have changed earlier results; already handled
    return res


# ------------------------------------------------------------------ scalars
class ScalarReg:
    def __init__(self):
        self.ids = {}
        self.defs = []      # ('net', atoms) | ('sum', Sym)
        self.conjs = {}

    def net(self, key, atoms):
        if key not in self.ids:
            self.ids[key] = len(self.defs)
            self.defs.append(("net", atoms))
        return self.ids[key]

    def sum(self, key, sym):
        key = ("sum", key)
        if key not in self.ids:
            self.ids[key] = len(self.defs)
            self.defs.append(("sum", sym))
        return self.ids[key]

    def conj(self, sid):
        if sid not in self.conjs:
            kind, d = self.defs[sid]
            if kind == "net":
                s = Sym((), [(1.0, {}, conj_atoms(d), ())]).norm()
                t = s.terms
                if len(t) == 1 and len(t[0][1]) == 1 and not t[0][2]:
                    (k, e), = t[0][1].items()
                    self.conjs[sid] = (t[0][0], k)
                else:
                    raise DomainError("conj of scalar")
            else:
                s = d.conj().norm()
                if s.key() == d.norm().key():
                    self.conjs[sid] = (1.0, sid)
                else:
                    # only a positive number may be pulled out (the factor may stand under a root)
                    n = abs(complex(s.terms[0][0]))
                    t = s.scale(1 / n).norm()
                    self.conjs[sid] = (n, self.sum(t.key(), t))
        return self.conjs[sid]


SCAL = ScalarReg()


def scalar_as_factor(s):
    """register a multi-term scalar as one factor; returns (num, id)"""
    s = s.norm()
    # pull out an overall number for stability of the key
    lead = s.terms[0][0]
    t = s.scale(1 / lead).norm()
    return lead, SCAL.sum(t.key(), t)


def conj_atoms(atoms):
    return tuple((aid, (not cj) if not ATOMS[aid].real else False, axes) for aid, cj, axes in atoms)


# ------------------------------------------------------------------ simplify
def _usage(atoms, out):
    use = {}
    for i, (aid, cj, axes) in enumerate(atoms):
        for p, g in enumerate(axes):
            for w in g:
                use.setdefault(w, []).append((i, p))
    for p, g in enumerate(out):
        for w in g:
            use.setdefault(w, []).append((-1, p))
    return use


def _lost(groups, net):
    """factor of the summed wires that no longer occur anywhere"""
    used = wires_of(net.atoms, net.out)
    f = 1
    for w in set(x for g in groups for x in g):
        if w not in used:
            f *= DIM[w]
    return f


def simplify(num, mono, atoms, out):
    """rewrite one term to normal form; returns list of terms"""
    atoms = list(atoms)
    out = list(out)
    # normalise conj of hermitian atoms
    for i, (aid, cj, axes) in enumerate(atoms):
        a = ATOMS[aid]
        if cj and a.real:
            atoms[i] = (aid, False, axes)
        elif cj and a.herm is not None:
            atoms[i] = (aid, False, tuple(axes[p] for p in a.herm))
    changed = True
    while changed:
        changed = False
        use = _usage(atoms, out)
        # ---- basis vectors / selections
        for i, (aid, cj, axes) in enumerate(atoms):
            a = ATOMS[aid]
            if a.kind == "e":
                g = axes[0]
                n, k = a.info
                if len(g) > 1:
                    # split basis vector over refined wires
                    new = []
                    kk = k
                    for w in reversed(g):
                        new.append((basis_atom(DIM[w], kk % DIM[w]).id, False, ((w,),)))
                        kk //= DIM[w]
                    atoms[i:i + 1] = new
                    changed = True
                    break
                w = g[0]
                us = use[w]
                if len(us) == 1:
                    del atoms[i]          # sum of a basis vector is 1
                    changed = True
                    break
                others = [u for u in us if u != (i, 0)]
                # another e on the same wire
                hit = None
                for (j, p) in others:
                    if j >= 0 and ATOMS[atoms[j][0]].kind == "e" and len(atoms[j][2][0]) == 1:
                        hit = j
                        break
                if hit is not None:
                    if ATOMS[atoms[hit][0]].info[1] != k:
                        return []
                    del atoms[hit]
                    changed = True
                    break
                if len(others) > 1:
                    # copy the basis vector onto every attachment
                    new_e = []
                    first = True
                    for (j, p) in others:
                        if first:
                            first = False
                            continue
                        nw = wire(n)
                        if j >= 0:
                            aj, cjj, ax = atoms[j]
                            g2 = list(ax[p])
                            g2[g2.index(w)] = nw
                            ax = ax[:p] + (tuple(g2),) + ax[p + 1:]
                            atoms[j] = (aj, cjj, ax)
                        else:
                            g2 = list(out[p])
                            g2[g2.index(w)] = nw
                            out[p] = tuple(g2)
                        new_e.append((aid, False, ((nw,),)))
                    atoms.extend(new_e)
                    changed = True
                    break
                j, p = others[0]
                if j >= 0:
                    b = ATOMS[atoms[j][0]]
                    if b.kind == "sel" and len(atoms[j][2][p]) == 1:
                        nn, idx = b.info
                        if p == 1:
                            k2, tot = idx[k], nn
                            og = atoms[j][2][0]
                        else:
                            pos = [q for q, x in enumerate(idx) if x == k]
                            if not pos:
                                return []
                            if len(pos) > 1:
                                continue
                            k2, tot = pos[0], len(idx)
                            og = atoms[j][2][1]
                        ne = []
                        if tot > 1:
                            ne = [(basis_atom(tot, k2).id, False, (og,))]
                        for q in sorted((i, j), reverse=True):
                            del atoms[q]
                        atoms.extend(ne)
                        changed = True
                        break
                    if b.kind == "const" and len(atoms[j][2][p]) == 1:
                        arr = b.info
                        sub = np.take(arr, k, axis=p)
                        axes2 = atoms[j][2][:p] + atoms[j][2][p + 1:]
                        for q in sorted((i, j), reverse=True):
                            del atoms[q]
                        num, extra = _lift_const_atoms(num, sub, axes2)
                        if extra is None:
                            return []
                        atoms.extend(extra)
                        num = num * _lost(axes2, Net(atoms, out))
                        changed = True
                        break
            elif a.kind == "sel":
                n, idx = a.info
                gw, gm = axes
                if idx == tuple(range(n)):
                    # identity: unify
                    net = Net(atoms[:i] + atoms[i + 1:], out)
                    groups = [gw, gm]
                    net.unify(0, 1, groups)
                    num = num * _lost(groups, net)
                    atoms, out = net.atoms, net.out
                    changed = True
                    break
                m_ = len(idx)
                if len(gw) > 1 and m_ > 0 and n % m_ == 0 and idx[0] % m_ == 0 and idx == tuple(range(idx[0], idx[0] + m_)):
                    pre, tot = 0, 1
                    while pre < len(gw) and tot * m_ < n and (n // m_) % (tot * DIM[gw[pre]]) == 0:
                        tot *= DIM[gw[pre]]
                        pre += 1
                    if tot * m_ == n:
                        # an aligned block of a composite index fixes the leading wires
                        eb = basis_atom(tot, idx[0] // m_)
                        net = Net(atoms[:i] + atoms[i + 1:] + [(eb.id, False, (gw[:pre],))], out)
                        groups = [gw[pre:], gm]
                        net.unify(0, 1, groups)
                        num = num * _lost(groups, net)
                        atoms, out = net.atoms, net.out
                        changed = True
                        break
                if len(gw) == 1:
                    w = gw[0]
                    us = use[w]
                    if len(us) == 1:
                        # sum over the big index of a selection: all ones
                        del atoms[i]
                        num = num * _lost([gm], Net(atoms, out))
                        changed = True
                        break
                    done = False
                    for (j, p) in us:
                        if j < 0 or j == i:
                            continue
                        b = ATOMS[atoms[j][0]]
                        if b.kind != "sel":
                            continue
                        n2, idx2 = b.info
                        if p == 0 and len(atoms[j][2][0]) == 1:
                            if not set(idx) & set(idx2):
                                return []
                            if idx == idx2 and len(set(idx)) == len(idx):
                                net = Net([x for q, x in enumerate(atoms) if q != j], out)
                                groups = [gm, atoms[j][2][1]]
                                net.unify(0, 1, groups)
                                atoms, out = net.atoms, net.out
                                done = True
                                break
                        elif p == 1 and len(us) == 2 and len(atoms[j][2][1]) == 1:
                            # compose: big wire of a is small wire of b
                            comp = tuple(idx2[q] for q in idx)
                            at = sel_atom(n2, comp)
                            nb = (at.id, False, (atoms[j][2][0], gm))
                            for q in sorted((i, j), reverse=True):
                                del atoms[q]
                            atoms.append(nb)
                            done = True
                            break
                    if done:
                        changed = True
                        break
                    # full-matrix decomposition restricted to the thin columns
                    if len(us) == 2:
                        (j, p) = [u for u in us if u != (i, 0)][0] if us[0] != us[1] else us[0]
                        if j >= 0:
                            b = ATOMS[atoms[j][0]]
                            thin = b.info.get("thin") if isinstance(b.info, dict) else None
                            if thin and thin[0] == p and idx == tuple(range(thin[1])):
                                axes2 = atoms[j][2]
                                axes2 = axes2[:p] + (gm,) + axes2[p + 1:]
                                nb = (thin[2], atoms[j][1], axes2)
                                for q in sorted((i, j), reverse=True):
                                    del atoms[q]
                                atoms.append(nb)
                                changed = True
                                break
                    # an aligned block (or stride) of an index is a fixed value of its leading (trailing) factor
                    if 1 < m_ < n and n % m_ == 0:
                        q = n // m_
                        f, c_ = wire(q), wire(m_)
                        if idx[0] % m_ == 0 and idx == tuple(range(idx[0], idx[0] + m_)):
                            k, grp = idx[0] // m_, (f, c_)
                        elif idx[0] < q and idx == tuple(range(idx[0], n, q)):
                            k, grp = idx[0], (c_, f)
                        else:
                            continue
                        net = Net(subst_atoms(atoms[:i] + atoms[i + 1:], {w: grp}) + ((basis_atom(q, k).id, False, ((f,),)),), subst_out(out, {w: grp}))
                        groups = [(c_,), gm]
                        net.unify(0, 1, groups)
                        num = num * _lost(groups, net)
                        atoms, out = net.atoms, net.out
                        changed = True
                        break
        if changed:
            continue
        # ---- free summed wires
        for w, us in use.items():
            pass
        # ---- isometries
        for i, (aid, cj, axes) in enumerate(atoms):
            a = ATOMS[aid]
            if not a.iso:
                continue
            for j, (bid, cj2, axes2) in enumerate(atoms):
                if j <= i or bid != aid:
                    continue
                if cj == cj2 and not a.real:
                    continue
                for in_axes in a.iso:
                    ok = True
                    for p in in_axes:
                        if axes[p] != axes2[p]:
                            ok = False
                            break
                        for w in axes[p]:
                            if len(use[w]) != 2:
                                ok = False
                                break
                        if not ok:
                            break
                    if not ok:
                        continue
                    rest = [p for p in range(len(axes)) if p not in in_axes]
                    net = Net([x for q, x in enumerate(atoms) if q not in (i, j)], out)
                    groups = [axes[p] for p in rest] + [axes2[p] for p in rest]
                    for q in range(len(rest)):
                        net.unify(q, q + len(rest), groups)
                    # wires that vanished entirely but are summed count as dim
                    extra = set()
                    for q in range(len(rest)):
                        extra.update(groups[q])
                    used2 = wires_of(net.atoms, net.out)
                    for w in extra:
                        if w not in used2:
                            num = num * DIM[w]
                    atoms, out = net.atoms, net.out
                    changed = True
                    break
                if changed:
                    break
            if changed:
                break
        if changed:
            continue
        # ---- reconstruction of decompositions
        for i, (aid, cj, axes) in enumerate(atoms):
            a = ATOMS[aid]
            if a.recon is None:
                continue
            for rule in a.recon:
                r = rule(i, atoms, out, use)
                if r is not None:
                    # r = (new_atoms, sym, groups, conj): replace by value of sym wired to groups
                    rest, sym, groups, cjf = r
                    res = []
                    s = sym.conj() if cjf else sym
                    for (n2, m2, a2, o2) in s.terms:
                        a2, o2 = fresh(a2, o2)
                        net = Net(list(rest) + list(a2), out)
                        gs = list(groups) + list(o2)
                        k = len(groups)
                        for q in range(k):
                            net.unify(q, q + k, gs)
                        extra = set(x for g in gs for x in g)
                        used2 = wires_of(net.atoms, net.out)
                        f = 1
                        for w in extra:
                            if w not in used2:
                                f *= DIM[w]
                        res.extend(simplify(num * n2 * f, mono_mul(mono, m2), net.atoms, net.out))
                    return res
    return [(num, mono, tuple(atoms), tuple(out))]


def _lift_const_atoms(num, arr, axes):
    """constant array with given axis groups -> (num, atoms) or (num, None) if zero"""
    arr = np.asarray(arr)
    if arr.size == 0 or np.abs(arr).max() < 1e-14:
        return num, None
    if arr.ndim == 0:
        return num * complex(arr), []
    nz = np.argwhere(np.abs(arr) > 1e-14)
    if len(nz) == 1:
        at = []
        for p, k in enumerate(nz[0]):
            at.append((basis_atom(arr.shape[p], int(k)).id, False, (axes[p],)))
        return num * complex(arr[tuple(nz[0])]), at
    if np.allclose(arr, arr.flat[0], atol=1e-14):
        # constant array: all ones; leave wires summed
        return num * complex(arr.flat[0]), []
    a = const_atom(arr)
    return num, [(a.id, False, tuple(axes))]


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    m = dict(m1)
    for k, e in m2.items():
        e2 = m.get(k, 0) + e
        if e2 == 0:
            m.pop(k, None)
        else:
            m[k] = e2
    return m


def mono_key(m):
    return tuple(sorted(m.items()))


# ------------------------------------------------------------------ canonical form
def _fuse(atoms, out):
    """fuse wires that always occur adjacent and in the same order"""
    while True:
        occ = {}
        nxt = {}
        prv = {}
        groups = [g for _, _, axes in atoms for g in axes] + list(out)
        for g in groups:
            for q, w in enumerate(g):
                occ[w] = occ.get(w, 0) + 1
                nxt.setdefault(w, set()).add(g[q + 1] if q + 1 < len(g) else None)
                prv.setdefault(w, set()).add(g[q - 1] if q > 0 else None)
        for w, s in nxt.items():
            if len(s) == 1:
                (v,) = s
                if v is not None and v != w and prv[v] == {w}:
                    nw = wire(DIM[w] * DIM[v])
                    atoms = tuple((aid, cj, tuple(_fuse_g(g, w, v, nw) for g in axes)) for aid, cj, axes in atoms)
                    out = tuple(_fuse_g(g, w, v, nw) for g in out)
                    break
        else:
            return atoms, out


def _fuse_g(g, w, v, nw):
    if w not in g:
        return g
    r = []
    i = 0
    while i < len(g):
        if g[i] == w:
            r.append(nw)
            i += 2
        else:
            r.append(g[i])
            i += 1
    return tuple(r)


def _components(atoms, out):
    parent = {}

    def find(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x
    for w in wires_of(atoms, out):
        parent[w] = w
    for _, _, axes in atoms:
        ws = [w for g in axes for w in g]
        for w in ws[1:]:
            a, b = find(ws[0]), find(w)
            if a != b:
                parent[b] = a
    outroots = {find(w) for g in out for w in g}
    openA, comps = [], {}
    for t in atoms:
        ws = [w for g in t[2] for w in g]
        if not ws:
            comps[("s", len(comps))] = [t]
            continue
        r = find(ws[0])
        if r in outroots:
            openA.append(t)
        else:
            comps.setdefault(r, []).append(t)
    return tuple(openA), [tuple(c) for c in comps.values()]


def canon_key(atoms, out):
    """canonical key (hashable) of a simplified, fused network"""
    if not atoms:
        # just wires in out
        lab = {}
        return ((), tuple(tuple(lab.setdefault(w, len(lab)) for w in g) for g in out),
                tuple(DIM[w] for w in lab))
    ws = sorted(wires_of(atoms, out))
    col = {}
    init = {}
    for w in ws:
        init[w] = (DIM[w], tuple((p, q) for p, g in enumerate(out) for q, x in enumerate(g) if x == w))
    ranks = {v: i for i, v in enumerate(sorted(set(init.values())))}
    col = {w: ranks[init[w]] for w in ws}
    acol = {i: (a[0], a[1]) for i, a in enumerate(atoms)}
    ranks = {v: i for i, v in enumerate(sorted(set(acol.values())))}
    acol = {i: ranks[acol[i]] for i in acol}

    def refine(col, acol):
        ncls = (len(set(col.values())), len(set(acol.values())))
        while True:
            asig = {i: (acol[i], tuple(tuple(col[w] for w in g) for g in atoms[i][2])) for i in acol}
            r = {v: k for k, v in enumerate(sorted(set(asig.values())))}
            acol = {i: r[asig[i]] for i in acol}
            wsig = {w: [] for w in ws}
            for i, (aid, cj, axes) in enumerate(atoms):
                for p, g in enumerate(axes):
                    for q, w in enumerate(g):
                        wsig[w].append((acol[i], p, q))
            wsig = {w: (col[w], tuple(sorted(s))) for w, s in wsig.items()}
            r = {v: k for k, v in enumerate(sorted(set(wsig.values())))}
            col = {w: r[wsig[w]] for w in ws}
            n2 = (len(set(col.values())), len(set(acol.values())))
            if n2 == ncls:
                return col, acol
            ncls = n2

    budget = [2000]

    def build(col, acol):
        order = sorted(range(len(atoms)), key=lambda i: acol[i])
        return (tuple((atoms[i][0], atoms[i][1], tuple(tuple(col[w] for w in g) for g in atoms[i][2]))
                      for i in order),
                tuple(tuple(col[w] for w in g) for g in out),
                tuple(DIM[w] for w in sorted(ws, key=lambda w: col[w])))

    def rec(col, acol):
        col, acol = refine(col, acol)
        # tie classes
        cls = {}
        for w, cval in col.items():
            cls.setdefault(cval, []).append(w)
        tied = [c for c in cls if len(cls[c]) > 1]
        if not tied:
            acls = {}
            for i, cval in acol.items():
                acls.setdefault(cval, []).append(i)
            return build(col, acol)
        c = min(tied)
        best = None
        for w in cls[c]:
            budget[0] -= 1
            if budget[0] < 0:
                raise DomainError("canonical labelling budget")
            col2 = {x: 2 * v for x, v in col.items()}
            col2[w] -= 1
            k = rec(col2, dict(acol))
            if best is None or k < best:
                best = k
        return best

    return rec(col, acol)


_canon_cache = {}


def local_key(atoms, out):
    """cheap relabelling used for caching canon_key"""
    lab = {}
    for _, _, axes in atoms:
        for g in axes:
            for w in g:
                lab.setdefault(w, len(lab))
    for g in out:
        for w in g:
            lab.setdefault(w, len(lab))
    k = (tuple((aid, cj, tuple(tuple(lab[w] for w in g) for g in axes)) for aid, cj, axes in atoms),
         tuple(tuple(lab[w] for w in g) for g in out),
         tuple(DIM[w] for w in lab))
    return k


def ckey(atoms, out):
    lk = local_key(atoms, out)
    r = _canon_cache.get(lk)
    if r is None:
        r = canon_key(atoms, out)
        _canon_cache[lk] = r
    return r


def normal_terms(num, mono, atoms, out):
    """simplify, split off closed components; yields (num, mono, atoms, out, key)"""
    res = []
    stack = [(num, mono, atoms, out)]
    for (n, m, a, o) in simplify(num, mono, atoms, out):
        if n == 0:
            continue
        a, o = _fuse(tuple(a), tuple(o))
        openA, closed = _components(a, o)
        m = dict(m)
        for c in closed:
            k = ckey(c, ())
            sid = SCAL.net(k, c)
            m[sid] = m.get(sid, 0) + 1
            if m[sid] == 0:
                del m[sid]
        # expand sum-scalars with exponent >= 1
        expand = [k for k, e in m.items() if SCAL.defs[k][0] == "sum" and e >= 1]
        if expand:
            k = expand[0]
            e = m[k] - 1
            m2 = dict(m)
            if e == 0:
                del m2[k]
            else:
                m2[k] = e
            for (n3, m3, a3, o3) in SCAL.defs[k][1].terms:
                res.extend(normal_terms(n * n3, mono_mul(m2, m3), openA + fresh(a3, o3)[0], o))
            continue
        res.append((n, m, openA, o, ckey(openA, o)))
    return res


class Sym:
    """symbolic array value: shape + list of terms"""
    __slots__ = ("shape", "terms", "_norm", "_key")

    def __init__(self, shape, terms, norm=False):
        self.shape = tuple(int(x) for x in shape)
        self.terms = terms
        self._norm = norm
        self._key = None

    # --- normalisation
    def norm(self):
        if self._norm:
            return self
        acc = {}
        for (n, m, a, o) in self.terms:
            for (n2, m2, a2, o2, k) in normal_terms(n, m, a, o):
                kk = (k, mono_key(m2))
                if kk in acc:
                    acc[kk][0] += n2
                else:
                    acc[kk] = [n2, m2, a2, o2]
        acc = {k: v for k, v in acc.items() if abs(v[0]) > 1e-13}
        acc = collapse(acc)
        keys = sorted(acc, key=_sortkey)
        self.terms = [tuple(acc[k]) for k in keys]
        self._key = (self.shape, tuple((k, _rnd(acc[k][0])) for k in keys))
        self._norm = True
        return self

    def key(self):
        self.norm()
        if self._key is None:
            self._key = (self.shape, tuple(((ckey(a, o), mono_key(m)), _rnd(n)) for n, m, a, o in self.terms))
        return self._key

    def digest(self):
        return hashlib.sha1(repr(self.key()).encode()).hexdigest()[:12]

    def is_zero(self):
        return not self.norm().terms

    # --- algebra
    def scale(self, z):
        z = complex(z)
        if z == 0:
            return Sym(self.shape, [], True)
        return Sym(self.shape, [(n * z, m, a, o) for n, m, a, o in self.terms])

    def conj(self):
        r = []
        for n, m, a, o in self.terms:
            n = complex(n).conjugate()
            m2 = {}
            for k, e in m.items():
                f, k2 = SCAL.conj(k)
                if f != 1:
                    n = n * complex(f) ** float(e)
                m2[k2] = m2.get(k2, 0) + e
            r.append((n, m2, conj_atoms(a), o))
        return Sym(self.shape, r)

    def add(self, other):
        assert self.shape == other.shape
        return Sym(self.shape, self.terms + other.terms)

    def __repr__(self):
        return "Sym%s{%s}" % (self.shape, " + ".join(self.show_terms()))

    def show_terms(self, limit=4):
        r = []
        for n, m, a, o in self.terms[:limit]:
            lab = {}

            def L(w):
                return lab.setdefault(w, chr(97 + len(lab)) if len(lab) < 26 else "w%d" % len(lab))
            s = "" if abs(n - 1) < 1e-12 else "(%s)" % _fmt(n)
            for k, e in m.items():
                s += "s%d^%s " % (k, e)
            s += " ".join("%s%s[%s]" % (ATOMS[aid].name, "*" if cj else "",
                                        ",".join("".join(L(w) for w in g) for g in axes)) for aid, cj, axes in a)
            s += "->[%s]" % ",".join("".join(L(w) for w in g) or "1" for g in o)
            r.append(s)
        if len(self.terms) > limit:
            r.append("...(%d terms)" % len(self.terms))
        return r


def _fmt(z):
    z = complex(z)
    if abs(z.imag) < 1e-12:
        return "%g" % z.real
    return "%g%+gj" % (z.real, z.imag)


def _rnd(z):
    z = complex(z)
    return (round(z.real, 9) + 0.0, round(z.imag, 9) + 0.0)


def _sortkey(k):
    return repr(k)


# ------------------------------------------------------------------ collapse of complete basis sums
def collapse(acc):
    """sum_k f(e_k,..,e_k) over a complete set of k becomes one wire"""
    while True:
        if len(acc) < 2 or len(acc) > 800:
            return acc
        groups = {}
        # terms that can meet have the same other factors, and together every basis index of the dimension
        sig, have = {}, {}
        for kk, (n, m, a, o) in acc.items():
            es = [i for i, t in enumerate(a) if ATOMS[t[0]].kind == "e"]
            if not es or len(es) > 10:
                continue
            inf = [ATOMS[a[i][0]].info for i in es]
            q = (tuple(sorted((t[0], t[1]) for i, t in enumerate(a) if i not in es)), tuple(sorted(x[0] for x in inf)), mono_key(m), _rnd(n))
            sig[kk] = q
            h = have.setdefault(q, {})
            for dim, k in inf:
                h.setdefault(dim, set()).add(k)
        for kk, (n, m, a, o) in acc.items():
            if kk not in sig or all(len(v) < dim for dim, v in have[sig[kk]].items()):
                continue
            es = [i for i, t in enumerate(a) if ATOMS[t[0]].kind == "e"]
            byval = {}
            for i in es:
                byval.setdefault(ATOMS[a[i][0]].info, []).append(i)
            for (dim, k), lst in byval.items():
                if len(have[sig[kk]][dim]) < dim:
                    continue
                subs = []
                if len(lst) <= 6:
                    for r in range(len(lst), 0, -1):
                        subs.extend(itertools.combinations(lst, r))
                else:
                    subs = [tuple(lst)] + [(i,) for i in lst]
                for sub in subs:
                    hw = wire(dim)
                    mp = {a[i][2][0][0]: (hw,) for i in sub}
                    rest = tuple(t for i, t in enumerate(a) if i not in sub)
                    at = subst_atoms(rest, mp)
                    ot = subst_out(o, mp)
                    key = (ckey(at + ((_hole(dim), False, ((hw,),)),), ot), mono_key(m), _rnd(n), dim, len(sub))
                    groups.setdefault(key, {})[k] = (kk, at, ot, n, m)
        cands = sorted(((key, d) for key, d in groups.items() if len(d) == key[3]), key=lambda x: -x[0][4])
        used = set()
        top = cands[0][0][4] if cands else None
        for key, d in cands:
            if key[4] != top:
                break
            kks = [v[0] for v in d.values()]
            if len(set(kks)) != len(kks) or any(kk in used or kk not in acc for kk in kks):
                continue
            used.update(kks)
            _, at, ot, n, m = d[0]
            for kk in kks:
                del acc[kk]
            for (n2, m2, a2, o2, k2) in normal_terms(n, m, at, ot):
                kk = (k2, mono_key(m2))
                used.add(kk)
                if kk in acc:
                    acc[kk][0] += n2
                    if abs(acc[kk][0]) < 1e-13:
                        del acc[kk]
                else:
                    acc[kk] = [n2, m2, a2, o2]
        if not used:
            return acc


def _hole(dim):
    return atom(("hole", dim), (dim,), name="hole", real=True, kind="hole",
                sample=lambda ev: np.ones(dim)).id


# ------------------------------------------------------------------ constructors
def zero(shape):
    return Sym(shape, [], True)


def ones(shape):
    return Sym(shape, [(1.0, {}, (), tuple(group_of(n) for n in shape))])


def scalar(z):
    return Sym((), [(complex(z), {}, (), ())] if z != 0 else [])


def eye(n, m=None):
    m = n if m is None else m
    if n != m:
        return from_const(np.eye(n, m))
    g = group_of(n)
    return Sym((n, n), [(1.0, {}, (), (g, g))])


def atom_value(a, shape=None):
    """value of an atom with all axes open.  shape may contain 1s."""
    dims = list(a.dims)
    axes = []
    out = []
    if shape is None:
        shape = a.dims
    it = iter(dims)
    for n in shape:
        if n == 1:
            out.append(())
        else:
            d = next(it)
            assert d == n, (a.name, a.dims, shape)
            g = group_of(n)
            axes.append(g)
            out.append(g)
    return Sym(shape, [(1.0, {}, ((a.id, False, tuple(axes)),), tuple(out))])


def from_const(arr):
    arr = np.asarray(arr)
    if arr.dtype == object:
        raise DomainError("object array")
    shape = arr.shape
    c = arr.astype(complex)
    if c.size == 0 or np.abs(c).max() < 1e-14:
        return zero(shape)
    if c.ndim == 0:
        return scalar(complex(c))
    nz = np.argwhere(np.abs(c) > 1e-14)
    if len(nz) == c.size and np.allclose(c, c.flat[0], atol=1e-14):
        return ones(shape).scale(complex(c.flat[0]))
    if c.ndim == 2 and shape[0] == shape[1] and np.allclose(c, np.eye(shape[0]) * c[0, 0], atol=1e-14):
        return eye(shape[0]).scale(complex(c[0, 0]))
    if len(nz) <= 1:
        out = tuple(group_of(n) for n in shape)
        at = []
        for p, k in enumerate(nz[0]):
            if shape[p] > 1:
                at.append((basis_atom(shape[p], int(k)).id, False, (out[p],)))
        return Sym(shape, [(complex(c[tuple(nz[0])]), {}, tuple(at), out)])
    a = const_atom(c)
    return atom_value(a, shape)


def expand_const(sym):
    """write const atoms out as sums of basis vectors"""
    sym = sym.norm()
    res = []
    for n, m, a, o in sym.terms:
        parts = [[(n, ())]]
        ok = True
        for (aid, cj, axes) in a:
            at = ATOMS[aid]
            if at.kind == "const" or aid in _regroups() or at.kind == "sel":
                arr = at.info if at.kind == "const" else at.sample(None)
                lst = []
                for idx in np.argwhere(np.abs(arr) > 1e-14):
                    v = complex(arr[tuple(idx)])
                    if cj:
                        v = v.conjugate()
                    lst.append((v, tuple((basis_atom(arr.shape[p], int(k)).id, False, (axes[p],))
                                         for p, k in enumerate(idx))))
                parts.append(lst)
            else:
                parts.append([(1.0, ((aid, cj, axes),))])
        tot = 1
        for p in parts:
            tot *= len(p)
        if tot > 4096:
            raise DomainError("constant expansion too large")
        for combo in itertools.product(*parts):
            z = 1.0
            at = ()
            for v, t in combo:
                z = z * v
                at = at + t
            res.append((z, m, at, o))
    return Sym(sym.shape, res)


def _regroups():
    return {a.id for a in ATOMS if a.key[0] == "regroup"}


# ------------------------------------------------------------------ einsum on Syms
MAXTERMS = 1200


def opaque(s):
    """name a large value: it stays exactly determined (its terms are kept for evaluation) but is
    no longer expanded"""
    s = s.norm()
    if len(s.terms) <= 1:
        return s
    dims = tuple(n for n in s.shape if n != 1)
    a = atom(("opaque", s.key()), dims, name="#%d" % len(ATOMS), sample=lambda ev, s=s: ev.sym(s))
    return atom_value(a, s.shape)


def einsum(ops, labels, outlab):
    """ops: list of Sym; labels: list of lists of labels; outlab list.
    Axis of size 1 broadcasts against size n for the same label only if listed
    through `bcast`."""
    dims = {}
    for s, ls in zip(ops, labels):
        if len(ls) != len(s.shape):
            raise ShapeError("einsum rank mismatch")
        for n, l in zip(s.shape, ls):
            if l in dims and dims[l] != n:
                if dims[l] == 1:
                    dims[l] = n
                elif n != 1:
                    raise ShapeError("dimension mismatch %d vs %d" % (dims[l], n))
            else:
                dims.setdefault(l, n)
    shape = tuple(dims[l] for l in outlab)
    ops = [s.norm() for s in ops]
    while True:
        tot = 1
        for s in ops:
            tot *= max(1, len(s.terms))
        if tot <= MAXTERMS:
            break
        big = max(range(len(ops)), key=lambda i: len(ops[i].terms))
        ops[big] = opaque(ops[big])
    res = []
    for combo in itertools.product(*[s.terms for s in ops]):
        num = 1.0
        mono = {}
        atoms = []
        outs = []
        for t in combo:
            num = num * t[0]
            mono = mono_mul(mono, t[1])
            a, o = fresh(t[2], t[3])
            atoms.extend(a)
            outs.append(o)
        net = Net(atoms, ())
        groups = []
        where = {}
        for o, ls, s in zip(outs, labels, ops):
            for g, l, n in zip(o, ls, s.shape):
                if n == 1 and dims[l] != 1:
                    where.setdefault(l, [])
                    continue
                where.setdefault(l, []).append(len(groups))
                groups.append(g)
        for l, lst in where.items():
            for x in lst[1:]:
                net.unify(lst[0], x, groups)
        # a later unification can substitute wires in earlier groups: groups is kept up to date
        out = tuple(groups[where[l][0]] if where.get(l) else group_of(dims[l]) for l in outlab)
        # free summed wires
        used = wires_of(net.atoms, out)
        f = 1
        seen = set()
        for l, lst in where.items():
            if l in outlab or not lst:
                continue
            for w in groups[lst[0]]:
                if w not in used and w not in seen:
                    seen.add(w)
                    f *= DIM[w]
        res.append((num * f, mono, tuple(net.atoms), out))
    s = Sym(shape, res)
    return s.norm()


def outer(a, b):
    n = len(a.shape)
    la = list(range(n))
    lb = list(range(n, n + len(b.shape)))
    return einsum([a, b], [la, lb], la + lb)


def transpose(s, perm):
    perm = list(perm)
    return Sym(tuple(s.shape[p] for p in perm),
               [(n, m, a, tuple(o[p] for p in perm)) for n, m, a, o in s.terms])


def reshape(s, shape):
    shape = tuple(shape)
    if int(np.prod(shape, dtype=object)) != int(np.prod(s.shape, dtype=object)):
        raise ShapeError("cannot reshape %s into %s" % (s.shape, shape))
    if 0 in shape:
        return zero(shape)
    res = []
    for n, m, a, o in s.terms:
        flat = tuple(w for g in o for w in g)
        net = Net(a, ())
        groups = [flat]
        new = split_group(net, groups, 0, shape)
        res.append((n, m, tuple(net.atoms), tuple(new)))
    return Sym(shape, res)


def contract_vec(s, axis, vec_atom):
    """contract axis with a one-axis atom"""
    res = []
    for n, m, a, o in s.terms:
        g = o[axis]
        res.append((n, m, a + ((vec_atom.id, False, (g,)),), o[:axis] + o[axis + 1:]))
    return Sym(s.shape[:axis] + s.shape[axis + 1:], res)


def take(s, axis, k):
    n = s.shape[axis]
    if k < -n or k >= n:
        raise IndexError("index %d is out of bounds for axis %d with size %d" % (k, axis, n))
    k %= n
    if n == 1:
        return Sym(s.shape[:axis] + s.shape[axis + 1:],
                   [(c, m, a, o[:axis] + o[axis + 1:]) for c, m, a, o in s.terms])
    return contract_vec(s, axis, basis_atom(n, k))


def select(s, axis, idx):
    n = s.shape[axis]
    idx = [int(i) for i in idx]
    m_ = len(idx)
    if idx == list(range(n)):
        return s
    if m_ == 0:
        return zero(s.shape[:axis] + (0,) + s.shape[axis + 1:])
    if m_ == 1:
        t = take(s, axis, idx[0])
        return Sym(t.shape[:axis] + (1,) + t.shape[axis:],
                   [(c, m, a, o[:axis] + ((),) + o[axis:]) for c, m, a, o in t.terms])
    res = []
    contiguous = idx == list(range(idx[0], idx[0] + m_))
    for c, m, a, o in s.terms:
        g = o[axis]
        # aligned block: fix the leading wires
        if contiguous and n % m_ == 0 and idx[0] % m_ == 0:
            pre = 0
            tot = 1
            while pre < len(g) and tot * m_ < n and (n // m_) % (tot * DIM[g[pre]]) == 0:
                tot *= DIM[g[pre]]
                pre += 1
            if tot * m_ == n:
                k = idx[0] // m_
                e = basis_atom(tot, k)
                res.append((c, m, a + ((e.id, False, (g[:pre],)),), o[:axis] + (g[pre:],) + o[axis + 1:]))
                continue
        nw = (wire(m_),)
        at = sel_atom(n, idx)
        res.append((c, m, a + ((at.id, False, (g, nw)),), o[:axis] + (nw,) + o[axis + 1:]))
    return Sym(s.shape[:axis] + (m_,) + s.shape[axis + 1:], res)


def embed(s, axis, n, idx):
    """inverse of select: place s along positions idx of a new axis of size n"""
    idx = [int(i) for i in idx]
    if idx == list(range(n)):
        return s
    m_ = len(idx)
    res = []
    if m_ == 0:
        return zero(s.shape[:axis] + (n,) + s.shape[axis + 1:])
    for c, m, a, o in s.terms:
        g = o[axis]
        if m_ == 1:
            if n == 1:
                ng = ()
                na = a
            else:
                ng = (wire(n),)
                na = a + ((basis_atom(n, idx[0]).id, False, (ng,)),)
            res.append((c, m, na, o[:axis] + (ng,) + o[axis + 1:]))
            continue
        ng = (wire(n),)
        at = sel_atom(n, idx)
        res.append((c, m, a + ((at.id, False, (ng, g)),), o[:axis] + (ng,) + o[axis + 1:]))
    return Sym(s.shape[:axis] + (n,) + s.shape[axis + 1:], res)


def embed_block(s, axis, nblocks, k):
    """place s as the k-th of nblocks equal blocks along axis (block index leading)"""
    res = []
    for c, m, a, o in s.terms:
        g = o[axis]
        if nblocks == 1:
            return s
        w = wire(nblocks)
        res.append((c, m, a + ((basis_atom(nblocks, k).id, False, ((w,),)),), o[:axis] + ((w,) + g,) + o[axis + 1:]))
    return Sym(s.shape[:axis] + (s.shape[axis] * nblocks,) + s.shape[axis + 1:], res)


def stack(parts, axis=0):
    """new axis of len(parts)"""
    n = len(parts)
    shape = parts[0].shape
    for p in parts:
        if p.shape != shape:
            raise ShapeError("stack of different shapes %s %s" % (p.shape, shape))
    if axis < 0:
        axis += len(shape) + 1
    res = []
    for k, p in enumerate(parts):
        for c, m, a, o in p.terms:
            a, o = fresh(a, o)
            if n == 1:
                res.append((c, m, a, o[:axis] + ((),) + o[axis:]))
            else:
                w = wire(n)
                res.append((c, m, a + ((basis_atom(n, k).id, False, ((w,),)),), o[:axis] + ((w,),) + o[axis:]))
    return Sym(shape[:axis] + (n,) + shape[axis:], res).norm()


def concatenate(parts, axis=0):
    nd = len(parts[0].shape)
    if axis < 0:
        axis += nd
    for p in parts:
        if len(p.shape) != nd or any(p.shape[i] != parts[0].shape[i] for i in range(nd) if i != axis):
            raise ShapeError("all the input array dimensions except for the concatenation axis must match exactly")
    sizes = [p.shape[axis] for p in parts]
    tot = sum(sizes)
    shape = parts[0].shape[:axis] + (tot,) + parts[0].shape[axis + 1:]
    live = [p for p in parts if p.shape[axis] > 0]
    if not live:
        return zero(shape)
    if len(live) == 1:
        return live[0]
    if len(set(p.shape[axis] for p in live)) == 1:
        res = zero(shape)
        for k, p in enumerate(live):
            res = res.add(embed_block(p, axis, len(live), k))
        return Sym(shape, res.terms).norm()
    off = 0
    acc = []
    for p in parts:
        n = p.shape[axis]
        if n:
            acc.extend(embed(p, axis, tot, range(off, off + n)).terms)
        off += n
    return Sym(shape, acc).norm()


def sum_axes(s, axes):
    axes = {a % len(s.shape) for a in axes}
    lab = list(range(len(s.shape)))
    return einsum([s], [lab], [l for l in lab if l not in axes])


# ------------------------------------------------------------------ scalars algebra
def power(s, e):
    """scalar value ** Fraction"""
    e = Fraction(e)
    s = s.norm()
    if s.shape != ():
        raise DomainError("power of array")
    if not s.terms:
        if e > 0:
            return scalar(0)
        raise ZeroDivisionError
    if e.denominator == 1 and e > 0:
        r = s
        for _ in range(int(e) - 1):
            r = einsum([r, s], [[], []], [])
        return r
    if len(s.terms) == 1:
        n, m, a, o = s.terms[0]
        assert not a
        n = complex(n)
        if e.denominator == 1 or (abs(n.imag) <= 1e-13 * abs(n) and n.real > 0 and _distributes(m)):
            return Sym((), [(n ** float(e) if e.denominator > 1 else n ** int(e), {k: x * e for k, x in m.items()}, (), ())])
    elif e.denominator == 1:
        n, sid = scalar_as_factor(s)
        return Sym((), [(complex(n) ** int(e), {sid: e}, (), ())])
    # roots: only a positive number may be pulled out of the root
    n = abs(complex(s.terms[0][0]))
    t = s.scale(1 / n).norm()
    return Sym((), [(n ** float(e), {SCAL.sum(t.key(), t): e}, (), ())])


_PROBES = []
_nonneg = {}


def nonneg(sid):
    """is the scalar factor real and non-negative at every probe"""
    if sid not in _nonneg:
        while len(_PROBES) < 10:
            _PROBES.append(Evaluator(9000 + len(_PROBES)))
        ok = True
        for ev in _PROBES:
            try:
                v = complex(ev.scalar(sid))
            except np.linalg.LinAlgError:
                ok = False
                break
            if not (abs(v.imag) <= 1e-9 * (abs(v) + 1e-300) and v.real >= 0):
                ok = False
                break
        _nonneg[sid] = ok
    return _nonneg[sid]


def _distributes(m):
    """(prod f^x)^e = prod f^(x e) for roots: every factor is non-negative or comes together with its conjugate"""
    for k, x in m.items():
        if nonneg(k):
            continue
        try:
            n, c = SCAL.conj(k)
        except DomainError:
            return False
        if c == k or m.get(c) != x or abs(complex(n) - 1) > 1e-12:
            return False
    return True


# ------------------------------------------------------------------ numeric reading of extracted terms
class Evaluator:
    """assigns values to atoms and evaluates *extracted terms* (never the program);
    used to confirm that two different normal forms really denote different values"""

    def __init__(self, seed):
        self.rng = np.random.RandomState(seed)
        self.vals = {}
        self.scal = {}

    def atom(self, aid):
        if aid not in self.vals:
            a = ATOMS[aid]
            if a.sample is not None:
                v = np.asarray(a.sample(self), dtype=complex)
            else:
                v = self.rng.randn(*a.dims) + (0 if a.real else 1j * self.rng.randn(*a.dims))
                if a.herm is not None:
                    v = (v + np.transpose(v.conj(), a.herm)) / 2
            self.vals[aid] = np.asarray(v).reshape(a.dims)
        return self.vals[aid]

    def net(self, atoms, out):
        # sequential pairwise contraction
        ops = []
        for aid, cj, axes in atoms:
            v = self.atom(aid)
            if cj:
                v = v.conj()
            ws = [w for g in axes for w in g]
            v = v.reshape([DIM[w] for w in ws])
            # repeated wires inside an atom -> diagonal
            v, ws = _diag(v, ws)
            ops.append((v, ws))
        outw = [w for g in out for w in g]
        uniq = []
        for w in outw:
            if w not in uniq:
                uniq.append(w)
        for w in uniq:
            if not any(w in ws for _, ws in ops):
                ops.append((np.ones(DIM[w], complex), [w]))
        if not ops:
            res, ws = np.array(1.0 + 0j), []
        else:
            cur, cw = ops[0]
            rest = ops[1:]
            while rest:
                # choose operand sharing most wires
                best = max(range(len(rest)), key=lambda q: (len(set(rest[q][1]) & set(cw)), -rest[q][0].size))
                v, ws = rest.pop(best)
                keep = set(uniq)
                for _, w2 in rest:
                    keep.update(w2)
                lab = {}
                for w in list(cw) + list(ws):
                    lab.setdefault(w, len(lab))
                ow = [w for w in lab if w in keep]
                cur = np.einsum(cur, [lab[w] for w in cw], v, [lab[w] for w in ws], [lab[w] for w in ow])
                cw = ow
            lab = {w: i for i, w in enumerate(cw)}
            res = np.einsum(cur, [lab[w] for w in cw], [lab[w] for w in uniq])
            ws = uniq
        # deltas for repeated out wires
        if len(outw) != len(uniq):
            full = np.zeros([DIM[w] for w in outw], complex)
            for idx in itertools.product(*[range(DIM[w]) for w in uniq]):
                d = dict(zip(uniq, idx))
                full[tuple(d[w] for w in outw)] = res[idx]
            res = full
        return res.reshape([gdim(g) for g in out])

    def scalar(self, sid):
        if sid not in self.scal:
            kind, d = SCAL.defs[sid]
            if kind == "net":
                self.scal[sid] = complex(self.net(d, ()))
            else:
                self.scal[sid] = complex(self.sym(d))
        return self.scal[sid]

    def sym(self, s):
        tot = np.zeros(s.shape, complex)
        for n, m, a, o in s.terms:
            z = complex(n)
            for k, e in m.items():
                z = z * self.scalar(k) ** (int(e) if Fraction(e).denominator == 1 else float(e))
            tot = tot + z * self.net(a, o).reshape(s.shape)
        return tot


def _diag(v, ws):
    while True:
        for i, w in enumerate(ws):
            if w in ws[i + 1:]:
                j = ws.index(w, i + 1)
                v = np.diagonal(v, axis1=i, axis2=j)
                ws = [x for q, x in enumerate(ws) if q not in (i, j)] + [w]
                break
        else:
            return v, ws


STATS = {"normal": 0, "expanded": 0, "evaluated": 0}


def equal(a, b, seed=0):
    """are two values equal?  returns (bool, how)"""
    if a.shape != b.shape:
        return False, "shape %s vs %s" % (a.shape, b.shape)
    d = Sym(a.shape, a.terms + b.scale(-1).terms).norm()
    if not d.terms:
        STATS["normal"] += 1
        return True, "normal form"
    # different normal forms: look for a separating reading of the terms
    same = True
    try:
        for k in range(2):
            ev = Evaluator(seed + 17 * k + 1)
            x, y = ev.sym(a.norm()), ev.sym(b.norm())
            if not np.allclose(x, y, rtol=1e-6, atol=1e-8 * max(1.0, np.abs(y).max() if y.size else 1)):
                same = False
                break
    except np.linalg.LinAlgError:
        raise DomainError("degenerate evaluation")
    if same:
        STATS["evaluated"] += 1
        return True, "term evaluation"
    return False, "terms differ"
