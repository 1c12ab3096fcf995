"""Structural grid: chain lengths, local dimensions and bond profiles the abstract inputs range over.

Besides a fixed base grid the boundary values of the *analysed code* are added: every integer literal
that the functions reachable from the entry point compare something with (or use in a modulus)
contributes itself and its neighbours, so that a branch on a size is entered from both sides."""
from __future__ import annotations
import ast, itertools
from . import interp as I


def functions_of(it, mods):
    out = {}
    for m in mods:
        mod = it.mod(m)
        for n in ast.walk(mod.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.setdefault(n.name, []).append((m, n))
    return out


_hc = {}


def harvest(it, entry, mods=("fMPS", "tensor", "ncon"), limit=14):
    """integer literals in comparisons of functions reachable (by name) from entry"""
    key = (id(it), entry, tuple(mods))
    if key in _hc:
        return _hc[key]
    mod, q = entry.split(":")
    mods = tuple(dict.fromkeys((mod,) + tuple(mods)))
    fs = functions_of(it, mods)
    todo = [q.split(".")[-1]]
    seen = set()
    vals = set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        for m, f in fs.get(n, []):
            for x in ast.walk(f):
                if isinstance(x, ast.Compare):
                    for y in [x.left] + list(x.comparators):
                        for z in ast.walk(y):
                            if isinstance(z, ast.Constant) and type(z.value) is int:
                                vals.add(z.value)
                elif isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Mod, ast.FloorDiv)):
                    for z in ast.walk(x.right):
                        if isinstance(z, ast.Constant) and type(z.value) is int:
                            vals.add(z.value)
                elif isinstance(x, ast.Call):
                    f2 = x.func
                    nm = f2.attr if isinstance(f2, ast.Attribute) else (f2.id if isinstance(f2, ast.Name) else None)
                    if nm in ("min", "max"):
                        for z in x.args:
                            if isinstance(z, ast.Constant) and type(z.value) is int:
                                vals.add(z.value)
                    if nm in fs and nm not in seen:
                        todo.append(nm)
                elif isinstance(x, (ast.Attribute, ast.Name)):
                    nm = x.attr if isinstance(x, ast.Attribute) else x.id
                    if nm in fs and nm not in seen:
                        todo.append(nm)
    r = sorted(v for v in vals if 0 <= v <= limit)
    _hc[key] = r
    return r


def lengths(it, entry, base=(2, 3, 4), cap=7, mods=("fMPS", "tensor", "ncon")):
    r = set(base)
    for v in harvest(it, entry, mods):
        if v >= 2:
            r.update(x for x in (v - 1, v, v + 1) if min(base) <= x <= cap)
    return sorted(r)


def values(it, entry, base, cap, mods=("fMPS", "tensor", "ncon"), lo=1):
    r = set(base)
    for v in harvest(it, entry, mods):
        r.update(x for x in (v, v + 1) if lo <= x <= cap)
    return sorted(r)


def profiles(L, d, extra=()):
    """bond profiles of an open chain: growing/uneven, flat, product, above the Schmidt bound"""
    def clip(v):
        return [min(x, 4) for x in v]
    up = [min(d ** (i + 1), d ** (L - 1 - i), 3 if i % 2 else 2 + (i % 3 == 0)) for i in range(L - 1)]
    out = [up]
    out.append([2 + (i % 2) for i in range(L - 1)])          # uneven, not Schmidt bounded
    out.append([1] * (L - 1))
    out.append([1 if i % 2 else 2 for i in range(L - 1)])
    for e in extra:
        out.append([e] * (L - 1))
    seen, r = set(), []
    for p in out:
        if tuple(p) not in seen:
            seen.add(tuple(p))
            r.append(p)
    return r


def pstr(L, d, p):
    return "L=%d d=%d bonds=%s" % (L, d, ",".join(map(str, p)))


def thresholds(it, entries, mods=("fMPS", "tensor", "ncon"), lo=3, limit=5000):
    r = set()
    for e in entries:
        r.update(v for v in harvest(it, e, mods, limit) if v >= lo)
    return sorted(r)


def wide(it, entries, mods=("fMPS", "tensor", "ncon"), lo=3, maxL=14, maxD=40, thin=24):
    """chains (L, d, bonds) on both sides of every size literal v >= lo the analysed functions compare with; long chains
    have a trivial local dimension beyond maxL, and a single bond of dimension two beyond `thin` sites"""
    Ls, Ds, ds = set(), set(), set()
    for v in thresholds(it, entries, mods, lo):
        for x in (v, v + 1, v + 2):
            if 5 <= x <= 24:
                Ls.add(x)
            if 4 <= x <= maxD:
                Ds.add(x)
            if 4 <= x <= 12:
                ds.add(x)
        if v > 12:      # totals: d**L, entries of a tensor
            n = v.bit_length() + 1
            if 5 <= n <= maxL:
                Ls.add(n)
            n = int((v / 2) ** .5) + 1
            if 4 <= n <= maxD:
                Ds.add(n)
    r = [(L, 2 if L <= maxL else 1, [2 if L <= thin or i == L // 2 else 1 for i in range(L - 1)]) for L in sorted(Ls)]
    for D in sorted(Ds):
        r.append((3, 2, [D, D]))
        if D <= 16:
            r.append((2, D, [D]))
    r += [(3, d, [2, 2]) for d in sorted(ds)]
    return r


def more(entries, mods=("fMPS", "tensor", "ncon"), lo=5, cap=12):
    """values v, v+1 for every size literal v >= lo the functions reachable from the entries compare with"""
    it = I.Interp()
    r = set()
    for v in thresholds(it, entries, mods, lo):
        r.update(x for x in (v, v + 1) if x <= cap)
    return sorted(r)
