"""Network contraction: label assignments are enumerated (all pairings of the legs of up to four tensors with up to five legs in all,
and structured larger networks), the contraction routine is followed in the source for each contraction order, order of the open legs
and input form, and its value is compared with the sum over the positive labels.  Label lists changed in one place are classified by
an independent consistency test: inconsistent ones must be rejected."""
import random
from .common import *

FLOOR = 25
ASSUMPTIONS = ["order, if given, names every positive label once; forder, if given, every negative label once (as documented)"]
DIMS = [2, 3, 1, 4, 5, 2]


def pairings(legs):
    """all sets of disjoint pairs"""
    if not legs:
        yield []
        return
    a, rest = legs[0], legs[1:]
    for m in pairings(rest):
        yield m
    for i, b in enumerate(rest):
        for m in pairings(rest[:i] + rest[i + 1:]):
            yield [(a, b)] + m


def build(ranks, pairs, names, neg):
    """labels and dimensions of a network; legs are numbered through"""
    own = [i for i, r in enumerate(ranks) for _ in range(r)]
    n = len(own)
    lab, dim = [None] * n, [None] * n
    for k, (a, b) in enumerate(pairs):
        lab[a] = lab[b] = names[k]
        dim[a] = dim[b] = DIMS[k % len(DIMS)]
    opened = [i for i in range(n) if lab[i] is None]
    for k, i in enumerate(opened):
        lab[i] = neg[k]
        dim[i] = DIMS[(k + len(pairs)) % len(DIMS)]
    v, shapes, j = [], [], 0
    for r in ranks:
        v.append(lab[j:j + r])
        shapes.append(tuple(dim[j:j + r]))
        j += r
    return v, shapes


def value(T, v, forder=None):
    neg = sorted({x for l in v for x in l if x < 0}, reverse=True) if forder is None else list(forder)
    return tn.einsum([nd.symof(t) for t in T], [list(l) for l in v], neg)


def consistent(shapes, v):
    if len(shapes) != len(v) or any(len(s) != len(l) for s, l in zip(shapes, v)):
        return False
    at = {}
    for s, l in zip(shapes, v):
        for n, x in zip(s, l):
            at.setdefault(x, []).append(n)
    for x, ns in at.items():
        if x == 0 or (x > 0 and (len(ns) != 2 or ns[0] != ns[1])) or (x < 0 and len(ns) != 1):
            return False
    return True


def name(ranks):
    return ",".join(map(str, ranks)) or "none"


def obligations(tier):
    obs = []
    big = tier != "quick"

    def add(nm, fn, **kw):
        obs.append(Ob(nm, "ncon:ncon", fn, **kw))

    def got(it, what, T, v, ref, *a, form=0, **k):
        f = it.mod("ncon").vars["ncon"]
        T_, v_ = list(T), [list(l) for l in v]
        given = (T_, v_)
        if form == 1:
            given = (tuple(T_), tuple(tuple(l) for l in v_))
        elif form == 2 and len(T_) == 1:
            given = (T_[0], list(v_[0]))
        o = k.get("order")
        fo = k.get("forder")
        keep = (list(o) if o is not None else None, list(fo) if fo is not None else None)
        r = nd.symof(f(*given, *a, **k))
        out = []
        if r.shape != ref.shape:
            out.append(Fail("legs", "%s: shape %s instead of %s" % (what, r.shape, ref.shape)))
        else:
            out.append(check(spec.eq(r, ref), "value", what))
        out.append(check(len(T_) == len(T) and all(x is y for x, y in zip(T_, T)) and v_ == [list(l) for l in v], "operand", "%s: the lists of tensors or labels were changed" % what))
        out.append(check((o is None or list(o) == keep[0]) and (fo is None or list(fo) == keep[1]), "operand", "%s: the order lists were changed" % what))
        return [x for x in out if x]

    ranks_ = [(0,), (1,), (2,), (3,), (4,), (1, 1), (2, 1), (0, 2), (2, 2), (3, 2), (0, 0), (1, 0, 1), (2, 1, 2), (1, 1, 1), (1, 2, 1, 1), (1, 1, 1, 1), (2, 0, 2)]
    if big:
        ranks_ += [(3, 3), (4, 2), (2, 2, 2), (5,), (6,), (3, 1, 2), (2, 2, 1, 1), (3, 2, 0, 1), (2, 1, 1, 1, 1)]
    for ranks in ranks_:
        def all_orders(it, ranks=ranks):
            out = []
            n = sum(ranks)
            rnd = random.Random(sum(ranks) * 31 + len(ranks))
            for pairs in pairings(list(range(n))):
                k = len(pairs)
                pos = rnd.sample([1, 2, 3, 4, 7, 11], k)
                neg = rnd.sample([-1, -2, -3, -4, -5, -6, -9], n - 2 * k)
                v, shapes = build(ranks, pairs, pos, neg)
                T = [spec.tensor(s, "T%d" % i) for i, s in enumerate(shapes)]
                ref = value(T, v)
                what = "labels %s" % (v,)
                out += got(it, what, T, v, ref)
                for o in itertools.permutations(pos):
                    out += got(it, what + " order %s" % (o,), T, v, ref, order=list(o))
                if pos:
                    out += got(it, what + " unchecked, order as a tuple", T, v, ref, order=tuple(pos[::-1]), check_indices=False)
                for form in (1, 2):
                    out += got(it, what + (" as tuples" if form == 1 else " as a single tensor"), T, v, ref, form=form) if ranks and (form == 1 or ranks[0]) else []
                fo = neg[:]
                rnd.shuffle(fo)
                out += got(it, what + " final order %s" % fo, T, v, value(T, v, fo), forder=fo)
                out += got(it, what + " order %s final order %s" % (pos, fo), T, v, value(T, v, fo), pos, fo)
                if len(out) > 3:
                    break
            return out
        add("orders %s" % name(ranks), all_orders)

    # larger structured networks
    nets = {"ring": [[1, 2, -1], [2, 3, -2], [3, 4, -3], [4, 1, -4]],
            "sandwich": [[1, 2, 3], [4, 5, 2], [1, 4, 6, 7], [6, 8, 3], [7, 5, 8]],
            "double bonds": [[1, 2, 3], [1, 2, 4, 5], [3, 4, 5, -1]],
            "trace and bond": [[1, 1, 2], [2, 3, 3, -1]],
            "chain with gaps": [[-1, 12], [12, 5, -3], [5, -7]],
            "two networks": [[1, 2], [1, 2], [3, -2], [3, -1]],
            "three networks": [[1, 1], [2, -1, 2], [-3], []],
            "trace of a product": [[1, 2], [2, 3], [3, 1]]}
    for nm, v in nets.items():
        def network(it, v=v):
            out = []
            rnd = random.Random(7)
            labs = sorted({x for l in v for x in l})
            dim = {x: DIMS[i % len(DIMS)] if len(v) < 5 else 2 for i, x in enumerate(labs)}
            T = [spec.tensor(tuple(dim[x] for x in l), "T%d" % i) for i, l in enumerate(v)]
            ref = value(T, v)
            pos = [x for x in labs if x > 0]
            orders = list(itertools.permutations(pos))
            if len(orders) > (120 if big else 24):
                orders = rnd.sample(orders, 120 if big else 24)
            for o in orders:
                out += got(it, "labels %s order %s" % (v, o), T, v, ref, order=list(o))
            for k in range(4):
                w = v[:]
                S = T[:]
                z = list(range(len(v)))
                rnd.shuffle(z)
                out += got(it, "labels %s" % [v[i] for i in z], [T[i] for i in z], [v[i] for i in z], ref)
            return out
        add("network " + nm, network)

    # rejection
    for ranks in [(2,), (3,), (1, 1), (2, 2), (3, 2), (2, 1, 2)] + ([(4,), (3, 3), (2, 2, 2), (1, 2, 1, 1)] if big else []):
        def rejected(it, ranks=ranks):
            out = []
            f = it.mod("ncon").vars["ncon"]
            n = sum(ranks)
            rnd = random.Random(5)
            cases = list(pairings(list(range(n))))
            if len(cases) > 12:
                cases = rnd.sample(cases, 12)
            for pairs in cases:
                v, shapes = build(ranks, pairs, list(range(1, 7)), [-1, -2, -3, -4, -5, -6])
                variants = []
                for i, l in enumerate(v):
                    variants.append((v[:i] + [l[:-1]] + v[i + 1:], shapes))
                    variants.append((v[:i] + [l + [-8]] + v[i + 1:], shapes))
                    variants.append((v[:i] + v[i + 1:], shapes))
                    for j in range(len(l)):
                        for x in sorted({x for m in v for x in m} | {9, -9}):
                            variants.append((v[:i] + [l[:j] + [x] + l[j + 1:]] + v[i + 1:], shapes))
                        s = shapes[i]
                        variants.append((v, shapes[:i] + [s[:j] + (s[j] + 1,) + s[j + 1:]] + shapes[i + 1:]))
                variants.append((v + [[]], shapes))
                for w, sh in variants:
                    if not w or not w[0] or not all(w):
                        continue
                    T = [spec.tensor(s, "T%d" % i) for i, s in enumerate(sh)]
                    good = consistent(sh, w)
                    try:
                        r = nd.symof(f(T, [list(l) for l in w]))
                    except nd.Raise as e:
                        if good:
                            out.append(Fail("rejected", "labels %s of shapes %s are rejected: %s" % (w, sh, e.msg)))
                        continue
                    if not good:
                        out.append(Fail("accepted", "labels %s of shapes %s are accepted" % (w, sh)))
                    elif not spec.eq(r, value(T, w)):
                        out.append(Fail("value", "labels %s" % (w,)))
                if len(out) > 3:
                    break
            return out
        add("rejection %s" % name(ranks), rejected)
    return obs
