"""Leg grouping: for every permutation and every split of it into consecutive groups, the grouped abstract tensor is compared with the
reordered and merged tensor, and ungrouping with the returned description with the original tensor."""
import itertools
import math
from .common import *

FLOOR = 15


def partitions(n):
    """all ordered groupings of n legs"""
    for perm in itertools.permutations(range(n)):
        for cuts in range(2 ** (n - 1)):
            g, cur = [], [perm[0]]
            for k in range(1, n):
                if cuts >> (k - 1) & 1:
                    g.append(cur)
                    cur = []
                cur.append(perm[k])
            g.append(cur)
            yield g


def regroup(s, g):
    flat = [l for x in g for l in x]
    t = tn.transpose(s, tuple(flat))
    return tn.reshape(t, tuple(math.prod(s.shape[l] for l in x) for x in g))


def obligations(tier):
    obs = []
    big = tier != "quick"

    def add(name, entry, fn, **kw):
        obs.append(Ob(name, "peps_tools:" + entry, lambda it: fn(it, it.mod("peps_tools").vars), **kw))

    shapes = [(2,), (3, 2), (2, 2), (1, 3), (2, 3, 4), (2, 1, 3), (3, 3, 2), (2, 3, 2, 5), (1, 2, 3, 1), (2, 3, 1, 2, 4)] + ([(2, 2, 2, 2, 2), (3, 2, 4, 1, 5), (2, 3, 1, 2, 1, 4)] if big else []) + [x for v in grid.more(["peps_tools:group_legs", "peps_tools:ungroup_legs"], ("fPEPS", "peps_tools", "ncon", "tensor"), lo=3, cap=40) for x in ([(2, v, 3)] + ([(2,) * v] if v == 6 else []))]
    for shp in shapes:
        parts = list(partitions(len(shp)))
        if len(shp) == 5 and not big:
            parts = parts[::7]
        if len(shp) == 6:
            parts = parts[::13]

        def roundtrip(it, v, shp=shp, parts=parts):
            T = spec.tensor(shp, "T")
            s = T.sym()
            out = []
            for g in parts:
                arg = [list(x) for x in g]
                G, pipe = v["group_legs"](T, arg)
                out.append(check(spec.eq(G, regroup(s, g)), "grouping", "group_legs(%s) of shape %s" % (g, shp)))
                out.append(check(spec.eq(v["ungroup_legs"](G, pipe), s), "round trip", "ungrouping %s of shape %s" % (g, shp)))
                out.append(check(arg == [list(x) for x in g], "operand", "the list of groups changed"))
                out.append(check(spec.eq(T, s), "operand", "the tensor changed"))
            return [o for o in out if o]
        add("round trip %s" % (shp,), "group_legs", roundtrip)

        def resized(it, v, shp=shp, parts=parts):
            """legs that are alone in their group may change their dimension in between"""
            out = []
            for g in parts[:: max(1, len(parts) // 60)]:
                T = spec.tensor(shp, "T")
                _, pipe = v["group_legs"](T, [list(x) for x in g])
                new = list(shp)
                for x in g:
                    if len(x) == 1:
                        new[x[0]] += 1
                W = spec.tensor(tuple(new), "W")
                out.append(check(spec.eq(v["ungroup_legs"](nd.wrap(regroup(W.sym(), g), "c", scalar=False), pipe), W.sym()), "resized legs", "ungrouping %s after single legs changed from %s to %s" % (g, shp, tuple(new))))
            return [o for o in out if o]
        add("resized %s" % (shp,), "ungroup_legs", resized)

    for n in (1, 2, 3, 4, 5):
        def inverse(it, v, n=n):
            out = []
            for p in itertools.permutations(range(n)):
                q = [int(x) for x in v["inverse_transpose"](list(p))]
                out.append(check([p[x] for x in q] == list(range(n)) and [q[x] for x in p] == list(range(n)), "inverse", "inverse_transpose(%s) is %s" % (list(p), q)))
            return [o for o in out if o]
        add("inverse_transpose %d" % n, "inverse_transpose", inverse)

    def wrong(it, v):
        T = spec.tensor((2, 3, 2), "T")
        G, pipe = v["group_legs"](T, [[0, 1], [2]])
        try:
            v["ungroup_legs"](T, pipe)
            return [Fail("accepted", "a tensor of another number of legs is ungrouped")]
        except nd.Raise as e:
            return [check(e.exc is ValueError, "exception", "%s instead of ValueError" % e.exc)]
    add("wrong number of legs", "ungroup_legs", wrong)
    return obs
