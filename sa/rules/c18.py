"""Operator index bookkeeping: the index functions are evaluated for all indices of all local dimensions in the grid and selected in a
Kronecker product of abstract, unequal factors; the splitting functions are applied to an abstract operator of the product space."""
import itertools
from .common import *

FLOOR = 20


def kron(ops):
    n = len(ops)
    w = tn.einsum([nd.symof(o) for o in ops], [[("r", j), ("c", j)] for j in range(n)], [("r", j) for j in range(n)] + [("c", j) for j in range(n)])
    R = C = 1
    for o in ops:
        R *= o.shape[0]
        C *= o.shape[1]
    return nd.wrap(tn.reshape(w, (R, C)), "c", scalar=False)


def obligations(tier):
    obs = []
    big = tier != "quick"

    def add(name, entry, fn, **kw):
        obs.append(Ob(name, "tensor:" + entry, lambda it: fn(it, it.mod("tensor").vars), **kw))

    def pick(op, idx):
        return nd.symof(nd.getitem(op, tuple(int(i) for i in idx)))

    for d in (1, 2, 3, 4) + tuple(v for v in grid.more(["tensor:loc", "tensor:split_up"], ("tensor",), cap=7)):
        def two(it, v, d=d):
            A, B = spec.tensor((d, d), "A"), spec.tensor((d, d), "B")
            K = kron([A, B])
            out, seen = [], set()
            for st, uv in v["basis_iterator"](d):
                st, uv = tuple(st), tuple(uv)
                seen.add((st, uv))
                ref = tn.outer(pick(A, st), pick(B, uv))
                for f in ("loc", "p"):
                    i = v[f](st, uv, d)
                    out.append(check(spec.eq(nd.getitem(K, tuple(i)), ref), "element", "%s(%s, %s, %d)" % (f, st, uv, d)))
            out.append(check(len(seen) == d ** 4, "basis", "the two-site iterator visits %d index pairs" % len(seen)))
            one = [tuple(x) for x in v["single_basis_iterator"](d)]
            out.append(check(sorted(one) == sorted(itertools.product(range(d), range(d))), "basis", "the one-site iterator visits %s" % one))
            again = [tuple(map(tuple, x)) for x in v["basis_iterator"](d)]
            out.append(check(len(again) == d ** 4 and set(again) == set(itertools.product(itertools.product(range(d), range(d)), repeat=2)), "basis", "basis of dimension %d" % d))
            return out
        add("loc d=%d" % d, "loc", two)

        def three(it, v, d=d):
            ops = [spec.tensor((d, d), n) for n in "ABC"]
            K = kron(ops)
            out = []
            ij = list(itertools.product(range(d), range(d)))
            for a, b, c in itertools.product(ij, repeat=3):
                if d > 2 and (a[0] + 2 * b[1] + c[0]) % 3:
                    continue       # a third of the indices for the larger dimension
                i = v["loc_3"](a, b, c, d)
                out.append(check(spec.eq(nd.getitem(K, tuple(i)), tn.outer(tn.outer(pick(ops[0], a), pick(ops[1], b)), pick(ops[2], c))), "element", "loc_3(%s, %s, %s, %d)" % (a, b, c, d)))
            return [o for o in out if o]
        if d < 4:
            add("loc_3 d=%d" % d, "loc_3", three)

        def split2(it, v, d=d):
            H = spec.tensor((d * d, d * d), "H")
            ref = tn.transpose(tn.reshape(H.sym(), (d, d, d, d)), (1, 0, 3, 2))
            return [check(spec.eq(v["split_up"](H, d), ref), "operator", "split_up(H, %d) is not H with its factors separated" % d), check(spec.eq(v["split_up"](H, d, 7, 5), ref), "operator", "split_up(H, %d) depends on the ignored sizes" % d)]
        add("split_up d=%d" % d, "split_up", split2)

        def split3(it, v, d=d):
            H = spec.tensor((d ** 3, d ** 3), "H")
            ref = tn.transpose(tn.reshape(H.sym(), (d,) * 6), (0, 3, 1, 4, 2, 5))
            return [check(spec.eq(v["split_up_3"](H, d), ref), "operator", "split_up_3(H, %d) is not H with its factors separated" % d)]
        if d < 4:
            add("split_up_3 d=%d" % d, "split_up_3", split3)

        def products(it, v, d=d):
            A, B, C = [spec.tensor((d, d), n) for n in "ABC"]
            s2 = nd.symof(v["split_up"](kron([A, B]), d))
            out = [check(spec.eq(s2, spec.einsum("ab,cd->cadb", A, B)), "product", "split_up of a product")]
            if d < 3:
                s3 = nd.symof(v["split_up_3"](kron([A, B, C]), d))
                out.append(check(spec.eq(s3, spec.einsum("ab,cd,ef->abcdef", A, B, C)), "product", "split_up_3 of a product"))
            return out
        add("split products d=%d" % d, "split_up", products)

    for d, p, q in [(2, 3, 3), (2, 2, 3), (3, 2, 1), (2, 1, 4), (3, 3, 2), (1, 2, 3)] + ([(4, 2, 3), (3, 4, 3)] if big else []) + [x for v in grid.more(["tensor:loc", "tensor:p", "tensor:split_up"], ("tensor",), cap=9) for x in ((2, v, 2), (2, 2, v))]:
        def pq(it, v, d=d, p=p, q=q):
            A, B = spec.tensor((d, d), "A"), spec.tensor((p, q), "B")
            K = kron([A, B])
            out = []
            for i, j, k, l in itertools.product(range(d), range(d), range(p), range(q)):
                out.append(check(spec.eq(nd.getitem(K, tuple(v["loc"]((i, j), (k, l), None, p, q))), tn.outer(pick(A, (i, j)), pick(B, (k, l)))), "element", "loc((%d, %d), (%d, %d), None, %d, %d)" % (i, j, k, l, p, q)))
            H = spec.tensor((d * p, d * q), "H")
            ref = tn.transpose(tn.reshape(H.sym(), (d, p, d, q)), (1, 0, 3, 2))
            out.append(check(spec.eq(v["split_up"](H, None, p, q), ref), "operator", "split_up(H, None, %d, %d) is not H with its factors separated" % (p, q)))
            return [o for o in out if o]
        add("loc d=%d p=%d q=%d" % (d, p, q), "loc", pq)

    def sizes(it, v):
        out = []
        for f, a in (("loc", ((0, 0), (0, 0))), ("p", ((0, 0), (0, 0)))):
            try:
                v[f](*a)
                out.append(Fail("accepted", "%s without a dimension" % f))
            except nd.Raise:
                pass
        return out
    add("dimension needed", "loc", sizes)
    return obs
