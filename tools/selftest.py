#!/usr/bin/env python3
"""differential test of the domain: random sequences of array operations, once in the domain (normalised after every step or not)
and once with numpy on the sampled entries.  python3-vt tools/selftest.py [rounds] [seed]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import numpy as np
from sa import nd, tn, spec, interp as I, models as M
import random

T = M.T
R = random.Random()


def factor(n):
    """random factorisation of n into axes"""
    out = []
    m = n
    while m > 1:
        ds = [k for k in range(2, m + 1) if m % k == 0]
        k = R.choice(ds)
        out.append(k)
        m //= k
    for _ in range(R.choice([0, 0, 1])):
        out.insert(R.randrange(len(out) + 1), 1)
    R.shuffle(out)
    return tuple(out)


def rnd_index(shape):
    ix = []
    for n in shape:
        c = R.random()
        if c < .25:
            ix.append(R.randrange(-n, n))
        elif c < .5:
            a = R.randrange(0, n)
            ix.append(slice(a, R.randrange(a + 1, n + 1)))
        elif c < .6:
            ix.append(slice(None, None, -1))
        elif c < .7:
            ix.append(slice(R.randrange(0, n), None, 2))
        else:
            ix.append(slice(None))
    if R.random() < .2:
        ix.insert(R.randrange(len(ix) + 1), None)
    return tuple(ix)


def step(pool):
    """one random operation: list of (domain function, numpy function, operands)"""
    global LAST
    a, na = R.choice(pool)
    k = LAST = R.choice(["reshape", "transpose", "index", "concat", "stack", "tensordot", "einsum", "conj", "real", "trace", "diag", "kron", "add", "mul", "scale",
                  "matmul", "sum", "pad", "setitem", "svd", "swap", "moveaxis", "take", "split", "qr", "ravel", "eigh", "outer", "squeeze", "expand", "norm", "broadcast", "flip", "imag", "rep"])
    nd_ = na.ndim
    if k == "reshape":
        s = factor(na.size)
        return T["reshape"](a, s), na.reshape(s)
    if k == "transpose":
        p = list(range(nd_))
        R.shuffle(p)
        return T["transpose"](a, p), na.transpose(p)
    if k == "index" and nd_:
        ix = rnd_index(na.shape)
        return nd.getitem(a, ix), na[ix]
    if k == "take" and nd_:
        ax = R.randrange(nd_)
        ix = [R.randrange(na.shape[ax]) for _ in range(R.randint(1, 3))]
        return T["take"](a, ix, axis=ax), np.take(na, ix, axis=ax)
    if k in ("concat", "stack", "add", "mul"):
        same = [(b, nb) for b, nb in pool if nb.shape == na.shape]
        bs = [R.choice(same) for _ in range(R.randint(1, 3))]
        if k == "add":
            return nd.binop(R.choice("+"), a, bs[0][0]), na + bs[0][1]
        if k == "mul":
            return nd.binop("*", a, bs[0][0]), na * bs[0][1]
        if k == "stack":
            ax = R.randrange(nd_ + 1)
            return T["stack"]([x for x, _ in bs], axis=ax), np.stack([x for _, x in bs], axis=ax)
        if not nd_:
            return None
        ax = R.randrange(nd_)
        if R.random() < .5:
            c = R.choice([(b, nb) for b, nb in pool if nb.ndim == nd_ and all(nb.shape[q] == na.shape[q] for q in range(nd_) if q != ax)])
            bs.append(c)
        return T["concatenate"]([x for x, _ in bs], axis=ax), np.concatenate([x for _, x in bs], axis=ax)
    if k in ("tensordot", "einsum", "matmul", "kron", "outer"):
        b, nb = R.choice(pool)
        if k == "kron" and nd_ == 2 and nb.ndim == 2 and na.size * nb.size < 200:
            return T["kron"](a, b), np.kron(na, nb)
        if k == "matmul" and nd_ >= 1 and nb.ndim >= 1 and na.shape[-1] == nb.shape[max(0, nb.ndim - 2)] and (nd_ <= 2 and nb.ndim <= 3):
            return nd.matmul(a, b), na @ nb
        if k == "outer" and na.size * nb.size < 200:
            return T["outer"](a, b), np.outer(na, nb)
        if k == "einsum" and nd_ <= 4:
            p = list(range(nd_))
            lab = "abcd"[:nd_]
            lab2 = "".join(R.choice([x for x in lab if na.shape[lab.index(x)] == n] or ["z"]) if n in na.shape and R.random() < .5 else "wxyv"[i] for i, n in enumerate(nb.shape)) if nb.ndim <= 4 else None
            if lab2 is None:
                return None
            allb = list(dict.fromkeys(lab + lab2))
            out = [x for x in allb if R.random() < .6]
            R.shuffle(out)
            e = "%s,%s->%s" % (lab, lab2, "".join(out))
            return T["einsum"](e, a, b), np.einsum(e, na, nb)
        pairs = [(i, j) for i in range(nd_) for j in range(nb.ndim) if na.shape[i] == nb.shape[j]]
        R.shuffle(pairs)
        use = []
        for i, j in pairs[:2]:
            if all(i != x and j != y for x, y in use):
                use.append((i, j))
        if not use:
            return None
        ax = ([i for i, _ in use], [j for _, j in use])
        return T["tensordot"](a, b, ax), np.tensordot(na, nb, ax)
    if k == "conj":
        return nd.conj(a), na.conj()
    if k == "real":
        return nd.real(a), na.real
    if k == "imag":
        return nd.imag(a), na.imag
    if k == "trace" and nd_ >= 2:
        i, j = R.sample(range(nd_), 2)
        if na.shape[i] != na.shape[j]:
            return None
        o = R.choice([0, 0, 1]) if na.shape[i] > 1 else 0
        if o:
            return None
        return T["trace"](a, 0, i, j), np.trace(na, 0, i, j)
    if k == "diag" and nd_ in (1, 2):
        return T["diag"](a), np.diag(na)
    if k == "scale":
        z = complex(R.randint(-2, 2), R.randint(0, 1))
        return nd.binop("*", a, z), na * z
    if k == "sum" and nd_:
        ax = R.randrange(nd_)
        return T["sum"](a, axis=ax), na.sum(axis=ax)
    if k == "pad" and nd_ and na.size < 60:
        w = [(R.randint(0, 1), R.randint(0, 2)) for _ in range(nd_)]
        return T["pad"](a, w, "constant"), np.pad(na, w)
    if k == "setitem" and nd_:
        ix = tuple(i for i in rnd_index(na.shape) if i is not None)
        c = nd.to_arr(a).copy()
        nc = na.copy()
        z = R.randint(0, 3)
        sub = nc[ix]
        same = [(b, nb) for b, nb in pool if nb.shape == np.shape(sub) and (np.iscomplexobj(nc) or not np.iscomplexobj(nb))]
        if same and R.random() < .7:
            b, nb = R.choice(same)
            nd.setitem(c, ix, b)
            nc[ix] = nb
        else:
            nd.setitem(c, ix, z)
            nc[ix] = z
        return c, nc
    if k == "svd" and nd_ == 2 and na.size > 1 and np.abs(na).max() > 1e-9:
        f = R.random() < .4
        u, s, v = T_linalg("svd")(a, full_matrices=f)
        p = min(na.shape)
        U = T["dot"](nd.getitem(u, (slice(None), slice(0, p))), T["diag"](s))
        return nd.matmul(U, nd.getitem(v, slice(0, p))), na
    if k == "qr" and nd_ == 2 and np.linalg.matrix_rank(na) == min(na.shape):
        q, r = T_linalg("qr")(a)
        return nd.matmul(q, r), na
    if k == "eigh" and nd_ == 2 and na.shape[0] > 1:
        h = nd.matmul(a, T["transpose"](nd.conj(a)))
        w, v = T_linalg("eigh")(h)
        return nd.matmul(nd.binop("*", v, w), T["transpose"](nd.conj(v))), na @ na.conj().T
    if k == "swap" and nd_ >= 2:
        i, j = R.sample(range(nd_), 2)
        return T["swapaxes"](a, i, j), na.swapaxes(i, j)
    if k == "moveaxis" and nd_ >= 2:
        i, j = R.sample(range(nd_), 2)
        return T["moveaxis"](a, i, j), np.moveaxis(na, i, j)
    if k == "split" and nd_:
        ax = R.randrange(nd_)
        n = na.shape[ax]
        ds = [d for d in range(1, n + 1) if n % d == 0]
        d = R.choice(ds)
        i = R.randrange(d)
        return T["split"](a, d, ax)[i], np.split(na, d, ax)[i]
    if k == "ravel":
        return T["ravel"](a), na.ravel()
    if k == "squeeze" and nd_:
        return T["squeeze"](a), np.squeeze(na)
    if k == "expand":
        ax = R.randrange(nd_ + 1)
        return T["expand_dims"](a, ax), np.expand_dims(na, ax)
    if k == "norm" and np.abs(na).max() > 1e-9:
        return T_linalg("norm")(a), np.linalg.norm(na)
    if k == "flip" and nd_:
        ax = R.randrange(nd_)
        return T["flip"](a, ax), np.flip(na, ax)
    if k == "rep" and nd_:
        return T["tile"](a, 2), np.tile(na, 2)
    if k == "broadcast" and nd_:
        v, nv = R.choice(pool)
        if nv.ndim == 1 and nv.size == na.shape[-1]:
            return nd.binop("*", a, v), na * nv
    return None


def T_linalg(n):
    return M.LINALG[n]


def main():
    rounds = int(sys.argv[1]) if len(sys.argv) > 1 else 300
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 0
    bad = done = 0
    uns = {}
    for r in range(rounds):
        R.seed(seed + r)
        np.random.seed(seed + r)
        it = I.Interp()
        it.path = I.Path([])
        ev = tn.Evaluator(seed + r)
        pool = []
        for i in range(3):
            s = tuple(R.choice([1, 2, 2, 3, 4]) for _ in range(R.randint(1, 3)))
            a = spec.tensor(s, "a%d" % i, kind=R.choice("ccf"))
            v = ev.sym(a.sym())
            pool.append((a, v.real.copy() if a.kind == "f" else v))
        pool.append((nd.wrap(np.eye(2)), np.eye(2)))
        log = []
        for st in range(8):
            try:
                state = R.getstate()
                x = step(pool)
            except (nd.Unsupported, tn.DomainError) as e:
                uns[str(e)[:60]] = uns.get(str(e)[:60], 0) + 1
                continue
            except (nd.Raise, KeyError) as e:
                if isinstance(e, KeyError):
                    uns["KeyError %s" % e] = uns.get("KeyError %s" % e, 0) + 1
                    continue
                print("round", r, "raised", e)
                bad += 1
                break
            if x is None:
                continue
            a, na = x
            a = nd.to_arr(a)
            na = np.asarray(na)
            done += 1
            if a.shape != na.shape:
                print("round %d step %d: shape %s instead of %s" % (r, st, a.shape, na.shape))
                bad += 1
                break
            s = a.sym()
            v0 = ev.sym(s) if R.random() < .5 else None
            s2 = tn.Sym(s.shape, list(s.terms)).norm()
            v = ev.sym(s2)
            ref = max(1.0, np.abs(na).max() if na.size else 1.0)
            if na.size and np.abs(v - na).max() > 1e-7 * ref or (v0 is not None and na.size and np.abs(v0 - na).max() > 1e-7 * ref):
                print("round %d step %d (%s): value differs by %g" % (r, st, LAST, np.abs(v - na).max()))
                bad += 1
                if os.environ.get("SHOW"):
                    print(log[-8:])
                    print("domain", s2, "\nbefore norm", ev.sym(s).ravel()[:6], "after", v.ravel()[:6], "numpy", na.ravel()[:6])
                    for b, nb in pool:
                        print("  pool", b.kind, b.sym(), np.abs(ev.sym(b.sym()) - nb).max())
                break
            log.append((LAST, na.shape))
            if na.size <= 64 and na.size:
                pool.append((a, na))
                if len(pool) > 7:
                    pool.pop(0)
    print("%d operations, %d disagreements" % (done, bad))
    for k, v in sorted(uns.items(), key=lambda x: -x[1])[:12]:
        print("  not modelled: %s (%d)" % (k, v))
    return bad


if __name__ == "__main__":
    sys.exit(1 if main() else 0)
