"""Rule framework: a property is a list of obligations; each obligation names the entry
point it analyses and is decided by abstract interpretation or by a syntactic analysis."""
from __future__ import annotations
import time, traceback, itertools
from . import interp as I, nd, tn, spec
from .nd import Arr, Unsupported, Raise


class Fail:
    def __init__(self, tag, detail, where=None):
        self.tag, self.detail, self.where = tag, detail, where


class OutOfTime(BaseException):
    """the time set for one obligation is over"""


class Missing(Exception):
    """a public entry point the rule is anchored in does not exist any more"""


class Ob:
    """one obligation.

    name   stable key
    entry  'module:qualname' of the analysed construct
    fn     fn(it) -> list of Fail / None        (abstract interpretation, all partitions)
    syn    fn(it) -> list of Fail               (syntactic; run once)"""

    def __init__(self, name, entry, fn, maxpaths=24, need=("ok",), tier="quick", allow=()):
        self.name, self.entry, self.fn = name, entry, fn
        self.maxpaths = maxpaths
        self.tier = tier
        self.allow = allow    # exception types that are a permitted outcome


class Result:
    def __init__(self, ob):
        self.ob = ob
        self.fails = []
        self.undecided = []
        self.paths = 0
        self.okpaths = 0
        self.wall = 0.0
        self.timeout = False


def lookup(it, entry):
    """source location of an entry point"""
    mod, q = entry.split(":")
    try:
        m = it.mod(mod)
    except Raise as e:
        raise Missing("module %s cannot be loaded: %s %s" % (mod, e.exc, e.msg))
    parts = q.split(".")
    o = m.vars.get(parts[0])
    if o is None:
        raise Missing("%s.%s" % (mod, parts[0]))
    for p in parts[1:]:
        if isinstance(o, I.Cls):
            v, c = o.lookup(p)
            if c is None:
                raise Missing("%s.%s" % (mod, q))
            o = v
    if isinstance(o, I.Prop):
        o = o.fget
    if isinstance(o, (I.SM, I.CM)):
        o = o.f
    return o


def location(it, entry):
    o = lookup(it, entry)
    node = getattr(o, "node", None)
    m = getattr(o, "module", None)
    return "%s:%s %s" % (m.path.replace(it.repo + "/", "") if m else entry.split(":")[0], getattr(node, "lineno", "?"), entry.split(":")[1])


def run_ob(it, ob):
    r = Result(ob)
    t = time.time()
    try:
        loc = location(it, ob.entry)
    except Missing as e:
        raise
    try:
        _run(it, ob, r, loc)
    except OutOfTime:
        r.undecided.append("time limit")
        r.timeout = True
    r.wall = time.time() - t
    return r


def _run(it, ob, r, loc):
    for p, (kind, v) in it.explore(ob.fn, ob.maxpaths):
        r.paths += 1
        cond = ""
        if p is not None and p.taken:
            cond = " [with %s]" % "; ".join("%s=%s" % (w, b) for w, b in zip(p.where, p.taken))
        if kind == "ok":
            r.okpaths += 1
            for f in (v or []):
                if f is None:
                    continue
                r.fails.append((f.tag, "%s%s" % (f.detail, cond), f.where or loc))
        elif kind == "raise":
            if any(isinstance(v.exc, type) and isinstance(a, type) and issubclass(v.exc, a) for a in ob.allow):
                r.okpaths += 1
                continue
            nm = getattr(v.exc, "__name__", str(v.exc))
            if p is not None and p.taken and nm in ("AssertionError", "LinAlgError"):
                # a failure outcome of an undetermined numerical test is not a property violation
                r.undecided.append("%s: %s%s" % (nm, v.msg, cond)) if not r.okpaths else None
                continue
            r.fails.append(("raises " + nm, "%s: %s at %s via %s%s" % (nm, v.msg, getattr(v, "where", "?"), getattr(v, "trace", "?"), cond), getattr(v, "where", loc)))
        else:
            r.undecided.append("%s%s" % (v, cond))


def check(ok, tag, detail, where=None):
    """ok may be bool or the (bool, how) pair of spec.eq"""
    if isinstance(ok, tuple):
        how = ok[1]
        ok = ok[0]
        if not ok and how.startswith("shape"):
            detail += " (%s)" % how
    return None if ok else Fail(tag, detail, where)


def expect(value, ref, tag, what):
    v = value
    if isinstance(v, (list, tuple)):
        v = nd.array(list(v))
    ok, how = spec.eq(v, ref)
    return check((ok, how), tag, what)
