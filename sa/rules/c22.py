"""Names: for every function of the library (tests excluded) each name read is resolved through the local, enclosing, module and
builtin scopes (star imports resolved); each local is followed along the paths of the function (path conditions are tracked
propositionally, loops are assumed to make a round) and must be assigned when it is read; each attribute read must be provided by the
class of self and its relatives, by the module, or by some class or container type; calls of library functions, constructors and own
methods must fit the signature of what is called."""
import os, glob
from ..rule import Ob, Fail
from .. import names as N

REAL = False          # the rule does not depend on input arrays
FLOOR = 10
SKIP = {"setup", "tests", "__init__"}
ASSUMPTIONS = ["loops make at least one round and conditions inside a loop may be met after any number of rounds",
               "the names provided by third-party modules are those of the installed versions (sa/extnames.json)"]
EXTRA = {}


def library(root):
    fs = sorted(f for f in glob.glob(os.path.join(root, "xmps", "*.py")) if os.path.splitext(os.path.basename(f))[0] not in SKIP)
    return N.Library(root, fs)


def number(out):
    """tag = kind, name (not that of a local variable, which may be renamed) and a running number over the functions with that problem:
    moving the code to a helper keeps the tags"""
    by = {}
    for x in out:
        ws = x.tag.split(" ")
        by.setdefault((ws[0], "local" if ws[0] == "unassigned" else ws[-1]), []).append((" ".join(ws[1:-1]), x))
    r = []
    for (k, n), xs in by.items():
        fs = [q for q, x in xs]
        r += [Fail("%s %s #%d" % (k, n, i + 1), "%s [in %s]" % (x.detail, ", ".join(fs)), x.where) for i, (q, x) in enumerate(xs)]
    return r


ANCHOR = {"qmb": "fMPS:fMPS"}


def obligations(tier):
    from .. import interp as I
    lib = library(I.REPO)
    obs = []
    for name, m in sorted(lib.mods.items()):
        first = [s.name for s in m.tree.body if isinstance(s, N.FUNCS + (N.ast.ClassDef,)) and not N.is_test(s)]
        if not first:
            continue

        def f(it, name=name):
            c = N.Checker(lib, lib.mods[name]).run()
            it.files[lib.mods[name].path] = True
            EXTRA[name] = c.count
            for s in N.ast.walk(lib.mods[name].tree):
                if isinstance(s, N.FUNCS):
                    it.functions.add("%s.%s" % (name, s.name))
            return number(c.out)
        obs.append(Ob("names %s" % name, ANCHOR.get(name, "%s:%s" % (name, first[0])), f))
    return obs
