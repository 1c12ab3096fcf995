"""Name resolution, definite assignment and call-signature checks over the syntax tree (nothing is executed)."""
from __future__ import annotations
import ast, builtins, json, os, itertools, warnings

HERE = os.path.dirname(os.path.abspath(__file__))
EXT = json.load(open(os.path.join(HERE, "extnames.json"), encoding="utf-8"))
BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__builtins__", "__class__", "__path__", "__loader__"}
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def params(fn):
    a = fn.args
    r = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        r.append(a.vararg.arg)
    if a.kwarg:
        r.append(a.kwarg.arg)
    return r


def targets(t):
    """names bound by an assignment target"""
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            yield from targets(e)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)


def children_stmts(node):
    for f in ("body", "orelse", "finalbody", "handlers", "cases"):
        for x in getattr(node, f, []) or []:
            yield x


def bound(stmts, star=None):
    """names bound by the statements of one scope (nested scopes not entered)"""
    r = set()

    def expr(e):
        if e is None:
            return
        for n in ast.walk(e) if not isinstance(e, SCOPES) else ():
            if isinstance(n, ast.NamedExpr):
                r.add(n.target.id)

    def go(s):
        if isinstance(s, FUNCS + (ast.ClassDef,)):
            r.add(s.name)
            return
        if isinstance(s, ast.Assign):
            for t in s.targets:
                r.update(targets(t))
        elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
            r.update(targets(s.target))
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            r.update(targets(s.target))
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                if i.optional_vars is not None:
                    r.update(targets(i.optional_vars))
        elif isinstance(s, ast.Import):
            for a in s.names:
                r.add(a.asname or a.name.split(".")[0])
        elif isinstance(s, ast.ImportFrom):
            for a in s.names:
                if a.name == "*":
                    if star is not None:
                        star.append(s)
                else:
                    r.add(a.asname or a.name)
        elif isinstance(s, ast.ExceptHandler):
            if s.name:
                r.add(s.name)
        elif isinstance(s, ast.Delete):
            pass
        elif hasattr(ast, "match_case") and isinstance(s, ast.match_case):
            for n in ast.walk(s.pattern):
                if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    r.add(n.name)
        for f, v in ast.iter_fields(s):
            if isinstance(v, ast.expr):
                expr(v)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, ast.expr):
                        expr(x)
        for c in children_stmts(s):
            go(c)
    for s in stmts:
        go(s)
    return r


def declared(stmts, kind):
    r = set()
    for s in stmts:
        if isinstance(s, kind):
            r.update(s.names)
        elif not isinstance(s, FUNCS + (ast.ClassDef,)):
            r |= declared(list(children_stmts(s)), kind)
    return r


class Module:
    def __init__(self, lib, name, path):
        self.lib, self.name, self.path = lib, name, path
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = ast.parse(open(path, encoding="utf-8").read(), path)
        star = []
        self.names = bound(self.tree.body, star)
        self.star = star
        self.open = False         # a star import of an unknown module
        for fn in ast.walk(self.tree):
            if isinstance(fn, FUNCS):
                self.names |= declared(fn.body, ast.Global)
        self.imports = {}         # local name -> (module dotted, attribute or None)
        for s in ast.walk(self.tree):
            if isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split(".")[0]] = (a.name if a.asname else a.name.split(".")[0], None)
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if a.name != "*":
                        self.imports[a.asname or a.name] = (("." * s.level) + (s.module or ""), a.name)

    def resolve_star(self, seen=()):
        r = set(self.names)
        for s in self.star:
            m = self.lib.find(("." * s.level) + (s.module or ""))
            if m is not None and m.name not in seen:
                r |= {x for x in m.resolve_star(seen + (self.name,)) if not x.startswith("_")}
                self.open = self.open or m.open
            elif m is None:
                e = EXT["modules"].get(s.module or "")
                if e is None:
                    self.open = True
                else:
                    r |= set(e)
        return r


class Library:
    def __init__(self, root, files):
        self.root = root
        self.mods = {}
        for f in files:
            n = os.path.splitext(os.path.basename(f))[0]
            self.mods[n] = Module(self, n, f)
        self.classes = {}
        for m in self.mods.values():
            for c in ast.walk(m.tree):
                if isinstance(c, ast.ClassDef):
                    self.classes.setdefault(c.name, []).append((m, c))
        self.attrs = set()        # every attribute name the library provides
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    self.attrs |= bound(n.body)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.attrs.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1:
                    if isinstance(n.args[1], ast.Constant):
                        self.attrs.add(n.args[1].value)
        # fields of records made by namedtuple("x", "a b"), SimpleNamespace(a=...), type("x", (), {"a": ...}), setattr(o, name, v), ...
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] in ("namedtuple", "NamedTuple", "SimpleNamespace", "make_dataclass", "type", "update", "setattr"):
                    self.attrs |= {k.arg for k in n.keywords if k.arg}
                    for c in ast.walk(n):
                        if isinstance(c, ast.Constant) and isinstance(c.value, str):
                            self.attrs |= set(c.value.replace(",", " ").split())
        self.modattrs = set()
        for m in self.mods.values():
            self.modattrs |= m.names

    def find(self, dotted):
        d = dotted.lstrip(".")
        if d.startswith("xmps."):
            d = d[5:]
        elif not dotted.startswith(".") and "." in d:
            return None
        return self.mods.get(d)


def is_test(node):
    if isinstance(node, FUNCS):
        return node.name.startswith("test") or node.name == "setUp"
    if isinstance(node, ast.ClassDef):
        return node.name.startswith("Test") or any((isinstance(b, ast.Attribute) and b.attr == "TestCase") or (isinstance(b, ast.Name) and b.id == "TestCase") for b in node.bases)
    return False


# ------------------------------------------------------------------ path conditions
class Iff:
    """the local `name` holds the truth value of the expression it was assigned"""

    def __init__(self, name, value):
        self.name, self.value = name, value


_FORM, _ATOMS, _SRC, _FEAS, _CONST = {}, {}, {}, {}, {}
_KEEP = []                       # the nodes whose identities key the caches


def src(e):
    k = id(e)
    if k not in _SRC:
        _KEEP.append(e)
        _SRC[k] = "%s <=> %s" % (src(e.name), src(e.value)) if isinstance(e, Iff) else ast.unparse(e)
    return _SRC[k]


def atom_form(e):
    """(atom source, polarity) of a leaf condition"""
    k = id(e)
    if k in _FORM:
        return _FORM[k]
    _KEEP.append(e)
    r = src(e), True
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        op, pol = e.ops[0], True
        flip = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.LtE: ast.Gt, ast.GtE: ast.Lt}
        for a, b in flip.items():
            if isinstance(op, a):
                op, pol = b(), False
        r = ast.unparse(ast.Compare(e.left, [op], e.comparators)), pol
    _FORM[k] = r
    return r


def atoms(e):
    k = id(e)
    if k not in _ATOMS:
        _KEEP.append(e)
        if isinstance(e, Iff):
            r = atoms(e.name) + atoms(e.value)
        elif isinstance(e, ast.BoolOp):
            r = [a for v in e.values for a in atoms(v)]
        elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            r = atoms(e.operand)
        elif isinstance(e, ast.Constant):
            r = []
        else:
            r = [atom_form(e)[0]]
        _ATOMS[k] = r
    return _ATOMS[k]


def evalc(e, env):
    if isinstance(e, Iff):
        return evalc(e.name, env) == evalc(e.value, env)
    if isinstance(e, ast.BoolOp):
        v = [evalc(x, env) for x in e.values]
        return all(v) if isinstance(e.op, ast.And) else any(v)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return not evalc(e.operand, env)
    if isinstance(e, ast.Constant):
        return bool(e.value)
    a, pol = atom_form(e)
    return env[a] == pol


def constants(a):
    """(left side, constant) of an atom comparing with a constant"""
    if a not in _CONST:
        r = None
        try:
            t = ast.parse(a, mode="eval").body
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.Is)) and isinstance(t.comparators[0], ast.Constant):
                r = ast.unparse(t.left), repr(t.comparators[0].value)
        except SyntaxError:
            pass
        _CONST[a] = r
    return _CONST[a]


def feasible(facts):
    key = frozenset((src(e), b) for e, b in facts)
    if key not in _FEAS:
        _FEAS[key] = _feasible(facts)
    return _FEAS[key]


def _feasible(facts):
    al = []
    for e, b in facts:
        for a in atoms(e):
            if a not in al:
                al.append(a)
    if len(al) > 10:
        # only the conditions that can matter to the newest one
        e, b = facts[-1]
        rel = set(atoms(e))
        facts = [(x, y) for x, y in facts if set(atoms(x)) & rel]
        al = sorted({a for x, _ in facts for a in atoms(x)})
        if len(al) > 10:
            return True
    eqs = {}
    for a in al:
        c = constants(a)
        if c:
            eqs.setdefault(c[0], []).append((a, c[1]))
    for vals in itertools.product((True, False), repeat=len(al)):
        env = dict(zip(al, vals))
        if any(len({c for a, c in l if env[a]}) > 1 for l in eqs.values()):
            continue
        if all(evalc(e, env) == b for e, b in facts):
            return True
    return False


class State:
    __slots__ = ("a", "f")

    def __init__(self, a, f):
        self.a, self.f = a, f

    def key(self):
        return (self.a, frozenset((src(e), b) for e, b in self.f))


CAP = 48


def join(states):
    seen = {}
    for s in states:
        seen.setdefault(s.key(), s)
    st = list(seen.values())
    if len(st) > CAP:
        a = frozenset().union(*[s.a for s in st])     # optimistic: never an alarm because of the bound
        st = [State(a, [])]
    return st


class Flow:
    """definite assignment of the locals of one function, per path"""

    def __init__(self, fn, local, never, report):
        self.fn, self.local, self.never, self.report = fn, local, never, report
        self.loops = []
        self.iffs = {}
        self.points = 0

    def run(self):
        st = [State(frozenset(params(self.fn)), [])]
        self.block(self.fn.body, st)

    # -- expressions
    def use(self, e, states, deferred=False):
        """names read by an expression, in evaluation order"""
        if e is None:
            return states
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.local and not deferred:
                self.points += 1
                if any(e.id not in s.a for s in states):
                    self.report(e, e.id)
                    states = [State(s.a | {e.id}, s.f) for s in states]
            return states
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                states = self.use(d, states)
            return states
        if isinstance(e, COMP):
            inner = set()
            for g in e.generators:
                inner |= set(targets(g.target))
            states = self.use(e.generators[0].iter, states)
            st = [State(s.a | inner, s.f) for s in states]
            for k, g in enumerate(e.generators):
                if k:
                    st = self.use(g.iter, st)
                for c in g.ifs:
                    st = self.branch(c, st, True)
            if isinstance(e, ast.DictComp):
                st = self.use(e.value, self.use(e.key, st))
            else:
                st = self.use(e.elt, st)
            return states
        if isinstance(e, ast.IfExp):
            t = self.branch(e.test, states, True)
            f = self.branch(e.test, states, False)
            t = self.use(e.body, t)
            f = self.use(e.orelse, f)
            return states
        if isinstance(e, ast.BoolOp):
            st = states
            for v in e.values:
                self.use(v, st) if False else None
                st2 = self.branch(v, st, isinstance(e.op, ast.And))
                st = st2
            return states
        if isinstance(e, ast.NamedExpr):
            states = self.use(e.value, states)
            return self.assign([e.target.id], states)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                states = self.use(c, states)
            elif isinstance(c, ast.keyword):
                states = self.use(c.value, states)
            elif isinstance(c, ast.comprehension):
                pass
        return states

    def branch(self, test, states, val):
        if isinstance(test, ast.BoolOp) or isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            if isinstance(test, ast.BoolOp):
                st = states
                for v in test.values:
                    st = self.branch(v, st, isinstance(test.op, ast.And))
            else:
                self.use(test.operand, states)
        else:
            states = self.use(test, states)
        if isinstance(test, ast.Constant):
            return states if bool(test.value) == val else []
        out = []
        for s in states:
            f = s.f + [(test, val)]
            if feasible(f):
                out.append(State(s.a, f))
        return out

    def assign(self, names, states, attr=None):
        names = set(names)

        def stale(e):
            if isinstance(e, Iff):
                return stale(e.name) or stale(e.value)
            for n in ast.walk(e):
                if isinstance(n, ast.Name) and n.id in names or attr and isinstance(n, ast.Attribute) and n.attr == attr:
                    return True
            return False
        return [State(s.a | names, [x for x in s.f if not stale(x[0])]) for s in states]

    def target(self, t, states):
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                states = self.target(e, states)
            return states
        if isinstance(t, ast.Starred):
            return self.target(t.value, states)
        if isinstance(t, ast.Name):
            return self.assign([t.id], states)
        states = self.use(t, states)
        if isinstance(t, ast.Attribute):
            states = self.assign([], states, t.attr)
        return states

    # -- statements
    def block(self, body, states):
        for s in body:
            if not states:
                return []
            states = join(self.stmt(s, states))
        return states

    def optimistic(self, states):
        """inside a branch within a loop: an earlier round may have assigned anything the loop assigns"""
        if not self.loops:
            return states
        names = frozenset().union(*[l["names"] for l in self.loops])
        return [State(s.a | names, s.f) for s in states]

    def stmt(self, s, states):
        if isinstance(s, ast.Expr):
            states = self.use(s.value, states)
            return [] if self.never(s.value) else states
        if isinstance(s, ast.Assign):
            states = self.use(s.value, states)
            for t in s.targets:
                states = self.target(t, states)
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Name, ast.Constant)):
                nm = s.targets[0].id
                if not any(isinstance(n, ast.Name) and n.id == nm or isinstance(n, ast.NamedExpr) for n in ast.walk(s.value)):
                    k = id(s)
                    if k not in self.iffs:
                        self.iffs[k] = Iff(ast.Name(nm, ast.Load()), s.value)
                    states = [State(x.a, x.f + [(self.iffs[k], True)]) for x in states]
            return states
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                states = self.use(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), states)
            states = self.use(s.value, states)
            return self.target(s.target, states)
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                states = self.target(s.target, self.use(s.value, states))
            return states
        if isinstance(s, ast.Return):
            self.use(s.value, states)
            return []
        if isinstance(s, ast.Raise):
            self.use(s.exc, states)
            return []
        if isinstance(s, ast.Assert):
            states = self.branch(s.test, states, True)
            return states
        if isinstance(s, ast.If):
            t = self.branch(s.test, states, True)
            f = self.branch(s.test, states, False)
            t = self.block(s.body, self.optimistic(t))
            f = self.block(s.orelse, self.optimistic(f))
            return t + f
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            names = frozenset(bound(s.body))
            ctx = {"names": names, "break": []}
            if isinstance(s, ast.While):
                st = self.branch(s.test, states, True)
                # facts of the first round only: later rounds start from anything
            else:
                states = self.use(s.iter, states)
                st = self.target(s.target, states)
            self.loops.append(ctx)
            body = self.block(s.body, st)
            self.loops.pop()
            tn = frozenset(targets(s.target)) if not isinstance(s, ast.While) else frozenset()
            forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and bool(s.test.value)
            after = list(ctx["break"])
            if not forever:
                none = [State(x.a | names | tn, []) for x in states]      # no round at all: not judged
                out = [State(x.a | names | tn, []) for x in body]
                after += self.block(s.orelse, join(none + out)) if s.orelse else none + out
            return [State(x.a | names | tn, []) for x in after]
        if isinstance(s, (ast.Break, ast.Continue)):
            if isinstance(s, ast.Break) and self.loops:
                self.loops[-1]["break"] += states
            return []
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                states = self.use(i.context_expr, states)
                if i.optional_vars is not None:
                    states = self.target(i.optional_vars, states)
            return self.block(s.body, states)
        if isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            body = self.block(s.body, states)
            names = frozenset(bound(s.body))
            start = [State(x.a | names, []) for x in states]
            out = self.block(s.orelse, body) if s.orelse else body
            for h in s.handlers:
                st = start
                if h.type is not None:
                    st = self.use(h.type, st)
                if h.name:
                    st = self.assign([h.name], st)
                out = out + self.block(h.body, st)
            if s.finalbody:
                if not out:
                    self.block(s.finalbody, start)
                    return []
                out = self.block(s.finalbody, join(out))
            return out
        if isinstance(s, FUNCS):
            for d in s.args.defaults + [x for x in s.args.kw_defaults if x] + s.decorator_list:
                states = self.use(d, states)
            return self.assign([s.name], states)
        if isinstance(s, ast.ClassDef):
            for d in s.bases + s.decorator_list:
                states = self.use(d, states)
            return self.assign([s.name], states)
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return self.assign(bound([s]), states)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    states = [State(x.a - {t.id}, x.f) for x in states]
                else:
                    states = self.use(t, states)
            return states
        if type(s).__name__ == "Match":
            states = self.use(s.subject, states)
            out = list(states)
            for c in s.cases:
                st = [State(x.a | bound([c]), x.f) for x in states]
                out += self.block(c.body, st)
            return [State(x.a | bound(s.cases), []) for x in out]
        return states


def falls_through(body):
    """can control reach the end of the statements (or a return)?  syntactic, for functions that only raise"""
    for s in body:
        if isinstance(s, ast.Raise):
            return False
        if isinstance(s, ast.Return):
            return True
        if isinstance(s, ast.If) and s.orelse:
            if not falls_through(s.body) and not falls_through(s.orelse):
                return False
        elif isinstance(s, ast.If):
            if falls_through(s.body) and any(isinstance(x, ast.Return) for x in ast.walk(s)):
                return True
        elif isinstance(s, (ast.With,)):
            if not falls_through(s.body):
                return False
        elif not isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Pass, ast.Import, ast.ImportFrom)):
            return True
    return True


class Finding:
    def __init__(self, tag, detail, where):
        self.tag, self.detail, self.where = tag, detail, where


class Checker:
    """all checks of one module"""

    def __init__(self, lib, mod):
        self.lib, self.mod = lib, mod
        self.out = []
        self._hier = {}
        self.count = {"functions": 0, "names": 0, "assignments": 0, "attributes": 0, "calls": 0}
        self.globals = mod.resolve_star()
        # does the module use third-party modules nothing is known of?
        self.foreign = mod.open or any(not m.startswith(".") and lib.find(m) is None and m not in EXT["modules"] and m.split(".")[0] not in STDLIB
                                       and m + "." + str(a) not in EXT["modules"] for m, a in mod.imports.values())
        self.funcs = {s.name: s for s in mod.tree.body if isinstance(s, FUNCS)}
        self.neverfn = {n for n, f in self.funcs.items() if not falls_through(f.body) and not any(isinstance(x, ast.Return) for x in ast.walk(f)) and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f))}

    def where(self, node, q):
        return "%s:%d %s" % (os.path.relpath(self.mod.path, self.lib.root), node.lineno, q)

    def add(self, kind, q, name, node, detail):
        if any(x.tag == "%s %s %s" % (kind, q, name) for x in self.out):
            return
        self.out.append(Finding("%s %s %s" % (kind, q, name), detail, self.where(node, q)))

    def never(self, e):
        if not isinstance(e, ast.Call):
            return False
        f = e.func
        if isinstance(f, ast.Name):
            return f.id in self.neverfn or f.id in ("exit", "quit")
        return isinstance(f, ast.Attribute) and ast.unparse(f) in ("sys.exit", "os._exit")

    def run(self):
        for s in self.mod.tree.body:
            if is_test(s):
                continue
            if isinstance(s, FUNCS):
                self.function(s, s.name, [], None)
            elif isinstance(s, ast.ClassDef):
                self.klass(s, [])
        return self

    def klass(self, c, outer):
        for s in c.body:
            if isinstance(s, FUNCS) and not is_test(s):
                self.function(s, c.name + "." + s.name, outer, c)

    def function(self, fn, q, outer, cls):
        self.count["functions"] += 1
        glob = declared(fn.body, ast.Global)
        nonl = declared(fn.body, ast.Nonlocal)
        local = (bound(fn.body) | set(params(fn))) - glob - nonl
        flow = Flow(fn, local, self.never, lambda n, x: self.add("unassigned", q, x, n, "%s is read before it is assigned on some path" % x))
        flow.run()
        self.count["assignments"] += flow.points
        chain = outer + [local]
        self.walk(fn, fn.body + [], q, chain, cls, fn, set())

    def guarded(self, fn):
        """expressions in the body of a try statement that handles AttributeError"""
        out = set()
        for t in ast.walk(fn):
            if isinstance(t, ast.Try) and any(h.type is None or "AttributeError" in ast.unparse(h.type) or ast.unparse(h.type) in ("Exception", "BaseException") for h in t.handlers):
                for s in t.body:
                    out |= {id(n) for n in ast.walk(s) if isinstance(n, ast.Attribute)}
            if isinstance(t, (ast.If, ast.IfExp)):      # if hasattr(x, "name"): ... x.name
                h = {n.args[1].value for n in ast.walk(t.test) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "hasattr" and len(n.args) == 2 and isinstance(n.args[1], ast.Constant)}
                if h:
                    out |= {id(n) for n in ast.walk(t) if isinstance(n, ast.Attribute) and n.attr in h}
        return out

    def known(self, x, chain, extra):
        return x in extra or any(x in c for c in chain) or x in self.globals or x in BUILTINS or self.mod.open

    def walk(self, fn, nodes, q, chain, cls, owner, extra):
        """resolution of names, attributes and calls below nodes (nested functions with their own scope)"""
        unreachable = self.unreachable(fn.body) if isinstance(fn, FUNCS) else set()
        guarded = self.guarded(fn)

        def go(n, extra):
            if id(n) in unreachable:
                return
            if isinstance(n, FUNCS):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x] + n.decorator_list:
                    go(d, extra)
                self.function(n, q + "." + n.name, chain + ([set(extra)] if extra else []), cls)
                return
            if isinstance(n, ast.ClassDef):
                self.klass(n, chain)
                return
            if isinstance(n, ast.Lambda):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    go(d, extra)
                go(n.body, extra | set(params(n)))
                return
            if isinstance(n, COMP):
                ex = set(extra)
                for g in n.generators:
                    go(g.iter, ex)
                    ex |= set(targets(g.target))
                    for c in g.ifs:
                        go(c, ex)
                for c in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                    go(c, ex)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.count["names"] += 1
                if not self.known(n.id, chain, extra):
                    self.add("undefined", q, n.id, n, "the name %s is not defined in the function, its enclosing scopes, its module or the builtins" % n.id)
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and id(n) not in guarded:
                self.attribute(n, q, chain, cls, owner, extra)
            if isinstance(n, ast.Call):
                self.callsig(n, q, chain, cls, owner, extra)
            for c in ast.iter_child_nodes(n):
                go(c, extra)
        for n in nodes:
            go(n, extra)

    def unreachable(self, body):
        """statements behind a statement all of whose branches leave"""
        out = set()

        def leaves(s):
            if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                return True
            if isinstance(s, ast.If) and s.orelse:
                return any(leaves(x) for x in s.body) and any(leaves(x) for x in s.orelse)
            if isinstance(s, ast.With):
                return any(leaves(x) for x in s.body)
            return False

        def go(b):
            dead = False
            for s in b:
                if dead:
                    out.add(id(s))
                    continue
                if not isinstance(s, FUNCS + (ast.ClassDef,)):
                    for f in ("body", "orelse", "finalbody"):
                        if getattr(s, f, None):
                            go(getattr(s, f))
                    for h in getattr(s, "handlers", []):
                        go(h.body)
                dead = leaves(s)
        go(body)
        return out

    # -- attributes
    def module_of(self, e, chain, extra):
        """dotted external module an expression denotes"""
        if isinstance(e, ast.Name):
            if e.id in extra or any(e.id in c for c in chain):
                return None
            if e.id in self.mod.imports:
                m, a = self.mod.imports[e.id]
                d = m if a is None else m + "." + a
                return d if d in EXT["modules"] else None
            return None
        if isinstance(e, ast.Attribute):
            b = self.module_of(e.value, chain, extra)
            if b and b + "." + e.attr in EXT["modules"]:
                return b + "." + e.attr
        return None

    def hierarchy(self, cls):
        """attribute names of a class, its library bases and its library subclasses; None if a base is unknown"""
        if id(cls) in self._hier:
            return self._hier[id(cls)]
        self._hier[id(cls)] = r = self._hierarchy(cls)
        return r

    def _hierarchy(self, cls):
        names, todo, seen = set(), [cls], set()
        allc = [c for l in self.lib.classes.values() for _, c in l]
        while todo:
            c = todo.pop()
            if id(c) in seen:
                continue
            seen.add(id(c))
            names |= bound(c.body)
            for b in c.bases:
                if isinstance(b, ast.Name) and b.id == "object":
                    continue
                if isinstance(b, ast.Name) and b.id in self.lib.classes:
                    todo += [x for _, x in self.lib.classes[b.id]]
                else:
                    return None
            todo += [d for d in allc if any(isinstance(b, ast.Name) and b.id == c.name for b in d.bases)]
        return names

    def attribute(self, n, q, chain, cls, owner, extra):
        self.count["attributes"] += 1
        m = self.module_of(n.value, chain, extra)
        if m is not None:
            if n.attr not in EXT["modules"][m] and m + "." + n.attr not in EXT["modules"]:
                self.add("module attribute", q, ast.unparse(n), n, "the module %s does not provide %s" % (m, n.attr))
            return
        if n.attr.startswith("__") and n.attr.endswith("__"):
            return
        if isinstance(n.value, ast.Name) and n.value.id in self.mod.imports and not (n.value.id in extra or any(n.value.id in c for c in chain)):
            mm, at = self.mod.imports[n.value.id]
            if self.lib.find(mm) is None and not mm.startswith("."):
                return              # a module (or class) nothing is known of
        if isinstance(n.value, ast.Name) and cls is not None and self.is_self(n.value.id, owner, chain, extra):
            h = self.hierarchy(cls)
            if h is not None and n.attr not in h and n.attr not in self.stored():
                self.add("attribute", q, n.attr, n, "neither the class %s nor its relatives provide the attribute %s" % (cls.name, n.attr))
            return
        if self.foreign:
            return              # values of types nothing is known of
        if n.attr not in self.lib.attrs and n.attr not in self.lib.modattrs and n.attr not in EXTATTR:
            self.add("attribute", q, n.attr, n, "no class of the library (nor the array and container types) provides the attribute %s" % n.attr)

    def stored(self):
        """attribute names assigned anywhere"""
        if not hasattr(self, "_stored"):
            self._stored = set()
            for m in self.lib.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        self._stored.add(n.attr)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        self._stored.add(n.args[1].value)
        return self._stored

    def is_self(self, x, owner, chain, extra):
        return x == "self" and x not in extra and isinstance(owner, FUNCS) and not (owner.args.args and owner.args.args[0].arg != "self" and "self" not in params(owner) and False)

    # -- calls
    def callsig(self, n, q, chain, cls, owner, extra):
        f = n.func
        target, skip, nm = None, 0, None
        if isinstance(f, ast.Name) and not (f.id in extra or any(f.id in c for c in chain)):
            nm = f.id
            target = self.toplevel(self.mod, nm)
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "self" and cls is not None and "self" not in extra:
            nm = "self." + f.attr
            cands = self.methods(cls, f.attr)
            if len(cands) == 1 and not cands[0].decorator_list:
                target, skip = cands[0], 1
        if target is None:
            return
        self.count["calls"] += 1
        if isinstance(target, ast.ClassDef):
            init = [s for s in target.body if isinstance(s, FUNCS) and s.name == "__init__"]
            if not init or target.bases and not (len(target.bases) == 1 and isinstance(target.bases[0], ast.Name) and target.bases[0].id == "object"):
                if not init:
                    return
            target, skip = init[0], 1
        if target.decorator_list:
            return
        a = target.args
        pos = a.posonlyargs + a.args
        if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
            return
        given = len(n.args) + skip
        if given > len(pos) and not a.vararg:
            self.add("call", q, nm, n, "%s takes at most %d arguments, %d are given" % (nm, len(pos) - skip, len(n.args)))
            return
        names = [x.arg for x in pos]
        kw = {k.arg for k in n.keywords}
        allowed = set(names[len(a.posonlyargs):]) | {x.arg for x in a.kwonlyargs}
        for k in kw:
            if k not in allowed and not a.kwarg:
                self.add("call", q, nm, n, "%s does not take the argument %s" % (nm, k))
                return
            if k in names[:given]:
                self.add("call", q, nm, n, "%s gets the argument %s twice" % (nm, k))
                return
        need = names[:len(names) - len(a.defaults)]
        missing = [x for x in need[given:] if x not in kw]
        missing += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in kw]
        if missing:
            self.add("call", q, nm, n, "%s is called without %s" % (nm, ", ".join(missing)))

    def toplevel(self, mod, nm, depth=0):
        """the library function or class a global name of a module denotes, if there is exactly one binding"""
        defs = [s for s in mod.tree.body if isinstance(s, FUNCS + (ast.ClassDef,)) and s.name == nm]
        others = nm in bound([s for s in mod.tree.body if not isinstance(s, FUNCS + (ast.ClassDef,))])
        if len(defs) == 1 and not others:
            return defs[0]
        if not defs and nm in mod.imports and depth < 4:
            k = sum(1 for s in mod.tree.body if isinstance(s, (ast.Import, ast.ImportFrom)) and nm in bound([s]))
            k += sum(1 for s in mod.tree.body if not isinstance(s, (ast.Import, ast.ImportFrom)) and nm in bound([s]))
            if k != 1:
                return None
            m, a = mod.imports[nm]
            t = self.lib.find(m)
            if t is not None and a is not None:
                return self.toplevel(t, a, depth + 1)
        return None

    def methods(self, cls, name):
        """definitions of a method in a class, its bases and its subclasses"""
        out, todo, seen = [], [cls], set()
        allc = [c for l in self.lib.classes.values() for _, c in l]
        while todo:
            c = todo.pop()
            if id(c) in seen:
                continue
            seen.add(id(c))
            out += [s for s in c.body if isinstance(s, FUNCS) and s.name == name]
            for b in c.bases:
                if isinstance(b, ast.Name) and b.id in self.lib.classes:
                    todo += [x for _, x in self.lib.classes[b.id]]
            todo += [d for d in allc if any(isinstance(b, ast.Name) and b.id == c.name for b in d.bases)]
        return out


EXTATTR = set(EXT["attributes"])
STDLIB = set(__import__("sys").stdlib_module_names)
