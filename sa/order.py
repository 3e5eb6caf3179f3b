"""Order-of-iteration dataflow: where does the arbitrary order of a set reach a result?

Intraprocedural kinds, flow-insensitive over a function's variables, with summaries for repository functions:
  SET    an unordered collection        USEQ   a sequence holding a set's elements in iteration order
  UDICT  a dictionary filled in such an order
An order-insensitive consumer (sorted, len, membership, min, any, a set operation, a message) ends the flow.
"""
import ast

SETMAKERS = {"set", "frozenset"}
SETOPS = {"difference", "union", "intersection", "symmetric_difference", "copy"}
SEQ = {"list", "tuple", "enumerate", "iter", "reversed", "map", "filter", "zip", "array", "asarray", "fromiter", "concatenate",
       "Index", "Series", "deepcopy", "copy", "tolist", "chain", "product", "OrderedDict", "dict", "fromkeys"}
FREE = {"sorted", "len", "set", "frozenset", "min", "max", "any", "all", "sort", "unique", "isin", "in1d", "bool", "isinstance",
        "issubset", "issuperset", "isdisjoint", "Counter", "str", "repr", "format", "print", "warn", "difference", "union",
        "intersection", "update", "symmetric_difference", "hash", "nunique", "lexsort"}
PICKS = {"next", "pop", "popitem", "index"}


def name_of(f):
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None


class Fn(object):
    def __init__(self, prog, module, node):
        self.prog, self.module, self.node = prog, module, node
        self.vars = {}
        self.reports = []
        self.ret = None

    # ------------------------------------------------------------ kinds of expressions
    def kind(self, e):
        if e is None:
            return None
        if isinstance(e, (ast.Set, ast.SetComp)):
            return "SET"
        if isinstance(e, ast.Name):
            return self.vars.get(e.id)
        if isinstance(e, ast.BinOp):
            l, r = self.kind(e.left), self.kind(e.right)
            if isinstance(e.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)) and "SET" in (l, r):
                return "SET"
            if isinstance(e.op, ast.Mod) and isinstance(e.left, (ast.Constant, ast.Name)):
                return None
            return "USEQ" if "USEQ" in (l, r) else None
        if isinstance(e, ast.IfExp):
            return self.join(self.kind(e.body), self.kind(e.orelse))
        if isinstance(e, ast.BoolOp):
            k = None
            for v in e.values:
                k = self.join(k, self.kind(v))
            return k
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
            if any(self.kind(g.iter) for g in e.generators):
                return "UDICT" if isinstance(e, ast.DictComp) else "USEQ"
            return None
        if isinstance(e, ast.Call):
            n = name_of(e.func)
            if isinstance(e.func, ast.Attribute):
                base = self.kind(e.func.value)
                if base == "SET" and n in SETOPS:
                    return "SET"
                if base == "UDICT" and n in ("keys", "values", "items", "iteritems", "iterkeys", "itervalues"):
                    return "USEQ"
                if base == "USEQ" and n in ("copy", "tolist", "ravel", "astype", "reshape"):
                    return "USEQ"
            if n in SETMAKERS and isinstance(e.func, ast.Name):
                return "SET"
            if n in SEQ and any(self.kind(a) for a in e.args):
                return "UDICT" if n in ("OrderedDict", "dict", "fromkeys") else "USEQ"
            g = self.prog.returns.get(n)
            if g and self.prog.isrepo(n):
                return g
            return None
        if isinstance(e, ast.Starred):
            return "USEQ" if self.kind(e.value) else None
        return None

    @staticmethod
    def join(a, b):
        return a or b

    # ------------------------------------------------------------ one pass over the body
    def run(self):
        for _ in range(4):
            before = dict(self.vars)
            self.reports = []
            self.body(self.node.body)
            if before == self.vars:
                break

    def report(self, node, what):
        self.reports.append((node.lineno, what))

    def bindto(self, t, k):
        if k and isinstance(t, ast.Name):
            self.vars[t.id] = self.join(self.vars.get(t.id), k)
        elif k in ("USEQ", "SET", "UDICT") and isinstance(t, ast.Attribute):
            if k != "SET":
                self.report(t, "an attribute is set to elements in the order of a set")
        elif k == "USEQ" and isinstance(t, (ast.Tuple, ast.List)):
            self.report(t, "elements of a set are unpacked by position")
        elif k == "USEQ" and isinstance(t, ast.Subscript):
            self.report(t, "elements are stored in the order of a set")

    def body(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return
        if isinstance(s, ast.Assign):
            self.uses(s.value)
            k = self.kind(s.value)
            for t in s.targets:
                self.bindto(t, k)
            return
        if isinstance(s, (ast.AugAssign, ast.AnnAssign)):
            if s.value is not None:
                self.uses(s.value)
                k = self.kind(s.value)
                if k and isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and k != "SET" or \
                        k and isinstance(s, ast.AnnAssign):
                    self.bindto(s.target, k)
            return
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.uses(s.value)
                vs = s.value.elts if isinstance(s.value, ast.Tuple) else [s.value]
                for v in vs:
                    k = self.kind(v)
                    if k:
                        self.ret = self.join(self.ret, k)
            return
        if isinstance(s, ast.For):
            self.uses(s.iter)
            k = self.kind(s.iter)
            if k and not (len(getattr(s.iter, "args", [])) == 1 and False):
                self.loop(s, s.body)
            self.body(s.body)
            self.body(s.orelse)
            return
        if isinstance(s, (ast.If, ast.While)):
            self.uses(s.test)
            self.body(s.body)
            self.body(s.orelse)
            return
        if isinstance(s, ast.Try):
            self.body(s.body)
            for h in s.handlers:
                self.body(h.body)
            self.body(s.orelse)
            self.body(s.finalbody)
            return
        if isinstance(s, ast.With):
            self.body(s.body)
            return
        if isinstance(s, ast.Expr):
            self.uses(s.value)
            c = s.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.args:
                n = c.func.attr
                if n == "extend" and self.kind(c.args[0]):
                    self.bindto(c.func.value, "USEQ")
            return
        # raise, assert, pass ...: messages and truth values only

    def loop(self, s, body):
        """A loop over a set: each statement must not depend on the order."""
        for b in body:
            if isinstance(b, (ast.Raise, ast.Assert, ast.Pass, ast.Continue)):
                continue
            if isinstance(b, ast.If):
                self.loop(s, b.body)
                self.loop(s, b.orelse)
                continue
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                continue
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute):
                n = b.value.func.attr
                if n in ("add", "discard"):
                    continue
                if n in ("append", "extend", "insert"):
                    self.bindto(b.value.func.value, "USEQ")
                    if not isinstance(b.value.func.value, ast.Name):
                        self.report(b, "elements are collected in the order of a set")
                    continue
            if isinstance(b, ast.Assign) and len(b.targets) == 1:
                t = b.targets[0]
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and self.depends(t.slice, s.target):
                    self.vars.setdefault(t.value.id, "UDICT")
                    continue
                if isinstance(t, ast.Name) and not self.usedafter(t.id, s):
                    continue
            if isinstance(b, ast.AugAssign) and isinstance(b.value, ast.Constant):
                continue
            if isinstance(b, ast.For):
                self.loop(s, b.body)
                continue
            self.report(b, "runs once per element of a set, in its arbitrary order")

    def usedafter(self, name, loop):
        inside = {id(n) for n in ast.walk(loop)}
        return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and id(n) not in inside
                   for n in ast.walk(self.node))

    @staticmethod
    def depends(e, target):
        ids = {n.id for n in ast.walk(target) if isinstance(n, ast.Name)}
        return any(isinstance(n, ast.Name) and n.id in ids for n in ast.walk(e))

    def uses(self, e):
        """Order-sensitive uses inside an expression."""
        for n in ast.walk(e):
            if isinstance(n, ast.Subscript) and self.kind(n.value) == "USEQ":
                self.report(n, "an element is selected by its position in the order of a set")
            if isinstance(n, ast.Call):
                f = name_of(n.func)
                args = list(n.args) + [k.value for k in n.keywords]
                if isinstance(n.func, ast.Attribute) and self.kind(n.func.value) in ("SET", "USEQ") and f in PICKS:
                    if not (f == "pop" and self.kind(n.func.value) == "USEQ" and False):
                        self.report(n, "%s() takes an arbitrary element of a set" % f)
                if f == "next" and any(self.kind(a) for a in args):
                    self.report(n, "next() takes an arbitrary element of a set")
                if f in FREE or f in SEQ or f in SETMAKERS or f in ("append", "extend", "join", "add"):
                    continue
                for a in args:
                    if self.kind(a) in ("USEQ", "UDICT") and not self.prog.isrepo(f):
                        self.report(n, "%s() receives elements in the order of a set" % f)
                    elif self.kind(a) == "USEQ" and self.prog.isrepo(f):
                        self.report(n, "%s() receives elements in the order of a set" % f)


class Program(object):
    def __init__(self, trees):
        self.fns = []
        self.names = {}
        for m, t in trees.items():
            for n in ast.walk(t):
                if isinstance(n, ast.FunctionDef):
                    self.fns.append((m, n))
                    self.names.setdefault(n.name, []).append(m)
        self.returns = {}

    def isrepo(self, n):
        return n in self.names

    def run(self):
        for _ in range(4):
            out, rets = [], {}
            for m, n in self.fns:
                f = Fn(self, m, n)
                f.run()
                out += [(m, n.name, l, w) for l, w in f.reports]
                if f.ret:
                    rets[n.name] = f.ret
            if rets == self.returns:
                break
            self.returns = rets
        public = [(m, n.name, n.lineno, "returns elements in the order of a set") for m, n in self.fns
                  if rets.get(n.name) == "USEQ" and not n.name.startswith("_")]
        return sorted(set(out)), public
