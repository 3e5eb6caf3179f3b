"""Gated-SSA value numbering of Python source.

The analysis walks the syntax tree of the repository (and of the reference
definitions in /verif/spec) and assigns every expression a term.  Branches are
joined with gated phi terms, loops with symbolic trip counts become binders
(tables, sums, quantifiers, indexed stores) or, failing that, opaque folds.
Nothing of the repository is imported or executed, and no path is handed to a
solver.
"""
import ast
import copy
import os
from .terms import *
from . import terms as tm
from . import arrays as ar
from .arrays import Arr


class Unsupported(Exception):
    pass


class AnalysisBroken(Exception):
    pass


# ------------------------------------------------------------------ values
class Ref(object):
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return "Ref%d" % self.id


class Tup(object):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "Tup%r" % (self.items,)


class Func(object):
    def __init__(self, node, module, qual, closure=None, cls=None, defaults=None):
        self.node, self.module, self.qual = node, module, qual
        self.closure, self.cls = closure, cls
        self.defaults = defaults


class Bound(object):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Partial(object):
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class Cls(object):
    def __init__(self, node, module, qual, bases):
        self.node, self.module, self.qual, self.bases = node, module, qual, bases
        self.members = {}

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out


class Super(object):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Mod(object):
    def __init__(self, module):
        self.module = module


class Ext(object):
    """External function, class or module, by dotted path."""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "Ext(%s)" % self.path


class ExtM(object):
    """Method of a library value."""
    __slots__ = ("obj", "name", "src")

    def __init__(self, obj, name, src=None):
        self.obj, self.name, self.src = obj, name, src


class PhiV(object):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "Phi(%r,%r,%r)" % (self.c, self.a, self.b)


class SliceV(object):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class SymFunc(object):
    """A symbolic callable with a declared result shape."""
    def __init__(self, name, result):
        self.name, self.result = name, result


class PyFunc(object):
    """Analysis-side callable (only used by check drivers)."""
    def __init__(self, fn, name):
        self.fn, self.name = fn, name


# cells ---------------------------------------------------------------------
class Opq(object):
    __slots__ = ("t", "kind")

    def __init__(self, t, kind=None):
        self.t, self.kind = t, kind


class Lst(object):
    """segs: tuple of ('v', value) or ('t', list-term)"""
    __slots__ = ("segs", "kind")

    def __init__(self, segs, kind="list"):
        self.segs, self.kind = tuple(segs), kind

    @staticmethod
    def of(values, kind="list"):
        return Lst([("v", v) for v in values], kind)

    def known(self):
        return all(k == "v" for k, _ in self.segs)

    def values(self):
        return [v for _, v in self.segs]


class Dct(object):
    """ents: tuple of (key T, value); base: term or None; upds after base."""
    __slots__ = ("base", "ents", "kind")

    def __init__(self, base, ents, kind="dict"):
        self.base, self.ents, self.kind = base, tuple(ents), kind

    def known(self):
        return self.base is None

    def get(self, k):
        for a, v in self.ents:
            if a is k:
                return v
        return None


class Obj(object):
    __slots__ = ("cls", "attrs", "sym", "label")

    def __init__(self, cls, attrs, sym=None, label=None):
        self.cls, self.attrs, self.sym, self.label = cls, attrs, sym, label


class State(object):
    __slots__ = ("heap", "frame", "rng", "facts", "path")

    def __init__(self, heap, frame, rng, facts, path):
        self.heap, self.frame, self.rng, self.facts, self.path = heap, frame, rng, facts, path

    def copy(self):
        return State(dict(self.heap), dict(self.frame), self.rng, dict(self.facts), self.path)


class Eff(object):
    __slots__ = ("kind", "cond", "data", "loc", "path")

    def __init__(self, kind, cond, data, loc):
        self.kind, self.cond, self.data, self.loc = kind, cond, data, loc


class Out(object):
    __slots__ = ("normal", "rets", "brks", "conts")

    def __init__(self, normal=None, rets=None, brks=None, conts=None):
        self.normal = normal
        self.rets = rets or []
        self.brks = brks or []
        self.conts = conts or []


class Module(object):
    def __init__(self, name, path, src):
        self.name, self.path = name, path
        self.tree = ast.parse(src, path)
        self.env = {}
        self.loaded = False
        self.isrepo = True


class World(object):
    """All modules visible to the analysis."""
    def __init__(self, repo="/repo/src/pylogit", spec=None):
        self.modules = {}
        self.repo = repo
        for f in sorted(os.listdir(repo)):
            if f.endswith(".py"):
                p = os.path.join(repo, f)
                nm = "pylogit" if f == "__init__.py" else "pylogit." + f[:-3]
                self.modules[nm] = Module(nm, p, open(p).read())
        if spec:
            for f in sorted(os.listdir(spec)):
                if f.endswith(".py"):
                    p = os.path.join(spec, f)
                    nm = "spec." + f[:-3]
                    m = Module(nm, p, open(p).read())
                    m.isrepo = False
                    self.modules[nm] = m


MAXDEPTH = 40


class Interp(object):
    def __init__(self, world, opaque=None, hooks=None):
        from . import ext
        self.ext = ext
        self.w = world
        self.effects = []
        self.misfits = []
        self.nid = [0]
        self.opaque = opaque or {}
        self.hooks = hooks or {}
        self.depth = 0
        self.trystack = []
        self.prov = {}
        self.loc = None
        self.unmodelled = {}
        self.functions = set()
        self.callsites = 0
        self.loopctx = []
        self.spcols = set()       # transposed sparse matrices (column format)
        self.origin = {}          # ref id -> frozenset of origin labels
        self.views = {}           # ref id -> base ref ids
        self.label = {}
        self.globalstate = State({}, {}, sym("rng0", "rng"), {}, ())
        self.curfunc = []
        self.fuel = 400000
        self.pickcheck = []
        self.shapes = {}          # sym name -> dims
        self.keycols = set()
        self.knownvals = {}
        self.tshape = {}          # opaque term -> dims
        self.fshape = {}          # function symbol, argument -> dims of all results
        self.notes = []

    # -- heap ---------------------------------------------------------------
    def alloc(self, st, content, origin=None, views=()):
        if self.coarse and isinstance(content, Arr):
            content = self.coarsen(content)
        i = self.nid[0]
        self.nid[0] += 1
        st.heap[i] = content
        if origin:
            self.origin[i] = frozenset(origin)
        if views:
            self.views[i] = frozenset(views)
        return Ref(i)

    coarse = None             # term height above which array elements become unknowns (effect analyses only)

    def coarsen(self, a):
        if not a.rank or a.b or a.kind == "sp" or not any(tm.tsize(b) > self.coarse for b in a.bodies.values()) or \
                any(tm.isbool(b) for b in a.bodies.values()):
            return a
        k = raw("tuple", *[b for _, b in sorted(a.bodies.items())]).key.hex()
        if not any(d.fv for d in a.dims):
            self.shapes["~" + k] = list(a.dims)
        r = ar.of_term(sym("~" + k, "arr"), list(a.dims), a.kind)
        return r.withmeta(a.meta) if a.meta is not None else r

    def deref(self, v, st):
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, Opq):
                return c.t
            return c
        return v

    BOXOPS = {"call", "sym", "getcol", "item", "attr", "mcall", "setcol", "dupd",
              "concat", "lcat", "flat", "B", "fold", "list", "dfrows", "dfcat", "dfnew", "dfcols", "dftake", "dfreset", "dfindex"}

    def box(self, v, st):
        if isinstance(v, (Arr, Lst, Dct, Obj)):
            if isinstance(v, Arr) and v.rank == 0 and v.kind == "py":
                return v.body
            return self.alloc(st, v)
        if isinstance(v, T) and v.op in self.BOXOPS and \
                not (v.op == "sym" and v.args[1] in ("str", "int", "num", "size", "bool", "rng", "func")):
            return self.alloc(st, Opq(v))
        return v

    def origins_of(self, v, st):
        out = set()
        if isinstance(v, Ref):
            todo = [v.id]
            seen = set()
            while todo:
                i = todo.pop()
                if i in seen:
                    continue
                seen.add(i)
                out |= self.origin.get(i, frozenset())
                todo.extend(self.views.get(i, ()))
        return out

    # -- effects ------------------------------------------------------------
    def effect(self, kind, data, st):
        self.effects.append(Eff(kind, mkand(*st.path) if st.path else TRUE, data, self.loc))

    def mutation(self, v, st, how):
        """Record an in-place modification of the object behind v."""
        if not isinstance(v, Ref):
            return
        o = self.origins_of(v, st)
        if o:
            self.effect("mutate", (frozenset(o), how), st)
        # poison bases of views: their content changed through another name
        todo = list(self.views.get(v.id, ()))
        seen = set()
        while todo:
            i = todo.pop()
            if i in seen or i == v.id:
                continue
            seen.add(i)
            todo.extend(self.views.get(i, ()))
            c = st.heap.get(i)
            if isinstance(c, Arr):
                p = raw("call", "aliased", sym("alias%d" % i, "any"))
                st.heap[i] = Arr(c.parts, {k: raw("viewmod", b) for k, b in c.bodies.items()}, c.kind)
        # views of this object see the change too
        for j, bs in self.views.items():
            if v.id in bs and j in st.heap and j not in seen:
                c = st.heap[j]
                if isinstance(c, Arr) and j != v.id:
                    st.heap[j] = Arr(c.parts, {k: raw("viewmod", b) for k, b in c.bodies.items()}, c.kind)

    # -- module loading -------------------------------------------------------
    def module(self, name):
        m = self.w.modules.get(name)
        if m is None:
            return None
        if not m.loaded:
            m.loaded = True
            m.interp_env = {}
        env = getattr(m, "_env_%d" % id(self), None)
        if env is None:
            env = {}
            setattr(m, "_env_%d" % id(self), env)
            st = State(self.globalstate.heap, env, sym("rng0", "rng"), {}, ())
            save = (self.loc, self.effects, self.trystack, self.loopctx)
            self.effects, self.trystack, self.loopctx = [], [], []
            self.curfunc.append((m, "<module>", None))
            try:
                for s in m.tree.body:
                    st.path, st.facts = (), {}
                    try:
                        out = self.block([s], st)
                    except Unsupported as e:
                        self.notes.append("%s:%d module statement not modelled: %s" % (m.name, s.lineno, e))
                        for n in ast.walk(s):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                env[n.id] = raw("call", "module", const(m.name + "." + n.id))
                        continue
                    # block may have replaced the frame dict
                    if out.normal is not None and out.normal.frame is not env:
                        env.update(out.normal.frame)
                    if out.normal is not None and out.normal.heap is not self.globalstate.heap:
                        self.globalstate.heap.update(out.normal.heap)
            finally:
                self.curfunc.pop()
                self.loc, self.effects, self.trystack, self.loopctx = save
        return env

    def load_all(self):
        for n in list(self.w.modules):
            if n.startswith("pylogit"):
                self.module(n)

    warming = False

    def modulestate(self, st):
        """Whether something that belongs to a module was changed."""
        h = st.heap
        return any(h.get(i) is not d for i, d in self.globalstate.heap.items())

    def newstate(self):
        return State(dict(self.globalstate.heap), {}, sym("rng0", "rng"), {}, ())

    def lookup(self, modname, name):
        env = self.module(modname)
        if env is None or name not in env:
            raise AnalysisBroken("anchor %s.%s not found" % (modname, name))
        return env[name]

    # -- merging --------------------------------------------------------------
    def mergev(self, c, a, b, ctx):
        """Gated join of two values (ctx: (st_a, st_b, new heap, start id, memo))."""
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            return mkite(c, a, b)
        if isinstance(a, Arr) and a.rank == 0 and isinstance(b, T):
            return mkite(c, a.body, b)
        if isinstance(b, Arr) and b.rank == 0 and isinstance(a, T):
            return mkite(c, a, b.body)
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.rank == b.rank:
                if a.parts == b.parts:
                    kind = a.kind if a.kind == b.kind else "nd"
                    return Arr(a.parts, {k: mkite(c, a.bodies[k], b.bodies[k]) for k in a.bodies}, kind)
            return PhiV(c, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return a
            if ctx is not None:
                sa, sb, heap, start, memo = ctx
                if a.id >= start and b.id >= start and a.id in sa.heap and b.id in sb.heap:
                    k = (a.id, b.id)
                    if k in memo:
                        return memo[k]
                    x, y = sa.heap[a.id], sb.heap[b.id]
                    m = None
                    if isinstance(x, Arr) and isinstance(y, Arr):
                        m = self.mergev(c, x, y, ctx)
                        if isinstance(m, PhiV):
                            m = None
                    elif isinstance(x, Opq) and isinstance(y, Opq):
                        m = Opq(mkite(c, x.t, y.t), x.kind if x.kind == y.kind else None)
                    elif isinstance(x, Lst) and isinstance(y, Lst):
                        m = self.mergecell(c, x, y, ctx)
                    elif isinstance(x, Dct) and isinstance(y, Dct):
                        m = self.mergecell(c, x, y, ctx)
                        if not isinstance(m, Dct):
                            m = None
                    if m is not None:
                        i = self.nid[0]
                        self.nid[0] += 1
                        heap[i] = m
                        o = self.origin.get(a.id, frozenset()) | self.origin.get(b.id, frozenset())
                        if o:
                            self.origin[i] = o
                        vw = self.views.get(a.id, frozenset()) | self.views.get(b.id, frozenset())
                        if vw:
                            self.views[i] = vw
                        memo[k] = Ref(i)
                        return memo[k]
            return PhiV(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.mergev(c, x, y, ctx) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ext) and isinstance(b, Ext) and a.path == b.path:
            return a
        if isinstance(a, Bound) and isinstance(b, Bound) and a.func is b.func:
            s = self.mergev(c, a.self_, b.self_, ctx)
            return Bound(a.func, s)
        if isinstance(a, PhiV) and a.c is c:
            return self.mergev(c, a.a, b, ctx)
        if isinstance(b, PhiV) and b.c is c:
            return self.mergev(c, a, b.b, ctx)
        return PhiV(c, a, b)

    def mergecell(self, c, x, y, ctx):
        if x is y:
            return x
        if isinstance(x, Opq) and isinstance(y, Opq):
            return Opq(mkite(c, x.t, y.t), x.kind if x.kind == y.kind else None)
        if isinstance(x, Arr) and isinstance(y, Arr):
            m = self.mergev(c, x, y, ctx)
            if isinstance(m, Arr):
                return m
            return Opq(mkite(c, ar.lower(x), ar.lower(y)))
        if isinstance(x, Lst) and isinstance(y, Lst):
            if len(x.segs) == len(y.segs) and all(p[0] == q[0] for p, q in zip(x.segs, y.segs)):
                return Lst([(p[0], self.mergev(c, p[1], q[1], ctx)) for p, q in zip(x.segs, y.segs)], x.kind)
            # common prefix, then gated remainder
            i = 0
            while i < len(x.segs) and i < len(y.segs) and x.segs[i][0] == y.segs[i][0] and \
                    (x.segs[i][1] is y.segs[i][1] or x.segs[i][1] == y.segs[i][1]):
                i += 1
            sa, sb = (ctx[0], ctx[1])
            ta = self.lower_segs(x.segs[i:], sa)
            tb = self.lower_segs(y.segs[i:], sb)
            return Lst(x.segs[:i] + (("t", mkite(c, ta, tb)),), x.kind)
        if isinstance(x, Dct) and isinstance(y, Dct) and x.base is y.base:
            ka = [k for k, _ in x.ents]
            kb = [k for k, _ in y.ents]
            if ka == kb:
                return Dct(x.base, [(k, self.mergev(c, v, y.get(k), ctx)) for k, v in x.ents], x.kind)
            ents = []
            for k, v in x.ents:
                o = y.get(k)
                ents.append((k, self.mergev(c, v, o, ctx) if o is not None else PhiV(c, v, ABSENT)))
            for k, v in y.ents:
                if x.get(k) is None:
                    ents.append((k, PhiV(c, ABSENT, v)))
            return Dct(x.base, ents, x.kind)
        if isinstance(x, Obj) and isinstance(y, Obj) and x.cls is y.cls:
            attrs = {}
            for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
                if k in x.attrs and k in y.attrs:
                    attrs[k] = self.mergev(c, x.attrs[k], y.attrs[k], ctx)
                elif k in x.attrs:
                    attrs[k] = PhiV(c, x.attrs[k], ABSENT)
                else:
                    attrs[k] = PhiV(c, ABSENT, y.attrs[k])
            return Obj(x.cls, attrs, x.sym, x.label)
        return Opq(mkite(c, self.lower_content(x, ctx[0]), self.lower_content(y, ctx[1])))

    def merge(self, c, sa, sb, base, start):
        """Join two states; a holds when c is true."""
        if c is TRUE:
            return sa
        if c is FALSE:
            return sb
        heap = {}
        memo = {}
        ctx = (sa, sb, heap, start, memo)
        for i, x in sa.heap.items():
            y = sb.heap.get(i)
            if y is None or y is x:
                heap[i] = x
            else:
                heap[i] = self.mergecell(c, x, y, ctx)
        for i, y in sb.heap.items():
            if i not in heap:
                heap[i] = y
        frame = {}
        for k, x in sa.frame.items():
            if k in sb.frame:
                frame[k] = self.mergev(c, x, sb.frame[k], ctx)
            else:
                frame[k] = x
        for k, y in sb.frame.items():
            if k not in frame:
                frame[k] = y
        return State(heap, frame, mkite(c, sa.rng, sb.rng), dict(base.facts), base.path)

    def fork(self, c, st, fa, fb):
        """Evaluate fa under c and fb under not c, join values and state in place."""
        c = self.simp(c, st)
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        start = self.nid[0]
        sa, sb = st.copy(), st.copy()
        self.assume(sa, c, True)
        self.assume(sb, c, False)
        sa.path = st.path + (c,)
        sb.path = st.path + (mknot(c),)
        dead_a = dead_b = False
        try:
            va = fa(sa)
        except Dead:
            dead_a = True
        try:
            vb = fb(sb)
        except Dead:
            dead_b = True
        if dead_a and dead_b:
            raise Dead()
        if dead_a:
            self.adopt(st, sb)
            return vb
        if dead_b:
            self.adopt(st, sa)
            return va
        m = self.merge(c, sa, sb, st, start)
        v = self.mergev(c, va, vb, (sa, sb, m.heap, start, {}))
        facts, path = st.facts, st.path
        self.adopt(st, m)
        st.facts, st.path = facts, path
        return v

    def adopt(self, st, o):
        st.heap, st.rng, st.facts, st.path = o.heap, o.rng, o.facts, o.path
        st.frame.clear() if False else None
        if st.frame is not o.frame:
            st.frame.clear()
            st.frame.update(o.frame)

    # -- facts ---------------------------------------------------------------
    def assume(self, st, c, val):
        if c.op == "not":
            return self.assume(st, c.args[0], not val)
        if c.op == "and" and val:
            for a in c.args:
                self.assume(st, a, True)
            return
        if c.op == "or" and not val:
            for a in c.args:
                self.assume(st, a, False)
            return
        if c.op == "c":
            return
        st.facts[c] = val
        n = mknot(c)
        if n.op != "not":
            st.facts[n] = not val

    def simp(self, t, st):
        f = st.facts
        if not f:
            return t
        if t in f:
            return const(f[t])
        if t.op == "not":
            return mknot(self.simp(t.args[0], st))
        if t.op == "and":
            return mkand(*[self.simp(a, st) for a in t.args])
        if t.op == "or":
            return mkor(*[self.simp(a, st) for a in t.args])
        if t.op == "ite":
            c = self.simp(t.args[0], st)
            if c is TRUE:
                return self.simp(t.args[1], st)
            if c is FALSE:
                return self.simp(t.args[2], st)
        return t

    def resolve(self, v, st):
        """Pick the live side of a phi decided by the current facts."""
        while isinstance(v, PhiV):
            c = self.simp(v.c, st)
            if c is TRUE:
                v = v.a
            elif c is FALSE:
                v = v.b
            elif v.a is ABSENT:
                v = v.b
            elif v.b is ABSENT:
                v = v.a
            else:
                return v
        if isinstance(v, T) and v.op == "ite":
            return self.simp(v, st)
        return v

    def lift(self, v, st, f):
        """Apply f(value, state) through phis."""
        v = self.resolve(v, st)
        if isinstance(v, PhiV):
            return self.fork(v.c, st, lambda s: self.lift(v.a, s, f), lambda s: self.lift(v.b, s, f))
        return f(v, st)

    # -- lowering -------------------------------------------------------------
    def lower_segs(self, segs, st, seen=None):
        parts = []
        for k, v in segs:
            parts.append(raw("list", self.lower(v, st, seen)) if k == "v" else v)
        return mklcat(*parts)

    def lower_content(self, c, st, seen=None):
        if isinstance(c, T):
            return c
        if isinstance(c, Opq):
            return c.t
        if isinstance(c, Arr):
            t = ar.lower(c)
            if c.meta is not None:
                return raw("pd", c.kind, t, c.meta[0], c.meta[1])
            return t
        if isinstance(c, Lst):
            t = self.lower_segs(c.segs, st, seen)
            return raw("setof", t) if c.kind == "set" else t
        if isinstance(c, Dct):
            if c.base is not None and not c.ents:
                return c.base
            args = []
            for k, v in c.ents:
                args.append(k)
                args.append(self.lower(v, st, seen))
            if c.base is None:
                return raw("dict", *args)
            t = c.base
            for i in range(0, len(args), 2):
                t = raw("dset", t, args[i], args[i + 1])
            return t
        if isinstance(c, Obj):
            if c.sym is not None and not c.attrs:
                return c.sym
            args = []
            for k in sorted(c.attrs):
                args.append(const(k))
                args.append(self.lower(c.attrs[k], st, seen))
            return raw("obj", c.cls.qual if c.cls else "?", c.sym if c.sym is not None else NONE, *args)
        raise Unsupported("lower %r" % (c,))

    def lower(self, v, st, seen=None):
        if isinstance(v, T):
            return v
        if v is ABSENT:
            return raw("absent")
        if isinstance(v, Ref):
            seen = seen or ()
            if v.id in seen:
                return raw("cyc", seen[::-1].index(v.id))
            return self.lower_content(st.heap[v.id], st, seen + (v.id,))
        if isinstance(v, Tup):
            return raw("tuple", *[self.lower(x, st, seen) for x in v.items])
        if isinstance(v, PhiV):
            return mkite(v.c, self.lower(v.a, st, seen), self.lower(v.b, st, seen))
        if isinstance(v, (Arr, Lst, Dct, Obj)):
            return self.lower_content(v, st, seen)
        if isinstance(v, Func):
            if v.closure is None:
                return raw("func", v.qual)
            return self.eta(v, st)
        if isinstance(v, Cls):
            return raw("func", v.qual)
        if isinstance(v, Ext):
            return raw("func", v.path)
        if isinstance(v, Bound):
            return raw("bound", self.lower(v.self_, st, seen), v.func.qual.split(".")[-1])
        if isinstance(v, Partial):
            args = [self.lower(a, st, seen) for a in v.args]
            kws = []
            for k in sorted(v.kwargs):
                kws += [const(k), self.lower(v.kwargs[k], st, seen)]
            return raw("partial", self.lower(v.func, st, seen), raw("tuple", *args), *kws)
        if isinstance(v, SliceV):
            return raw("slice", *[self.lower(x, st, seen) for x in (v.lo, v.hi, v.step)])
        if isinstance(v, ExtM):
            return raw("mref", self.lower(v.obj, st, seen), v.name)
        if isinstance(v, Mod):
            return raw("func", v.module)
        if isinstance(v, SymFunc):
            return sym(v.name, "func")
        if isinstance(v, Super):
            return raw("super")
        raise Unsupported("lower value %r" % (v,))

    def eta(self, f, st):
        """Term for a local function: body over fresh parameters."""
        a = f.node.args
        if a.vararg or a.kwarg or a.kwonlyargs:
            key = "%s@%s" % (f.qual, ast.dump(f.node) if isinstance(f.node, ast.Lambda) else f.qual)
            try:
                s2 = st.copy()
                v = self.call_func(f, [], {}, s2)
                return raw("thunk", self.lower(v, s2))
            except (Unsupported, Dead, tm_error):
                return raw("call", "localfunc", const(key))
        vs = [fresh() for _ in a.args]
        ph = [raw("sym", "eta%d" % i, "any") for i in range(len(vs))]
        s2 = st.copy()
        try:
            v = self.call_func(f, [raw("at", raw("sym", "etaarg", "any"), x) for x in vs], {}, s2)
        except Dead:
            return raw("call", "localfunc", const(f.qual))
        return tm.bind("fun", vs, [ONE] * len(vs), self.lower(v, s2))

    # -- statements -----------------------------------------------------------
    def block(self, stmts, st):
        """Execute statements; st is updated in place; returns Out."""
        rets, brks, conts = [], [], []
        for s in stmts:
            if st is None:
                break
            out = self.stmt(s, st)
            rets += out.rets
            brks += out.brks
            conts += out.conts
            st2 = out.normal
            if st2 is None:
                st = None
                break
            for lst in (out.rets, out.brks, out.conts):
                for e in lst:
                    nc = mknot(e[0])
                    if nc is not TRUE:
                        st2.path = st2.path + (nc,)
                        self.assume(st2, nc, True)
            st = st2
        return Out(st, rets, brks, conts)

    def setloc(self, node):
        m, fn, _ = self.curfunc[-1]
        self.loc = (m.path, getattr(node, "lineno", 0), fn, m.isrepo)

    def stmt(self, s, st):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported("analysis budget exhausted")
        self.setloc(s)
        if ar.MISFIT:
            del ar.MISFIT[:]
        try:
            o = getattr(self, "s_" + type(s).__name__)(s, st)
            if ar.MISFIT:
                self.setloc(s)
                if self.loc[3]:
                    for x in ar.MISFIT:
                        self.misfits.append(Eff("misfit", mkand(*st.path) if st.path else TRUE, x, self.loc))
                del ar.MISFIT[:]
            return o
        except Dead:
            return Out(None)
        except AttributeError as e:
            if "s_" + type(s).__name__ in str(e):
                raise Unsupported("statement %s" % type(s).__name__)
            raise

    def s_Pass(self, s, st):
        return Out(st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return Out(st)
        self.ev(s.value, st)
        return Out(st)

    def s_Import(self, s, st):
        for a in s.names:
            top = a.name.split(".")[0]
            if a.asname:
                st.frame[a.asname] = self.import_path(a.name)
            else:
                st.frame[top] = self.import_path(top)
        return Out(st)

    def import_path(self, p):
        if p in self.w.modules:
            return Mod(p)
        return Ext(p)

    def s_ImportFrom(self, s, st):
        m = self.curfunc[-1][0]
        if s.module == "__future__":
            return Out(st)
        if s.level:
            pk = m.name.split(".")
            base = pk[: len(pk) - s.level] if m.name != "pylogit" else ["pylogit"]
            full = ".".join(base + ([s.module] if s.module else []))
        else:
            full = s.module
        for a in s.names:
            nm = a.asname or a.name
            if a.name == "*":
                env = self.module(full)
                if env is not None:
                    for k, v in env.items():
                        if not k.startswith("_"):
                            st.frame[k] = v
                continue
            if full + "." + a.name in self.w.modules:
                st.frame[nm] = Mod(full + "." + a.name)
            elif full in self.w.modules:
                env = self.module(full)
                if a.name not in env:
                    raise AnalysisBroken("name %s not found in %s" % (a.name, full))
                st.frame[nm] = env[a.name]
            else:
                st.frame[nm] = self.extname(full, a.name)
        return Out(st)

    def extname(self, mod, name):
        if mod == "past.builtins" or mod == "builtins":
            return Ext("builtins." + name)
        return Ext(mod + "." + name)

    def s_FunctionDef(self, s, st):
        m, fn, cls = self.curfunc[-1]
        toplevel = fn == "<module>"
        qual = m.name + "." + s.name if toplevel else m.name + "." + fn + ".<locals>." + s.name
        dfl = [self.box(self.ev(d, st), st) for d in s.args.defaults]
        kwd = [self.box(self.ev(d, st), st) if d is not None else None for d in s.args.kw_defaults]
        f = Func(s, m, qual, None if toplevel else st.frame, None, (dfl, kwd))
        v = f
        for dec in reversed(s.decorator_list):
            d = self.ev(dec, st)
            if isinstance(d, Ext):
                continue
            v = self.call(d, [v], {}, st)
        st.frame[s.name] = v
        return Out(st)

    def s_ClassDef(self, s, st):
        m, fn, _ = self.curfunc[-1]
        bases = [self.ev(b, st) for b in s.bases]
        c = Cls(s, m, m.name + "." + s.name, bases)
        for n in s.body:
            if isinstance(n, ast.FunctionDef):
                dfl = [self.ev(d, st) for d in n.args.defaults]
                kwd = [self.ev(d, st) if d is not None else None for d in n.args.kw_defaults]
                f = Func(n, m, c.qual + "." + n.name, None, c, (dfl, kwd))
                f.static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in n.decorator_list)
                f.prop = any(isinstance(d, ast.Name) and d.id == "property" for d in n.decorator_list)
                f.clsm = any(isinstance(d, ast.Name) and d.id == "classmethod" for d in n.decorator_list)
                c.members[n.name] = f
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                c.members[n.targets[0].id] = self.ev(n.value, st)
        st.frame[s.name] = c
        return Out(st)

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        v = self.box(v, st)
        return Out(None, [(TRUE, st, v)])

    def s_Break(self, s, st):
        return Out(None, brks=[(TRUE, st)])

    def s_Continue(self, s, st):
        return Out(None, conts=[(TRUE, st)])

    def s_Global(self, s, st):
        raise Unsupported("global")

    def s_Nonlocal(self, s, st):
        raise Unsupported("nonlocal")

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frame.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                k = self.ev(t.slice, st)
                self.call(self.getattr(o, "__delitem__", st), [k], {}, st)
        return Out(st)

    def s_Raise(self, s, st):
        if s.exc is None:
            name = "reraise"
        else:
            e = s.exc
            if isinstance(e, ast.Call):
                for a in e.args:
                    try:
                        self.ev(a, st)
                    except Unsupported:
                        pass
                e = e.func
            v = self.ev(e, st)
            name = v.path.split(".")[-1] if isinstance(v, Ext) else \
                (v.qual if isinstance(v, Cls) else "Exception")
        self.setloc(s)
        self.do_raise(name, st)
        return Out(None)

    def do_raise(self, name, st):
        for h in reversed(self.trystack):
            if h.catches(name):
                rel = st.path[len(h.path):] if st.path[:len(h.path)] == h.path else st.path
                self.effects.append(Eff("trap", mkand(*rel) if rel else TRUE,
                                        (h, name, st.copy()), self.loc))
                return
        self.effect("raise", name, st)

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        self.setloc(s)
        c = self.simp(c, st)
        if c is TRUE:
            return Out(st)
        save = st.path
        n = mknot(c)
        st.path = st.path + ((n,) if n is not TRUE else ())
        self.do_raise("AssertionError", st)
        st.path = save
        if c is FALSE:
            return Out(None)
        return Out(st)

    def s_Try(self, s, st):
        if s.handlers and self.is_import_try(s):
            out = self.block(s.body, st)
            return out
        h = Handler(self, s.handlers, st)
        n0 = len(self.effects)
        start = self.nid[0]
        base = st.copy()
        self.trystack.append(h)
        try:
            out = self.block(s.body, st)
        finally:
            self.trystack.pop()
        mine = [e for e in self.effects[n0:] if e.kind == "trap" and e.data[0] is h]
        if mine:
            self.effects[n0:] = [e for e in self.effects[n0:] if not (e.kind == "trap" and e.data[0] is h)]
        if s.orelse and out.normal is not None:
            o2 = self.block(s.orelse, out.normal)
            out = Out(o2.normal, out.rets + o2.rets, out.brks + o2.brks, out.conts + o2.conts)
        for hd in s.handlers:
            es = [e for e in mine if h.which(e.data[1]) is hd]
            if not es:
                continue
            c = mkor(*[e.cond for e in es])
            hs = es[0].data[2].copy()
            # names bound in the enclosing loop body are those of the entry state
            hs.path = base.path + ((c,) if c is not TRUE else ())
            hs.facts = dict(base.facts)
            self.assume(hs, c, True)
            if hd.name:
                hs.frame[hd.name] = raw("call", "exception")
            o3 = self.block(hd.body, hs)
            out.rets = [(mkand(c, r[0]),) + r[1:] for r in o3.rets] + out.rets
            out.brks = [(mkand(c, r[0]),) + r[1:] for r in o3.brks] + out.brks
            out.conts = [(mkand(c, r[0]),) + r[1:] for r in o3.conts] + out.conts
            if o3.normal is not None:
                if out.normal is None:
                    out.normal = o3.normal
                else:
                    out.normal = self.merge(c, o3.normal, out.normal, base, start)
        if s.finalbody and out.normal is not None:
            o4 = self.block(s.finalbody, out.normal)
            out = Out(o4.normal, out.rets + o4.rets, out.brks + o4.brks, out.conts + o4.conts)
        return out

    def is_import_try(self, s):
        return all(isinstance(b, (ast.Import, ast.ImportFrom)) for b in s.body)

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.block(s.body, st)

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        v = self.box(v, st)
        for t in s.targets:
            self.setloc(s)
            self.assign(t, v, st)
        return Out(st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.box(self.ev(s.value, st), st), st)
        return Out(st)

    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
            v = self.ev(s.value, st)
            self.setloc(s)
            r = self.inplace(s.op, cur, v, st)
            st.frame[t.id] = r
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            k = self.ev_slice(t.slice, st)
            cur = self.getitem(o, k, st)
            v = self.ev(s.value, st)
            self.setloc(s)
            r = self.binop(s.op, self.readval(cur, st), v, st)
            self.setitem(o, k, r, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            cur = self.getattr(o, t.attr, st)
            v = self.ev(s.value, st)
            self.setloc(s)
            r = self.inplace(s.op, cur, v, st)
            self.setattr(o, t.attr, r, st)
        return Out(st)

    def readval(self, v, st):
        return v

    def inplace(self, op, cur, v, st):
        """x op= v: in place for mutable objects."""
        cur = self.resolve(cur, st)
        if isinstance(cur, PhiV):
            return self.lift(cur, st, lambda c, s: self.inplace(op, c, v, s))
        if isinstance(cur, Ref):
            c = st.heap[cur.id]
            if isinstance(c, Arr) and c.rank > 0:
                r = self.binop(op, cur, v, st)
                if isinstance(r, Arr) and r.rank == c.rank and c.kind in ("nd", "se", "df", "mx"):
                    st.heap[cur.id] = r.withkind(c.kind)
                    self.mutation(cur, st, "in-place arithmetic")
                    return cur
                return self.box(r, st)
            if isinstance(c, Lst) and isinstance(op, ast.Add):
                self.ext.list_extend(self, cur, v, st)
                return cur
            if isinstance(c, Opq):
                r = self.binop(op, cur, v, st)
                if self.origins_of(cur, st) and c.kind not in ("num", "str", "int"):
                    rt = r if isinstance(r, T) else (self.lower(r, st))
                    st.heap[cur.id] = Opq(rt, c.kind) if not isinstance(r, Arr) else r
                    self.mutation(cur, st, "in-place arithmetic")
                    return cur
                return self.box(r, st)
        return self.box(self.binop(op, cur, v, st), st)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.frame[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported("starred assignment")
            vals = self.unpack(v, n, st)
            for e, x in zip(t.elts, vals):
                self.assign(e, self.box(x, st), st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.setattr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            k = self.ev_slice(t.slice, st)
            self.setitem(o, k, v, st)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, st):
        v = self.resolve(v, st)
        if isinstance(v, PhiV):
            a = self.unpack(v.a, n, st)
            b = self.unpack(v.b, n, st)
            return [self.mergev(v.c, x, y, None) for x, y in zip(a, b)]
        if isinstance(v, Tup) and len(v.items) == n:
            return list(v.items)
        c = self.deref(v, st)
        if isinstance(c, Lst) and c.known() and len(c.segs) == n:
            return c.values()
        if isinstance(c, Tup):
            return self.unpack(c, n, st)
        if isinstance(c, T):
            if c.op == "ite":
                a = self.unpack(c.args[1], n, st)
                b = self.unpack(c.args[2], n, st)
                return [self.mergev(c.args[0], x, y, None) for x, y in zip(a, b)]
            if c.op in ("tuple", "list") and len(c.args) == n:
                return list(c.args)
            return [mkitem(c, num(i)) for i in range(n)]
        if isinstance(c, Arr) and c.rank >= 1:
            return [ar.index_at(c, 0, num(i)) for i in range(n)]
        raise Unsupported("unpack")

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        c = self.simp(c, st)
        if c is TRUE:
            return self.block(s.body, st)
        if c is FALSE:
            return self.block(s.orelse, st)
        return self.branch(c, st, lambda x: self.block(s.body, x), lambda x: self.block(s.orelse, x))

    def branch(self, c, st, fa, fb):
        start = self.nid[0]
        sa, sb = st.copy(), st.copy()
        self.assume(sa, c, True)
        self.assume(sb, c, False)
        sa.path = st.path + (c,)
        nc = mknot(c)
        sb.path = st.path + (nc,)
        oa = fa(sa)
        ob = fb(sb)
        rets = [(mkand(c, r[0]),) + r[1:] for r in oa.rets] + [(mkand(nc, r[0]),) + r[1:] for r in ob.rets]
        brks = [(mkand(c, r[0]), r[1]) for r in oa.brks] + [(mkand(nc, r[0]), r[1]) for r in ob.brks]
        conts = [(mkand(c, r[0]), r[1]) for r in oa.conts] + [(mkand(nc, r[0]), r[1]) for r in ob.conts]
        if oa.normal is None and ob.normal is None:
            return Out(None, rets, brks, conts)
        if oa.normal is None:
            n = ob.normal
            n.path, n.facts = st.path, dict(st.facts)
            if not oa.rets and not oa.brks and not oa.conts:
                pass
            return Out(n, rets, brks, conts)
        if ob.normal is None:
            n = oa.normal
            n.path, n.facts = st.path, dict(st.facts)
            return Out(n, rets, brks, conts)
        n = self.merge(c, oa.normal, ob.normal, st, start)
        return Out(n, rets, brks, conts)

    # -- loops ------------------------------------------------------------------
    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        return self.forloop(s, it, st)

    def s_While(self, s, st):
        # while i < n: ...; i += 1   with i a plain counter
        t = s.test
        body = s.body
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and \
                isinstance(t.left, ast.Name) and body and isinstance(body[-1], ast.AugAssign) and \
                isinstance(body[-1].op, ast.Add) and isinstance(body[-1].target, ast.Name) and \
                body[-1].target.id == t.left.id and isinstance(body[-1].value, ast.Constant) and \
                body[-1].value.value == 1 and not s.orelse:
            nm = t.left.id
            for b in body[:-1]:
                for n in ast.walk(b):
                    if isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Store):
                        raise Unsupported("while")
                    if isinstance(n, (ast.Continue, ast.Break)):
                        raise Unsupported("while")
            lo = self.deref(st.frame.get(nm), st)
            hi = self.deref(self.ev(t.comparators[0], st), st)
            if isinstance(lo, T) and isinstance(hi, T):
                f = ast.copy_location(ast.For(target=ast.Name(nm, ast.Store()), iter=t,
                                              body=body[:-1] or [ast.Pass()], orelse=[]), s)
                ast.fix_missing_locations(f)
                it = self.ext.mkrange(self, lo, hi, st)
                out = self.forloop(f, it, st)
                if out.normal is not None:
                    out.normal.frame[nm] = hi
                return out
        raise Unsupported("while loop")

    def itemseq(self, it, st):
        """Describe an iterable: ('known', [values]) or ('sym', dim, fn(i)->value)."""
        return self.ext.itemseq(self, it, st)

    def forloop(self, s, it, st):
        it = self.resolve(it, st)
        if isinstance(it, PhiV):
            return self.branch(it.c, st, lambda x: self.forloop(s, it.a, x), lambda x: self.forloop(s, it.b, x))
        seq = self.itemseq(it, st)
        if seq[0] == "phi":
            return self.branch(seq[1], st, lambda x: self.forloop(s, seq[2], x),
                               lambda x: self.forloop(s, seq[3], x))
        if seq[0] == "known":
            return self.unroll(s, seq[1], st)
        return self.symloop(s, seq[1], seq[2], st)

    def unroll(self, s, values, st):
        rets, brks = [], []
        base = st.copy()
        start = self.nid[0]
        cur = st
        for v in values:
            if cur is None:
                break
            self.assign(s.target, self.box(v, cur), cur)
            out = self.block(s.body, cur)
            rets += out.rets
            brks += out.brks
            n = out.normal
            for c, sc in reversed(out.conts):
                sc.path, sc.facts = base.path, dict(base.facts)
                n = sc if n is None else self.merge(c, sc, n, base, start)
            cur = n
            if cur is not None:
                for e in list(out.rets) + list(out.brks):
                    nc = mknot(e[0])
                    if nc is not TRUE:
                        cur.path = cur.path + (nc,)
                        self.assume(cur, nc, True)
        if s.orelse and cur is not None:
            out = self.block(s.orelse, cur)
            rets += out.rets
            cur = out.normal
        if brks:
            n = cur
            for c, sb in reversed(brks):
                sb.path, sb.facts = base.path, dict(base.facts)
                n = sb if n is None else self.merge(c, sb, n, base, start)
            cur = n
            if cur is not None:
                cur.path = base.path
        return Out(cur, rets)

    def symloop(self, s, dim, item, st):
        for n in ast.walk(s):
            if isinstance(n, ast.Return):
                raise Unsupported("return inside a loop of symbolic length")
            if isinstance(n, ast.Break):
                raise Unsupported("break inside a loop of symbolic length")
        res = self.loopbody(dim, lambda i, x: self.bodyexec(s, item, i, x), st)
        if s.orelse:
            return self.block(s.orelse, res)
        return Out(res)

    def bodyexec(self, s, item, i, x):
        self.assign(s.target, self.box(item(i, x), x), x)
        out = self.block(s.body, x)
        if out.rets or out.brks:
            raise Unsupported("exit from symbolic loop")
        n = out.normal
        base = x
        for c, sc in reversed(out.conts):
            n = sc if n is None else self.merge(c, sc, n, State({}, {}, x.rng, {}, x.path), 0)
        return n

    def loopbody(self, dim, run, st):
        """Generic loop summariser.  run(i, state) -> state after one iteration."""
        # pass 1: which cells and variables change
        eff0 = len(self.effects)
        ids0 = self.nid[0]
        s1 = st.copy()
        i0 = fresh()
        ctx = LoopCtx(i0)
        self.loopctx.append(ctx)
        try:
            r1 = run(i0, s1)
        finally:
            self.loopctx.pop()
        del self.effects[eff0:]
        if r1 is None:
            # body always raises
            s1 = st.copy()
            i = fresh()
            run(i, s1)
            self.wrap_effects(eff0, i, dim)
            return st
        chframe = [k for k in r1.frame if k in st.frame and not same(r1.frame[k], st.frame[k])]
        newframe = [k for k in r1.frame if k not in st.frame]
        chcells = [c for c in st.heap if r1.heap.get(c) is not st.heap[c]]
        # pass 2: with accumulator placeholders
        s2 = st.copy()
        accs = {}
        tag = next(tm._fresh)
        for k in chframe:
            v = st.frame[k]
            if isinstance(v, T) and (v is NONE or not isinstance(r1.frame[k], (Ref, Arr))):
                a = raw("acc", "v", tag, k)
                accs[("v", k)] = a
                s2.frame[k] = a
                continue
            xa = st.heap.get(v.id) if isinstance(v, Ref) else v
            if isinstance(xa, Arr) and xa.rank and not (isinstance(v, Ref) and v.id in chcells):
                a = raw("acc", "a", tag, k)
                accs[("a", k)] = a
                vs_ = [ax(q) for q in range(xa.rank)]
                pl = Arr([(d,) for d in xa.dims], {(0,) * xa.rank: raw("at", a, *vs_)}, xa.kind)
                s2.frame[k] = self.alloc(s2, pl, origin=self.origins_of(v, st))
        for c in chcells:
            x = st.heap[c]
            if isinstance(x, Lst):
                a = raw("acc", "l", tag, c)
                accs[("c", c)] = a
                s2.heap[c] = Lst([("t", a)], x.kind)
            elif isinstance(x, Dct):
                a = raw("acc", "d", tag, c)
                accs[("c", c)] = a
                s2.heap[c] = self.carried(x, r1.heap.get(c), a)
            elif isinstance(x, Opq) and x.kind == "rng":
                s2.heap[c] = Opq(raw("rngat", x.t, i0), "rng")
            elif isinstance(x, Opq):
                a = raw("acc", "o", tag, c)
                if self.ext.isdf(self, x.t):
                    self.tshape[a] = "df"
                accs[("c", c)] = a
                s2.heap[c] = Opq(a, x.kind)
            # arrays: stores at the loop index are collected by the loop context
        rng_changed = r1.rng is not st.rng
        if rng_changed:
            s2.rng = raw("rngat", st.rng, i0)
        i = i0
        ctx = LoopCtx(i)
        ctx.cells = set(chcells)
        ctx.accs = accs
        self.loopctx.append(ctx)
        accset = set(accs.values())
        failed = None
        try:
            r2 = run(i, s2)
        except Unsupported as e:
            failed = e
        finally:
            self.loopctx.pop()
        if failed is not None:
            for part in (accs, {k: v for k, v in accs.items() if k[0] == "v"}, {k: v for k, v in accs.items() if k[0] == "c"}):
                once = self.set_once(dim, run, st, None, part, accset, eff0)
                if once is not None:
                    return once
            raise failed
        if r2 is None:
            raise Unsupported("loop body does not complete")
        once = self.set_once(dim, run, st, r2, accs, accset, eff0)
        if once is not None:
            return once
        self.wrap_effects(eff0, i, dim)
        res = st.copy()
        # new cells allocated in the loop body become visible (last iteration)
        last = psub(dim, ONE)
        for c, x in r2.heap.items():
            if c not in res.heap:
                res.heap[c] = self.subst_content(x, {i: last})
        for k in newframe:
            if k in r2.frame:
                res.frame[k] = self.subst_value(r2.frame[k], {i: last}, res)
        for k in chframe:
            new = r2.frame.get(k)
            a = accs.get(("v", k))
            if a is None:
                # rebinding of a reference: value of the last iteration
                aa = accs.get(("a", k))
                if aa is not None:
                    nc = r2.heap.get(new.id) if isinstance(new, Ref) else new
                    low = self.lower(new, r2)
                    if tm.subterms(low) & accset:
                        res.frame[k] = self.box(self.foldarr(st, k, nc, aa, low, i, dim, accset), res)
                        continue
                elif not isinstance(new, (Func, Cls, Mod, Ext)) and \
                        isinstance(st.frame[k], (Ref, PhiV, Tup)) and \
                        not (isinstance(new, Ref) and new.id in st.heap and new.id in chcells):
                    # a rebinding that may read its own previous value
                    if k in self.loopreads(st, k, new, r2):
                        raise Unsupported("loop-carried rebinding of %s" % k)
                res.frame[k] = self.subst_value(new, {i: last}, res)
                continue
            if not isinstance(new, T):
                low = self.lower(new, r2)
                if isinstance(new, (Ref, Arr)) and not (tm.subterms(low) & accset):
                    res.frame[k] = self.subst_value(new, {i: last}, res)
                    continue
                new = low
            res.frame[k] = self.summarise(st.frame[k], a, new, i, dim, accset)
        for c in chcells:
            x, y = st.heap[c], r2.heap.get(c)
            a = accs.get(("c", c))
            if isinstance(x, Lst):
                res.heap[c] = self.sum_list(x, a, y, i, dim, r2, accset, st)
            elif isinstance(x, Dct):
                res.heap[c] = self.sum_dict(x, a, y, i, dim, r2, accset, st)
            elif isinstance(x, Opq) and x.kind == "rng":
                res.heap[c] = Opq(raw("rngend", x.t, tm.bind("lam", [i], [dim], y.t)), "rng")
            elif isinstance(x, Opq):
                t = self.lower_content(y, r2)
                res.heap[c] = Opq(self.summarise(x.t, a, t, i, dim, accset), x.kind)
            elif isinstance(x, Arr):
                res.heap[c] = self.sum_arr(x, y, c, i, dim, ctx, st, r2)
            elif isinstance(x, Obj):
                attrs = dict(x.attrs)
                for k, v in y.attrs.items():
                    if k not in x.attrs or not same(v, x.attrs[k]):
                        attrs[k] = self.subst_value(v, {i: last}, res)
                res.heap[c] = Obj(x.cls, attrs, x.sym, x.label)
            else:
                raise Unsupported("loop-carried %r" % (x,))
        if rng_changed:
            res.rng = raw("rngend", st.rng, tm.bind("lam", [i], [dim], r2.rng))
        return res

    def carried(self, x, y, a):
        """A dictionary as an iteration finds it: entries that no iteration touches stay as they are."""
        if x.base is None and isinstance(y, Dct) and y.base is None and all(tm.is_const(k) for k, _ in x.ents) and \
                all(tm.is_const(k) for k, _ in y.ents) and {k for k, _ in x.ents} <= {k for k, _ in y.ents}:
            ents = []
            for k, v in x.ents:
                ents.append((k, v if same(v, y.get(k)) else mkitem(a, k)))
            for k, v in y.ents:
                if x.get(k) is None:
                    ents.append((k, PhiV(ar.mkisin(k, a), mkitem(a, k), ABSENT)))
            return Dct(None, ents, x.kind)
        return Dct(a, [], x.kind)

    def set_once(self, dim, run, st, r2, accs, accset, eff0):
        """Entries and variables that the first iteration sets and the later ones find set."""
        keys = []
        for (kind, c), a in accs.items():
            if kind == "c" and r2 is None:
                if isinstance(st.heap[c], Dct):
                    keys.append((kind, c))
            elif kind == "c" and isinstance(st.heap[c], Dct) and isinstance(r2.heap.get(c), Dct):
                x, y = st.heap[c], r2.heap[c]
                if x.base is None and y.base is None and any(
                        tm.subterms(self.lower(v, r2)) & accset for k, v in y.ents if not same(v, x.get(k))):
                    keys.append((kind, c))
            elif kind == "v" and st.frame[c] is NONE:
                n = r2.frame.get(c) if r2 is not None else None
                if r2 is None:
                    keys.append((kind, c))
                elif n is not None and tm.subterms(self.lower(n, r2)) & accset:
                    keys.append((kind, c))
        if not keys:
            return None
        n0 = len(self.effects)
        kept = self.effects[eff0:]
        try:
            def one(i, s):
                ctx = LoopCtx(i)
                self.loopctx.append(ctx)
                try:
                    r = run(i, s)
                finally:
                    self.loopctx.pop()
                return r, ctx
            r0, c0 = one(ZERO, st.copy())
            if r0 is None:
                return None
            st2 = st.copy()
            for c, x in r0.heap.items():
                if c not in st2.heap:
                    st2.heap[c] = x
            for kind, c in keys:
                if kind == "c":
                    st2.heap[c] = r0.heap[c]
                else:
                    st2.frame[c] = r0.frame[c]
            first = self.effects[n0:]
            r, _ = one(fresh(), st2.copy())
            rb, cb = one(ZERO, st2.copy())
            if r is None or rb is None:
                return None
            for kind, c in keys:
                if kind == "c" and r.heap[c] is not st2.heap[c] and \
                        self.lower_content(r.heap[c], r) is not self.lower_content(st2.heap[c], st2) or \
                        kind == "v" and not same(r.frame[c], st2.frame[c]) and \
                        self.lower(r.frame[c], r) is not self.lower(st2.frame[c], st2):
                    return None
            # the first iteration does the same whether it sets them or finds them set
            for c in st.heap:
                if ("c", c) not in keys and r0.heap[c] is not rb.heap[c] and \
                        self.lower_content(r0.heap[c], r0) is not self.lower_content(rb.heap[c], rb):
                    return None
            for k in st.frame:
                if ("v", k) not in keys and not same(r0.frame.get(k), rb.frame.get(k)) and \
                        self.lower(r0.frame[k], r0) is not self.lower(rb.frame[k], rb):
                    return None
        except Unsupported:
            return None
        finally:
            del self.effects[n0:]
        del self.effects[eff0:]
        self.effects.extend(first)
        return self.loopbody(dim, run, st2)

    def loopreads(self, st, k, new, r2):
        """{k} when the new value mentions the value k had before the loop."""
        old = st.frame[k]
        try:
            o, n = self.lower(old, st), self.lower(new, r2)
        except Unsupported:
            return {k}
        if o.op == "c" or o is n:
            return set()
        return {k} if o in tm.subterms(n) else set()

    def wrap_effects(self, n0, i, dim):
        out = []
        for e in self.effects[n0:]:
            if e.cond is TRUE:
                c = mkcmp0("gt0", dim)
            else:
                c = mkany(tm.bind("lam", [i], [dim], e.cond))
            d = e.data
            if isinstance(d, T) and i in d.fv:
                d = tm.bind("tab", [i], [dim], d)
            out.append(Eff(e.kind, c, d, e.loc))
        self.effects[n0:] = out

    def summarise(self, old, a, new, i, dim, accset):
        if new is a:
            return old
        if not (tm.subterms(new) & accset):
            # last value wins (or unchanged when the loop is empty)
            return subst(new, {i: psub(dim, ONE)})
        # acc + f(i)
        d = psub(new, a)
        if a not in tm.subterms(d):
            if not (tm.subterms(d) & accset):
                return padd(old, psum(i, dim, d))
        # boolean accumulation
        if new.op == "or" and a in new.args:
            rest = mkor(*[x for x in new.args if x is not a])
            if not (tm.subterms(rest) & accset):
                return mkor(old, mkany(tm.bind("lam", [i], [dim], rest)))
        if new.op == "and" and a in new.args:
            rest = mkand(*[x for x in new.args if x is not a])
            if not (tm.subterms(rest) & accset):
                return mkand(old, mkall(tm.bind("lam", [i], [dim], rest)))
        if new.op == "ite" and new.args[2] is a and isinstance(new.args[1], T):
            c, v = new.args[0], new.args[1]
            if not (tm.subterms(c) & accset) and not (tm.subterms(v) & accset) and i not in v.fv:
                return mkite(mkany(tm.bind("lam", [i], [dim], c)), v, old)
            dd = psub(v, a)
            if not (tm.subterms(dd) & accset) and not (tm.subterms(c) & accset):
                return padd(old, psum(i, dim, mkite(c, dd, ZERO)))
        if new.op == "ite" and new.args[1] is a:
            return self.summarise(old, a, raw("ite", mknot(new.args[0]), new.args[2], a), i, dim, accset)
        if new.op == "setcol" or new.op == "dset":
            pass
        j = fresh()
        return raw("fold", old, tm.bind("lam", [i], [dim], new))

    def sum_list(self, x, a, y, i, dim, r2, accset, st):
        if not isinstance(y, Lst):
            return Opq(raw("fold", self.lower_content(x, st), tm.bind("lam", [i], [dim], self.lower_content(y, r2))))
        segs = y.segs
        pos = [p for p, sg in enumerate(segs) if sg[0] == "t" and sg[1] is a]
        if len(pos) == 1:
            p = pos[0]
            pre = self.lower_segs(segs[:p], r2)
            post = self.lower_segs(segs[p + 1:], r2)
            if not (tm.subterms(pre) & accset) and not (tm.subterms(post) & accset):
                out = list(x.segs)
                if post.op != "list" or post.args:
                    out = out + [("t", mkflat(tm.bind("tab", [i], [dim], post)))]
                if pre.op != "list" or pre.args:
                    rp = subst(pre, {i: psub(psub(dim, ONE), i)})
                    out = [("t", mkflat(tm.bind("tab", [i], [dim], rp)))] + out
                return Lst(out, x.kind)
        # conditional append:  ite(c, [acc, x], [acc])
        t = self.lower_segs(segs, r2)
        ch = self.chunk(t, a)
        if ch is not None and not (tm.subterms(ch) & accset):
            return Lst(list(x.segs) + [("t", mkflat(tm.bind("tab", [i], [dim], ch)))], x.kind)
        return Lst([("t", raw("fold", self.lower_content(x, st), tm.bind("lam", [i], [dim], t)))], x.kind)

    def chunk(self, t, a):
        """t = a ++ chunk, through gated joins."""
        if t is a:
            return raw("list")
        if t.op == "lcat" and t.args[0] is a:
            return mklcat(*t.args[1:])
        if t.op == "lcat" and t.args[0].op == "ite":
            h = self.chunk(t.args[0], a)
            return None if h is None else mklcat(h, *t.args[1:])
        if t.op == "ite":
            p, q = self.chunk(t.args[1], a), self.chunk(t.args[2], a)
            if p is None or q is None:
                return None
            return mkite(t.args[0], p, q)
        return None

    def sum_dict(self, x, a, y, i, dim, r2, accset, st):
        if isinstance(y, Dct) and y.base is None and x.base is None and \
                all(tm.is_const(k) for k, _ in y.ents) and all(tm.is_const(k) for k, _ in x.ents):
            ents = []
            for k, v in y.ents:
                if same(v, x.get(k)):
                    ents.append((k, v))
                elif isinstance(v, T) and v is mkitem(a, k):
                    ents.append((k, x.get(k)))
                elif tm.subterms(self.lower(v, r2)) & accset:
                    break
                else:
                    ents.append((k, self.subst_value(v, {i: psub(dim, ONE)}, st)))
            else:
                return Dct(None, ents, x.kind)
        if isinstance(y, Dct) and y.base is a:
            ents = []
            for k, v in y.ents:
                if i not in k.fv and not (tm.subterms(k) & accset):
                    # same key every iteration: last one wins
                    ents.append(("last", k, v))
                else:
                    ents.append(("upd", k, self.lower(v, r2)))
            base = x.base
            es = list(x.ents)
            d = Dct(x.base, es, x.kind)
            ok = True
            for e in ents:
                if e[0] == "last":
                    vv = self.subst_value(e[2], {i: psub(dim, ONE)}, st)
                    d = Dct(d.base, [z for z in d.ents if z[0] is not e[1]] + [(e[1], vv)], d.kind)
                else:
                    if (tm.subterms(e[2]) & accset) or (tm.subterms(e[1]) & accset):
                        ok = False
                        break
                    t = self.lower_content(d, st)
                    d = Dct(self.ext.mkdupd(t, tm.bind("tab", [i], [dim], e[1]),
                                            tm.bind("tab", [i], [dim], e[2])), [], d.kind)
            if ok:
                return d
        if isinstance(y, Dct) or isinstance(y, Opq):
            t = self.lower_content(y, r2)
            r = self.dict_gated(t, a, i, dim, self.lower_content(x, st), accset)
            if r is not None:
                return Dct(r, [], x.kind)
            return Dct(raw("fold", self.lower_content(x, st), tm.bind("lam", [i], [dim], t)), [], x.kind)
        raise Unsupported("dict loop")

    def dict_gated(self, t, a, i, dim, old, accset):
        return None

    def sum_arr(self, x, y, c, i, dim, ctx, st, r2):
        """Array cell written in the loop."""
        stores = ctx.stores.get(c)
        if stores and isinstance(y, Arr):
            # all changes are indexed stores
            cur = x
            for axis, idx, val, cur_after in stores:
                pass
            axis, idx, val, _ = stores[-1]
            if len(stores) == 1 or all(s_[0] == axis and s_[1] is idx for s_ in stores):
                base = psub(idx, i)
                if i not in base.fv:
                    # val has the shape of x without the axis, depends on i
                    v = val
                    hi = padd(base, dim)
                    if v.rank:
                        vb = ar.unblock(v)
                    else:
                        vb = v
                    n = x.rank
                    # move: result axis order: insert axis
                    while vb.rank < n - 1:
                        vb = ar.newaxis(vb, 0)
                    big = ar.newaxis(vb, axis)
                    body = subst(big.body, {i: ax(axis)})
                    parts = list(big.parts)
                    parts[axis] = (dim,)
                    bigger = Arr(parts, {(0,) * n: body}, x.kind)
                    # broadcast other size one axes happens in store_axis
                    return ar.store_axis(x, axis, base, hi, bigger)
                if i in idx.fv:
                    it = tm.bind("tab", [i], [dim], idx)
                    if it.args[0] == "tab":
                        it = self.ext.eta_tab(it)
                    if val.rank == 0 and i not in val.body.fv:
                        xx = ar.unblock_axis(x, axis)
                        cnd = ar.mkisin(ax(axis), it)
                        return Arr(xx.parts, {k: mkite(cnd, val.body, b) for k, b in xx.bodies.items()}, x.kind)
            # several stores with the same loop index but different axes/values
            cur = x
            ok = True
            for axis, idx, val, _ in stores:
                if i in idx.fv and val.rank == 0 and i not in val.body.fv:
                    it = self.ext.eta_tab(tm.bind("tab", [i], [dim], idx))
                    xx = ar.unblock_axis(cur, axis)
                    cnd = ar.mkisin(ax(axis), it)
                    cur = Arr(xx.parts, {k: mkite(cnd, val.body, b) for k, b in xx.bodies.items()}, x.kind)
                else:
                    ok = False
            if ok:
                return cur
        # accumulate:  x + f(i)
        if isinstance(y, Arr) and y.rank == x.rank and y.parts == x.parts:
            bodies = {}
            ok = True
            for k, b in x.bodies.items():
                d = psub(y.bodies[k], b)
                bodies[k] = d
            if not ctx.reads(c):
                return Arr(x.parts, {k: padd(b, psum(i, dim, bodies[k])) for k, b in x.bodies.items()}, x.kind)
        r = self.fill_arr(x, y, i, dim, ctx, st, r2)
        if r is not None:
            return r
        t = raw("fold", ar.lower(x), tm.bind("lam", [i], [dim], self.lower_content(y, r2)))
        return ar.of_term(t, x.dims, x.kind)

    def fill_arr(self, x, y, i, dim, ctx, st, r2):
        """x[..., pos:pos + n_i] = block_i; pos += n_i  with pos = 0 first and sum n_i = size: a concatenation."""
        if not isinstance(y, Arr) or y.rank != x.rank:
            return None
        axes = [q for q in range(y.rank) if len(y.parts[q]) > 1]
        if len(axes) != 1 or len(y.parts[axes[0]]) not in (2, 3):
            return None
        q = axes[0]
        a = y.parts[q][0]
        k = next((k for (kind, k), b in ctx.accs.items() if b is a and kind == "v"), None)
        if k is None or st.frame[k] is not ZERO or not isinstance(r2.frame.get(k), T):
            return None
        w = y.parts[q][1]
        accset = set(ctx.accs.values())
        if psub(r2.frame[k], a) is not w or tm.subterms(w) & accset or x.dims[q] is not psum(i, dim, w):
            return None
        key = [0] * y.rank
        key[q] = 1
        body = y.bodies[tuple(key)]
        if tm.subterms(body) & accset:
            return None
        blk = Arr([y.parts[p] if p != q else (w,) for p in range(y.rank)], {(0,) * y.rank: body}, "nd")
        t = raw("rcat", q, tm.bind("tab", [i], [dim], ar.lower(blk)))
        self.tshape[t] = list(x.dims)
        return ar.of_term(t, x.dims, x.kind)

    def foldarr(self, st, k, nc, acc, low, i, dim, accset):
        old = st.frame[k]
        old = st.heap.get(old.id) if isinstance(old, Ref) else old
        if isinstance(nc, Arr) and nc.rank == old.rank:
            x, y = ar.unblock(old), ar.unblock(nc)
            if x.dims == y.dims:
                d = psub(y.body, raw("at", acc, *[ax(q) for q in range(x.rank)]))
                if not (tm.subterms(d) & accset):
                    return Arr(x.parts, {(0,) * x.rank: padd(x.body, psum(i, dim, d))}, x.kind)
                return ar.of_term(raw("fold", ar.lower(x), tm.bind("lam", [i], [dim], low)), x.dims, x.kind)
        raise Unsupported("loop-carried array")

    def subst_content(self, x, mp):
        if isinstance(x, Arr):
            return Arr([[subst(d, mp) for d in p] for p in x.parts],
                       {k: subst(b, mp) for k, b in x.bodies.items()}, x.kind)
        if isinstance(x, Opq):
            return Opq(subst(x.t, mp), x.kind)
        if isinstance(x, Lst):
            return Lst([(k, self.subst_value(v, mp, None)) for k, v in x.segs], x.kind)
        if isinstance(x, Dct):
            return Dct(subst(x.base, mp) if x.base is not None else None,
                       [(subst(k, mp), self.subst_value(v, mp, None)) for k, v in x.ents], x.kind)
        if isinstance(x, Obj):
            return Obj(x.cls, {k: self.subst_value(v, mp, None) for k, v in x.attrs.items()}, x.sym, x.label)
        return x

    def subst_value(self, v, mp, st):
        if isinstance(v, T):
            return subst(v, mp)
        if isinstance(v, (Arr, Lst, Dct, Obj, Opq)):
            return self.subst_content(v, mp)
        if isinstance(v, Tup):
            return Tup([self.subst_value(x, mp, st) for x in v.items])
        if isinstance(v, PhiV):
            return PhiV(subst(v.c, mp), self.subst_value(v.a, mp, st), self.subst_value(v.b, mp, st))
        return v

    # -- expressions -----------------------------------------------------------
    def ev(self, e, st):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported("analysis budget exhausted")
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None:
            raise Unsupported("expression %s" % type(e).__name__)
        v = f(e, st)
        if self.curfunc and self.curfunc[-1][0].isrepo:
            t = None
            if isinstance(v, T):
                t = v
            elif isinstance(v, Arr) and v.single():
                t = v.body
            if t is not None and t.op != "c" and t not in self.prov:
                m, fn, _ = self.curfunc[-1]
                self.prov[t] = (m.path, getattr(e, "lineno", 0), fn)
        return v

    def e_Constant(self, e, st):
        if e.value is Ellipsis:
            return Ext("Ellipsis")
        if isinstance(e.value, (bytes, complex)):
            return raw("c", "bytes", repr(e.value))
        return const(e.value)

    def e_Name(self, e, st):
        nm = e.id
        if nm in st.frame:
            return self.resolve(st.frame[nm], st)
        m, fn, cl = self.curfunc[-1]
        while cl is not None:
            if nm in cl.vars:
                return self.resolve(cl.vars[nm], st)
            cl = cl.parent
        env = getattr(m, "_env_%d" % id(self), None) or {}
        if nm in env:
            return env[nm]
        if nm in self.ext.BUILTINS:
            return Ext("builtins." + nm)
        if nm == "__name__":
            return const(m.name)
        raise Unsupported("unresolved name %s" % nm)

    def e_Tuple(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                seq = self.itemseq(v, st)
                if seq[0] != "known":
                    raise Unsupported("starred")
                out += seq[1]
            else:
                out.append(self.box(self.ev(x, st), st))
        return Tup(out)

    def e_List(self, e, st):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                segs += self.ext.as_segs(self, v, st)
            else:
                segs.append(("v", self.box(self.ev(x, st), st)))
        return Lst(segs)

    def e_Set(self, e, st):
        return Lst.of([self.box(self.ev(x, st), st) for x in e.elts], "set")

    def e_Dict(self, e, st):
        d = Dct(None, [])
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ext.dict_update(self, d, self.ev(v, st), st)
                continue
            kt = self.lower(self.ev(k, st), st)
            val = self.box(self.ev(v, st), st)
            d = Dct(d.base, [z for z in d.ents if z[0] is not kt] + [(kt, val)], d.kind)
        return d

    def e_Lambda(self, e, st):
        m, fn, cl = self.curfunc[-1]
        dfl = [self.box(self.ev(d, st), st) for d in e.args.defaults]
        return Func(e, m, m.name + "." + fn + ".<lambda>", st.frame, None, (dfl, []))

    def e_IfExp(self, e, st):
        c = self.simp(self.cond(e.test, st), st)
        if c is TRUE:
            return self.ev(e.body, st)
        if c is FALSE:
            return self.ev(e.orelse, st)
        return self.fork(c, st, lambda s: self.box(self.ev(e.body, s), s), lambda s: self.box(self.ev(e.orelse, s), s))

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0], st)
        for nxt in e.values[1:]:
            c = self.simp(self.truth(v, st), st)
            if isand:
                if c is FALSE:
                    return v
                if c is TRUE:
                    v = self.ev(nxt, st)
                    continue
                va = v
                v = self.fork(c, st, lambda s: self.ev(nxt, s), lambda s: FALSE if self.isboolv(va) else va)
            else:
                if c is TRUE:
                    return v
                if c is FALSE:
                    v = self.ev(nxt, st)
                    continue
                va = v
                v = self.fork(c, st, lambda s: TRUE if self.isboolv(va) else va, lambda s: self.ev(nxt, s))
        return v

    def isboolv(self, v):
        return isinstance(v, T) and tm.isbool(v)

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        return self.lift(v, st, lambda x, s: self.unop(e.op, x, s))

    def unop(self, op, v, st):
        if isinstance(op, ast.Not):
            return mknot(self.truth(v, st))
        x = self.deref(v, st)
        if isinstance(op, ast.UAdd):
            return x
        if isinstance(op, ast.USub):
            if isinstance(x, Arr):
                return ar.amap(pneg, x)
            if isinstance(x, T):
                return pneg(x)
        if isinstance(op, ast.Invert):
            if isinstance(x, Arr):
                return ar.amap(mknot, x)
            if isinstance(x, T):
                return mknot(x)
        raise Unsupported("unary")

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        a = self.box(a, st) if isinstance(a, (Lst, Dct)) else a
        b = self.ev(e.right, st)
        return self.binop(e.op, a, b, st)

    def binop(self, op, a, b, st):
        a, b = self.resolve(a, st), self.resolve(b, st)
        if isinstance(a, PhiV):
            return self.lift(a, st, lambda x, s: self.binop(op, x, b, s))
        if isinstance(b, PhiV):
            return self.lift(b, st, lambda x, s: self.binop(op, a, x, s))
        return self.ext.binop(self, op, a, b, st)

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            c = self.compare(op, left, right, st)
            if res is None:
                res = c
            else:
                res = mkand(self.truth(res, st), self.truth(c, st))
            left = right
        return res

    def compare(self, op, a, b, st):
        a, b = self.resolve(a, st), self.resolve(b, st)
        if isinstance(op, (ast.Is, ast.IsNot)) and (b is NONE or a is NONE):
            c = self.isnone(a if b is NONE else b, st)
            return c if isinstance(op, ast.Is) else mknot(c)
        if isinstance(a, PhiV):
            return self.lift(a, st, lambda x, s: self.compare(op, x, b, s))
        if isinstance(b, PhiV):
            return self.lift(b, st, lambda x, s: self.compare(op, a, x, s))
        return self.ext.compare(self, op, a, b, st)

    def isnone(self, v, st):
        v = self.resolve(v, st)
        if isinstance(v, PhiV):
            return mkite(v.c, self.isnone(v.a, st), self.isnone(v.b, st))
        if isinstance(v, T):
            return mkisnone(v)
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, Opq):
                return mkisnone(c.t)
            return FALSE
        if v is ABSENT:
            return FALSE
        return FALSE

    def cond(self, e, st):
        return self.truth(self.ev(e, st), st)

    def truth(self, v, st):
        v = self.resolve(v, st)
        if isinstance(v, PhiV):
            return mkite(v.c, self.truth(v.a, st), self.truth(v.b, st))
        return self.ext.truth(self, v, st)

    def e_Attribute(self, e, st):
        o = self.ev(e.value, st)
        self.setloc(e)
        return self.getattr(o, self.mangle(e.attr), st)

    def mangle(self, attr):
        if attr.startswith("__") and not attr.endswith("__"):
            fn = self.curfunc[-1][1]
            if "." in fn:
                return "_%s%s" % (fn.split(".")[0].lstrip("_"), attr)
        return attr

    def getattr(self, o, name, st):
        o = self.resolve(o, st)
        if isinstance(o, PhiV):
            return self.lift(o, st, lambda x, s: self.getattr(x, name, s))
        return self.ext.getattr_(self, o, name, st)

    def setattr(self, o, name, v, st):
        o = self.resolve(o, st)
        if isinstance(o, PhiV):
            self.lift(o, st, lambda x, s: (self.setattr(x, name, v, s), NONE)[1])
            return
        self.ext.setattr_(self, o, name, v, st)

    def ev_slice(self, e, st):
        if isinstance(e, ast.Index):
            e = e.value
        if isinstance(e, ast.Slice):
            return self.e_Slice(e, st)
        if isinstance(e, ast.Tuple):
            return Tup([self.box(self.ev_slice(x, st), st) for x in e.elts])
        return self.ev(e, st)

    def e_Slice(self, e, st):
        g = lambda x: NONE if x is None else self.ev(x, st)
        return SliceV(g(e.lower), g(e.upper), g(e.step))

    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        k = self.ev_slice(e.slice, st)
        self.setloc(e)
        return self.getitem(o, k, st)

    def phikey(self, k, st):
        """position of an undecided join in a tuple of subscripts"""
        if isinstance(k, Tup):
            for j, x in enumerate(k.items):
                if isinstance(x, PhiV) and isinstance(self.resolve(x, st), PhiV):
                    return j
        return None

    def tupset(self, k, j, x):
        return Tup(list(k.items[:j]) + [x] + list(k.items[j + 1:]))

    def getitem(self, o, k, st):
        o, k = self.resolve(o, st), self.resolve(k, st)
        if isinstance(o, PhiV):
            return self.lift(o, st, lambda x, s: self.getitem(x, k, s))
        if isinstance(k, PhiV):
            return self.lift(k, st, lambda x, s: self.getitem(o, x, s))
        j = self.phikey(k, st)
        if j is not None:
            return self.lift(k.items[j], st, lambda x, s: self.getitem(o, self.tupset(k, j, x), s))
        r = self.ext.getitem(self, o, k, st)
        if self.origin and isinstance(o, Ref) and self.origins_of(o, st):
            r = self.borrowed(o, r, st)
        return r

    def spformat(self, v):
        """the conversion that returns the same sparse matrix"""
        return "tocsc" if isinstance(v, Ref) and v.id in self.spcols else "tocsr" if isinstance(v, Ref) else None

    def transposed(self, o, r):
        if isinstance(r, Ref) and isinstance(o, Ref) and o.id not in self.spcols:
            self.spcols.add(r.id)

    def borrowed(self, o, r, st):
        """An element taken out of a labelled container still belongs to its owner."""
        d = st.heap.get(o.id)
        if isinstance(d, Opq) and (self.ext.isdf(self, d.t) or d.t.op in ("getcol", "dfcols", "dfrows")):
            return r
        if not isinstance(d, (Opq, Lst, Dct)):
            return r
        r = self.box(r, st)
        if isinstance(r, Ref) and r.id != o.id and not self.origins_of(r, st):
            self.views[r.id] = self.views.get(r.id, frozenset()) | {o.id}
        return r

    def setitem(self, o, k, v, st):
        o, k = self.resolve(o, st), self.resolve(k, st)
        if isinstance(o, PhiV):
            self.lift(o, st, lambda x, s: (self.setitem(x, k, v, s), NONE)[1])
            return
        if isinstance(k, PhiV):
            self.lift(k, st, lambda x, s: (self.setitem(o, x, v, s), NONE)[1])
            return
        j = self.phikey(k, st)
        if j is not None:
            self.lift(k.items[j], st, lambda x, s: (self.setitem(o, self.tupset(k, j, x), v, s), NONE)[1])
            return
        v = self.resolve(v, st)
        self.ext.setitem(self, o, k, v, st)

    def e_JoinedStr(self, e, st):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                v = self.ev(x.value, st)
                spec = ""
                if x.format_spec is not None:
                    sp = self.ev(x.format_spec, st)
                    spec = sp.args[1] if isinstance(sp, T) and is_str(sp) else "?"
                parts.append(self.ext.fmt(self, v, spec, st))
        return mksconcat(*parts)

    def e_NamedExpr(self, e, st):
        v = self.box(self.ev(e.value, st), st)
        st.frame[e.target.id] = v
        return v

    def e_Starred(self, e, st):
        raise Unsupported("starred")

    def e_Await(self, e, st):
        raise Unsupported("await")

    def e_Yield(self, e, st):
        raise Unsupported("generator function")

    # comprehensions
    def e_ListComp(self, e, st):
        return self.comp(e, st, "list")

    def e_GeneratorExp(self, e, st):
        r = self.comp(e, st, "list")
        return Lst(r.segs, "gen") if isinstance(r, Lst) else r

    def e_SetComp(self, e, st):
        return self.comp(e, st, "set")

    def comp(self, e, st, kind):
        save = dict(st.frame)
        acc = self.alloc(st, Lst([], kind))
        self.comp_rec(e.generators, 0, st, lambda s: self.ext.list_append(
            self, acc, self.box(self.ev(e.elt, s), s), s, quiet=True))
        r = st.heap[acc.id]
        for k in list(st.frame):
            if k not in save:
                del st.frame[k]
            else:
                st.frame[k] = save[k]
        return r

    def e_DictComp(self, e, st):
        save = dict(st.frame)
        acc = self.alloc(st, Dct(None, []))

        def add(s):
            k = self.ev(e.key, s)
            v = self.box(self.ev(e.value, s), s)
            self.ext.setitem(self, acc, k, v, s)
        self.comp_rec(e.generators, 0, st, add)
        r = st.heap[acc.id]
        for k in list(st.frame):
            if k not in save:
                del st.frame[k]
            else:
                st.frame[k] = save[k]
        return r

    def comp_rec(self, gens, d, st, add):
        if d == len(gens):
            add(st)
            return
        g = gens[d]
        it = self.resolve(self.ev(g.iter, st), st)
        d0 = None if isinstance(it, PhiV) else self.deref(it, st)
        segs = None
        if isinstance(d0, Lst) and not d0.known() and len(d0.segs) > 1:
            segs = list(d0.segs)
        seq = None if segs else self.itemseq(it, st)

        def one(v, s):
            self.assign(g.target, self.box(v, s), s)
            c = TRUE
            for t in g.ifs:
                c = mkand(c, self.cond(t, s))
            c = self.simp(c, s)
            if c is TRUE:
                self.comp_rec(gens, d + 1, s, add)
            elif c is FALSE:
                pass
            else:
                self.fork(c, s, lambda q: (self.comp_rec(gens, d + 1, q, add), NONE)[1], lambda q: NONE)

        def go(seq, s0):
            if seq[0] == "phi":
                self.fork(seq[1], s0, lambda s: (go(self.itemseq(seq[2], s), s), NONE)[1],
                          lambda s: (go(self.itemseq(seq[3], s), s), NONE)[1])
            elif seq[0] == "known":
                for v in seq[1]:
                    one(v, s0)
            else:
                def run(i, s):
                    one(seq[2](i, s), s)
                    return s
                r = self.loopbody(seq[1], run, s0)
                self.adopt(s0, r)
        if isinstance(it, PhiV):
            go(("phi", it.c, it.a, it.b), st)
        elif segs:
            # one stretch after the other
            for k, x in segs:
                if k == "v":
                    one(x, st)
                else:
                    go(self.itemseq(x, st), st)
        else:
            go(seq, st)

    # -- calls -------------------------------------------------------------------
    def e_Call(self, e, st):
        f = self.ev(e.func, st)
        if isinstance(f, Ext) and f.path == "builtins.super":
            m, fn, cl = self.curfunc[-1]
            if e.args:
                c = self.ev(e.args[0], st)
                o = self.ev(e.args[1], st)
            else:
                c = self.curcls[-1]
                o = st.frame.get("self")
            return Super(c, o)
        args, kwargs = [], {}
        star = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.resolve(self.ev(a.value, st), st)
                seq = self.itemseq(v, st)
                if seq[0] != "known":
                    star = self.lower(v, st)
                    continue
                args += seq[1]
            else:
                args.append(self.box(self.ev(a, st), st))
        for k in e.keywords:
            if k.arg is None:
                d = self.deref(self.resolve(self.ev(k.value, st), st), st)
                if isinstance(d, PhiV):
                    return self.lift(d, st, lambda x, s: self.call_kw(f, args, dict(kwargs), x, e, s))
                self.add_kwargs(kwargs, d, st)
            else:
                kwargs[k.arg] = self.box(self.ev(k.value, st), st)
        if star is not None:
            kwargs["*star"] = star
        self.setloc(e)
        self.callsites += 1
        return self.call(f, args, kwargs, st)

    def call_kw(self, f, args, kwargs, d, e, st):
        self.add_kwargs(kwargs, self.deref(d, st), st)
        return self.call(f, args, kwargs, st)

    def add_kwargs(self, kwargs, d, st):
        if isinstance(d, Dct):
            for kk, vv in d.ents:
                if is_str(kk):
                    vv = self.resolve(vv, st)
                    kwargs[kk.args[1]] = vv
                else:
                    raise Unsupported("computed keyword")
            if d.base is not None:
                kwargs["**"] = d.base
        elif isinstance(d, T):
            if d is NONE:
                return
            kwargs["**"] = d
        else:
            raise Unsupported("** of %r" % (d,))

    curcls = []

    def call(self, f, args, kwargs, st):
        f = self.resolve(f, st)
        if isinstance(f, PhiV):
            return self.lift(f, st, lambda x, s: self.call(x, args, kwargs, s))
        if isinstance(f, Ref):
            f = self.deref(f, st)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs, st)
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.self_] + list(args), kwargs, st)
        if isinstance(f, Partial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw, st)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs, st)
        if isinstance(f, SymFunc):
            args = [self.resolve(a, st) for a in args]
            return f.result(self, f, args, kwargs, st)
        if isinstance(f, PyFunc):
            return f.fn(self, args, kwargs, st)
        if isinstance(f, Ext):
            h = self.hooks.get(f.path)
            if h is not None:
                return h(self, args, kwargs, st)
            return self.ext.call_ext(self, f.path, args, kwargs, st)
        if isinstance(f, ExtM):
            return self.ext.call_method(self, f.obj, f.name, args, kwargs, st, f.src)
        if isinstance(f, T):
            return self.ext.call_opaque(self, f, args, kwargs, st)
        if isinstance(f, Obj) or isinstance(f, (Arr, Lst, Dct, Tup)):
            raise Unsupported("call of %r" % (f,))
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, c, args, kwargs, st):
        h = self.hooks.get("new:" + c.qual)
        if h is not None:
            return h(self, args, kwargs, st)
        o = self.alloc(st, Obj(c, {}))
        init = self.findmember(c, "__init__")
        if init is not None:
            self.call_func(init, [o] + list(args), kwargs, st)
        return o

    def findmember(self, c, name, after=None):
        mro = c.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            if name in k.members:
                return k.members[name]
            own = "_%s__" % k.node.name.lstrip("_") if k.node is not None else None
            if own and name.startswith(own) and name[len(own) - 2:] in k.members:
                return k.members[name[len(own) - 2:]]
        return None

    def bindargs(self, f, args, kwargs, st):
        a = f.node.args
        names = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
        frame = {}
        kwargs = dict(kwargs)
        extra_kw = kwargs.pop("**", None)
        star = kwargs.pop("*star", None)
        rest = []
        for i, v in enumerate(args):
            if i < len(names):
                frame[names[i]] = v
            else:
                rest.append(v)
        if rest and not a.vararg:
            raise Unsupported("too many arguments for %s" % f.qual)
        for k in list(kwargs):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in frame:
                    raise Unsupported("duplicate argument %s for %s" % (k, f.qual))
                frame[k] = kwargs.pop(k)
        dfl = f.defaults[0] if f.defaults else []
        for n, d in zip(names[len(names) - len(dfl):], dfl):
            if n not in frame:
                if extra_kw is not None:
                    frame[n] = self.ext.kwlookup(self, extra_kw, n, d, st)
                else:
                    frame[n] = d
            elif frame[n] is ABSENT or (isinstance(frame[n], PhiV) and (frame[n].a is ABSENT or frame[n].b is ABSENT)):
                v = frame[n]
                if v is ABSENT:
                    frame[n] = d
                else:
                    frame[n] = self.mergev(v.c, d if v.a is ABSENT else v.a, d if v.b is ABSENT else v.b, None)
        for i, x in enumerate(a.kwonlyargs):
            if x.arg not in frame:
                d = f.defaults[1][i] if f.defaults else None
                if d is None:
                    raise Unsupported("missing kwonly %s" % x.arg)
                frame[x.arg] = d
        for n in names:
            if n not in frame:
                if extra_kw is not None:
                    frame[n] = self.box(mkitem(extra_kw, const(n)), st)
                    continue
                if star is not None:
                    frame[n] = self.box(mkitem(star, num(names.index(n) - len(args))), st)
                    continue
                raise MissingArg("missing argument %s for %s" % (n, f.qual))
        if a.vararg:
            frame[a.vararg.arg] = Tup(rest)
        if a.kwarg:
            frame[a.kwarg.arg] = self.alloc(st, Dct(extra_kw, [(const(k), v) for k, v in kwargs.items()]))
        elif kwargs:
            raise MissingArg("unexpected argument %s for %s" % (sorted(kwargs), f.qual))
        return frame

    def call_func(self, f, args, kwargs, st):
        op = self.opaque.get(f.qual)
        if op is not None:
            return op(self, f, args, kwargs, st)
        if self.depth > MAXDEPTH:
            raise Unsupported("recursion")
        try:
            frame = self.bindargs(f, args, kwargs, st)
        except MissingArg as e:
            if self.curfunc and self.curfunc[-1][0].isrepo:
                self.effect("badcall", str(e), st)
            self.do_raise("TypeError", st)
            raise Dead()
        self.functions.add(f.qual)
        for k in list(frame):
            frame[k] = self.box(self.resolve(frame[k], st), st)
        cl = None
        if f.closure is not None:
            cl = Closure(f.closure, self.closure_of(f))
        fn = f.qual[len(f.module.name) + 1:]
        self.curfunc.append((f.module, fn, cl))
        self.curcls.append(f.cls)
        self.depth += 1
        saveloc = self.loc
        try:
            if isinstance(f.node, ast.Lambda):
                s2 = State(st.heap, frame, st.rng, st.facts, st.path)
                v = self.ev(f.node.body, s2)
                st.heap, st.rng = s2.heap, s2.rng
                return v
            base = State(st.heap, frame, st.rng, dict(st.facts), st.path)
            b0 = base.copy()
            start = self.nid[0]
            gen = gen_body(f.node)
            out = self.block(gen or f.node.body, base)
            res = out.normal
            val = NONE
            if res is None and not out.rets:
                raise Dead()
            rets = list(out.rets)
            if res is None:
                c, res, val = rets.pop()
            for c, s, v in reversed(rets):
                # returned first when c
                fr = s.frame
                s1 = State(s.heap, {"%ret": v}, s.rng, s.facts, s.path)
                s2 = State(res.heap, {"%ret": val}, res.rng, res.facts, res.path)
                m = self.merge(c, s1, s2, b0, start)
                res, val = m, m.frame["%ret"]
            st.heap, st.rng = res.heap, res.rng
            if gen is not None:
                d = self.deref(self.resolve(val, st), st)
                return Lst(d.segs, "gen") if isinstance(d, Lst) else val
            return val
        finally:
            self.depth -= 1
            self.curfunc.pop()
            self.curcls.pop()
            self.loc = saveloc

    def closure_of(self, f):
        return getattr(f, "outer", None)


GEN = "generated items"


class Collect(ast.NodeTransformer):
    """The body of a generator function as one that collects what it yields."""
    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_FunctionDef

    def visit_Expr(self, n):
        y = n.value
        if isinstance(y, (ast.Yield, ast.YieldFrom)):
            m = "append" if isinstance(y, ast.Yield) else "extend"
            f = ast.Attribute(ast.Name(GEN, ast.Load()), m, ast.Load())
            v = y.value if y.value is not None else ast.Constant(None)
            n = ast.copy_location(ast.Expr(ast.Call(f, [v], [])), n)
        return n

    def visit_Return(self, n):
        return ast.copy_location(ast.Return(ast.Name(GEN, ast.Load())), n)


def own_nodes(body):
    for n in body:
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            yield from own_nodes(ast.iter_child_nodes(n))


def gen_body(node):
    if not hasattr(node, "genbody"):
        node.genbody = None
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node.body)) and not node.decorator_list:
            body = [Collect().visit(copy.deepcopy(n)) for n in node.body]
            first = ast.Assign([ast.Name(GEN, ast.Store())], ast.List([], ast.Load()))
            last = ast.Return(ast.Name(GEN, ast.Load()))
            for n in (first, last):
                ast.copy_location(n, node)
            node.genbody = [ast.fix_missing_locations(n) for n in [first] + body + [last]]
    return node.genbody


class Closure(object):
    def __init__(self, vars, parent):
        self.vars, self.parent = vars, parent


class Handler(object):
    def __init__(self, interp, handlers, st):
        self.handlers = handlers
        self.path = st.path
        self.names = {}
        for h in handlers:
            if h.type is None:
                ns = ["*"]
            elif isinstance(h.type, ast.Tuple):
                ns = [ast.unparse(x).split(".")[-1] for x in h.type.elts]
            else:
                ns = [ast.unparse(h.type).split(".")[-1]]
            self.names[id(h)] = ns

    PARENTS = {"AssertionError": ["Exception"], "ValueError": ["Exception"],
               "TypeError": ["Exception"], "KeyError": ["LookupError", "Exception"],
               "IndexError": ["LookupError", "Exception"],
               "NotImplementedError": ["RuntimeError", "Exception"],
               "ImportError": ["Exception"], "AttributeError": ["Exception"]}

    def which(self, name):
        for h in self.handlers:
            ns = self.names[id(h)]
            if "*" in ns or name in ns or "BaseException" in ns or \
                    any(p in ns for p in self.PARENTS.get(name, ["Exception"])):
                return h
        return None

    def catches(self, name):
        return self.which(name) is not None


class LoopCtx(object):
    def __init__(self, i):
        self.i = i
        self.stores = {}
        self.cells = set()

    def reads(self, c):
        return False


class Dead(Exception):
    """The current path always raises."""


class MissingArg(Exception):
    pass


class tm_error(Exception):
    pass


class _Absent(object):
    def __repr__(self):
        return "ABSENT"


ABSENT = _Absent()


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.id == b.id
    if isinstance(a, Tup) and isinstance(b, Tup):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, PhiV) and isinstance(b, PhiV):
        return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.same(b)
    return False
