"""Check framework: obligations, comparison, evidence, verdicts."""
import itertools
from fractions import Fraction
import json
import os
import signal
import sys
import time
import traceback
from .terms import *
from . import terms as tm
from . import arrays as ar
from . import randint as ri
from .interp import (World, Interp, Ref, Tup, SymFunc, PyFunc, Unsupported, AnalysisBroken, Dead, MissingArg,
                     Lst, Dct, Obj, Opq, PhiV, Bound, Func, Cls, State)
from .arrays import Arr

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(object):
    def __init__(self, ob, msg, loc=None, detail=None):
        self.ob, self.msg, self.loc, self.detail = ob, msg, loc, detail


class Case(object):
    """One configuration: a fresh interpreter over the current source."""
    def __init__(self, ctx, opaque=None, hooks=None):
        self.ctx = ctx
        self.I = Interp(ctx.world, opaque, hooks)
        self.I.load_all()
        self.st = self.I.newstate()
        self.over = {}
        self.sizes = {}
        self.symfuncs = {}
        self.lastfn = None

    # inputs ---------------------------------------------------------------
    def arr(self, name, *dims, kind="nd", origin=None):
        return self.I.alloc(self.st, ar.symarr(name, *dims, kind=kind), origin=origin)

    def ref(self, content, **kw):
        return self.I.alloc(self.st, content, **kw)

    def lst(self, values, kind="list", **kw):
        return self.I.alloc(self.st, Lst.of(values, kind), **kw)

    def dct(self, pairs, kind="odict", **kw):
        return self.I.alloc(self.st, Dct(None, [(const(k) if not isinstance(k, T) else k, v) for k, v in pairs], kind), **kw)

    def func(self, name, dims, kind="nd"):
        """Symbolic numerical function of its arguments."""
        def result(I, f, args, kwargs, st):
            ts = [I.lower(a, st) for a in args]
            for k in sorted(kwargs):
                ts.append(raw("tuple", const(k), I.lower(kwargs[k], st)))
            t = raw("apply", sym(name, "func"), *ts)
            d = dims(args, kwargs, st) if callable(dims) else dims
            return I.alloc(st, ar.of_term(t, d, kind))
        return SymFunc(name, result)

    def fn(self, qual):
        mod, name = qual.rsplit(".", 1)
        if mod in self.ctx.world.modules:
            return self.I.lookup(mod, name)
        m2, c = mod.rsplit(".", 1)
        cl = self.I.lookup(m2, c)
        for k in cl.mro():
            if name in k.members:
                return k.members[name]
        raise AnalysisBroken("anchor %s not found" % qual)

    # running ---------------------------------------------------------------
    def call(self, f, args=(), kwargs=None, st=None):
        """Value number of a call on a private copy of the inputs."""
        s = (st or self.st).copy()
        if isinstance(f, str):
            f = self.fn(f)
        self.I.effects = []
        self.I.fuel = 600000
        g = f.func if isinstance(f, Bound) else f
        if isinstance(g, Func) and g.module.isrepo:
            self.lastfn = (g.module.path, g.node.lineno, getattr(g.node, "name", "<lambda>"))
        elif isinstance(g, Cls) and g.module.isrepo:
            self.lastfn = (g.module.path, g.node.lineno, getattr(g.node, "name", "<lambda>"))
        kwargs = dict(kwargs or {})
        if self.ctx.history and isinstance(f, Bound) and isinstance(g, Func) and g.module.isrepo:
            s = self.warmed(f, g, args, kwargs, s)
        v = self.I.call(f, list(args), dict(kwargs), s)
        if not isinstance(f, Bound) and not self.warming and self.I.modulestate(s):
            # something outlives the call: judge a call that comes after another one
            s = self.warmed(f, g, args, kwargs, (st or self.st).copy())
            v = self.I.call(f, list(args), dict(kwargs), s)
        return Result(self, v, s, self.I.effects)

    # calls that come after earlier ones --------------------------------------
    warming = False

    def warmed(self, f, g, args, kwargs, s):
        """The state an earlier call with other values of the same arguments leaves behind."""
        I = self.I
        own = getattr(self, "df", None)
        kw = dict(kwargs)
        if g.node.name in ("fit_mle", "generate_bootstrap_replicates") and own is not None:
            n = tm.mknrows(own)
            for k, v in (("ridge", sym("ridge", "num")), ("weights", I.alloc(s, ar.symarr("w", n))), ("seed", sym("seed", "int"))):
                if k != "seed" or any(a.arg == "seed" for a in g.node.args.args):
                    kw.setdefault(k, v)
            if g.node.name == "fit_mle":
                kw["constrained_pos"] = I.alloc(s, Lst.of([num(2)]))
        cells, terms = set(), []

        def walk(v):
            if isinstance(v, T):
                terms.append(v)
            elif isinstance(v, Tup):
                [walk(x) for x in v.items]
            elif isinstance(v, Ref) and v.id not in cells:
                d = s.heap.get(v.id)
                if isinstance(d, (Arr, Lst, Dct, Opq)):
                    cells.add(v.id)
                    for x in parts(d):
                        walk(x)
        for v in list(args) + list(kw.values()):
            walk(v)
        mp = {}
        for t in terms:
            for x in tm.subterms(t):
                if x.op == "sym" and x.args[1] not in ("size", "func", "rng") and x is not own and \
                        x.args[0] not in ("NB", "nd", "nd2"):
                    mp[x] = sym("earlier " + x.args[0], *x.args[1:])
        ren = lambda v: tm.rsub2(v, mp) if isinstance(v, T) else Tup([ren(x) for x in v.items]) if isinstance(v, Tup) else v
        w = s.copy()
        for i in cells:
            w.heap[i] = mapcell(s.heap[i], ren)
        for k, v in list(self.over.items()):
            if isinstance(k, str) and not k.startswith("earlier "):
                self.over.setdefault("earlier " + k, v)
        lens = [(l, len(l)) for l in self.records()]
        self.warming = I.warming = True
        try:
            I.call(f, [ren(a) for a in args], {k: ren(v) for k, v in kw.items()}, w)
        finally:
            self.warming = I.warming = False
        I.effects = []
        for l, n in lens:
            del l[n:]
        for i in cells:
            w.heap[i] = s.heap[i]
        w.rng, w.facts, w.path, w.frame = s.rng, s.facts, s.path, s.frame
        return w

    def records(self):
        return [l for l in (getattr(self, "calls", None), getattr(getattr(self, "mini", None), "calls", None)) if l is not None]


def parts(d):
    if isinstance(d, Arr):
        return list(d.bodies.values()) + [x for p in d.parts for x in p] + \
            [m for m in (d.meta or ()) if m is not None]
    if isinstance(d, Lst):
        return [v for _, v in d.segs]
    if isinstance(d, Dct):
        return [v for _, v in d.ents] + ([d.base] if d.base is not None else [])
    return [d.t]


def mapcell(d, f):
    if isinstance(d, Arr):
        a = Arr([[f(x) for x in p] for p in d.parts], {k: f(b) for k, b in d.bodies.items()}, d.kind,
                None if d.meta is None else tuple(m if m is None else f(m) for m in d.meta), d.b)
        a.q = d.q
        return a
    if isinstance(d, Lst):
        return Lst([(k, f(v)) for k, v in d.segs], d.kind)
    if isinstance(d, Dct):
        return Dct(d.base if d.base is None else f(d.base), [(k, f(v)) for k, v in d.ents], d.kind)
    return Opq(f(d.t), d.kind)


def again(ob):
    """The obligation for calls of methods that come after earlier calls with other arguments."""
    def run(ctx):
        ctx.history = True
        try:
            return ob(ctx)
        finally:
            ctx.history = False
    return run


class Result(object):
    def __init__(self, case, v, st, effects):
        self.case, self.v, self.st, self.effects = case, v, st, effects

    def term(self, v=None):
        return self.case.I.lower(self.v if v is None else v, self.st)

    def content(self, v=None):
        return self.case.I.deref(self.v if v is None else v, self.st)

    def items(self):
        c = self.content()
        if isinstance(c, Tup):
            return list(c.items)
        if isinstance(c, Lst) and c.known():
            return c.values()
        raise Unsupported("tuple expected")

    def raises(self):
        return [e for e in self.effects if e.kind == "raise"]


class Ctx(object):
    """Collects what a property's analysis did."""
    history = False

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.world = World(os.path.join(REPO, "src", "pylogit"), os.path.join(VERIF, "spec"))
        self.held = []
        self.byrandom = 0
        self.inconclusive = []
        self.violations = []
        self.functions = set()
        self.callsites = 0
        self.known = []
        self.ob = None
        self.counts = {}

    def case(self, opaque=None, hooks=None):
        c = Case(self, opaque, hooks)
        self._cases.append(c)
        return c

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def hold(self, name):
        self.held.append("%s: %s" % (self.ob, name))

    def violate(self, name, msg, loc=None, detail=None):
        self.violations.append(Violation("%s: %s" % (self.ob, name), msg, loc, detail))

    def unsure(self, name, why):
        self.inconclusive.append("%s: %s: %s" % (self.ob, name, why))

    # comparison -------------------------------------------------------------
    def same(self, name, got, want, case=None, loc=None, over=None, sizes=None, weakok=False, needs=(), extreme=False,
             scales=None, models=None):
        """The value number of the code equals that of the reference."""
        if got is want:
            self.hold(name)
            return True
        g, w = reduce_pair(got, want)
        if g is w:
            self.hold(name)
            return True
        ov = dict(case.over) if case else {}
        ov.update(over or {})
        sz = dict(case.sizes) if case else {}
        sz.update(sizes or {})
        verdict, info = ri.agree(g, w, over=ov, sizes=sz,
                                scales=scales or (ri.EXTREME if extreme else ri.MODERATE),
                                seeds=range(models or (40 if extreme else 30)))
        if verdict == "same":
            self.hold(name)
            self.byrandom += 1
            return True
        weak = ri.weak_parts(g, tm.subterms(w))
        lost = [n for n in needs if not mentions(got, n)]
        if lost:
            self.violate(name, "the value no longer depends on %s" % ", ".join(lost), loc or where(case, got))
            return False
        if weak and not weakok:
            self.unsure(name, "unmodelled construct: %s" % "; ".join(sorted({show(x, 2)[:80] for x in weak})[:3]))
            return None
        if verdict == "unknown":
            self.unsure(name, "terms differ, no model separates them: %s" % info)
            return None
        p, q = mismatch(g, w)
        self.violate(name, "value differs from the reference", loc or where(case, p, got),
                     {"computed": show(p, 8)[:3000], "required": show(q, 8)[:3000]})
        return False

    def guarded(self, name, got, want, case, alt=None, key=None):
        """Same value for arguments that overflow, underflow or are undefined in double precision."""
        if got is want:
            self.hold(name)
            return True
        v, info = ri.machine_agree(got, want, over=case.over, sizes=case.sizes)
        if v == "same":
            self.hold(name)
            self.byrandom += 1
            return True
        if v == "unknown":
            self.unsure(name, "no model")
            return None
        if alt is not None and (got is alt or ri.machine_agree(got, alt, over=case.over, sizes=case.sizes)[0] == "same"):
            self.known.append((key, "%s: %s" % (self.ob, name), where(case, got)))
            return True
        if ri.weak_parts(got, tm.subterms(want)):
            self.unsure(name, "unmodelled construct")
            return None
        self.violate(name, "for arguments out of floating-point range the value is %s, not %s" % (info[1], info[2]),
                     where(case, got), {"computed": show(got, 8)[:3000], "required": show(want, 8)[:3000]})
        return False

    def same_or_known(self, name, got, want, alt, key, case=None, **kw):
        """As same(); a value equal to the described deviation is a known finding."""
        if got is not want:
            n = len(self.held)
            nv, ni = len(self.violations), len(self.inconclusive)
            if self.same(name, got, want, case, **kw):
                return True
            dv, di = self.violations[nv:], self.inconclusive[ni:]
            del self.violations[nv:], self.inconclusive[ni:]
            if self.same(name, got, alt, case, **kw):
                self.held.pop()
                self.known.append((key, "%s: %s" % (self.ob, name), where(case, got)))
                return True
            del self.violations[nv:], self.inconclusive[ni:]
            self.violations += dv
            self.inconclusive += di
            return False
        return self.same(name, got, want, case, **kw)

    def equiv(self, name, got, want, case=None, loc=None, limit=4000, what="the condition"):
        """The same truth value for every valuation of the atoms of two conditions."""
        if got is want:
            self.hold(name)
            return True
        g, w = splitany(got), splitany(want)
        pairs, seen = {}, set()

        def explore(p, q, env):
            if p is q or (p, q) in seen:
                return
            if len(seen) > limit or len(pairs) > 40:
                raise Unsupported("too many cases in a condition")
            seen.add((p, q))
            ap, aq = batoms(p), batoms(q)
            both = (ap & aq) | {a for a in ap | aq if freeatom(a)}
            if not both:
                if (p in (TRUE, FALSE)) != (q in (TRUE, FALSE)):
                    # one side is decided: the other can be whatever its own atoms make it
                    pairs[(p, q)] = env
                elif p is not q:
                    pairs[(p, q)] = env
                return
            a = min(both, key=lambda t: (t.h, show(t, 4)))
            for v in (FALSE, TRUE):
                e2 = dict(env)
                e2[a] = v
                if exclusive(e2):
                    p2, q2 = beval(p, {a: v}), beval(q, {a: v})
                    mp = solved(a) if v is TRUE else None
                    if mp:
                        p2, q2 = replace(p2, mp), replace(q2, mp)
                    explore(p2, q2, e2)
        explore(g, w, {})
        if not pairs:
            self.hold(name)
            return True
        worst = None
        for (p, q), env in sorted(pairs.items(), key=lambda x: sum(v is TRUE for v in x[1].values())):
            if p in (TRUE, FALSE) and q in (TRUE, FALSE):
                self.violate(name, "%s is %s where %s is required (%s)" % (
                    what, p is TRUE, q is TRUE, "; ".join("%s=%s" % (show(a, 5)[:80], v is TRUE) for a, v in
                                                          sorted(env.items(), key=lambda x: x[0].h))[:600]), loc or where(case, p))
                return False
        # the rest differs only in atoms that are not shared: decide by interpretation
        for (p, q), env in pairs.items():
            ov = dict(case.over) if case else {}
            v, info = ri.agree(p, q, over=ov, sizes=dict(case.sizes) if case else {}, scales=ri.MODERATE, seeds=range(60))
            if v == "same":
                continue
            if v == "unknown" or ri.weak_parts(p, tm.subterms(q)):
                worst = worst or ("terms differ, not separated: %s | %s" % (show(p, 5)[:200], show(q, 5)[:200]))
                continue
            self.violate(name, "%s differs from the required one" % what, loc or where(case, p),
                         {"computed": show(p, 8)[:3000], "required": show(q, 8)[:3000]})
            return False
        if worst:
            self.unsure(name, worst)
            return None
        self.hold(name)
        self.byrandom += 1
        return True

    def equiv_or_known(self, name, got, want, alt, key, case=None, **kw):
        nv, ni = len(self.violations), len(self.inconclusive)
        if self.equiv(name, got, want, case, **kw):
            return True
        dv, di = self.violations[nv:], self.inconclusive[ni:]
        del self.violations[nv:], self.inconclusive[ni:]
        if self.equiv(name, got, alt, case, **kw):
            self.held.pop()
            self.known.append((key, "%s: %s" % (self.ob, name), kw.get("loc") or where(case, got)))
            return True
        del self.violations[nv:], self.inconclusive[ni:]
        self.violations += dv
        self.inconclusive += di
        return False

    def true(self, name, ok, msg, loc=None, detail=None):
        if ok:
            self.hold(name)
        else:
            self.violate(name, msg, loc, detail)
        return ok


BOOLOPS = ("and", "or", "not")


def splitany(t):
    """any(a or b) as any(a) or any(b), so that the parts become separate atoms."""
    if t.op in BOOLOPS:
        return tm.REBUILD[t.op](*[splitany(a) for a in t.args])
    if t.op in ("lt0", "le0", "gt0", "ge0", "eq0"):
        u = indicators(t)
        return splitany(u) if u is not None else t
    if t.op == "all":
        n = splitany(tm.mknot(t))
        return tm.mknot(n) if n.op != "any" else t
    if t.op == "any" and t.args[0].op == "B":
        _, vs, dims, body = tm.bopen(t.args[0])
        if body.op == "or":
            return tm.mkor(*[splitany(tm.mkany(tm.bind("lam", vs, dims, b))) for b in body.args])
    return t


_CMP = {"lt0": lambda v: v < 0, "le0": lambda v: v <= 0, "gt0": lambda v: v > 0, "ge0": lambda v: v >= 0,
        "eq0": lambda v: v == 0}


def linear_count(t):
    """A comparison of k0 + k1 [c1] + k2 [c2] + ... with zero, all conditions, decided one after the other."""
    base, parts = Fraction(0), []
    for m, k in tm._terms(t.args[0]):
        if m is tm.ONEMONO:
            base += k
            continue
        m = tm._unmono(m) if m.op == "mono" else m
        if m.op == "ite" and all(tm.is_num(x) for x in m.args[1:]):
            hi, lo = (x.args[1] for x in m.args[1:])
            base += k * lo
            parts.append((m.args[0], k * (hi - lo)))
        elif tm.isbool(m) and m.op not in ("c", "poly", "mono"):
            parts.append((m, k))
        else:
            return None
    low = [Fraction(0)]
    high = [Fraction(0)]
    for _, k in reversed(parts):
        low.append(low[-1] + min(k, 0))
        high.append(high[-1] + max(k, 0))
    low.reverse()
    high.reverse()
    test = _CMP[t.op]
    memo = {}

    def go(i, v):
        a, b = v + low[i], v + high[i]
        if i == len(parts):
            return TRUE if test(v) else FALSE
        if t.op == "eq0":
            if a > 0 or b < 0:
                return FALSE
        elif test(a) and test(b):
            return TRUE
        elif not test(a) and not test(b):
            return FALSE
        r = memo.get((i, v))
        if r is None:
            c, k = parts[i]
            r = memo[i, v] = tm.mkor(tm.mkand(c, go(i + 1, v + k)), tm.mkand(tm.mknot(c), go(i + 1, v)))
        return r
    return go(0, base)


def indicators(t, fuel=8):
    """A comparison of a sum of 0/1 quantities as a condition on them."""
    atoms = []

    def scan(x):
        if x.op == "ite" or tm.isbool(x) and x.op != "c":
            atoms.append(x)
        elif x.op == "poly" or x.op == "mono" and x.args[0] == 0:
            for y in x.args:
                if isinstance(y, T):
                    scan(y)
    scan(t.args[0])
    if not atoms or fuel == 0:
        return None
    r = linear_count(t)
    if r is not None:
        return r
    a = atoms[0]
    c = a.args[0] if a.op == "ite" else a
    out = []
    for lit, v in ((c, a.args[1] if a.op == "ite" else ONE), (tm.mknot(c), a.args[2] if a.op == "ite" else ZERO)):
        x = tm.mkcmp0(t.op, replace(t.args[0], {a: v}))
        if x.op in ("lt0", "le0", "gt0", "ge0", "eq0"):
            y = indicators(x, fuel - 1)
            x = y if y is not None else x
        out.append(tm.mkand(lit, x))
    return tm.mkor(*out)


def posatom(t):
    """(atom, polarity): order comparisons and their negations share an atom."""
    if t.op == "not":
        a, s = posatom(t.args[0])
        return a, not s
    if t.op in ("ge0", "le0", "ne0", "all"):
        return tm.mknot(t), False
    return t, True


def batoms(t):
    if t.op in ("and", "or"):
        return set().union(*[batoms(a) for a in t.args])
    if t in (TRUE, FALSE):
        return set()
    return {posatom(t)[0]}


def beval(t, env):
    if t.op == "and":
        return tm.mkand(*[beval(a, env) for a in t.args])
    if t.op == "or":
        return tm.mkor(*[beval(a, env) for a in t.args])
    a, s = posatom(t)
    v = env.get(a)
    if v is None:
        return t
    return v if s else tm.mknot(v)


def freeatom(a):
    """A fact about the input that is true for some inputs and false for others, whatever else holds."""
    if a.op == "any" and a.args[0].op == "B":
        b = tm.bparts(a.args[0])[2]
        return b.op in ("isposinf", "isneginf", "isnan") and b.args[0].op in ("at", "getcol")
    if a.op == "isin":
        return a.args[0].op == "c" and a.args[1].op == "attr" and a.args[1].args[1] == "columns"
    if a.op == "eq":
        return any(x.op == "attr" and x.args[1] == "kind" and x.args[0].op == "dtype" for x in a.args) and \
            any(x.op == "c" for x in a.args)
    return False


def solved(a):
    """Substitution that makes a linear equation true."""
    if a.op == "eq" and all(x.op == "sym" and x.args[1] in ("size", "int") for x in a.args):
        return {a.args[0]: a.args[1]}
    if a.op != "eq0":
        return None
    for m, k in tm._terms(a.args[0]):
        m = tm._unmono(m) if m.op == "mono" else m
        if m.op == "sym" and abs(k) == 1:
            rest = psub(a.args[0], tm.pscale(m, k))
            if m not in tm.subterms(rest):
                return {m: tm.pscale(rest, -1 / k)}
    return None


def replace(t, mp):
    """Replace symbols outside binders."""
    if t in mp:
        return mp[t]
    if t.op in ("B", "sym", "c", "num") or not any(m in mp for m in tm.subterms(t)):
        return t
    return tm.rebuild(t, lambda x: replace(x, mp) if isinstance(x, T) else x)


def exclusive(env):
    """An expression equals at most one of several constants."""
    seen = {}
    for a, v in env.items():
        if a.op == "eq" and v is TRUE and any(x.op == "c" for x in a.args):
            k = [x for x in a.args if x.op != "c"]
            c = [x for x in a.args if x.op == "c"]
            if k and c and seen.setdefault(k[0], c[0]) is not c[0]:
                return False
    return True


def mentions(t, n):
    return any(s.op == "sym" and s.args[0] == n for s in tm.subterms(t))


def termdims(t):
    if t.op == "B" and t.args[0] == "lam":
        return list(tm.bparts(t)[1])
    if t.op == "blk":
        return [padd(ZERO, *p.args) if len(p.args) > 1 else p.args[0] for p in t.args[1:1 + t.args[0]]]
    return None


def expand(t, dims):
    """An array-valued term written out over its indices."""
    if t.op in ("B", "blk", "c", "list", "tuple", "lcat", "dict", "pd", "obj"):
        return t
    vs = [fresh() for _ in dims]
    return tm.raw("B", *tm.bind("lam", vs, dims, tm.mkat(t, *vs)).args)


def reduce_pair(a, b):
    """Give both sides of an array comparison the same form."""
    da, db = termdims(a), termdims(b)
    if da is not None and db is None:
        b = expand(b, da)
    elif db is not None and da is None:
        a = expand(a, db)
    return a, b


def mismatch(a, b):
    """Descend in parallel to the smallest differing pair."""
    while True:
        if a.op == b.op and len(a.args) == len(b.args) and a.op not in ("poly", "mono"):
            diffs = [(x, y) for x, y in zip(a.args, b.args) if x is not y and x != y]
            if len(diffs) == 1 and a.op != "B" and isinstance(diffs[0][0], T) and isinstance(diffs[0][1], T):
                a, b = diffs[0]
                continue
        return a, b


def where(case, *terms):
    """Source location the analysis recorded for a term."""
    if case is None:
        return None
    for t in terms:
        p = case.I.prov.get(t)
        if p:
            return p
    best = None
    for t in terms:
        for s in tm.subterms(t):
            p = case.I.prov.get(s)
            if p and (best is None or s.h > best[0]):
                best = (s.h, p)
        if best:
            return best[1]
    return case.lastfn


# ---------------------------------------------------------------- driver
_JOBS = {}


def one(name):
    """Discharge one obligation (in a worker process)."""
    ctx, fn = _JOBS["ctx"], _JOBS[name]
    ctx.ob = name
    ctx._cases = []
    ctx.inline = set()
    for attempt in range(4):
        try:
            if attempt:
                ctx.held, ctx.byrandom, ctx.inconclusive, ctx.violations, ctx.known = [], 0, [], [], []
                ctx._cases = []
            attempt_one(ctx, fn)
            break
        except Inline as e:
            # the code computes without this function: decide with its definition instead
            ctx.inline = ctx.inline | set(e.args[0])
    for c in ctx._cases:
        if ctx.pid in SHAPED:
            misfits(ctx, c)
        ctx.functions |= c.I.functions
        ctx.callsites += c.I.callsites
    ctx._cases = []
    return report(ctx)


# checks whose arguments all have the documented shapes
SHAPED = ("C01", "C03", "C04", "C05", "C06", "C18", "C20")


def pure(t):
    """A polynomial in the free sizes of the inputs."""
    if t.op == "poly":
        return all(m is tm.ONEMONO or pure(tm._unmono(m)) for m, _ in tm._terms(t))
    return t.op == "c" or (t.op == "sym" and t.args[1] in ("size", "int")) or t.op == "nrows"


def misfits(ctx, c):
    """Operands whose lengths are different input sizes: the operation fails on every ordinary input."""
    seen = set()
    for e in c.I.misfits:
        if e.loc is None or (e.loc[:3], e.data) in seen:
            continue
        seen.add((e.loc[:3], e.data))
        p, q, how = e.data
        if os.environ.get("SA_MISFIT"):
            print("MISFIT", pure(p) and pure(q), e.loc[:3], show(p, 4)[:100], "|", show(q, 4)[:100], how, "|", show(e.cond, 3)[:100])
        if not (pure(p) and pure(q)):
            continue
        bad = mkand(e.cond, mknot(mkcmp("==", p, q)))
        if bad is FALSE:
            continue
        v, info = ri.agree(bad, FALSE, over=dict(c.over), sizes=dict(c.sizes), scales=ri.MODERATE, seeds=range(30))
        if v == "diff":
            ctx.violate("shapes", "arrays of lengths %s and %s are %s" % (show(p, 4)[:80], show(q, 4)[:80], how), e.loc[:3])


class Inline(BaseException):
    pass


def rejects(ctx):
    """The explicit raise statement that ends every path, if that is why there is no completion."""
    if not ctx._cases:
        return None
    for e in reversed(ctx._cases[-1].I.effects):
        if e.kind in ("badcall", "noattr"):
            return None
        if e.kind == "raise":
            return e
    return None


def attempt_one(ctx, fn):
    try:
        fn(ctx)
    except AnalysisBroken as e:
        ctx.unsure("evaluation", "anchor: %s" % e)
    except MissingArg as e:
        ctx.unsure("evaluation", "call does not fit the signature: %s" % e)
    except Unsupported as e:
        ctx.unsure("evaluation", "not modelled: %s%s" % (e, lastloc(ctx)))
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
    except Dead:
        e = rejects(ctx)
        if e is not None and e.loc and str(e.loc[0]).startswith(REPO + "/"):
            ctx.violate("evaluation", "a valid call ends in %s instead of a result" % (e.data,), e.loc[:3])
        else:
            ctx.unsure("evaluation", "no normal completion%s" % lastloc(ctx))
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
    except (RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError, AssertionError,
            ZeroDivisionError, ar.RankError) as e:
        ctx.unsure("evaluation", "internal: %s %s%s" % (type(e).__name__, e, lastloc(ctx)))
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()


def report(ctx):
    return dict(held=ctx.held, byrandom=ctx.byrandom, inconclusive=ctx.inconclusive, violations=ctx.violations,
                functions=ctx.functions, callsites=ctx.callsites, counts=ctx.counts, known=ctx.known)


class TimeUp(BaseException):
    pass


def _alarm(*a):
    raise TimeUp()


def fresh_one(name):
    c = _JOBS["ctx"]
    left = min(_JOBS["limit"], _JOBS["deadline"] - time.time())
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, max(left, 1))
    c.held, c.byrandom, c.inconclusive, c.violations = [], 0, [], []
    c.functions, c.callsites, c.counts, c.known = set(), 0, {}, []
    t0 = time.time()
    try:
        r = one(name)
    except TimeUp:
        c.unsure("evaluation", "time limit")
        r = report(c)
    signal.setitimer(signal.ITIMER_REAL, 0)
    if os.environ.get("SA_VERBOSE"):
        print("  [%.1fs] %s" % (time.time() - t0, name), flush=True)
    return r


def run(pid, obligations, tier, meta, minimum):
    t0 = time.time()
    ctx = Ctx(pid, tier)
    _JOBS["ctx"] = ctx
    _JOBS["limit"] = 400 if tier == "thorough" else 240
    _JOBS["deadline"] = t0 + 600
    for name, fn in obligations:
        _JOBS[name] = fn
    names = [n for n, _ in obligations]
    procs = int(os.environ.get("SA_PROCS", "8"))
    if names:
        import multiprocessing as mp
        with mp.get_context("fork").Pool(max(1, min(procs, len(names))), maxtasksperchild=1) as pool:
            res = pool.map(fresh_one, names, chunksize=1)
    else:
        res = []
    out = Ctx.__new__(Ctx)
    out.pid, out.tier = pid, tier
    out.held, out.byrandom, out.inconclusive, out.violations = [], 0, [], []
    out.functions, out.callsites, out.counts, out.known = set(), 0, {}, []
    for r in res:
        out.held += r["held"]
        out.byrandom += r["byrandom"]
        out.inconclusive += r["inconclusive"]
        out.violations += r["violations"]
        out.functions |= r["functions"]
        out.callsites += r["callsites"]
        out.known += r["known"]
        for k, v in r["counts"].items():
            out.counts[k] = out.counts.get(k, 0) + v
    return finish(out, [], time.time() - t0, meta, minimum)


def lastloc(ctx):
    if ctx._cases and ctx._cases[-1].I is not None and ctx._cases[-1].I.loc:
        l = ctx._cases[-1].I.loc
        return " at %s:%s" % (os.path.basename(l[0]), l[1])
    return ""


def rel(loc):
    if not loc:
        return None
    p = loc[0]
    if p.startswith(REPO + "/"):
        p = p[len(REPO) + 1:]
    return "%s:%s in %s" % (p, loc[1], loc[2])


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else ():
        line = line.strip()
        if line.startswith("known: property=%s " % pid):
            ident, _, text = line[len("known: property=%s " % pid):].partition(" :: ")
            out.append((ident.strip(), text))
    return out


def finish(ctx, errors, wall, meta, minimum):
    pid = ctx.pid
    kf = known_findings(pid)
    vio, known = list(ctx.violations), []
    for key, ob, loc in ctx.known:
        hit = [k for k in kf if k[0] == key]
        if hit:
            known.append((Violation(ob, "known deviation", loc), hit[0]))
        else:
            vio.append(Violation(ob, "deviates as described by %s, which is not a listed finding" % key, loc))
    ev = {
        "property": pid, "tier": ctx.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": meta["level"],
        "coverage": {
            "explanation": meta["explanation"],
            "obligations_held": len(ctx.held), "settled_by_random_interpretation": ctx.byrandom,
            "obligations_inconclusive": len(ctx.inconclusive),
            "functions_analysed": len(ctx.functions), "call_sites": ctx.callsites,
            "functions": sorted(ctx.functions)[:200], "held": ctx.held[:400],
            "inconclusive": ctx.inconclusive[:100], "counts": ctx.counts,
            "known_findings": ["%s: %s" % (v.ob, v.msg) for v, _ in known],
        },
        "wall_s": round(wall, 3),
        "violations": len(vio),
        "assumptions": meta.get("assumptions", []),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted({k for _, k in known}):
        print("KNOWN-FINDING: property=%s %s" % (pid, k[1] or k[0]))
    print("%s: %d obligations held (%d by random interpretation), %d inconclusive, %d functions, %.1fs" % (
        pid, len(ctx.held), ctx.byrandom, len(ctx.inconclusive), len(ctx.functions), wall))
    if os.environ.get("SA_VERBOSE"):
        for h in ctx.held:
            print("  held", h)
    for s in ctx.inconclusive:
        print("  inconclusive:", s)
    if vio:
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", "replay", pid + ".txt")
        with open(path, "w") as f:
            for v in vio:
                f.write("property %s\nobligation %s\n%s\nat %s\n" % (pid, v.ob, v.msg, rel(v.loc)))
                for k, x in (v.detail or {}).items():
                    f.write("  %s: %s\n" % (k, x))
                f.write("replay: cd /verif && python3 -m sa %s\n\n" % pid)
        for v in vio:
            print("  violated: %s: %s at %s" % (v.ob, v.msg, rel(v.loc)))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    for e in errors:
        print("  inconclusive:", e)
    if not ctx.held and not known:
        print("ANALYSIS-ERROR nothing could be decided")
        return 2
    return 0
