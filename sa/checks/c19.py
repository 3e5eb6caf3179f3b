"""C19: saving and reloading models."""
import ast
from .glue import *
from .c14 import arguments
from ..interp import Partial, Mod, Ext, ExtM, Super, _Absent
from .c13 import rejection

META = dict(level="other",
            explanation="the heap reachable from a model object is computed by symbolic evaluation after construction, full and "
                        "point-only fits, prediction and summaries, for every model type, and searched for values that "
                        "cannot be pickled; the save method's file and object effects are compared with what is documented")


def unpicklable(c, v, st, path, seen, out):
    """Values reachable from v that pickle cannot store, with the access path that leads to them."""
    I = c.I
    v = I.resolve(v, st) if not isinstance(v, (Func, Cls, Partial, Bound, Mod, Ext)) else v
    if isinstance(v, Ref):
        if v.id in seen:
            return
        seen.add(v.id)
    d = I.deref(v, st) if isinstance(v, Ref) else v
    if d is None or isinstance(d, (_Absent, Arr, Opq)):
        return
    if isinstance(d, T):
        if any(x.op == "call" and x.args and x.args[0] == "open" for x in subterms(d)):
            out.append((path, "an open file"))
        return
    if isinstance(d, PhiV):
        unpicklable(c, d.a, st, path, seen, out)
        unpicklable(c, d.b, st, path, seen, out)
    elif isinstance(d, Func):
        why = badfunc(I, d)
        if why:
            out.append((path, why))
    elif isinstance(d, Bound):
        unpicklable(c, d.self_, st, path + ".__self__", seen, out)
        if isinstance(d.func, Func) and isinstance(d.func.node, ast.Lambda):
            out.append((path, "an anonymous function"))
    elif isinstance(d, Partial):
        unpicklable(c, d.func, st, path + ".func", seen, out)
        for i, x in enumerate(d.args):
            unpicklable(c, x, st, "%s.args[%d]" % (path, i), seen, out)
        for k, x in d.kwargs.items():
            unpicklable(c, x, st, "%s.keywords[%r]" % (path, k), seen, out)
    elif isinstance(d, Tup):
        for i, x in enumerate(d.items):
            unpicklable(c, x, st, "%s[%d]" % (path, i), seen, out)
    elif isinstance(d, Lst):
        if d.kind in ("gen", "keys", "view"):
            out.append((path, {"gen": "a generator", "keys": "a dictionary view", "view": "a dictionary view"}[d.kind]))
            return
        for i, (k, x) in enumerate(d.segs):
            if k == "v":
                unpicklable(c, x, st, "%s[%d]" % (path, i), seen, out)
    elif isinstance(d, Dct):
        for k, x in d.ents:
            unpicklable(c, x, st, "%s[%s]" % (path, k), seen, out)
    elif isinstance(d, Obj):
        if d.cls is not None:
            why = badclass(I, d.cls)
            if why:
                out.append((path, why))
            if custom(I, d.cls):
                state(c, v, d, st, path, seen, out)
                return
        for k, x in d.attrs.items():
            unpicklable(c, x, st, path + "." + k, seen, out)
    elif isinstance(d, Cls):
        why = badclass(I, d)
        if why:
            out.append((path, why))


def subterms(t, seen=None):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        todo += [y for y in x.args if isinstance(y, T)]


def badfunc(I, f):
    """Functions are stored by name: the name has to lead back to the function."""
    if isinstance(f.node, ast.Lambda):
        return "an anonymous function (line %d of %s)" % (f.node.lineno, f.module.name)
    if f.cls is not None and f.cls.qual == f.cls.module.name + "." + f.cls.node.name:
        return None
    if f.qual != f.module.name + "." + f.node.name:
        return "the locally defined function %s" % f.qual
    try:
        g = I.lookup(f.module.name, f.node.name)
    except (Unsupported, AnalysisBroken, KeyError):
        return None
    if isinstance(g, Func) and g.node is not f.node:
        return "the function %s, whose name now means another function" % f.qual
    return None


def badclass(I, cl):
    if cl.qual != cl.module.name + "." + cl.node.name:
        return "an instance of the locally defined class %s" % cl.qual
    return None


HOOKS = ("__getstate__", "__setstate__", "__reduce__", "__reduce_ex__", "__getnewargs__", "__getnewargs_ex__")


def custom(I, cl):
    return [h for h in HOOKS if any(h in k.members for k in cl.mro())]


def state(c, v, d, st, path, seen, out):
    """A class that describes its own state: what is written is walked, what comes back has to be everything."""
    I = c.I
    hs = custom(I, d.cls)
    if set(hs) - {"__getstate__", "__setstate__"}:
        raise Unsupported("custom %s" % ", ".join(hs))
    if "__getstate__" in hs:
        s = I.call(I.getattr(v, "__getstate__", st), [], {}, st)
        s = I.box(s, st)
    else:
        s = I.alloc(st, Dct(None, [(const(k), x) for k, x in d.attrs.items()]))
    unpicklable(c, s, st, path + ".__getstate__()", seen, out)
    new = I.alloc(st, Obj(d.cls, {}, None, d.label))
    if "__setstate__" in hs:
        I.call(I.getattr(new, "__setstate__", st), [s], {}, st)
    else:
        ds = I.deref(s, st)
        if not (isinstance(ds, Dct) and ds.known()):
            raise Unsupported("state that is not a dictionary")
        st.heap[new.id] = Obj(d.cls, {k.args[1]: x for k, x in ds.ents}, None, d.label)
    back = I.deref(new, st).attrs
    for k, x in I.deref(v, st).attrs.items():
        y = back.get(k)
        if y is None or isinstance(y, _Absent):
            if not isinstance(I.resolve(x, st), _Absent):
                out.append((path + "." + k, "dropped: the reloaded model lacks it"))
        elif x is not y and not same(I, x, y, st):
            out.append((path + "." + k, "changed: the reloaded model has another value"))


def same(I, x, y, st):
    try:
        return I.lower(x, st) is I.lower(y, st)
    except Unsupported:
        return True


def search(ctx, c, name, model, st):
    out = []
    n = len(c.I.effects)
    seen = set()
    unpicklable(c, model, st.copy(), "model", seen, out)
    ctx.count("heap cells reached", len(seen))
    ctx.true(name, not out, "; ".join("%s is %s" % x for x in out[:4]), c.lastfn)


def walk(typ, inter, full):
    def ob(ctx):
        c = model_case(ctx, names=["x", "z"] if typ == "Mixed Logit" else None)
        c.spec = spec_dict(c)
        kw = arguments(c, typ, inter) if full else {}
        if full:
            kw.pop("specification", None)
        r = build(c, typ, inter, **{k: v for k, v in kw.items() if k not in ("intercept_ref_pos", "shape_ref_pos")})
        fn = c.lastfn
        model = r.v
        search(ctx, c, "after construction", model, c.st)
        init = c.arr("theta0", total(typ, inter))
        for point in (TRUE, FALSE):
            opts = dict(OPTIONS, just_point=point)
            if full:
                opts.update(ridge=sym("ridge", "num"), weights=c.arr("w", tm.mknrows(c.df)),
                            constrained_pos=c.lst([num(0)]))
            if typ == "Mixed Logit":
                opts["num_draws"] = sym("nd", "int")
                if full:
                    opts["seed"] = sym("seed", "int")
            f = c.I.getattr(model, "fit_mle", c.st)
            q = c.call(f, [init], opts)
            search(ctx, c, "after a %s fit" % ("point-only" if point is TRUE else "full"), model, q.st)
        c.st = q.st
        if full:
            f = c.I.getattr(model, "predict", c.st)
            pk = dict(num_draws=sym("nd", "int"), seed=sym("seed", "int")) if typ == "Mixed Logit" else {}
            q = c.call(f, [c.dfr], pk)
            search(ctx, c, "after a prediction", model, q.st)
            f = c.I.getattr(model, "get_statsmodels_summary", c.st)
            try:
                q = c.call(f, [], {})
                search(ctx, c, "after a summary", model, q.st)
            except Unsupported as e:
                ctx.unsure("after a summary", str(e))
            f = c.I.getattr(model, "print_summaries", c.st)
            q = c.call(f, [], {})
            search(ctx, c, "after printing summaries", model, q.st)
    return ob


PATHS = [("m.pkl", "m.pkl"), ("model", "model.pkl"), ("a.b/c", "a.b/c.pkl"), ("x.pkl.bak", "x.pkl.bak.pkl"),
         ("pkl", "pkl.pkl"), ("dir.pkl/model", "dir.pkl/model.pkl"), ("/tmp/x y/m.PKL", "/tmp/x y/m.PKL.pkl")]


def themodel(c, obj, model, st):
    if obj == model:
        return True
    a, b = c.I.deref(obj, st), c.I.deref(model, st)
    return isinstance(a, Obj) and a.cls is b.cls and set(a.attrs) == set(b.attrs) and \
        all(a.attrs[k] is b.attrs[k] or a.attrs[k] == b.attrs[k] or same(c.I, a.attrs[k], b.attrs[k], st) for k in a.attrs)


def opened(e):
    return e.data if isinstance(e.data, T) else None


def saving(typ, inter):
    def ob(ctx):
        c = model_case(ctx, names=["x", "z"] if typ == "Mixed Logit" else None)
        model = build(c, typ, inter).v
        f = c.I.getattr(model, "to_pickle", c.st)
        for p, want in PATHS:
            q = c.call(f, [const(p)], {})
            dumps = [e for e in q.effects if e.kind == "pickle"]
            opens = [e for e in q.effects if e.kind == "open"]
            if not dumps:
                if any(e.kind in ("raise", "noattr", "badcall") for e in q.effects) or not opens:
                    ctx.violate("saving to %s" % p, "nothing is saved", c.lastfn)
                    continue
                raise Unsupported("no pickle.dump")
            obj, file = dumps[-1].data
            ctx.true("saving to %s stores the model" % p,
                     all(dumps[i].cond is TRUE for i in range(len(dumps))) and themodel(c, obj, model, q.st),
                     "what is stored is not the model itself", c.lastfn)
            ts = [opened(e) for e in opens]
            good = [t for t in ts if t is not None and len(t.args) > 2 and t.args[2] in (const("wb"), const("wb+"), const("w+b"))]
            names = [t.args[1] for t in ts if t is not None]
            ctx.true("saving to %s writes %s" % (p, want), bool(good) and good[-1] is file and file.args[1] is const(want),
                     "the model is written to %s" % ", ".join(str(n) for n in names), c.lastfn)
        for bad in (num(1), NONE, c.lst([const("m.pkl")]), TRUE):
            try:
                q = c.call(f, [bad], {})
                ctx.violate("path that is not a string is refused", "is accepted", c.lastfn)
            except Dead:
                ctx.hold("path that is not a string is refused")
    return ob


OBLIGATIONS = [("%s stored state%s" % (label(t, i), " with all options" if f else ""), walk(t, i, f))
               for t, i in configs() for f in (False, True)] + \
              [("%s save method" % label(t, False), saving(t, False)) for t in TYPES]
