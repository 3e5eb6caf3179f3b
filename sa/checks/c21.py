"""C21: constrained parameters."""
from .glue import *
from .c15 import fixed_rows, zeroed
from .c16 import Expected, inferential

META = dict(level="other",
            explanation="fit_mle is evaluated symbolically for every model type and several constraint lists; the gradient "
                        "and curvature given to the optimiser and every stored statistic are compared with the "
                        "unconstrained kernels zeroed / fixed / reported missing at exactly the constrained positions")

NEST = {
    "second single": [("n1", (1, 2)), ("n2", (3,))],
    "first single": [("n1", (2,)), ("n2", (1, 3))],
    "both single": [("n1", (2,)), ("n2", (1,))],
    "none single": [("n1", (2, 4)), ("n2", (1, 3))],
}


def singles(spec):
    return {i for i, (_, a) in enumerate(NEST[spec]) if len(a) == 1}


def setup(ctx, typ, inter, user, spec, just):
    def opts(c):
        o = dict(OPTIONS, just_point=const(just), ridge=sym("ridge", "num"))
        if user is not None:
            o["constrained_pos"] = c.lst([num(i) for i in user], origin=["constrained_pos"])
        if typ == "Mixed Logit":
            o.update(num_draws=sym("nd", "int"), seed=sym("seed", "int"))
        return o

    def extra(c):
        if typ != "Nested Logit":
            return {}
        return {"nest_spec": c.dct([(k, c.lst([num(x) for x in v])) for k, v in NEST[spec]], origin=["nest_spec"])}
    return fitted(ctx, typ, inter, opts, extra=extra)


def constraint(typ, inter, user, spec):
    cons = set(user or ()) | (singles(spec) if typ == "Nested Logit" else set())

    def ob(ctx):
        c, q = setup(ctx, typ, inter, user, spec, True)
        I, kw, st = c.I, c.mkw, c.mst
        w = Wire(c, typ, inter, c.model, st, ridge=c.opts["ridge"], num_draws=c.opts.get("num_draws", NONE),
                 seed=c.opts.get("seed", NONE))
        th = w.vec("th")
        s2 = w.st
        got = I.call(kw["fun"], [th], {}, s2)
        if not isinstance(got, Tup):
            if isinstance(I.deref(kw.get("jac", NONE), st), T):
                raise Unsupported("objective without gradient")
            got = Tup([got, I.call(kw["jac"], [th], {}, s2)])
        g = I.deref(w.call("G", th), s2)
        want = zeroed(g, cons) if cons else ar.amap(pneg, ar.unblock(g))
        wired(ctx, "gradient", I.lower(got.items[1], s2), ar.lower(want), c)
        if "hess" in kw and I.isnone(kw["hess"], st) is not TRUE:
            h = I.call(kw["hess"], [th], {}, s2)
            hk = ar.amap(pneg, ar.unblock(I.deref(w.call("H", th), s2)))
            if typ in ("Nested Logit", "Mixed Logit"):
                hk = fixed_rows(hk, cons)
            wired(ctx, "curvature", I.lower(h, s2), ar.lower(hk), c)
        c, q = setup(ctx, typ, inter, user, spec, False)
        e = Expected(ctx, c, q, typ, inter, ridge=c.opts["ridge"], cons=cons)
        inferential(e, e.allnames(), sorted(cons))
    return ob


CONS = [None, (0,), (2, 0), ()]
OBLIGATIONS = [("%s constrained=%s" % (label(t, i), u), constraint(t, i, u, "second single"))
               for t, i in configs() for u in CONS] + \
    [("Nested Logit nests %s constrained=%s" % (s, u), constraint("Nested Logit", False, u, s))
     for s in ("first single", "both single", "none single") for u in (None, (3, 0), (1,))]
OBLIGATIONS += [("%s constrained=%s, after an earlier fit" % (label(t, i), u), again(constraint(t, i, u, "second single")))
                for t, i in configs() for u in (None, (0,))]
