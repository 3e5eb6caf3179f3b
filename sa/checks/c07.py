"""C07: parameter-vector layout."""
from .glue import *
from .c16 import Expected, NESTS2, symnames, val

META = dict(level="other",
            explanation="every function that splits, assembles, labels, counts or reorders a parameter vector is evaluated on a "
                        "symbolic vector and compared with the one documented block order; the condition under which an "
                        "initial vector is rejected is compared with 'length differs from the sum of the block lengths'")


def names_for(c, typ, inter, nm):
    kw = {}
    for b, n in sizes(typ, inter):
        if b == "shape":
            kw["shape_names"] = nm["shape"] = symnames(c, "shape_names", n)
        if b == "inter":
            kw["intercept_names"] = nm["inter"] = symnames(c, "intercept_names", n)
    if typ == "Nested Logit":
        kw["nest_spec"] = NESTS2(c)
    return kw


def split(typ, inter, all_):
    def ob(ctx):
        c = model_case(ctx)
        t = TYPES[typ]
        x = c.arr("x", total(typ, inter))
        b = blocks(c, typ, inter, x, c.st)
        r2a, des = c.arr("r2a", R, A_, kind="sp"), c.arr("X", R, K)
        f = "pylogit.%s.split_param_vec" % t["mod"]
        kw = dict(return_all_types=const(all_))
        if typ == "Nested Logit":
            args = [x, c.arr("r2n", R, num(2), kind="sp")]
        elif typ == "Mixed Logit":
            args = [x]
        else:
            args = [x, r2a, des]
        r = c.call(f, args, kw)
        order = ["nest", "shape", "inter", "beta"]
        if not all_:
            order = ["nest", "beta"] if typ == "Nested Logit" else ["shape", "inter", "beta"]
        its = r.items()
        if not ctx.true("number of blocks", len(its) == len(order), "%d blocks" % len(its), c.lastfn):
            return
        for n, v in zip(order, its):
            ctx.same("%s block" % n, val(c, v, r.st), val(c, b[n], c.st), c)
    return ob


def extra_for(typ, nm=None):
    return lambda c: names_for(c, typ, None, {}) if typ == "Nested Logit" else {}


def length(typ, inter):
    def ob(ctx):
        L = sym("L", "size")
        try:
            c, q = fitted(ctx, typ, inter, lambda c: dict(just_point=TRUE), init=lambda c: c.arr("theta0", L),
                          extra=extra_for(typ))
            rs = [e for e in q.effects if e.kind == "raise" and mentions(e.cond, "L")]
            got = tm.mkor(*[e.cond for e in rs]) if rs else FALSE
            if not rs:
                ctx.violate("length test", "no initial vector is rejected for its length", c.lastfn)
                return
        except Dead:
            raise Unsupported("no completion for a symbolic length")
        ctx.same("rejected exactly when the length differs", got, tm.mkcmp("!=", L, total(typ, inter)), c, rs[0].loc[:3])
        done = c.mini.calls and any(mentions(p, "L") for p in c.mst.path)
        for d in (ONE, num(-1), AM1, pneg(AM1)):
            if typ == "Mixed Logit" and d is pneg(AM1):
                continue
            wrong(ctx, typ, inter, d)
    return ob


def wrong(ctx, typ, inter, d):
    name = "length off by %s" % show(d)
    c = model_case(ctx, names=["x", "z"] if typ == "Mixed Logit" else None)
    r = build(c, typ, inter, **extra_for(typ)(c))
    x = c.arr("theta0", padd(total(typ, inter), d))
    kw = dict(just_point=TRUE)
    if typ == "Mixed Logit":
        kw["num_draws"] = sym("nd", "int")
    f = c.I.getattr(r.v, "fit_mle", c.st)
    try:
        c.call(f, [x], kw)
    except Dead:
        ctx.true(name + " is rejected before optimisation", not c.mini.calls, "the optimiser is reached", c.mini.loc if c.mini.calls else None)
        return
    if not c.mini.calls:
        ctx.unsure(name, "no optimiser call")
        return
    conds = [e.cond for e in c.I.effects if e.kind == "raise"]
    if TRUE in conds:
        ctx.hold(name + " is rejected before optimisation")
    elif any(mentions(x_, "theta0") for x_ in conds):
        ctx.unsure(name, "rejected under a condition")
    else:
        ctx.violate(name, "an initial vector of the wrong length reaches the optimiser", c.mini.loc)


def assembly(typ, inter):
    def ob(ctx):
        szs = dict(sizes(typ, inter))
        keys = {"shape": "init_shapes", "inter": "init_intercepts", "beta": "init_coefs"}
        parts = {}

        def opts(c):
            o = dict(just_point=TRUE)
            for b, n in sizes(typ, inter):
                parts[b] = o[keys[b]] = c.arr("i_" + b, n)
            return o
        c, q = fitted(ctx, typ, inter, opts, init=lambda c: NONE)
        want = [c.I.deref(parts[b], c.st) for b, _ in sizes(typ, inter)]
        want = ar.concat(want, 0) if len(want) > 1 else want[0]
        ctx.same("initial vector", val(c, c.mkw["x0"], c.mst), ar.lower(want), c, c.mini.loc)
        c, q = fitted(ctx, typ, inter, opts)
        ctx.same("a complete initial vector wins over separate values", val(c, c.mkw["x0"], c.mst), c.I.lower(c.init, c.st), c,
                 c.mini.loc)
        # wrong block lengths
        for bad in szs:
            c = model_case(ctx)
            r = build(c, typ, inter)
            kw = dict(just_point=TRUE)
            for b, n in sizes(typ, inter):
                kw[keys[b]] = c.arr("i_" + b, padd(n, ONE) if b == bad else n)
            f = c.I.getattr(r.v, "fit_mle", c.st)
            rejected(ctx, c, "%s of the wrong length" % keys[bad], f, kw, [NONE])
        if len(szs) > 1:
            # compensating errors
            b1, b2 = list(szs)[:2]
            c = model_case(ctx)
            r = build(c, typ, inter)
            kw = dict(just_point=TRUE)
            for b, n in sizes(typ, inter):
                kw[keys[b]] = c.arr("i_" + b, padd(n, ONE) if b == b1 else padd(n, num(-1)) if b == b2 else n)
            rejected(ctx, c, "compensating wrong lengths", c.I.getattr(r.v, "fit_mle", c.st), kw, [NONE])
    return ob


def storage(typ, inter, named):
    def ob(ctx):
        nm = {}
        c, q = fitted(ctx, typ, inter, lambda c: dict(OPTIONS), extra=lambda c: names_for(c, typ, inter, nm) if named or
                      typ == "Nested Logit" else {})
        e = Expected(ctx, c, q, typ, inter, names=nm if named else {})
        idx = e.allnames()
        for attr, b, n in (("coefs", "beta", "coefficients"), ("intercepts", "inter", "intercept_parameters"),
                           ("shapes", "shape", "shape_parameters"), ("nests", "nest", "nest_parameters")):
            if b in dict(sizes(typ, inter)):
                e.frame(attr, e.blk[b], e.names(b), const(n))
            else:
                e.num(attr, NONE)
        e.frame("params", e.x, idx, const("parameters"))
        e.frame("gradient", e.g, idx, const("gradient"))
        if not named and dict(sizes(typ, inter)).keys() & {"shape", "inter"}:
            return
        # bootstrap views of the same layout
        c.st = q.st
        r = c.call("pylogit.bootstrap.get_param_names", [c.model])
        ctx.same("bootstrap parameter names", r.term(), idx, c)
        reps = c.arr("reps", sym("B", "size"), total(typ, inter))
        r = c.call("pylogit.bootstrap.get_param_list_for_prediction", [c.model, reps])
        its = r.items()
        if ctx.true("prediction list has four entries", len(its) == 4, "%d entries" % len(its), c.lastfn):
            off = ZERO
            want = {}
            for b, n in sizes(typ, inter):
                v0, v1 = fresh(), fresh()
                want[b] = tm.bind("lam", [v0, v1], [n, sym("B", "size")], tm.mkat(c.I.lower(reps, c.st), v1, padd(v0, off)))
                off = padd(off, n)
            for b, v in zip(["beta", "inter", "shape", "nest"], its):
                ctx.same("prediction list %s" % b, val(c, v, r.st), want.get(b, NONE), c)
    return ob


def defaults(typ, inter):
    """Initial values taken from an MNL fit, by name."""
    def ob(ctx):
        nm = {}
        c = model_case(ctx, names=["x", "z"] if typ == "Mixed Logit" else None)
        r = build(c, typ, inter, **names_for(c, typ, inter, nm))
        I = c.I
        model = r.v
        P = total(typ, inter)
        ind = I.lower(I.getattr(model, "ind_var_names", c.st), c.st)
        nb = num(2) if typ == "Mixed Logit" else K
        vals = ar.symarr("mnl", padd(nb, AM1) if inter else nb)
        # the MNL model lists its intercepts first
        ix = tm.mklcat(I.lower(nm["inter"], c.st), ind) if inter else ind
        ser = c.ref(Arr(vals.parts, vals.bodies, "se", (ix, NONE)))
        q = c.call("pylogit.bootstrap_mle.extract_default_init_vals", [model, ser, P])
        sc = ONE
        if typ == "Asym":
            u = c.call("spec.results.num_alts", [I.getattr(model, "alt_IDs", c.st)])
            sc = tm.ppow(u.term(), -1)
        m = sym("mnl")
        parts, off = [], ZERO
        vt = ar.lower(vals)
        for b, n in sizes(typ, inter):
            if b in ("nest", "shape"):
                parts.append(ar.mk([n], ZERO))
            elif b == "inter":
                parts.append(Arr(((n,),), {(0,): tm.mkat(vt, ax(0))}))
            else:
                o = AM1 if inter else ZERO
                if typ == "Mixed Logit":
                    parts.append(Arr(((num(2),),), {(0,): tm.mkat(vt, ax(0))}))
                    parts.append(ar.mk([ONE], ZERO))
                else:
                    parts.append(Arr(((n,),), {(0,): pmul(sc, tm.mkat(vt, padd(ax(0), o)))}))
        want = ar.concat(parts, 0) if len(parts) > 1 else parts[0]
        ctx.same("initial values", val(c, q.v, q.st), ar.lower(want), c)
    return ob


ASYM = [x for x in configs() if x[0] in ("Asym", "Cloglog", "Scobit", "Uneven")]
OBLIGATIONS = [("%s split all=%s" % (label(t, i), a), split(t, i, a)) for t, i in configs() for a in (False, True)] + \
    [("%s initial length" % label(t, i), length(t, i)) for t, i in configs()] + \
    [("%s initial blocks" % label(t, i), assembly(t, i)) for t, i in ASYM] + \
    [("%s storage%s" % (label(t, i), " user names" if n else ""), storage(t, i, n)) for t, i in configs()
     for n in (False, True)] + \
    [("%s initial values from MNL" % label(t, i), defaults(t, i)) for t, i in configs() if t != "MNL"]
