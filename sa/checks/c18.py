"""C18: confidence intervals."""
from .glue import *
from .c07 import names_for

META = dict(level="other",
            explanation="value numbering of the percentile, BCa and ABC computations, end to end and step by step, against "
                        "their published formulas with refits uninterpreted, and of the stored tables and their labels")
S_ = "spec.intervals."
BC = "pylogit.bootstrap_calcs."
AB = "pylogit.bootstrap_abc."
NB, NJ, P_ = sym("NB", "size"), sym("NJ", "size"), sym("P", "size")
CONF = sym("conf", "num")


def tied(n, p=None):
    """Arrays in which values repeat, now and then through a whole column."""
    def f(m):
        rows, cols = int(m.size(n)), int(m.size(p)) if p else 1
        if m.rnd.random() < .5:
            cell = lambda: D(m.rnd.randint(-3000, 3000)) / D(1009)
        else:
            cell = lambda: D(m.rnd.randint(1, 4))
        out = [[cell() for _ in range(cols)] for _ in range(rows)]
        for j in range(cols):
            if m.rnd.random() < .2:
                for r in out:
                    r[j] = D(2)
        return out if p else [r[0] for r in out]
    return f


def base(ctx):
    c = model_case(ctx)
    c.over.update(reps=tied("NB", "P"), jack=tied("NJ", "P"), mle=tied("P"))
    c.over.update({"conf": lambda m: D(m.rnd.randint(50, 999)) / D(10)})
    return c


def percentile(ctx):
    c = base(ctx)
    reps = c.arr("reps", NB, P_)
    r = c.call(BC + "calc_percentile_interval", [reps, CONF])
    ctx.same("percentile interval", r.term(), c.call(S_ + "percentile", [reps, CONF]).term(), c)


def bca(ctx):
    c = base(ctx)
    reps, jack, mle = c.arr("reps", NB, P_), c.arr("jack", NJ, P_), c.arr("mle", P_)
    r = c.call(BC + "calc_bca_interval", [reps, jack, mle, CONF])
    ctx.same("BCa interval", r.term(), c.call(S_ + "bca", [reps, jack, mle, CONF]).term(), c)


def fits(c):
    """Refits as uninterpreted functions of everything they are given."""
    calls = []

    def op(I, f, args, kwargs, st):
        fr = bound(I, f, args, kwargs, st)
        calls.append((fr, st.copy(), I.loc))
        n = dimn(I, fr["init_vals"], st)
        ts = [raw("tuple", const(k), I.lower(v, st)) for k, v in sorted(fr.items()) if k not in ("self", "kwargs")]
        if "kwargs" in fr:
            ts.append(I.lower(fr["kwargs"], st))
        return I.alloc(st, Dct(app("fit outcome", ts), [(const("x"), mkres(I, st, app("fit", ts), [n]))], "optres"))
    for t in TYPES.values():
        c.I.opaque["pylogit.%s.%s.fit_mle" % (t["mod"], t["cls"])] = op
    return calls


def setup(ctx, typ="MNL", inter=False, given=True):
    c = base(ctx)
    r = build(c, typ, inter)
    c.model = r.v
    c.calls = fits(c)
    c.P = total(typ, inter)
    c.mle, c.init = c.arr("mle", c.P), c.arr("init", c.P, origin=["init_vals"])
    c.eps = sym("eps", "num")
    c.kw = dict(method=sym("method", "str"), ridge=sym("ridge", "num"), print_res=FALSE)
    c.w = c.arr("w", tm.mknrows(c.df), origin=["weights"])
    if given:
        c.kw["weights"] = c.w
    maps = c.I.call(c.I.getattr(c.model, "get_mappings_for_fit", c.st), [], {}, c.st)
    c.r2o = {k.args[1]: v for k, v in c.I.deref(maps, c.st).ents}["rows_to_obs"]
    c.given = c.w if given else ONE
    c.skw = c.dct([(k, v) for k, v in c.kw.items() if k != "weights"] + [("just_point", TRUE)])
    c.over["eps"] = lambda m: D(m.rnd.randint(1, 99)) / D(1000)
    return c


def abc(given):
    def ob(ctx):
        c = setup(ctx, given=given)
        r = c.call(AB + "calc_abc_interval", [c.model, c.mle, c.init, CONF], dict(c.kw, epsilon=c.eps))
        fn = c.lastfn
        want = c.call(S_ + "abc", [c.model, c.mle, c.init, CONF, c.eps, c.r2o, c.given, c.skw])
        ctx.same("ABC interval", r.term(), want.term(), c, fn)
    return ob


def steps(ctx):
    """Each named step on its own."""
    c = base(ctx)
    c.over["eps"] = lambda m: D(m.rnd.randint(1, 99)) / D(1000)
    eps = sym("eps", "num")
    n = sym("NO", "size")
    tp, tmn, t, t2 = [c.arr(x, n, P_) for x in ("tplus", "tminus", "infl", "infl2")]
    mle, sd, a, z0, b, q, cv = [c.arr(x, P_) for x in ("mle", "sd", "acc", "z0", "bias", "quad", "curv")]
    c.over["sd"] = lambda m: [D(m.rnd.randint(1, 900)) / D(100) for _ in range(int(m.size("P")))]
    for f, args, ref in ((AB + "calc_empirical_influence_abc", [tp, tmn, eps], S_ + "first_influence"),
                         (AB + "calc_2nd_order_influence_abc", [mle, tp, tmn, eps], S_ + "second_influence"),
                         (AB + "calc_std_error_abc", [t], S_ + "abc_sigma"),
                         (AB + "calc_acceleration_abc", [t], S_ + "abc_accel"),
                         (AB + "calc_bias_abc", [t2], S_ + "abc_bias"),
                         (AB + "calc_total_curvature_abc", [b, sd, q], S_ + "abc_curvature"),
                         (AB + "calc_bias_correction_abc", [a, cv], S_ + "abc_z0"),
                         (BC + "calc_bias_correction_bca", [c.arr("reps", NB, P_), mle], S_ + "bca_z0"),
                         (BC + "calc_acceleration_bca", [c.arr("jack", NJ, P_)], S_ + "bca_accel"),
                         (BC + "calc_lower_bca_percentile", [CONF, z0, a], S_ + "bca_lower"),
                         (BC + "calc_upper_bca_percentile", [CONF, z0, a], S_ + "bca_upper")):
        try:
            r = c.call(f, args)
        except AnalysisBroken:
            ctx.count("steps not present")
            continue
        fn = c.lastfn
        want = c.call(ref, args).term()
        ctx.same(f.split(".")[-1], r.term(), want, c, fn)
        if ref == S_ + "bca_accel":
            ctx.guarded("acceleration of replicates that are all equal", r.term(), want, c)


OBLIGATIONS = [("steps", steps), ("percentile", percentile), ("bca", bca)] + \
    [("abc weights=%d" % g, abc(g)) for g in (0, 1)]


# stored tables ---------------------------------------------------------------------------------------------------
def k_table(name):
    def op(I, f, args, kwargs, st):
        fr = bound(I, f, args, kwargs, st)
        ts = keyed(I, {k: v for k, v in fr.items()}, st, drop=("self", "model_obj"))
        if "kwargs" in fr:
            ts.append(I.lower(fr["kwargs"], st))
        n = dimn(I, fr["mle_params" if name != "pi" else "bootstrap_replicates"], st, 0 if name != "pi" else 1)
        return mkres(I, st, app("interval." + name, ts), [num(2), n])
    return op


TABLES = {BC + "calc_percentile_interval": k_table("pi"), BC + "calc_bca_interval": k_table("bca"),
          AB + "calc_abc_interval": k_table("abc")}
HEADS.update({"interval.pi": BC + "calc_percentile_interval", "interval.bca": BC + "calc_bca_interval",
              "interval.abc": AB + "calc_abc_interval"})


def booted(ctx, typ, inter):
    c = base(ctx)
    c.I.opaque.update({k: v for k, v in TABLES.items() if k not in ctx.inline})
    kw = names_for(c, typ, inter, {})
    r = build(c, typ, inter, **kw)
    c.model, c.P = r.v, total(typ, inter)
    c.mle = c.arr("mle", c.P)
    b = c.call("pylogit.bootstrap.Boot", [c.model, c.mle])
    c.st, c.boot = b.st, b.v
    at = c.I.deref(c.boot, c.st).attrs
    c.index = c.I.getattr(at["mle_params"], "index", c.st)
    c.reps, c.jack = c.arr("reps", NB, c.P), c.arr("jack", NJ, c.P)
    for nm, a in (("bootstrap_replicates", c.reps), ("jackknife_replicates", c.jack)):
        at[nm] = c.I.call(c.fn("spec.intervals.frame"),
                          [a, c.index], {}, c.st)
    c.init = c.arr("init", c.P)
    c.kw = dict(method=sym("method", "str"), ridge=sym("ridge", "num"))
    c.eps = sym("eps", "num")
    return c


def wanted(c, which, st):
    I = c.I
    if which == "pi":
        v = I.call(c.fn(BC + "calc_percentile_interval"), [c.reps, CONF], {}, st)
    elif which == "bca":
        v = I.call(c.fn(BC + "calc_bca_interval"), [c.reps, c.jack, c.mle, CONF], {}, st)
    else:
        v = I.call(c.fn(AB + "calc_abc_interval"), [c.model, c.mle, c.init, CONF], dict(c.kw, epsilon=c.eps), st)
    return I.call(c.fn("spec.intervals.table"), [v, CONF, c.index], {}, st)


ATTR = dict(pi="percentile_interval", bca="bca_interval", abc="abc_interval")


def tables(typ, inter, which, direct):
    def ob(ctx):
        c = booted(ctx, typ, inter)
        args, kw = [CONF], {}
        if which == "abc" or not direct:
            args = [CONF, c.init]
            kw = dict(c.kw, epsilon=c.eps)
        if direct:
            r = c.call(c.I.getattr(c.boot, "calc_%s" % ATTR[which], c.st), args, kw)
        else:
            r = c.call(c.I.getattr(c.boot, "calc_conf_intervals", c.st), [CONF],
                       dict(kw, init_vals=c.init, interval_type=const(which)))
        fn = c.lastfn
        at = c.I.deref(c.boot, r.st).attrs
        ws = r.st.copy()
        for w in (("pi", "bca", "abc") if which == "all" else (which,)):
            wired(ctx, "%s table" % ATTR[w], c.I.lower(at[ATTR[w]], r.st), c.I.lower(wanted(c, w, ws), ws), c, loc=fn)
        if which == "all":
            want = c.I.call(c.fn("spec.intervals.together"), [c.I.alloc(ws, Lst.of([wanted(c, w, ws) for w in ("pi", "bca", "abc")])),
                                                              CONF, c.index], {}, ws)
            wired(ctx, "all_intervals table", c.I.lower(at["all_intervals"], r.st), c.I.lower(want, ws), c, loc=fn)
        else:
            for k, v in ATTR.items():
                if k != which:
                    ctx.same("%s is left alone" % v, c.I.lower(at[v], r.st), NONE, c, fn)
    return ob


def bad_type(ctx):
    for bad in ("PI", "percentile", "BCa", ""):
        c = booted(ctx, "MNL", False)
        rejected(ctx, c, "interval type %r" % bad, c.I.getattr(c.boot, "calc_conf_intervals", c.st),
                 dict(interval_type=const(bad), init_vals=c.init), [CONF])


BOOTED = [(t, i) for t, i in configs() if t != "Mixed Logit"]
OBLIGATIONS += [("%s %s %s" % (label(t, i), "calc_" + ATTR[w] if d else "calc_conf_intervals", w), tables(t, i, w, d))
                for t, i in BOOTED for w in ("pi", "bca", "abc", "all") for d in (1, 0) if not (d and w == "all")] + \
    [("interval types", bad_type)]
OBLIGATIONS += [("%s %s, after earlier calls" % ("calc_" + ATTR[w] if d else "calc_conf_intervals", w), again(tables("MNL", False, w, d)))
                for w in ("pi", "bca", "abc", "all") for d in (1, 0) if not (d and w == "all")]
