"""C11: inputs and stored model state are never modified."""
from .glue import *
from . import c10
from .c07 import names_for
from .c14 import arguments
from .c18 import fits, AB, BC

META = dict(level="other",
            explanation="alias and effect analysis: every object a caller supplies and every array a model stores is labelled "
                        "with its origin, views and borrowed parts keep the label, copies drop it; each in-place operation "
                        "reachable from the public entry points is resolved to the objects it may modify and none may carry a "
                        "label (the documented intercept column excepted)")


def quiet(ctx, c, name, q, allow=(), only=None):
    effs = q.effects if hasattr(q, "effects") else q
    if getattr(ctx, "inspect", None):
        return ctx.inspect(ctx, c, name, q)
    bad = {}
    for e in effs:
        if e.kind != "mutate" or e.cond is FALSE:
            continue
        who = sorted(o for o in e.data[0] if o not in ("result",))
        if not who or (e.data[1] in allow):
            continue
        bad.setdefault((e.loc[:3] if e.loc else None, e.data[1]), set()).update(who)
    for (loc, how), who in sorted(bad.items(), key=str):
        ctx.violate(name, "%s is modified in place (%s)" % (", ".join(sorted(who)), how), loc)
    ctx.count("in-place operations resolved", sum(1 for e in effs if e.kind == "mutate"))
    if not bad:
        ctx.hold(name)
    return not bad


def tagged(op, tag):
    """results of an opaque kernel, labelled"""
    def run_(I, f, args, kwargs, st):
        v = op(I, f, args, kwargs, st)
        label_all(I, v.items[0] if isinstance(v, Tup) else v, st, tag)
        return v
    return run_


def label_all(I, v, st, tag, depth=3):
    """Label an object and what it holds."""
    if isinstance(v, Tup):
        for x in v.items:
            label_all(I, x, st, tag, depth)
        return
    if not isinstance(v, Ref):
        return
    I.origin[v.id] = I.origin.get(v.id, frozenset()) | frozenset([tag])
    d = st.heap.get(v.id)
    if depth == 0:
        return
    if isinstance(d, Dct):
        for k, x in d.ents:
            label_all(I, x, st, tag, depth - 1)
    elif isinstance(d, Lst) and d.known():
        for x in d.values():
            label_all(I, x, st, tag, depth - 1)
    elif hasattr(d, "attrs"):
        for k, x in d.attrs.items():
            label_all(I, x, st, "%s.%s" % (tag, k), depth - 1)


def mark(c, v, tag):
    label_all(c.I, v, c.st, tag)
    return v


def withmaps(c):
    """Stored matrices carry labels; everything else is analysed in full."""
    ks = kernels(c.names)
    c.I.opaque.clear()
    for q, tag in ((CT + "create_design_matrix", "the stored design matrix"),
                   (CT + "create_long_form_mappings", "a stored mapping matrix"),
                   (MC + "create_expanded_design_for_mixing", "the stored 3D design")):
        c.I.opaque[q] = tagged(ks[q], tag)
    return c


def newcase(ctx, typ, full):
    names = ["x", "z"] if typ == "Mixed Logit" else None
    c = model_case(ctx, names=names)
    c.names = names
    c.I.coarse = 60
    c.dfr = mark(c, c.dfr, "the data")
    if full:
        withmaps(c)
    else:
        for k in (CT + "create_design_matrix", CT + "create_long_form_mappings"):
            c.I.opaque[k] = tagged(c.I.opaque[k], "a stored matrix")
    return c


def given(c, typ, inter):
    kw = arguments(c, typ, inter)
    for k, v in kw.items():
        mark(c, v, k)
    return kw


def make(ctx, typ, inter, full=False):
    c = newcase(ctx, typ, full)
    kw = given(c, typ, inter)
    r = build(c, typ, inter, **kw)
    mark(c, c.spec, "specification")
    c.model = r.v
    return c, r


def construct(typ, inter):
    def ob(ctx):
        c = newcase(ctx, typ, False)
        kw = given(c, typ, inter)
        spec = mark(c, spec_dict(c), "specification")
        t = TYPES[typ]
        f = "pylogit.%s.%s" % (t["mod"], t["cls"])
        q = c.call(f, [c.dfr, COLS["alt"], COLS["obs"], COLS["ch"], spec], kw)
        quiet(ctx, c, "constructor", q)
        q = c.call("pylogit.pylogit.create_choice_model", [c.dfr, COLS["alt"], COLS["obs"], COLS["ch"], spec, const(typ)], kw)
        quiet(ctx, c, "create_choice_model", q)
        # the documented exception
        for lst in (False, True):
            sp = mark(c, c.dct([("intercept", c.lst([num(1), num(2)]) if lst else const("all_same")), ("x", const("all_same"))]),
                      "specification")
            kw2 = dict(kw)
            kw2.pop("names", None)
            if typ == "Mixed Logit":
                continue
            q = c.call(f, [c.dfr, COLS["alt"], COLS["obs"], COLS["ch"], sp], kw2)
            fn = c.lastfn
            quiet(ctx, c, "constructor with an intercept", q, allow=("column assigned",))
            now = c.I.lower(c.dfr, q.st)
            for col in () if getattr(ctx, "inspect", None) else ("x", "alt", "obs", "ch", "another"):
                ctx.same("column %s after adding the intercept" % col, tm.mkgetcol(now, const(col)),
                         tm.mkgetcol(c.df, const(col)), c, fn)
    return ob


def theta(c, st, typ, inter, name="th"):
    return c.I.alloc(st, ar.symarr(name, total(typ, inter)), origin=["the optimiser's parameter vector"])


def fitting(typ, inter, just, opts):
    def ob(ctx):
        c, r = make(ctx, typ, inter)
        I = c.I
        init = c.arr("theta0", total(typ, inter), origin=["init_vals"])
        kw = dict(just_point=const(just), print_res=FALSE)
        if opts:
            kw.update(ridge=sym("ridge", "num"), weights=c.arr("w", tm.mknrows(c.df), origin=["weights"]),
                      constrained_pos=c.lst([ZERO], origin=["constrained_pos"]))
        if typ == "Mixed Logit":
            kw.update(num_draws=sym("nd", "int"), seed=sym("seed", "int"))
        f = I.getattr(c.model, "fit_mle", c.st)
        c.mini.calls = []
        before = stored(c, c.st)
        q = c.call(f, [init], kw)
        quiet(ctx, c, "fit_mle", q)
        kept(ctx, c, "fit_mle", before, stored(c, q.st))
        if typ in LOGIT:
            b = {"init_shapes": "shape", "init_intercepts": "inter", "init_coefs": "beta"}
            k2 = dict(kw)
            for n, d in sizes(typ, inter):
                k2[{v: k for k, v in b.items()}[n]] = c.arr("p_" + n, d, origin=["initial %s values" % n])
            if typ != "MNL":
                q2 = c.call(f, [NONE], k2)
                quiet(ctx, c, "fit_mle from separate initial values", q2)
    return ob


DATA = ("data", "design", "specification", "name_spec", "nest_spec", "mixing_vars", "intercept_names", "shape_names",
        "alt_IDs", "choices", "mixing_pos", "alt_id_col", "obs_id_col", "choice_col", "intercept_ref_position",
        "shape_ref_position", "mixing_id_col", "model_type", "utility_transform")


def stored(c, st):
    at = c.I.deref(c.model, st).attrs
    out = {}
    for k in DATA:
        if k in at:
            v = at[k]
            out[k] = const(repr(v)) if not isinstance(v, (T, Ref, Arr, Tup, PhiV)) else c.I.lower(v, st)
    return out


def kept(ctx, c, name, before, after):
    if getattr(ctx, "inspect", None):
        return
    for k in sorted(before):
        if k not in after:
            ctx.violate(name, "drops the stored %s" % k, c.lastfn)
        elif before[k] is after[k]:
            ctx.hold("%s keeps %s" % (name, k))
        else:
            ctx.same("%s keeps %s" % (name, k), after[k], before[k], c, c.lastfn)


def evaluating(typ, inter):
    """Objective, gradient and curvature, with the numerical code analysed in full."""
    def ob(ctx):
        c, r = make(ctx, typ, inter, full=True)
        I = c.I
        init = c.arr("theta0", total(typ, inter), origin=["init_vals"])
        kw = dict(print_res=FALSE, just_point=TRUE, ridge=sym("ridge", "num"),
                  weights=c.arr("w", tm.mknrows(c.df), origin=["weights"]),
                  constrained_pos=c.lst([ZERO], origin=["constrained_pos"]))
        if typ == "Mixed Logit":
            kw.update(num_draws=sym("nd", "int"), seed=sym("seed", "int"))
            c.I.opaque[MC + "get_normal_draws"] = kernels(c.names)[MC + "get_normal_draws"]
        q = c.call(I.getattr(c.model, "fit_mle", c.st), [init], kw)
        quiet(ctx, c, "up to the optimiser", q)
        mk, st = c.mini.calls[-1]
        t = TYPES[typ]
        est = None
        f = mk["fun"]
        s2 = st.copy()
        th = theta(c, s2, typ, inter)
        for nm in ("fun", "hess", "jac"):
            g = mk.get(nm)
            if g is None or isinstance(g, T) or I.isnone(g, s2) is TRUE:
                continue
            # twice: the second evaluation sees what the first one left
            for k in ("first", "second"):
                I.effects = []
                I.fuel = 900000
                I.call(g, [th], {}, s2)
                quiet(ctx, c, "%s evaluation of %s" % (k, {"fun": "objective and gradient", "hess": "Hessian", "jac": "gradient"}[nm]), I.effects)
        # the methods of the estimator object, as used after estimation
        for e in objects(c, s2, t["est"]):
            for meth in ("convenience_calc_probs", "convenience_calc_log_likelihood", "convenience_calc_gradient",
                         "convenience_calc_hessian", "convenience_calc_fisher_approx"):
                I.effects = []
                I.fuel = 900000
                s3 = s2.copy()
                I.call(I.getattr(e, meth, s3), [th], {}, s3)
                quiet(ctx, c, meth, I.effects)
            break
    return ob


def objects(c, st, cls):
    out = []
    for i, d in st.heap.items():
        if hasattr(d, "attrs") and getattr(d, "cls", None) is not None and d.cls.node.name == cls:
            out.append(Ref(i))
    return out


def predicting(typ, inter, src, full):
    def ob(ctx):
        c, r = make(ctx, typ, inter)
        I = c.I
        init = c.arr("theta0", total(typ, inter))
        kw = dict(print_res=FALSE)
        if typ == "Mixed Logit":
            kw.update(num_draws=sym("nd", "int"))
        q = c.call(I.getattr(c.model, "fit_mle", c.st), [init], kw)
        c.st = q.st
        label_all(I, c.model, c.st, "the model")
        I.origin.pop(c.model.id, None)
        if full:
            withmaps(c)
            if typ == "Mixed Logit":
                c.I.opaque[MC + "get_normal_draws"] = kernels(c.names)[MC + "get_normal_draws"]
        df2 = sym("df2", "df")
        d2 = c.ref(Opq(df2), origin=["the new data"])
        b = dict(nest=NONE, shape=NONE, inter=NONE, beta=NONE)
        for n, d in sizes(typ, inter):
            b[n] = c.arr("p_" + n, d, origin=["param_list"])
        kw = dict(choice_col=const("newchoice"), return_long_probs=TRUE)
        if src == "given":
            kw["param_list"] = c.lst([b["beta"], b["inter"], b["shape"], b["nest"]], origin=["param_list"])
        if typ == "Mixed Logit":
            kw.update(num_draws=sym("nd2", "int"), seed=sym("seed2", "int"))
        before = every(c, c.st)
        q = c.call(I.getattr(c.model, "predict", c.st), [d2], kw)
        quiet(ctx, c, "predict", q)
        kept(ctx, c, "predict", before, every(c, q.st))
        if typ == "Mixed Logit" and src != "given":
            kw.pop("num_draws")
            q = c.call(I.getattr(c.model, "panel_predict", c.st), [d2, sym("nd2", "int")], kw)
            quiet(ctx, c, "panel_predict", q)
            kept(ctx, c, "panel_predict", before, every(c, q.st))
    return ob


def every(c, st):
    out = {}
    for k, v in c.I.deref(c.model, st).attrs.items():
        if isinstance(v, (T, Ref, Arr, Tup, PhiV)):
            out[k] = c.I.lower(v, st)
    return out


# ------------------------------------------------------------------ resampling and intervals
def boot(ctx, typ, inter):
    c, r = make(ctx, typ, inter)
    I = c.I
    c.calls = fits(c)
    c.P = total(typ, inter)
    mspec = mark(c, c.dct([("x", const("all_same"))]), "the MNL specification")
    mn = c.call("pylogit.conditional_logit.MNL", [c.dfr, COLS["alt"], COLS["obs"], COLS["ch"], mspec],
                dict(names=mark(c, c.dct([("x", const("mnl x"))]), "the MNL names")))
    c.st = mn.st
    c.mnl = mn.v
    label_all(I, c.model, c.st, "the model")
    label_all(I, c.mnl, c.st, "the MNL model")
    c.mle = c.arr("mle", c.P, origin=["mle_params"])
    b = c.call("pylogit.bootstrap.Boot", [c.model, c.mle])
    quiet(ctx, c, "Boot", b)
    c.st, c.boot = b.st, b.v
    c.init = c.arr("init", c.P, origin=["init_vals"])
    c.w = c.arr("w", tm.mknrows(c.df), origin=["weights"])
    c.cons = c.lst([ZERO], origin=["constrained_pos"])
    return c


def resampling(typ, inter):
    def ob(ctx):
        c = boot(ctx, typ, inter)
        I = c.I
        mk = mark(c, c.dct([("method", sym("mmethod", "str"))]), "mnl_fit_kwargs")
        opts = dict(mnl_obj=c.mnl, mnl_init_vals=c.arr("mnl0", K, origin=["mnl_init_vals"]), mnl_fit_kwargs=mk,
                    constrained_pos=c.cons, ridge=sym("ridge", "num"))
        before = every(c, c.st)
        q = c.call(I.getattr(c.boot, "generate_bootstrap_replicates", c.st), [sym("NB", "int")],
                   dict(opts, weights=c.w, boot_seed=sym("seed", "int")))
        quiet(ctx, c, "generate_bootstrap_replicates", q)
        kept(ctx, c, "generate_bootstrap_replicates", before, every(c, q.st))
        q = c.call(I.getattr(c.boot, "generate_jackknife_replicates", c.st), [], opts)
        quiet(ctx, c, "generate_jackknife_replicates", q)
        kept(ctx, c, "generate_jackknife_replicates", before, every(c, q.st))
    return ob


def pointest(typ, inter):
    def ob(ctx):
        c = boot(ctx, typ, inter)
        d2 = c.ref(Opq(sym("df2", "df")), origin=["the replicate's data"])
        mk = mark(c, c.dct([("method", sym("mmethod", "str"))]), "mnl_fit_kwargs")
        mi = c.arr("mnl0", K, origin=["mnl_init_vals"])
        sp, nm = [c.I.getattr(c.mnl, k, c.st) for k in ("specification", "name_spec")]
        for f, kw in (("retrieve_point_est", dict(ridge=sym("ridge", "num"), constrained_pos=c.cons, weights=c.w)),
                      ("get_mnl_point_est", {})):
            q = c.call("pylogit.bootstrap_mle." + f, [c.model, d2, const("newid"), c.P, sp, nm, mi, mk], kw)
            quiet(ctx, c, f, q)
        n = total(typ, inter)
        ser = c.ref(ar.symarr("series", K if typ != "Mixed Logit" else num(2), kind="se"), origin=["mnl_point_series"])
        if not inter:
            q = c.call("pylogit.bootstrap_mle.extract_default_init_vals", [c.model, ser, n])
            quiet(ctx, c, "extract_default_init_vals", q)
    return ob


def replicates(typ, inter):
    def ob(ctx):
        c = boot(ctx, typ, inter)
        I = c.I
        at = I.deref(c.boot, c.st).attrs
        ix = I.getattr(at["mle_params"], "index", c.st)
        for nm in ("bootstrap_replicates", "jackknife_replicates"):
            v = I.call(c.fn("spec.intervals.frame"), [c.arr(nm, sym("NB", "size"), c.P), ix], {}, c.st)
            label_all(I, v, c.st, nm)
            at[nm] = v
        label_all(I, at["mle_params"], c.st, "mle_params")
        for k, meth, args, kw in (
                ("", "calc_gradient_norm_for_replicates", [], dict(weights=c.w, constrained_pos=c.cons, ridge=sym("ridge", "num"))),
                ("", "calc_log_likes_for_replicates", [], dict(num_draws=sym("nd", "int"), seed=sym("seed", "int"))
                 if typ == "Mixed Logit" else {}),
                ("", "calc_percentile_interval", [sym("conf", "num")], {}),
                ("", "calc_bca_interval", [sym("conf", "num")], {}),
                ("", "calc_abc_interval", [sym("conf", "num"), c.init], dict(weights=c.w, constrained_pos=c.cons)),
                ("", "calc_conf_intervals", [sym("conf", "num")], dict(init_vals=c.init, weights=c.w))):
            if typ == "Mixed Logit" and meth == "calc_gradient_norm_for_replicates":
                I.deref(c.model, c.st).attrs["design_3d"] = c.arr("design_3d", tm.mknrows(c.df), sym("Dr", "size"), num(3),
                                                                  origin=["the stored 3D design"])
            if typ == "Mixed Logit" and ("abc" in meth or "conf" in meth):
                continue
            before = every(c, c.st)
            q = c.call(I.getattr(c.boot, meth, c.st), args, kw)
            quiet(ctx, c, meth, q)
            kept(ctx, c, meth, before, every(c, q.st))
    return ob


# ------------------------------------------------------------------ data preparation
def preparation(ctx):
    c = ctx.case()
    df = c.ref(Opq(sym("df", "df")), origin=["the data"])
    spec = mark(c, c.dct([("x", const("all_same")), ("z", const("all_diff")), ("w", c.lst([num(1), c.lst([num(2), num(3)])]))]),
                "specification_dict")
    names = mark(c, c.dct([("x", const("nx")), ("z", c.lst([const("z1"), const("z2")])), ("w", c.lst([const("w1"), const("w2")]))]), "names")
    for nm in (NONE, names):
        q = c.call(CT + "create_design_matrix", [df, spec, COLS["alt"]], dict(names=nm))
        quiet(ctx, c, "create_design_matrix", q)
    nest = mark(c, c.dct([("n1", c.lst([num(1), num(2)])), ("n2", c.lst([num(3)]))]), "nest_spec")
    for dense in (TRUE, FALSE):
        q = c.call(CT + "create_long_form_mappings", [df, COLS["obs"], COLS["alt"]],
                   dict(choice_col=COLS["ch"], nest_spec=nest, mix_id_col=COLS["mix"], dense=dense))
        quiet(ctx, c, "create_long_form_mappings", q)
    ids = [c.arr(n, R, origin=[n]) for n in ("obs_id_array", "alt_id_array", "choice_array")]
    q = c.call("pylogit.bootstrap_sampler.create_cross_sectional_bootstrap_samples", ids + [sym("NB", "int")],
               dict(seed=sym("seed", "int")))
    quiet(ctx, c, "create_cross_sectional_bootstrap_samples", q)
    g = c.call("pylogit.bootstrap_sampler.create_deepcopied_groupby_dict", [df, COLS["obs"]])
    quiet(ctx, c, "create_deepcopied_groupby_dict", g)
    c.st = g.st
    label_all(c.I, g.v, c.st, "groupby_dict")
    q = c.call("pylogit.bootstrap_sampler.create_bootstrap_dataframe",
               [df, COLS["obs"], c.arr("resampled", sym("NO", "size"), origin=["resampled_obs_ids"]), g.v])
    quiet(ctx, c, "create_bootstrap_dataframe", q)


BOOTED = [x for x in configs() if x[0] != "Mixed Logit"]      # replicates of Mixed Logit cannot be given num_draws

OBLIGATIONS = [("%s constructor" % label(t, i), construct(t, i)) for t, i in configs()] + \
    [("%s fit%s%s" % (label(t, i), " point only" if j else "", " with options" if o else ""), fitting(t, i, j, o))
     for t, i in configs() for j in (True, False) for o in (True, False)] + \
    [("%s evaluations" % label(t, i), evaluating(t, i)) for t, i in configs()] + \
    [("%s prediction from %s parameters" % (label(t, i), s), predicting(t, i, s, False)) for t, i in configs()
     for s in ("fitted", "given")] + \
    [("%s prediction in full" % label(t, i), predicting(t, i, "given", True)) for t, i in configs()] + \
    [("%s resampling" % label(t, i), resampling(t, i)) for t, i in BOOTED] + \
    [("%s point estimates" % label(t, i), pointest(t, i)) for t, i in BOOTED] + \
    [("%s replicate summaries" % label(t, i), replicates(t, i)) for t, i in configs()] + \
    [("data preparation", preparation)] + \
    [("conversion %s" % n, c10.only_inputs(f)) for n, f in c10.OBLIGATIONS]
