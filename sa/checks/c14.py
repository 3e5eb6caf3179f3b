"""C14: dispatch and rebuilding."""
from .glue import *
from .c07 import names_for

META = dict(level="other",
            explanation="model creation, estimator creation and replicate rebuilding are evaluated symbolically for every "
                        "model type; the resulting objects are compared attribute by attribute with the directly "
                        "constructed model of that type, and the constructor's arguments with what the model stores")

SHOWN = {"MNL": "Multinomial Logit Model", "Asym": "Multinomial Asymmetric Logit Model",
         "Cloglog": "Multinomial Clog-log Model", "Scobit": "Multinomial Scobit Model",
         "Uneven": "Multinomial Uneven Logit Model", "Nested Logit": "Nested Logit Model",
         "Mixed Logit": "Mixed Logit Model"}
# constructor argument -> attribute
STORED = {"intercept_ref_pos": "intercept_ref_position", "shape_ref_pos": "shape_ref_position", "names": "name_spec",
          "intercept_names": "intercept_names", "shape_names": "shape_names", "nest_spec": "nest_spec",
          "mixing_id_col": "mixing_id_col", "mixing_vars": "mixing_vars"}


def arguments(c, typ, inter):
    """Every argument the type uses."""
    kw = names_for(c, typ, inter, {})
    kw["names"] = c.dct([("x", const("name of x")), ("z", c.lst([const("z1"), const("z2")]))], origin=["names"])
    if inter:
        kw["intercept_ref_pos"] = sym("iref", "int")
    if typ == "Asym":
        kw["shape_ref_pos"] = sym("sref", "int")
    if typ == "Mixed Logit":
        kw.update(mixing_id_col=COLS["mix"], mixing_vars=c.lst([const("x")], origin=["mixing_vars"]))
    return kw


def mcase(ctx, typ):
    return model_case(ctx, names=["x", "z"] if typ == "Mixed Logit" else None)


def aterm(I, v, st):
    """An attribute value; functions by what they are bound to."""
    if isinstance(v, Partial):
        return raw("partial", const(getattr(v.func, "qual", str(v.func))), *[I.lower(x, st) for x in v.args] +
                   [raw("tuple", const(k), I.lower(x, st)) for k, x in sorted(v.kwargs.items())])
    return I.lower(v, st)


def sameobj(ctx, c, name, got, gst, want, wst, skip=(), ignore_identity=True):
    g, w = c.I.deref(got, gst), c.I.deref(want, wst)
    if not (hasattr(g, "attrs") and hasattr(w, "attrs")):
        raise Unsupported("not an object")
    if not ctx.true(name + " class", g.cls is w.cls, "an object of class %s is made, not %s" % (g.cls.node.name, w.cls.node.name),
                    c.lastfn):
        return
    miss = sorted(set(w.attrs) - set(g.attrs))
    ctx.true(name + " has every attribute", not miss, "lacks %s" % ", ".join(miss), c.lastfn)
    for k in sorted(w.attrs):
        if k in g.attrs and k not in skip:
            ctx.same("%s attribute %s" % (name, k), aterm(c.I, g.attrs[k], gst), aterm(c.I, w.attrs[k], wst), c,
                     c.lastfn)


def direct(c, typ, kw, data=None, obs=None, spec=None):
    t = TYPES[typ]
    return c.call("pylogit.%s.%s" % (t["mod"], t["cls"]),
                  [data or c.dfr, COLS["alt"], obs or COLS["obs"], COLS["ch"], spec or c.spec], kw)


def creation(typ, inter):
    def ob(ctx):
        c = mcase(ctx, typ)
        c.spec = spec_dict(c)
        kw = arguments(c, typ, inter)
        r = c.call("pylogit.pylogit.create_choice_model",
                   [c.dfr, COLS["alt"], COLS["obs"], COLS["ch"], c.spec, const(typ)], kw)
        fn = c.lastfn
        d = direct(c, typ, kw)
        c.lastfn = fn
        sameobj(ctx, c, "created model", r.v, r.st, d.v, d.st)
        a = c.I.deref(r.v, r.st).attrs
        cl = c.I.deref(r.v, r.st).cls
        ctx.true("its own class", cl.node.name == TYPES[typ]["cls"] and cl.module.name == "pylogit." + TYPES[typ]["mod"],
                 "model type %s creates a %s" % (typ, cl.node.name), fn)
        ctx.same("its own display name", c.I.lower(a["model_type"], r.st), const(SHOWN[typ]), c, fn)
        for k, at in STORED.items():
            want = c.I.lower(kw[k], r.st) if k in kw else NONE
            if k == "names" and typ == "Mixed Logit":
                continue
            if at in a:
                ctx.same("argument %s reaches the model" % k, c.I.lower(a[at], r.st), want, c, fn)
            else:
                ctx.violate("argument %s reaches the model" % k, "is not stored", fn)
        for k, at, v in (("specification", "specification", c.spec), ("alt_id_col", "alt_id_col", COLS["alt"]),
                         ("obs_id_col", "obs_id_col", COLS["obs"]), ("choice_col", "choice_col", COLS["ch"]),
                         ("data", "data", c.dfr)):
            ctx.same("argument %s reaches the model" % k, c.I.lower(a[at], r.st), c.I.lower(v, c.st), c, fn)
        ut = a["utility_transform"]
        if isinstance(ut, Partial):
            low = {k: c.I.lower(v, r.st) for k, v in ut.kwargs.items()}
            for k, v in low.items():
                if "intercept" in k and "ref" in k:
                    ctx.same("reference intercept of the transform", v, kw.get("intercept_ref_pos", NONE), c, fn)
                if "shape" in k and "ref" in k:
                    ctx.same("reference shape of the transform", v, kw.get("shape_ref_pos", NONE), c, fn)
    return ob


def unknown(ctx):
    for bad in ["mnl", "", "Logit", "Mixed", "MNAL"] + list(SHOWN.values()):
        c = model_case(ctx)
        c.spec = spec_dict(c)
        rejected(ctx, c, "model type %r" % bad, "pylogit.pylogit.create_choice_model",
                 {}, [c.dfr, COLS["alt"], COLS["obs"], COLS["ch"], c.spec, const(bad)])


def estimator(typ, inter, given):
    def ob(ctx):
        c = mcase(ctx, typ)
        c.spec = spec_dict(c)
        kw = arguments(c, typ, inter)
        d = direct(c, typ, kw)
        c.st = d.st
        I = c.I
        if typ == "Mixed Logit":
            I.deref(d.v, c.st).attrs["design_3d"] = c.arr("design_3d", tm.mknrows(c.df), sym("Dr", "size"), num(3))
        opts = {}
        if given:
            opts = dict(ridge=sym("ridge", "num"), weights=c.arr("w", tm.mknrows(c.df)), constrained_pos=c.lst([ZERO]))
        x = c.arr("theta0", total(typ, inter))
        r = c.call("pylogit.construct_estimator.create_estimation_obj", [d.v, x], opts)
        g = r.content()
        t = TYPES[typ]
        fn = c.lastfn
        ctx.true("estimator class", g.cls.node.name == t["est"] and g.cls.module.name == "pylogit." + t["mod"],
                 "a %s is made for %s" % (g.cls.node.name, typ), fn)
        sp = g.attrs.get("split_params")
        ctx.true("its own parameter splitting", getattr(sp, "qual", None) == "pylogit.%s.split_param_vec" % t["mod"],
                 "splits with %s" % getattr(sp, "qual", sp), fn)
        est = I.lookup("pylogit." + t["mod"], t["est"])
        s2 = c.st.copy()
        maps = I.call(I.getattr(d.v, "get_mappings_for_fit", s2), [], {}, s2)
        zero = I.alloc(s2, ar.mk([total(typ, inter)], ZERO))
        e2 = I.call(est, [d.v, maps, opts.get("ridge", NONE), zero, I.lookup("pylogit." + t["mod"], "split_param_vec"),
                          opts.get("constrained_pos", NONE)], dict(weights=opts.get("weights", NONE)), s2)
        sameobj(ctx, c, "estimator", r.v, r.st, e2, s2, skip=("model_obj", "split_params"))
        ctx.true("estimates this model", isinstance(g.attrs.get("model_obj", d.v), type(d.v)) and
                 getattr(g.attrs.get("model_obj", d.v), "id", None) in (d.v.id, None), "another model is estimated", fn)
    return ob


def recorder(c):
    """fit_mle of every type records the model it is called on."""
    calls = []

    def op(I, f, args, kwargs, st):
        fr = bound(I, f, args, kwargs, st)
        calls.append((fr["self"], fr, st.copy(), I.loc))
        at = I.deref(fr["self"], st).attrs
        ind = at.get("ind_var_names", NONE)
        x = ar.symarr("xhat%d" % len(calls), tm.mklen(I.lower(ind, st)) if len(calls) == 1 else sym("P%d" % len(calls), "size"))
        return I.alloc(st, Dct(app("refit outcome", [num(len(calls))]), [(const("x"), I.alloc(st, x))], "optres"))
    for t in TYPES.values():
        c.I.opaque["pylogit.%s.%s.fit_mle" % (t["mod"], t["cls"])] = op
    c.I.opaque["pylogit.bootstrap_mle.extract_default_init_vals"] = simple("initvals", lambda I, fr, st: [I.lower(fr["num_params"], st)])
    return calls


def rebuild(typ, inter):
    def ob(ctx):
        c = mcase(ctx, typ)
        c.spec = spec_dict(c)
        kw = arguments(c, typ, inter)
        d = direct(c, typ, kw)
        c.st = d.st
        I = c.I
        r = c.call("pylogit.bootstrap_mle.get_model_abbrev", [d.v])
        ctx.same("abbreviation", r.term(), const(typ), c, c.lastfn)
        calls = recorder(c)
        df2 = sym("df2", "df")
        dfr2 = c.ref(Opq(df2), origin=["data"])
        P = total(typ, inter)
        mspec = c.dct([("x", const("all_same"))], origin=["mnl_spec"])
        mnames = c.dct([("x", const("mnl x"))], origin=["mnl_names"])
        q = c.call("pylogit.bootstrap_mle.retrieve_point_est",
                   [d.v, dfr2, const("newid"), P, mspec, mnames, c.arr("mnl0", K), c.dct([])],
                   dict(print_res=FALSE, just_point=TRUE, **({"num_draws": num(9)} if typ == "Mixed Logit" else {})))
        fn = c.lastfn
        own = [k for k in calls if I.deref(k[0], k[2]).cls.node.name == TYPES[typ]["cls"]]
        if not ctx.true("the replicate is estimated with the same type", bool(own),
                        "the replicate is estimated as %s" % [I.deref(k[0], k[2]).cls.node.name for k in calls], fn):
            return
        s, fr, st, loc = own[-1]
        want = direct(c, typ, kw, dfr2, const("newid"))
        c.lastfn = fn
        sameobj(ctx, c, "replicate model", s, st, want.v, want.st)
        d0 = I.deref(q.v, q.st)
        got = {k.args[1]: v for k, v in d0.ents}.get("x") if isinstance(d0, Dct) else None
        ctx.true("the replicate's own estimate is returned", got is not None and mentions(
            I.lower(got, q.st), "xhat%d" % (1 + calls.index(own[-1]))), "another estimate is returned", fn)
        mnl = [k for k in calls if I.deref(k[0], k[2]).cls.node.name == "MNL"]
        if typ != "MNL" and mnl:
            w2 = direct(c, "MNL", {"names": mnames}, dfr2, const("newid"), mspec)
            c.lastfn = fn
            sameobj(ctx, c, "starting MNL", mnl[0][0], mnl[0][2], w2.v, w2.st)
    return ob


def names_are_distinct(ctx):
    c = ctx.case()
    t = c.I.lower(c.I.lookup("pylogit.display_names", "model_type_to_display_name"), c.st)
    d = c.I.deref(c.I.lookup("pylogit.display_names", "model_type_to_display_name"), c.st)
    if not isinstance(d, Dct) or d.base is not None:
        raise Unsupported("display names are not a literal table")
    e = {k.args[1]: v for k, v in d.ents}
    ctx.true("display names", {k: v.args[1] for k, v in e.items()} == SHOWN, "the table is %s" % show(t, 4),
             ("display_names.py", 1, "model_type_to_display_name"))


OBLIGATIONS = [("%s creation" % label(t, i), creation(t, i)) for t, i in configs()] + \
    [("unknown types", unknown), ("display names", names_are_distinct)] + \
    [("%s estimator%s" % (label(t, i), " with options" if g else ""), estimator(t, i, g)) for t, i in configs() for g in (0, 1)] + \
    [("%s replicate" % label(t, i), rebuild(t, i)) for t, i in configs()]
