"""C02: prediction."""
from .glue import *
from .c01 import kernel, nested
from .c07 import names_for

META = dict(level="other",
            explanation="predict is evaluated symbolically for every model type, parameter source and output request with "
                        "the kernels uninterpreted, and compared with the kernels applied to the new data and the given "
                        "parameters; the kernels' own output selection is compared with the reference probabilities")
DR2 = sym("nd2", "int")


def newdata(c):
    c.df2 = sym("df2", "df")
    c.dfr2 = c.ref(Opq(c.df2), origin=["data"])
    return c.dfr2


def params(c, typ, inter, cols=None):
    """A user's parameter list and its blocks."""
    b = dict(nest=NONE, shape=NONE, inter=NONE, beta=NONE)
    for n, d in sizes(typ, inter):
        b[n] = c.arr("p_" + n, d, cols) if cols is not None else c.arr("p_" + n, d)
    return b, c.lst([b["beta"], b["inter"], b["shape"], b["nest"]], origin=["param_list"])


def reference(c, typ, st, b, long, ch, draws=NONE, seed=NONE):
    I = c.I
    attrs = I.deref(c.model, st).attrs
    nst = typ == "Nested Logit"
    maps = run(c, CT + "create_long_form_mappings", dict(
        choice_col=COLS["nch"] if ch else NONE, nest_spec=c.nest_spec if nst else NONE,
        mix_id_col=COLS["mix"] if typ == "Mixed Logit" else NONE), st, [c.dfr2, COLS["obs"], COLS["alt"]])
    d = {k.args[1]: v for k, v in I.deref(maps, st).ents}
    design = run(c, CT + "create_design_matrix", dict(names=NONE), st, [c.dfr2, c.spec, COLS["alt"]]).items[0]
    alts = I.alloc(st, ar.of_term(tm.mkgetcol(c.df2, COLS["alt"]), [tm.mknrows(c.df2)]))
    if nst:
        nat = run(c, NC + "naturalize_nest_coefs", {}, st, [b["nest"]])
        rt = "long_and_chosen_probs" if long and ch else "long_probs" if long else "chosen_probs"
        return run(c, NC + "calc_nested_probs", dict(
            nest_coefs=nat, index_coefs=b["beta"], design=design, rows_to_obs=d["rows_to_obs"],
            rows_to_nests=d["rows_to_nests"], chosen_row_to_obs=d["chosen_row_to_obs"], return_type=const(rt)), st)
    if typ == "Mixed Logit":
        m = dimn(I, d["rows_to_mixers"], st, 1)
        dr = run(c, MC + "get_normal_draws", dict(seed=seed), st, [m, draws, ONE])
        design = run(c, MC + "create_expanded_design_for_mixing", {}, st,
                     [design, dr, I.alloc(st, Lst.of([ZERO])), d["rows_to_mixers"]])
    p = run(c, CC + "calc_probabilities", dict(
        beta=b["beta"], design=design, alt_IDs=alts, rows_to_obs=d["rows_to_obs"], rows_to_alts=d["rows_to_alts"],
        utility_transform=attrs["utility_transform"], intercept_params=b["inter"], shape_params=b["shape"],
        chosen_row_to_obs=d["chosen_row_to_obs"], return_long_probs=const(long)), st)
    if typ == "Mixed Logit":
        mean = lambda v: I.call(I.getattr(v, "mean", st), [], {"axis": ONE}, st)
        p = Tup([mean(x) for x in p.items]) if isinstance(p, Tup) else mean(p)
    return p


COLS["nch"] = const("newchoice")


def predict(typ, inter, source, long, ch, other=False):
    def ob(ctx):
        c, q = fitted(ctx, typ, inter, extra=None if source == "fitted" and not other else lambda c: names_for(c, typ, inter, {}))
        c.st = q.st
        b = blocks(c, typ, inter, I_x(c, typ, inter), c.st)
        I = c.I
        newdata(c)
        kw = dict(return_long_probs=const(long))
        if source != "fitted":
            b, pl = params(c, typ, inter, sym("NB", "size") if source == "replicates" else None)
            if source == "given without intercepts":
                b["inter"] = NONE
                pl = c.lst([b["beta"], NONE, b["shape"], b["nest"]], origin=["param_list"])
            kw["param_list"] = pl
        if ch:
            kw["choice_col"] = COLS["nch"]
        if typ == "Mixed Logit":
            kw.update(num_draws=DR2, seed=sym("seed2", "int"))
        f = I.getattr(c.model, "predict", c.st)
        if other:
            # an earlier prediction of another kind: parameters of the user's own, other outputs
            _, pl = params(c, typ, inter)
            k0 = dict(kw, param_list=pl, return_long_probs=TRUE)
            k0.pop("choice_col", None)
            if not ch:
                k0["choice_col"] = COLS["nch"]
            s0 = c.call(f, [c.dfr2], k0).st
            c.st = State(s0.heap, c.st.frame, c.st.rng, c.st.facts, c.st.path)
        if not long and not ch:
            rejected(ctx, c, "asking for neither output", f, kw, [c.dfr2])
            return
        r = c.call(f, [c.dfr2], kw)
        want = reference(c, typ, c.st, b, long, ch, kw.get("num_draws", NONE), kw.get("seed", NONE))
        got = I.deref(r.v, r.st)
        if long and ch:
            ok = isinstance(got, Tup) and len(got.items) == 2
            if ctx.true("a pair is returned", ok, "the result is not a pair", c.lastfn):
                wired(ctx, "first the chosen probabilities", I.lower(got.items[0], r.st), I.lower(want.items[0], c.st), c, loc=c.lastfn)
                wired(ctx, "then the long probabilities", I.lower(got.items[1], r.st), I.lower(want.items[1], c.st), c, loc=c.lastfn)
        elif ctx.true("one array is returned", not isinstance(got, Tup), "several arrays are returned", c.lastfn):
            wired(ctx, "%s probabilities" % ("long" if long else "chosen"), I.lower(r.v, r.st), I.lower(want, c.st), c, loc=c.lastfn)
    return ob


def I_x(c, typ, inter):
    """the optimiser's final parameter vector"""
    return c.ref(ar.symarr("xhat", total(typ, inter)))


def added_intercept(typ, how):
    """A specified intercept that new data lack is a column of ones, in estimation and prediction alike."""
    def ob(ctx):
        def ispec(c):
            e = c.lst([num(1), num(2)]) if how == "list" else const("all_same")
            return dict(spec=c.dct([("intercept", e), ("x", const("all_same"))]))
        c, q = fitted(ctx, typ, False, extra=ispec)
        c.st = q.st
        I = c.I
        newdata(c)

        def design(df, st):
            d = I.call(c.fn("spec.design.with_intercept"), [I.alloc(st, Opq(df))], {}, st)
            return run(c, CT + "create_design_matrix", dict(names=NONE), st, [d, c.spec, COLS["alt"]]).items[0]
        st = c.st.copy()
        want = I.lower(design(c.df, st), st)
        wired(ctx, "design of the model", I.lower(I.deref(c.model, c.st).attrs["design"], c.st), want, c, loc=c.lastfn)
        for f in ("predict", "panel_predict") if typ == "Mixed Logit" else ("predict",):
            if f == "predict":
                args, kw = [c.dfr2], {}
                if typ == "Mixed Logit":
                    kw = dict(num_draws=DR2, seed=sym("seed2", "int"))
            else:
                args, kw = [c.dfr2, DR2], dict(seed=sym("seed2", "int"))
                rejected(ctx, c, "asking panel prediction for neither output", I.getattr(c.model, f, c.st),
                         dict(kw, return_long_probs=FALSE), args)
            r = c.call(I.getattr(c.model, f, c.st), args, kw)
            fn = c.lastfn
            st = r.st.copy()
            want = I.lower(design(c.df2, st), st)
            new = [s for s in tm.subterms(r.term()) if s.op == "apply" and s.args[0].op == "sym" and
                   s.args[0].args[0] == "design" and c.df2 in tm.subterms(s)]
            if not new:
                raise Inline({CT + "create_design_matrix"})
            for k, s in enumerate(sorted(set(new), key=str)):
                wired(ctx, "design %d of %s" % (k, f), s, want, c, loc=fn)
    return ob


def name(t, i, s, l, ch):
    return "%s predict from %s: long=%s choice column=%s" % (label(t, i), s, l, ch)


OBLIGATIONS = [(name(t, i, s, l, ch), predict(t, i, s, l, ch)) for t, i in configs()
               for s in ("fitted", "given") + (("replicates",) if t in LOGIT else ())
               for l in (True, False) for ch in (True, False)] + \
    [(name(t, i, s, True, False), predict(t, i, s, True, False)) for t, i in configs() if i
     for s in ("given without intercepts",)] + \
    [("%s with an intercept column to add (%s)" % (t, h), added_intercept(t, h)) for t in TYPES for h in ("same", "list")] + \
    [("calc_nested_probs outputs", nested)] + [("calc_probabilities outputs %s" % r, kernel(r, 1, 1)) for r in
                                               ("1d", "2d", "3d")]
OBLIGATIONS += [(name(t, i, s, l, ch) + ", after earlier calls", again(predict(t, i, s, l, ch))) for t, i in configs()
                for s in ("fitted", "given") for l, ch in ((True, True),)]
OBLIGATIONS += [(name(t, i, "fitted", l, ch) + ", after one from given parameters", predict(t, i, "fitted", l, ch, True))
                for t, i in configs() for l, ch in ((True, False), (False, True))]
