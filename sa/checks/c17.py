"""C17: resampling of whole observations."""
from .glue import *
from .c11 import boot
from .c07 import names_for

META = dict(level="other",
            explanation="value numbering of the sampling functions and of the whole bootstrap and jackknife loops, with each "
                        "refit an uninterpreted function of the data, identifier column and weights it is given, against "
                        "stratified whole-observation resampling")
BS = "pylogit.bootstrap_sampler."
S_ = "spec.resampling."
NB = sym("NB", "int")
SEED = sym("seed", "int")


def refits(c, typ, size):
    """fit_mle and the reference's refit as one function of what they are given."""
    calls = []

    def res(I, st, data, col, w, n):
        return mkres(I, st, app("refit", [data, col, w]), [n])

    def op(I, f, args, kwargs, st):
        fr = bound(I, f, args, kwargs, st)
        o = I.deref(fr["self"], st)
        own = o.cls.node.name == TYPES[typ]["cls"]
        calls.append((fr, st.copy(), I.loc, own))
        w = I.lower(fr["weights"], st) if "weights" in fr else NONE
        if not own:
            return I.alloc(st, Dct(app("first outcome", []), [(const("x"), mkres(I, st, app("first fit", [I.lower(o.attrs["data"], st)]),
                                                             [dimn(I, fr["init_vals"], st)]))], "optres"))
        d, col = I.lower(o.attrs["data"], st), I.lower(o.attrs["obs_id_col"], st)
        return I.alloc(st, Dct(app("refit outcome", [d, col, w]), [(const("x"), res(I, st, d, col, w, size))], "optres"))
    for t in TYPES.values():
        c.I.opaque["pylogit.%s.%s.fit_mle" % (t["mod"], t["cls"])] = op
    c.I.opaque["pylogit.bootstrap_mle.extract_default_init_vals"] = simple("initvals", lambda I, fr, st: [I.lower(fr["num_params"], st)])

    def ref(I, f, args, kwargs, st):
        fr = bound(I, f, args, kwargs, st)
        return res(I, st, I.lower(fr["data"], st), I.lower(fr["col"], st), I.lower(fr["w"], st), size)
    c.I.opaque[S_ + "refit"] = ref
    return calls


def columns(m, name, n):
    """Small data: two or three observations and alternatives, choices mostly made."""
    if name == "obs":
        return [D(20 - 3 * (i // 2)) for i in range(n)]
    if name == "alt":
        return [D(m.rnd.randint(1, 2)) for _ in range(n)]
    if name == "ch":
        return [D(1 if m.rnd.random() < .7 else 0) for _ in range(n)]
    return None


def sampler(ctx):
    c = ctx.case()
    a = [c.arr("obs", R), c.arr("alts", R), c.arr("y", R)]
    few = lambda m: [D(m.rnd.randint(1, 3)) for _ in range(int(m.size("R")))]
    c.over.update({"obs": few, "alts": few, "y": lambda m: [D(m.rnd.randint(0, 1)) for _ in range(int(m.size("R")))]})
    for seed in (SEED, NONE):
        r = c.call(BS + "create_cross_sectional_bootstrap_samples", a + [NB], dict(seed=seed))
        fn = c.lastfn
        w = c.call(S_ + "samples", a + [NB, seed])
        ctx.same("samples", r.term(), w.term(), c, fn)
    ids = c.arr("ids", sym("NS", "size"), sym("NO", "size"))
    r = c.call(BS + "create_bootstrap_id_array", [ids])
    fn = c.lastfn
    ctx.same("bootstrap identifiers", r.term(), c.call(S_ + "labels", [ids]).term(), c, fn)


def frames(ctx):
    c = ctx.case()
    df = c.ref(Opq(sym("df", "df")))
    g = c.call(BS + "create_deepcopied_groupby_dict", [df, COLS["obs"]])
    fn = c.lastfn
    w = c.call(S_ + "groups", [df, COLS["obs"]])
    ctx.same("rows of each observation", g.term(), w.term(), c, fn)
    c.st = g.st
    ids = c.arr("ids", sym("NO", "size"))
    for col in (const("bootstrap_id"), const("new")):
        r = c.call(BS + "create_bootstrap_dataframe", [df, COLS["obs"], ids, g.v], dict(boot_id_col=col))
        fn = c.lastfn
        ctx.same("replicate data", r.term(), c.call(S_ + "frame", [df, COLS["obs"], ids, col]).term(), c, fn)


def table(ctx, c, name, got, st, want, wst, fn):
    I = c.I
    d = I.deref(got, st)
    if not (isinstance(d, Arr) and d.kind == "df" and d.meta):
        raise Unsupported("replicates are not a frame of an array")
    w = I.deref(want, wst)
    if isinstance(w, Arr) and w.rank == d.rank:
        ctx.same(name + ": how many", d.dims[0], w.dims[0], c, fn)
    ctx.same(name, ar.lower(Arr(d.parts, d.bodies, "nd")), I.lower(want, wst), c, fn)
    ctx.same(name + ": one column per parameter", d.meta[1], I.deref(I.deref(c.boot, st).attrs["mle_params"], st).meta[0], c, fn)


def replicated(typ, inter, weighted):
    def ob(ctx):
        c = boot(ctx, typ, inter)
        I = c.I
        I.coarse = None
        calls = refits(c, typ, c.P)
        c.over["getcol"] = columns
        opts = {}
        if typ != "MNL":
            opts = dict(mnl_obj=c.mnl, mnl_init_vals=c.arr("mnl0", ONE), mnl_fit_kwargs=c.dct([]))
        kw = dict(opts, boot_seed=SEED)
        if weighted:
            kw["weights"] = c.w
        q = c.call(I.getattr(c.boot, "generate_bootstrap_replicates", c.st), [NB], kw)
        fn = c.lastfn
        ctx.true("replicates are estimated", any(k[3] for k in calls), "no refit happens", fn)
        s2 = c.st.copy()
        col = lambda k: I.alloc(s2, ar.of_term(tm.mkgetcol(c.df, COLS[k]), [tm.mknrows(c.df)]))
        ids = I.call(c.fn(S_ + "samples"), [col("obs"), col("alt"), col("ch"), NB, SEED], {}, s2)
        want = I.call(c.fn(S_ + "bootstrap"), [c.dfr, COLS["obs"], ids, c.w if weighted else NONE, c.P], {}, s2)
        table(ctx, c, "bootstrap replicates", I.deref(c.boot, q.st).attrs["bootstrap_replicates"], q.st, want, s2, fn)
        if not weighted:
            q = c.call(I.getattr(c.boot, "generate_jackknife_replicates", c.st), [], opts)
            fn = c.lastfn
            s2 = c.st.copy()
            want = I.call(c.fn(S_ + "jackknife"), [c.dfr, COLS["obs"], c.P], {}, s2)
            table(ctx, c, "jackknife replicates", I.deref(c.boot, q.st).attrs["jackknife_replicates"], q.st, want, s2, fn)
    return ob


TWO_D = [t for t in TYPES if t not in ("Nested Logit", "Mixed Logit")]


def columns2d(c, typ, inter, reps, st):
    off, out = ZERO, {}
    for b, n in sizes(typ, inter):
        v0, v1 = fresh(), fresh()
        nr = sym("NR", "size")
        t = tm.bind("lam", [v0, v1], [n, nr], tm.mkat(c.I.lower(reps, st), v1, padd(v0, off)))
        out[b] = c.I.alloc(st, ar.of_term(t, [n, nr]))
        off = padd(off, n)
    return [out.get(b, NONE) for b in ("beta", "inter", "shape")]


def likelihoods(typ, inter, which):
    def ob(ctx):
        c = model_case(ctx, names=["x", "z"] if typ == "Mixed Logit" else None)
        I = c.I
        c.over["probabilities"] = ("P.chosen", "NP.chosen", "P.long", "NP.long", "map.obs", "map.chosen")
        c.model = build(c, typ, inter, **names_for(c, typ, inter, {})).v
        P = total(typ, inter)
        if typ == "Mixed Logit":
            # the names of the standard deviations are added by fitting
            c.st = c.call(I.getattr(c.model, "fit_mle", c.st), [c.arr("theta0", P)], dict(OPTIONS, num_draws=sym("nd", "int"))).st
        b = c.call("pylogit.bootstrap.Boot", [c.model, c.arr("mle", P)])
        c.st = b.st
        at = I.deref(b.v, c.st).attrs
        reps = c.arr("reps", sym("NR", "size"), P)
        I.assume(c.st, tm.mkcmp(">", sym("NR", "size"), ONE), True)
        c.sizes["NR"] = D(3)
        at[which + "_replicates"] = I.call(c.fn("spec.intervals.frame"), [reps, I.getattr(at["mle_params"], "index", c.st)], {}, c.st)
        nd, seed = (sym("nd", "int"), sym("seed", "int")) if typ == "Mixed Logit" else (NONE, NONE)
        q = c.call(I.getattr(b.v, "calc_log_likes_for_replicates", c.st), [], dict(replicates=const(which), num_draws=nd, seed=seed))
        fn = c.lastfn
        w = Wire(c, typ, inter, c.model, q.st, num_draws=nd, seed=seed)
        s2 = w.st

        def chosen(I2, a, k, s):
            if typ == "Mixed Logit":
                pl = I.alloc(s, Lst.of([a[0], NONE, NONE, NONE]))
                return I.call(I.getattr(c.model, "predict", s), [c.dfr], dict(
                    param_list=pl, return_long_probs=FALSE, choice_col=COLS["ch"], num_draws=nd, seed=seed), s)
            w.st = s
            return w.call("P", a[0]).items[0]
        want = I.call(c.fn(S_ + "loglikes"), [reps, PyFunc(chosen, "chosen probabilities")], {}, s2)
        got, want = I.lower(q.v, q.st), I.lower(want, s2)
        if typ in TWO_D and got is not want:
            # all replicates at once: the kernel gets one column per replicate
            base = dict(zip(("beta", "intercept_params", "shape_params"), columns2d(c, typ, inter, reps, s2)))
            base.update(design=w.design, alt_IDs=w.alts, rows_to_obs=w.r2o, rows_to_alts=w.r2a, utility_transform=w.ut,
                        chosen_row_to_obs=w.c2o, return_long_probs=FALSE)
            p2 = run(c, CC + "calc_probabilities", base, s2)
            both = I.lower(I.call(c.fn(S_ + "loglike2d"), [p2], {}, s2), s2)
            apps = lambda t: {x for x in tm.subterms(t) if x.op == "apply"}
            if apps(both) <= apps(got):
                want = both
            elif not apps(want) <= apps(got) and CC + "calc_probabilities" not in ctx.inline:
                raise Inline({CC + "calc_probabilities"})
        wired(ctx, "log-likelihood of each replicate", got, want, c)
        kept = I.deref(b.v, q.st).attrs.get(which + "_log_likelihoods")
        if kept is None:
            ctx.violate("log-likelihoods are stored", "under no name", fn)
        else:
            ctx.same("log-likelihoods are stored", ar.lower(I.deref(kept, q.st).withkind("nd")), I.lower(q.v, q.st), c, fn)
    return ob


BOOTED = [x for x in configs() if x[0] != "Mixed Logit"]
OBLIGATIONS = [("sampling", sampler), ("frames", frames)] + \
    [("%s %s" % (label(t, i), "weighted replicates" if w else "replicates"), replicated(t, i, w))
     for t, i in BOOTED for w in (False, True)] + \
    [("%s %s log-likelihoods" % (label(t, i), w), likelihoods(t, i, w)) for t, i in configs() for w in ("bootstrap", "jackknife")]
OBLIGATIONS += [("%s %s, after earlier calls" % (label(t, i), "weighted replicates" if w else "replicates"), again(replicated(t, i, w)))
                for t, i in BOOTED for w in (False, True) if t in ("MNL", "Nested Logit")] + \
    [("%s %s log-likelihoods, after earlier calls" % (label(t, i), w), again(likelihoods(t, i, w)))
     for t, i in configs() for w in ("bootstrap", "jackknife")]
