"""C12: seeds determine the draws; randomness is confined."""
import ast
from .glue import *
from . import c11
from .c07 import names_for
from .c02 import newdata, DR2
from ..order import Program

META = dict(level="other",
            explanation="effect analysis of every public entry point: draws, seedings and new generators with the value "
                        "number of the generator state they use, compared with the one documented stream; plus a dataflow "
                        "analysis of where the order of a set, or the clock, can reach a result")
SEED = sym("seed", "int")        # positive: simulation draws
SEED0 = sym("boot_seed", "int")   # non-negative: bootstrap samples
RNG0 = sym("rng0", "rng")


def positive(t):
    """Simulation seeds are positive (the code asserts it), so `if seed:` holds."""
    return tm.rsub2(t, {tm.mkcmp("==", SEED, num(0)): FALSE})


def root(t):
    t = positive(t)
    while t.op in ("adv", "rngat", "rngend") or (t.op == "fold" and t.args):
        t = t.args[0]
    return t


def events(effs):
    return [e for e in effs if e.kind in ("draw", "seed", "newrng") and e.cond is not FALSE]


def clock(ctx, c, name, q):
    """No stored or returned value depends on the time."""
    if not hasattr(q, "st"):
        return
    vals = [("the result", q.v)]
    for r in (getattr(c, "model", None), getattr(c, "boot", None)):
        if isinstance(r, Ref) and hasattr(c.I.deref(r, q.st), "attrs"):
            vals += list(c.I.deref(r, q.st).attrs.items())
    vals = [(k, v, q.st) for k, v in vals]
    for kw, s in getattr(getattr(c, "mini", None), "calls", ()):
        vals += [("argument %s of the optimiser" % k, v, s) for k, v in kw.items() if k != "fun"]
    for k, v, s in vals:
        if isinstance(v, (T, Ref, Arr, Tup)):
            try:
                t = c.I.lower(v, s)
            except (Unsupported, Dead):
                continue
            if any(s.op == "call" and isinstance(s.args[0], str) and s.args[0].startswith("time.") for s in tm.subterms(t)):
                ctx.violate(name, "%s depends on the clock" % k, c.lastfn)


def norandom(ctx, c, name, q):
    effs = q.effects if hasattr(q, "effects") else q
    ok = True
    for e in events(effs):
        if c.mayrandom and str(e.data).find("rng of ") < 0:
            continue
        ok = False
        what = {"draw": "draws random numbers (%s)" % (e.data[0] if isinstance(e.data, tuple) else ""),
                "seed": "seeds the generator", "newrng": "makes a generator"}[e.kind]
        ctx.violate(name, "%s although it generates no simulation draws or bootstrap samples" % what, e.loc[:3])
    clock(ctx, c, name, q)
    ctx.count("effects inspected", len(effs))
    if ok:
        ctx.hold(name)
    return ok


def silent(name, fn):
    """C11's evaluation of an entry point, judged for randomness instead."""
    def ob(ctx):
        ctx.inspect = norandom
        Case_ = c11.newcase

        def newcase(ctx, typ, full):
            c = Case_(ctx, typ, full)
            c.mayrandom = typ == "Mixed Logit" or "resampling" in name
            return c
        c11.newcase = newcase
        try:
            fn(ctx)
        finally:
            c11.newcase = Case_
    return ob


def prep(ctx):
    ctx.inspect = norandom
    c = ctx.case()
    c.mayrandom = False
    df = c.ref(Opq(sym("df", "df")))
    spec = c.dct([("x", const("all_same")), ("z", const("all_diff"))])
    norandom(ctx, c, "create_design_matrix", c.call(CT + "create_design_matrix", [df, spec, COLS["alt"]]))
    norandom(ctx, c, "create_long_form_mappings", c.call(CT + "create_long_form_mappings", [df, COLS["obs"], COLS["alt"]],
                                                         dict(choice_col=COLS["ch"], mix_id_col=COLS["mix"])))


def stream(ctx, c, name, q, seed, st0, want):
    """Every draw comes from the user's stream; the generator ends where the documented draws leave it."""
    fn = c.lastfn
    evs = events(q.effects)
    draws = [e for e in evs if e.kind == "draw"]
    ctx.true(name + " draws", bool(draws), "nothing is drawn", fn)
    start = raw("seeded", seed) if seed is not NONE else RNG0
    bad = False
    for e in draws:
        r = root(e.data[1])
        if seed is not NONE and r is not start:
            bad = True
            ctx.violate(name, "a draw does not follow from the given seed (%s)" % show(r, 3), e.loc[:3])
        if seed is NONE and r is not RNG0 and r.op == "seeded":
            bad = True
            ctx.violate(name, "draws come from a generator seeded with %s although no seed was given" % show(r.args[0], 3), e.loc[:3])
        if str(r).find("rng of") >= 0:
            bad = True
            ctx.violate(name, "draws come from another generator (%s)" % show(r, 2), e.loc[:3])
    for e in evs:
        if e.kind == "seed" and seed is NONE:
            bad = True
            ctx.violate(name, "the generator is seeded although no seed was given", e.loc[:3])
        if e.kind == "seed" and seed is not NONE and e.data is not seed:
            bad = True
            ctx.violate(name, "the generator is seeded with %s, not the given seed" % show(e.data, 3), e.loc[:3])
    if not bad:
        ctx.hold(name + ": every draw follows from the seed" if seed is not NONE else name + ": nothing is seeded")
    if q.st.rng is not st0.rng and want is not None and not bad:
        if positive(q.st.rng) is positive(want):
            ctx.hold(name + ": exactly the documented draws")
        else:
            ctx.same(name + ": exactly the documented draws", positive(q.st.rng), positive(want), c, fn)
    clock(ctx, c, name, q)


def real(c):
    c.I.opaque.pop(MC + "get_normal_draws", None)


def simulated(seed):
    def ob(ctx):
        c = model_case(ctx, names=["x", "z"])
        real(c)
        I = c.I
        r = build(c, "Mixed Logit", False, mixing_vars=c.lst([const("z"), const("x")]))
        c.model = r.v
        init = c.arr("theta0", num(4))
        nd = sym("nd", "int")
        kw = dict(print_res=FALSE)
        if seed is not NONE:
            kw["seed"] = seed
        for just in (TRUE, FALSE):
            q = c.call(I.getattr(c.model, "fit_mle", c.st), [init, nd], dict(kw, just_point=just))
            # the reference stream
            s2 = c.st.copy()
            maps = run(c, CT + "create_long_form_mappings", dict(mix_id_col=COLS["mix"], choice_col=COLS["ch"], nest_spec=NONE),
                       s2, [c.dfr, COLS["obs"], COLS["alt"]])
            md = {k.args[1]: v for k, v in I.deref(maps, s2).ents}
            I.call(c.fn("spec.mixed.normal_draws"), [dimn(I, md["rows_to_mixers"], s2, 1), nd, num(2), seed], {}, s2)
            stream(ctx, c, "fit_mle", q, seed, c.st, s2.rng)
        c.st = q.st
        c.st.rng = RNG0
        newdata(c)
        kw = dict(return_long_probs=TRUE, choice_col=COLS["ch"])
        if seed is not NONE:
            kw["seed"] = seed
        f = I.getattr(c.model, "predict", c.st)
        q = c.call(f, [c.dfr2], dict(kw, num_draws=DR2))
        s2 = c.st.copy()
        maps = run(c, CT + "create_long_form_mappings", dict(mix_id_col=COLS["mix"], choice_col=NONE, nest_spec=NONE),
                   s2, [c.dfr2, COLS["obs"], COLS["alt"]])
        md = {k.args[1]: v for k, v in I.deref(maps, s2).ents}
        I.call(c.fn("spec.mixed.normal_draws"), [dimn(I, md["rows_to_mixers"], s2, 1), DR2, num(2), seed], {}, s2)
        stream(ctx, c, "predict", q, seed, c.st, s2.rng)
        q = c.call(I.getattr(c.model, "panel_predict", c.st), [c.dfr2, DR2], kw)
        stream(ctx, c, "panel_predict", q, seed, c.st, None)
        b = c.call("pylogit.bootstrap.Boot", [c.model, c.arr("mle", num(4))])
        c.st = b.st
        at = I.deref(b.v, c.st).attrs
        reps = c.arr("reps", sym("NR", "size"), num(4))
        I.assume(c.st, tm.mkcmp(">", sym("NR", "size"), ONE), True)
        at["bootstrap_replicates"] = I.call(c.fn("spec.intervals.frame"), [reps, I.getattr(at["mle_params"], "index", c.st)], {}, c.st)
        kw = dict(num_draws=DR2)
        if seed is not NONE:
            kw["seed"] = seed
        q = c.call(I.getattr(b.v, "calc_log_likes_for_replicates", c.st), [], kw)
        stream(ctx, c, "calc_log_likes_for_replicates", q, seed, c.st, None)
    return ob


def sampled(seed):
    def ob(ctx):
        c = c11.boot(ctx, "MNL", False)
        I = c.I
        kw = dict(boot_seed=seed) if seed is not NONE else {}
        q = c.call(I.getattr(c.boot, "generate_bootstrap_replicates", c.st), [sym("NB", "int")], kw)
        stream(ctx, c, "generate_bootstrap_replicates", q, seed, c.st, None)
        I.coarse = None
        a = [c.arr("obs", R), c.arr("alts", R), c.arr("y", R), sym("NB", "int")]
        q = c.call("pylogit.bootstrap_sampler.create_cross_sectional_bootstrap_samples", a, dict(seed=seed))
        s2 = c.st.copy()
        I.call(c.fn("spec.resampling.draws"), a + [seed], {}, s2)
        stream(ctx, c, "create_cross_sectional_bootstrap_samples", q, seed, c.st, s2.rng)
        q = c.call(I.getattr(c.boot, "generate_jackknife_replicates", c.st), [])
        c.mayrandom = False
        norandom(ctx, c, "generate_jackknife_replicates", q)
    return ob


def unordered(ctx):
    trees = {m.path: m.tree for m in ctx.world.modules.values() if m.isrepo}
    p = Program(trees)
    bad, public = p.run()
    ctx.count("functions searched for set order", len(p.fns))
    for path, fn, line, what in bad + public:
        ctx.violate("order of sets", what, (path, line, fn))
    if not bad and not public:
        ctx.hold("no result depends on the order of a set")


def census(ctx):
    """All places that can draw: modules imported for it, and attribute paths."""
    n = 0
    for m in ctx.world.modules.values():
        if not m.isrepo:
            continue
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and x.attr in ("random", "rvs") or isinstance(x, ast.alias) and \
                    x.name.split(".")[0] in ("random", "secrets", "uuid"):
                n += 1
    ctx.count("places that mention a generator", n)
    ctx.hold("census")


SKIP = ("data preparation",)
OBLIGATIONS = [("unordered collections", unordered), ("generator mentions", census), ("data preparation", prep)] + \
    [("given seed for simulation draws", simulated(SEED)), ("no seed for simulation draws", simulated(NONE)),
     ("given seed for bootstrap samples", sampled(SEED0)), ("no seed for bootstrap samples", sampled(NONE))] + \
    [(n, silent(n, f)) for n, f in c11.OBLIGATIONS if n not in SKIP]
OBLIGATIONS += [(n + ", after earlier calls", again(f)) for n, f in OBLIGATIONS if n.startswith("given seed")]
