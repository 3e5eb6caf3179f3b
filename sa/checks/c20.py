"""C20: mixed-logit simulation."""
from .glue import *
from .c02 import newdata, DR2
from .. import randint as ri

META = dict(level="other",
            explanation="value numbering of the draws, the expanded design and the sequence probabilities against their "
                        "definitions, and of panel prediction end to end (mappings, filtering, draw selection, weighting) "
                        "against the per-row formula over symbolic identifier columns")
S_ = "spec.mixed."


def draws(ctx):
    for seed in (NONE, sym("seed", "int")):
        for nv in (num(1), num(3), sym("nv", "size")):
            c = ctx.case()
            r = c.call(MC + "get_normal_draws", [M_, sym("Dr", "size"), nv], dict(seed=seed))
            ref = c.call(S_ + "normal_draws", [M_, sym("Dr", "size"), nv, seed])
            g, w = r.term(), ref.term()
            nm = "standard-normal draws of %s coefficients%s" % (show(nv, 2), "" if seed is NONE else " from the seed")
            if g is w or ri.agree(g, w, over=c.over)[0] == "same":
                ctx.hold(nm)
                continue
            fn = c.lastfn
            # a different arrangement of the same draws is judged by its parts
            ds = [s for s in tm.subterms(g) if s.op == "draw"]
            if not ds:
                ctx.violate(nm, "nothing is drawn", fn)
            elif any(d.args[0] != "norm" for d in ds):
                ctx.violate(nm, "drawn from %s" % ", ".join(sorted({d.args[0] for d in ds})), fn)
            elif g.op == "list" and len({x for x in g.args}) < len(g.args):
                ctx.violate(nm, "two coefficients share their draws", fn)
            elif g.op == "list" and nv.op == "c" and len(g.args) != int(nv.args[1]):
                ctx.violate(nm, "%d arrays of draws" % len(g.args), fn)
            else:
                verdict = [shape_of(c, x) for x in (g.args if g.op == "list" else [])]
                if any(v is not None and v != (M_, sym("Dr", "size")) for v in verdict):
                    ctx.violate(nm, "draws are not (units, draws)", fn)
                else:
                    ctx.same(nm, g, w, c, fn)


def shape_of(c, x):
    if x.op == "draw":
        return tuple(x.args[2].args)
    return None


def expanded(ctx):
    for pos in ((2, 0), (0, 1), (1, 1)):
        c = base_case(ctx)
        c.over["K"] = lambda m: D(3)
        X, r2m = c.arr("X", R, padd(K, num(3))), c.arr("r2m", R, M_, kind="sp")
        d0, d1 = c.arr("d0", M_, DR), c.arr("d1", M_, DR)
        for kind in ("sp", "nd"):
            r2m = c.arr("r2m", R, M_, kind=kind)
            r = c.call(MC + "create_expanded_design_for_mixing",
                       [X, c.lst([d0, d1]), c.lst([num(p) for p in pos]), r2m])
            fn = c.lastfn
            want = c.call(S_ + "expanded2", [X, num(pos[0]), num(pos[1]), d0, d1, r2m])
            ctx.same("expanded design for positions %s, %s mapping" % (pos, kind), r.term(), want.term(), c, fn)
        rejected(ctx, c, "fewer draw arrays than mixing variables", MC + "create_expanded_design_for_mixing", {},
                 [X, c.lst([d0]), c.lst([num(p) for p in pos]), r2m])


def sequences(ctx):
    c = base_case(ctx)
    c.over["P"] = pos_mat
    P, y, r2m = c.arr("P", R, DR), c.arr("y", R), c.arr("r2m", R, M_, kind="sp")
    for rt in (NONE, const("all")):
        r = c.call(MC + "calc_choice_sequence_probs", [P, y, r2m], dict(return_type=rt))
        fn = c.lastfn
        mean, every = [c.call(S_ + f, [P, y, r2m]).term() for f in ("simulated", "seq")]
        if rt is NONE:
            ctx.same("simulated sequence probability", r.term(), mean, c, fn)
        else:
            its = r.items()
            ctx.same("first the simulated probabilities", r.term(its[0]), mean, c, fn)
            ctx.same("then the probabilities per draw", r.term(its[1]), every, c, fn)
    rejected(ctx, c, "unknown return type", MC + "calc_choice_sequence_probs", dict(return_type=const("mean")), [P, y, r2m])


def pos_mat(m):
    e = int(max(m.stretch, 1))
    return [[(D(m.rnd.randint(1, 99)) / D(100)) ** e for _ in range(int(m.size("Dr")))] for _ in range(int(m.size("R")))]


def positions(ctx):
    """Positions of the mixing variables among the coefficients; names of the standard deviations."""
    for mv in (["x"], ["z"], ["z", "x"], ["x", "z"]):
        c = model_case(ctx, names=["x", "z"])
        r = build(c, "Mixed Logit", False, mixing_vars=c.lst([const(v) for v in mv]))
        fn = c.lastfn
        a = c.I.deref(r.v, r.st).attrs
        ctx.same("positions of %s" % mv, c.I.lower(a["mixing_pos"], r.st),
                 raw("list", *[num(["x", "z"].index(v)) for v in mv]), c, fn)
        c.model = r.v
        n = 2 + len(mv)
        for nm, f, args, kw in (("estimation", "fit_mle", [c.arr("init", num(n)), DR2], dict(print_res=FALSE, just_point=TRUE)),):
            q = c.call(c.I.getattr(c.model, f, c.st), args, kw)
            d3 = c.I.lower(c.I.deref(c.model, q.st).attrs["design_3d"], q.st)
            st = q.st.copy()
            maps = run(c, CT + "create_long_form_mappings", dict(choice_col=COLS["ch"], nest_spec=NONE,
                       mix_id_col=COLS["mix"]), st, [c.dfr, COLS["obs"], COLS["alt"]])
            md = {k.args[1]: v for k, v in c.I.deref(maps, st).ents}
            st.rng = c.st.rng
            dl = run(c, MC + "get_normal_draws", dict(seed=NONE), st, [dimn(c.I, md["rows_to_mixers"], st, 1), DR2, num(len(mv))])
            x = run(c, CT + "create_design_matrix", dict(names=NONE), st, [c.dfr, c.spec, COLS["alt"]]).items[0]
            want = run(c, MC + "create_expanded_design_for_mixing", {}, st,
                       [x, dl, c.I.alloc(st, Lst.of([num(["x", "z"].index(v)) for v in mv])), md["rows_to_mixers"]])
            wired(ctx, "%s expands the design with draws of every unit for %s" % (nm, mv), d3, c.I.lower(want, st), c, loc=c.lastfn)


SC = dict(scales=("0.5", "0.5", "1"), models=24)
PANEL_INLINE = {CT + "create_long_form_mappings", MC + "create_expanded_design_for_mixing", CC + "calc_probabilities",
                MC + "calc_choice_sequence_probs"}


def panelrows(m, v):
    k = ("panelrows", ri.enc(v))
    if k not in m.syms:
        m.syms[k] = m.rnd.choice((4, 4, 6, 6, 6, 5))
    return m.syms[k]


def panelcols(m, name, n, df):
    """New and past data share some mixing units; situations are nested in units."""
    k = ("panel", df)
    if k not in m.syms:
        sit = [i // 2 for i in range(n)]
        if m.rnd.random() < .3:
            m.rnd.shuffle(sit)
        ids = m.rnd.sample(range(1, 40), n)
        pool = [7, 3, 11] + [m.rnd.choice([2, 9])]
        unit = m.rnd.sample(pool, 4) if m.rnd.random() < .7 else [m.rnd.choice(pool) for _ in range(4)]
        pick = [m.rnd.choice([i for i in range(n) if sit[i] == s]) for s in range(max(sit) + 1)]
        m.syms[k] = dict(obs=[D(ids[x]) for x in sit], mix=[D(unit[x]) for x in sit],
                         alt=[D(1 + sum(sit[j] == sit[i] for j in range(i))) for i in range(n)],
                         ch=[D(1 if pick[sit[i]] == i else 0) for i in range(n)])
        m.syms[k]["newchoice"] = m.syms[k]["ch"]
    return m.syms[k].get(name)


def panel(mv, ch, long):
    def ob(ctx):
        ctx.inline = ctx.inline | PANEL_INLINE
        c, q = fitted(ctx, "Mixed Logit", False, extra=lambda c: dict(mixing_vars=c.lst([const(mv)])))
        c.st = q.st
        newdata(c)
        c.over.update(getcol=panelcols, nrows=panelrows, nd2=lambda m: D(m.rnd.choice((2, 2, 3, 1))))
        I = c.I
        kw = dict(seed=sym("seed2", "int"), return_long_probs=const(long))
        if ch:
            kw["choice_col"] = const("newchoice")
        r = c.call(I.getattr(c.model, "panel_predict", c.st), [c.dfr2, DR2], kw)
        fn = c.lastfn
        st = c.st.copy()

        def column(df, k):
            return I.alloc(st, ar.of_term(tm.mkgetcol(df, k if isinstance(k, T) else COLS[k]), [tm.mknrows(df)]))

        def design(d):
            return run(c, CT + "create_design_matrix", dict(names=NONE), st, [d, c.spec, COLS["alt"]]).items[0]
        units = I.alloc(st, ar.of_term(raw("uo", tm.mkgetcol(c.df2, COLS["mix"])), [raw("nuniq", tm.mkgetcol(c.df2, COLS["mix"]))]))
        dl = run(c, MC + "get_normal_draws", dict(seed=kw["seed"]), st, [dimn(I, units, st), DR2, ONE])
        want = I.call(c.fn(S_ + "panel"), [design(c.dfr2), column(c.df2, "obs"), column(c.df2, "mix"), design(c.dfr),
                                          column(c.df, "obs"), column(c.df, "mix"), column(c.df, "ch"),
                                          I.alloc(st, ar.symarr("xhat", num(3))), num(["x", "z"].index(mv)),
                                          I.deref(dl, st).values()[0], units], {}, st)
        lt = I.lower(want, st)
        ct = None
        if ch:
            ct = I.lower(I.call(c.fn(S_ + "chosen"), [want, column(c.df2, "obs"), column(c.df2, const("newchoice")),
                                                      column_units(c, st)], {}, st), st)
        got = I.deref(r.v, r.st)
        if long and ch:
            if ctx.true("a pair is returned", isinstance(got, Tup) and len(got.items) == 2, "not a pair", fn):
                ctx.same("chosen probabilities", I.lower(got.items[0], r.st), ct, c, fn, **SC)
                ctx.same("long probabilities", I.lower(got.items[1], r.st), lt, c, fn, **SC)
        else:
            ctx.same("probabilities", r.term(), lt if long else ct, c, fn, **SC)
    return ob


def column_units(c, st):
    t = tm.mkgetcol(c.df2, COLS["obs"])
    return c.I.alloc(st, ar.of_term(raw("uo", t), [raw("nuniq", t)]))


OBLIGATIONS = [("draws", draws), ("expanded design", expanded), ("choice sequences", sequences), ("mixing positions", positions)] + \
    [("panel prediction mixing %s choice column=%s long=%s" % (v, ch, l), panel(v, ch, l)) for v, ch, l in
     (("x", 0, 1), ("z", 1, 1), ("x", 1, 0))]
OBLIGATIONS += [("mixing positions, after an earlier fit", again(positions)),
                ("panel prediction, after earlier calls", again(panel("x", 1, 1)))]
