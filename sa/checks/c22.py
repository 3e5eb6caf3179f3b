"""C22: point-estimate-only fits."""
from .glue import *
from .c15 import resampled, flows, FLOWS, BOOTED

META = dict(level="other",
            explanation="fit_mle is evaluated symbolically for every model type on fresh and on already fitted models; with "
                        "just_point the model's attributes after the call are compared with those before it")

KEEP = {"optimization_method", "ridge_param", "design_3d"}


def changed(c, before, after, st):
    out = []
    for k, v in after.items():
        if k in KEEP:
            continue
        if k not in before:
            out.append((k, True))
        elif c.I.lower(before[k][0], before[k][1]) is not c.I.lower(v, st):
            out.append((k, False))
    out += [(k, False) for k in before if k not in after and k not in KEEP]
    return out


def point(typ, inter, refit):
    def ob(ctx):
        full = None
        c, q = fitted(ctx, typ, inter, lambda c: dict(OPTIONS))
        full = set(c.I.deref(c.model, q.st).attrs) - set(c.before) - KEEP
        ctx.true("a full fit returns nothing", c.I.isnone(q.v, q.st) is TRUE, "fit_mle returns a value", c.lastfn)
        for need in ("params", "standard_errors", "summary", "fit_summary", "fitted_probs", "log_likelihood"):
            ctx.true("a full fit stores %s" % need, need in full, "is not stored", c.lastfn)
        if refit:
            c.st = q.st
            c.mini.calls = []
        else:
            c2 = model_case(ctx, names=["x", "z"] if typ == "Mixed Logit" else None)
            r = build(c2, typ, inter)
            c2.model, c2.opts = r.v, dict(c.opts)
            c2.init = c2.arr("theta0", total(typ, inter))
            c = c2
        m = c.I.deref(c.model, c.st)
        before = {k: (v, c.st.copy()) for k, v in m.attrs.items()}
        f = c.I.getattr(c.model, "fit_mle", c.st)
        kw = dict(c.opts, just_point=TRUE)
        q = c.call(f, [c.init], kw)
        d = c.I.deref(q.v, q.st)
        got = None
        if isinstance(d, Dct):
            got = {k.args[1]: v for k, v in d.ents if k.op == "c"}.get("x")
        ctx.true("the optimiser's result is returned", got is not None and
                 c.I.lower(got, q.st) is sym("xhat") or (got is not None and mentions(c.I.lower(got, q.st), "xhat")),
                 "the point estimate is not in what is returned", c.lastfn)
        bad = changed(c, before, c.I.deref(c.model, q.st).attrs, q.st)
        hard = [k for k, new in bad if (not new) or k in full]
        ctx.true("stored results are untouched", not hard, "the point-only fit changes %s" % ", ".join(sorted(hard)), c.lastfn)
    return ob


def resampling(typ, inter, which):
    """Refits of every resampling entry point, also when the user's options ask for a full fit."""
    def ob(ctx):
        c = resampled(ctx, typ, inter)
        c.mnlopts["just_point"] = FALSE
        if FLOWS[which] in ("ABC interval", "requested interval"):
            c.user["just_point"] = FALSE
        m = c.I.deref(c.model, c.st)
        before = {k: (v, c.st.copy()) for k, v in m.attrs.items()}
        q = flows(c, typ)[which][1]()
        fn = c.lastfn
        ctx.true("there are refits", bool(c.calls), "no refit happens", fn)
        for fr, st, loc, o in c.calls:
            ctx.true("the refit is point-only", fr.get("just_point") is TRUE, "the refit is a full one", loc)
        bad = sorted(k for k, _ in changed(c, before, c.I.deref(c.model, q.st).attrs, q.st))
        ctx.true("the model's results are untouched", not bad, "resampling changes %s" % ", ".join(bad), fn)
    return ob


def pointest(typ, inter):
    """One replicate's estimate, without being told that only the point is wanted."""
    def ob(ctx):
        c = resampled(ctx, typ, inter)
        d2 = c.ref(Opq(sym("df2", "df")))
        kw = {k: v for k, v in c.user.items()}
        c.call("pylogit.bootstrap_mle.retrieve_point_est",
               [c.model, d2, const("id2"), c.P, c.dct([("x", const("all_same"))]), NONE, c.mnl0, c.dct([])], kw)
        ctx.true("there are refits", bool(c.calls), "no refit happens", c.lastfn)
        for fr, st, loc, o in c.calls:
            ctx.true("the refit is point-only", fr.get("just_point") is TRUE, "the refit is a full one", loc)
    return ob


OBLIGATIONS = [("%s %s" % (label(t, i), "refit" if r else "first fit"), point(t, i, r))
               for t, i in configs() for r in (False, True)] + \
    [("%s %s" % (label(t, i), f), resampling(t, i, j)) for t, i in BOOTED for j, f in enumerate(FLOWS)] + \
    [("%s replicate estimate" % label(t, i), pointest(t, i)) for t, i in BOOTED]
