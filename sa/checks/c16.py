"""C16: stored results."""
from .glue import *

META = dict(level="other",
            explanation="fit_mle is evaluated symbolically for every model type with the numerical kernels uninterpreted; "
                        "each attribute it leaves on the model is compared with the textbook definition applied to the "
                        "final parameter vector, and its labels with the parameter names in parameter order")
R_ = "spec.results."


def val(c, v, st):
    """Values of an array, series or frame."""
    d = c.I.deref(v, st)
    if isinstance(d, Arr):
        return ar.lower(Arr(d.parts, d.bodies, "nd"))
    return c.I.lower(v, st)


def meta(c, v, st, i):
    d = c.I.deref(v, st)
    if isinstance(d, Arr) and d.meta is not None:
        return d.meta[i]
    raise Unsupported("labels of %s" % show(c.I.lower(v, st), 2))


class Expected(object):
    def __init__(self, ctx, c, q, typ, inter, ridge=NONE, weights=NONE, names=None, cons=()):
        self.ctx, self.c, self.typ, self.inter = ctx, c, typ, inter
        self.attrs = c.I.deref(c.model, q.st).attrs
        self.loc = {e.data[1]: e.loc for e in q.effects if e.kind == "setattr" and e.data[0] == c.model.id}
        w = self.w = Wire(c, typ, inter, c.model, q.st, ridge, weights, c.opts.get("num_draws", NONE), c.opts.get("seed", NONE))
        st = self.st = w.st
        I = c.I
        P = total(typ, inter)
        x = w.vec("xhat")
        self.blk = blocks(c, typ, inter, x, st)
        bl = [I.deref(self.blk[b], st) for b, _ in sizes(typ, inter)]
        self.x = I.alloc(st, ar.concat(bl, 0)) if len(bl) > 1 else x
        zero = I.alloc(st, ar.mk([P], ZERO))
        self.ll = pneg(sym("fmin", "num"))
        self.null = I.lower(w.call("LL", zero), st)
        pr = w.call("P", x)
        self.pc, self.pl = pr.items
        two = I.deref(self.pl, st).rank == 2
        self.res = self.s("residuals_2d" if two else "residuals", w.y, self.pl)
        self.chi = self.s("chi_squares", self.res, self.pl, w.r2o)
        self.g = w.call("G", x)
        h = w.call("H", x)
        if typ in ("Nested Logit", "Mixed Logit"):
            a = ar.unblock(I.deref(h, st))
            h = I.alloc(st, fixed(a, cons))
            self.info = I.alloc(st, ar.mk([P, P], pneg(mkdelta(ax(0), ax(1)))))
        else:
            self.info = w.call("F", x)
        self.h = h
        inv = I.lookup("spec.linalg", "inverse")
        self.cov = self.s("cov", h, inv)
        self.rcov = c.I.call(c.fn("spec.choice.sandwich"), [h, self.info, inv], {}, st)
        self.k = P
        self.names_ = names or {}

    def s(self, f, *args):
        return self.c.I.call(self.c.fn(R_ + f), list(args), {}, self.st)

    def names(self, which):
        """Labels of one block."""
        n = dict(sizes(self.typ, self.inter)).get(which)
        I = self.c.I
        if which in self.names_:
            return I.lower(self.names_[which], self.st)
        if which == "beta":
            if self.typ == "Mixed Logit":
                return raw("list", const("x"), const("z"), const("Sigma x"))
            d = run(self.c, CT + "create_design_matrix", dict(names=NONE), self.st, [self.c.dfr, self.c.spec, COLS["alt"]])
            return I.lower(d.items[1], self.st)
        if which == "nest":
            return raw("list", const("n1"), const("n2"))
        return I.lower(self.s("default_names", const({"shape": "Shape_", "inter": "Outside_ASC_"}[which]), n), self.st)

    def allnames(self):
        return tm.mklcat(*[self.names(b) for b, _ in sizes(self.typ, self.inter)])

    def attr(self, name):
        if name not in self.attrs:
            self.ctx.violate(name, "is not stored", self.c.lastfn)
            return None
        return self.attrs[name]

    def num(self, name, want):
        v = self.attr(name)
        if v is not None:
            wired(self.ctx, name, val(self.c, v, self.st), val(self.c, want, self.st) if not isinstance(want, T) else want, self.c, loc=self.loc.get(name))

    def frame(self, name, want, index, second, nan=()):
        v = self.attr(name)
        if v is None:
            return
        t = want if isinstance(want, T) else val(self.c, want, self.st)
        if nan:
            a = ar.unblock(self.c.I.deref(want, self.st))
            hit = tm.mkor(*[tm.mkcmp("==", ax(0), num(i)) for i in nan])
            t = ar.lower(ar.amap(lambda b: mkite(hit, raw("c", "nan", None), b), a))
        loc = self.loc.get(name)
        wired(self.ctx, name, val(self.c, v, self.st), t, self.c, loc=loc)
        self.ctx.same(name + " labels", meta(self.c, v, self.st, 0), index, self.c, loc)
        self.ctx.same(name + (" column labels" if isinstance(second, T) and second is index else " name"),
                      meta(self.c, v, self.st, 1), second, self.c, loc)


def fixed(a, cons):
    def f(b):
        for i in sorted(cons):
            r, cl = tm.mkcmp("==", ax(0), num(i)), tm.mkcmp("==", ax(1), num(i))
            b = mkite(tm.mkand(r, cl), num(-1), mkite(tm.mkor(r, cl), ZERO, b))
        return b
    return ar.amap(f, a)


def inferential(e, idx, nan=()):
    for cv, se, t, p, names in ((e.cov, "standard_errors", "tvalues", "pvalues", ("std_err", "t_stats", "p_values")),
                                (e.rcov, "robust_std_errs", "robust_t_stats", "robust_p_vals",
                                 ("robust_std_err", "robust_t_stats", "robust_p_values"))):
        s_ = e.s("std_errs", cv)
        t_ = e.s("tstats", e.x, s_)
        e.frame(se, s_, idx, const(names[0]), nan)
        e.frame(t, t_, idx, const(names[1]), nan)
        e.frame(p, e.s("pvalues", t_), idx, const(names[2]), nan)
    e.frame("bse", e.s("std_errs", e.cov), idx, const("std_err"), nan)


def all_results(e, nan=()):
    ctx, c, st = e.ctx, e.c, e.st
    I = c.I
    e.num("log_likelihood", e.ll)
    e.num("llf", e.ll)
    e.num("null_log_likelihood", e.null)
    e.num("fitted_probs", e.pc)
    e.num("long_fitted_probs", e.pl)
    e.num("long_residuals", e.res)
    e.num("ind_chi_squareds", e.chi)
    e.num("chi_square", e.s("total", e.chi))
    e.num("estimation_success", sym("succ", "bool"))
    e.num("estimation_message", sym("mess", "str"))
    rho, rhob = e.s("rho", e.ll, e.null), e.s("rho_bar", e.ll, e.null, e.k)
    e.num("rho_squared", rho)
    e.num("rho_bar_squared", rhob)
    n = dimn(I, e.pc, st)
    e.num("nobs", n)
    e.num("df_model", e.k)
    e.num("df_resid", psub(n, e.k))
    e.num("aic", e.s("aic", e.ll, e.k))
    e.num("bic", e.s("bic", e.ll, e.k, n))
    idx = e.allnames()
    for attr, b, nm in (("coefs", "beta", "coefficients"), ("intercepts", "inter", "intercept_parameters"),
                        ("shapes", "shape", "shape_parameters"), ("nests", "nest", "nest_parameters")):
        if b in dict(sizes(e.typ, e.inter)):
            e.frame(attr, e.blk[b], e.names(b), const(nm))
        else:
            e.num(attr, NONE)
    e.frame("params", e.x, idx, const("parameters"))
    e.frame("gradient", e.g, idx, const("gradient"))
    e.frame("hessian", e.h, idx, idx)
    e.frame("fisher_information", e.info, idx, idx)
    e.frame("cov", e.cov, idx, idx)
    e.frame("robust_cov", e.rcov, idx, idx)
    inferential(e, idx, nan)
    v = e.attr("fit_summary")
    if v is not None:
        rows = [("Number of Parameters", e.k), ("Number of Observations", n), ("Null Log-Likelihood", e.null),
                ("Fitted Log-Likelihood", e.ll), ("Rho-Squared", rho), ("Rho-Bar-Squared", rhob),
                ("Estimation Message", sym("mess", "str"))]
        ix = meta(c, v, st, 0)
        if ix.op != "list":
            raise Unsupported("fit_summary labels")
        a = ar.lower(Arr(I.deref(v, st).parts, I.deref(v, st).bodies, "nd"))
        for lab, want in rows:
            if const(lab) not in ix.args:
                ctx.violate("fit_summary", "row %s is missing" % lab, c.lastfn)
            else:
                wired(ctx, "fit_summary %s" % lab, tm.mkat(a, num(ix.args.index(const(lab)))), want, c)
    v = e.attr("summary")
    if v is not None:
        cols = [("params", "parameters"), ("standard_errors", "std_err"), ("tvalues", "t_stats"), ("pvalues", "p_values"),
                ("robust_std_errs", "robust_std_err"), ("robust_t_stats", "robust_t_stats"),
                ("robust_p_vals", "robust_p_values")]
        d = I.deref(v, st)
        labels = meta(c, v, st, 1)
        ctx.same("summary columns", labels, raw("list", *[const(n) for _, n in cols]), c)
        ctx.same("summary labels", meta(c, v, st, 0), idx, c)
        if d.rank == 2 and len(d.parts[1]) == len(cols):
            for k, (a, n) in enumerate(cols):
                sub = Arr((d.parts[0], d.parts[1][k:k + 1]), {(i, 0): d.bodies[(i, k)] for i in range(len(d.parts[0]))})
                one_ = I.deref(e.attrs[a], st)
                ctx.same("summary column %s" % n, ar.lower(sub), ar.lower(ar.newaxis(Arr(one_.parts, one_.bodies), 1)), c)
        else:
            ctx.unsure("summary", "columns are not separate")


NESTS2 = lambda c: c.dct([("n1", c.lst([num(1), num(2)])), ("n2", c.lst([num(3), num(4)]))], origin=["nest_spec"])


def symnames(c, nm, n):
    v = fresh()
    return c.ref(Lst([("t", tm.bind("tab", [v], [n], raw("item", sym(nm, "list"), v)))]), origin=[nm])


def stored(typ, inter, opts, named=False):
    def ob(ctx):
        def mk(c):
            o = dict(OPTIONS)
            if opts:
                o.update(ridge=sym("ridge", "num"), weights=c.arr("w", tm.mknrows(c.df)))
            if typ == "Mixed Logit":
                o.update(num_draws=sym("nd", "int"), seed=sym("seed", "int"))
            return o
        nm = {}

        def names(c):
            kw = {}
            for b, n in sizes(typ, inter):
                if named and b == "shape":
                    kw["shape_names"] = nm["shape"] = symnames(c, "shape_names", n)
                if named and b == "inter":
                    kw["intercept_names"] = nm["inter"] = symnames(c, "intercept_names", n)
            if typ == "Nested Logit":
                kw["nest_spec"] = NESTS2(c)
            return kw
        c, q = fitted(ctx, typ, inter, mk, extra=names)
        ctx.true("a full fit returns nothing", c.I.isnone(q.v, q.st) is TRUE, "fit_mle returns a value", c.lastfn)
        e = Expected(ctx, c, q, typ, inter, ridge=c.opts.get("ridge", NONE), weights=c.opts.get("weights", NONE), names=nm)
        all_results(e)
    return ob


def conf_int(typ, inter, alpha_given):
    def ob(ctx):
        c, q = fitted(ctx, typ, inter, lambda c: dict(OPTIONS), extra=lambda c: {"nest_spec": NESTS2(c)} if typ == "Nested Logit" else {})
        c.st = q.st
        f = c.I.getattr(c.model, "conf_int", c.st)
        kw = dict(alpha=sym("alpha", "num")) if alpha_given else {}
        r = c.call(f, [], kw)
        attrs = c.I.deref(c.model, r.st).attrs
        sv = lambda k: c.I.alloc(r.st, Arr(c.I.deref(attrs[k], r.st).parts, c.I.deref(attrs[k], r.st).bodies, "nd"))
        want = c.I.call(c.fn(R_ + "bounds"), [sv("params"), sv("standard_errors"), kw.get("alpha", const_num(0.05))], {}, r.st)
        ctx.same("bounds", val(c, r.v, r.st), val(c, want, r.st), c)
        r2 = c.call(f, [], dict(kw, return_df=TRUE))
        d = r2.content()
        ctx.same("frame values", val(c, r2.v, r2.st), val(c, want, r.st), c)
        ctx.same("frame labels", meta(c, r2.v, r2.st, 0), meta(c, attrs["params"], r.st, 0), c)
        ctx.same("frame columns", meta(c, r2.v, r2.st, 1), raw("list", const("lower"), const("upper")), c)
    return ob


def const_num(x):
    return tm.num(Fraction_(x))


def Fraction_(x):
    from fractions import Fraction
    return Fraction(str(x))


OBLIGATIONS = [("%s%s" % (label(t, i), " ridge and weights" if o else ""), stored(t, i, o)) for t, i in configs() for o in (0, 1)] + \
    [("%s user names" % label(t, i), stored(t, i, 0, True)) for t, i in configs() if t in ("Asym", "Cloglog", "Scobit", "Uneven")] + \
    [("%s conf_int alpha=%s" % (label(t, i), a), conf_int(t, i, a)) for t, i in configs()[:3] for a in (True, False)]
OBLIGATIONS += [("%s%s, after an earlier fit" % (label(t, i), " ridge and weights" if o else ""), again(stored(t, i, o)))
                for t, i in configs() for o in (0, 1)] + \
    [("%s conf_int alpha=%s, after an earlier call" % (label(t, i), a), again(conf_int(t, i, a))) for t, i in configs()[:3] for a in (True, False)]
