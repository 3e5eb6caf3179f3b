"""Symbolic models and opaque numerical kernels for the checks about wiring.

The kernels' own meaning is decided by C01, C03-C06, C08 and C09; here they are uninterpreted functions of their
bound arguments, so that two call sites agree exactly when they hand over equal values.
"""
from .common import *
from .. import ext as ext_
from ..interp import Tup, Partial

CT = "pylogit.choice_tools."
CC = "pylogit.choice_calcs."
NC = "pylogit.nested_choice_calcs."
MC = "pylogit.mixed_logit_calcs."

COLS = dict(alt=const("alt"), obs=const("obs"), ch=const("ch"), mix=const("mix"))


def bound(I, f, args, kwargs, st):
    fr = I.bindargs(f, args, kwargs, st)
    return {k: I.box(I.resolve(v, st), st) for k, v in fr.items()}


def isones(I, v, st):
    d = I.deref(v, st)
    return isinstance(d, Arr) and d.rank == 1 and len(d.bodies) == 1 and all(b is ONE for b in d.bodies.values())


def keyed(I, fr, st, drop=()):
    """Terms of the arguments, in signature order; weights of one are no weights."""
    ts = []
    for k in sorted(fr):
        if k in drop or k in ("args", "kwargs"):
            continue
        v = fr[k]
        if k == "weights" and isones(I, v, st):
            v = NONE
        ts.append(raw("tuple", const(k), fterm(I, v, st, k, fr)))
    return ts


FUNCS = ("utility_transform", "transform_first_deriv_c", "transform_first_deriv_v", "transform_deriv_alpha")


def fterm(I, v, st, name=None, fr=None):
    """Function-valued arguments by what they compute for fresh arguments."""
    if name in FUNCS and not isinstance(v, (T, SymFunc)):
        memo = I.__dict__.setdefault("fterms", {})
        key = fkey(I, v, st) + tuple(isN(I, fr[k], st) for k in ("shape_params", "intercept_params") if k in fr)
        if key in memo:
            return memo[key][0]
        s2 = st.copy()
        rows = dimn(I, fr["rows_to_obs"], st)
        args = [I.alloc(s2, ar.symarr("v~", rows)), I.alloc(s2, ar.symarr("alts~", rows)),
                I.alloc(s2, ar.symarr("r2a~", rows, A_, kind="sp"))]
        for k in ("shape_params", "intercept_params"):
            if k not in fr or isN(I, fr[k], st):
                args.append(NONE)
            else:
                args.append(I.alloc(s2, ar.symarr(k + "~", *I.deref(fr[k], st).dims[:1])))
        n = len(I.effects)
        try:
            t = raw("fn", I.lower(I.call(v, args, {}, s2), s2))
        except (Unsupported, Dead, ar.RankError):
            t = I.lower(v, st)
        del I.effects[n:]
        memo[key] = (t, v)
        return t
    return I.lower(v, st)


def fkey(I, v, st):
    if isinstance(v, Partial):
        return (id(v.func), tuple(sorted((k, I.lower(x, st)) for k, x in v.kwargs.items())),
                tuple(I.lower(x, st) for x in v.args))
    return (id(v),)


def dimn(I, v, st, i=0):
    d = I.deref(v, st)
    if isinstance(d, Arr) and d.rank > i:
        return d.dims[i]
    return None


def isN(I, v, st):
    return I.isnone(v, st) is TRUE


def plen(I, fr, st, names):
    n = ZERO
    for k in names:
        if k in fr and not isN(I, fr[k], st):
            d = dimn(I, fr[k], st)
            if d is None:
                return None
            n = padd(n, d)
    return n


def mkres(I, st, t, dims, kind="nd"):
    if dims is None or any(d is None for d in dims):
        return I.box(t, st)
    if not dims:
        return t
    if t.op == "apply":
        for a in t.args[1:]:
            if not a.fv:
                k = t.args[0], a
                I.fshape[k] = list(dims) if I.fshape.get(k, list(dims)) == list(dims) else None
    return I.alloc(st, ar.of_term(t, list(dims), kind))


def app(name, ts):
    return raw("apply", sym(name, "func"), *ts)


def simple(name, dims):
    def op(I, f, args, kwargs, st):
        fr = bound(I, f, args, kwargs, st)
        I.callsites += 1
        return mkres(I, st, app(name, keyed(I, fr, st)), dims(I, fr, st))
    return op


def k_probs(I, f, args, kwargs, st):
    fr = bound(I, f, args, kwargs, st)
    ts = keyed(I, fr, st, drop=("return_long_probs", "chosen_row_to_obs"))
    lng = I.truth(fr["return_long_probs"], st)
    nochosen = I.isnone(fr["chosen_row_to_obs"], st)
    if lng not in (TRUE, FALSE) or nochosen not in (TRUE, FALSE):
        raise Unsupported("undetermined probability flags")
    rows = dimn(I, fr["rows_to_obs"], st)
    obs = dimn(I, fr["rows_to_obs"], st, 1)
    extra = []
    bd, dd = I.deref(fr["beta"], st), I.deref(fr["design"], st)
    if isinstance(dd, Arr) and dd.rank == 3:
        extra = [dd.dims[1]]
    elif isinstance(bd, Arr) and bd.rank == 2:
        extra = [bd.dims[1]]
    lp = app("P.long", ts)
    if nochosen is TRUE:
        if lng is FALSE:
            I.do_raise("ValueError", st)
            raise Dead()
        return mkres(I, st, lp, [rows] + extra)
    cp = app("P.chosen", ts + [fterm(I, fr["chosen_row_to_obs"], st)])
    a = mkres(I, st, cp, [obs] + extra)
    if lng is FALSE:
        return a
    return Tup([a, mkres(I, st, lp, [rows] + extra)])


def k_nested_probs(I, f, args, kwargs, st):
    fr = bound(I, f, args, kwargs, st)
    ts = keyed(I, fr, st, drop=("return_type", "chosen_row_to_obs"))
    rt = I.deref(fr["return_type"], st)
    if not (isinstance(rt, T) and rt.op == "c"):
        raise Unsupported("undetermined return type")
    rt = rt.args[1]
    rows = dimn(I, fr["rows_to_obs"], st)
    obs = dimn(I, fr["rows_to_obs"], st, 1)
    lp = app("NP.long", ts)
    if rt == "long_probs":
        return mkres(I, st, lp, [rows])
    if rt in ("chosen_probs", "long_and_chosen_probs"):
        if isN(I, fr["chosen_row_to_obs"], st):
            I.do_raise("ValueError", st)
            raise Dead()
        cp = mkres(I, st, app("NP.chosen", ts + [fterm(I, fr["chosen_row_to_obs"], st)]), [obs])
        if rt == "chosen_probs":
            return cp
        return Tup([cp, mkres(I, st, lp, [rows])])
    raise Unsupported("return type %s" % rt)


BLK = ["shape_params", "intercept_params", "beta"]
NBLK = ["orig_nest_coefs", "nest_coefs", "index_coefs"]


def sq(names):
    def f(I, fr, st):
        n = plen(I, fr, st, names)
        return [n, n]
    return f


def vec(names):
    def f(I, fr, st):
        return [plen(I, fr, st, names)]
    return f


def scalar(I, fr, st):
    return []


def k_seq(I, f, args, kwargs, st):
    fr = bound(I, f, args, kwargs, st)
    ts = keyed(I, fr, st, drop=("return_type",))
    m = dimn(I, fr["rows_to_mixers"], st, 1)
    dr = dimn(I, fr["prob_array"], st, 1)
    a = mkres(I, st, app("seq.mean", ts), [m])
    rt = I.deref(fr["return_type"], st)
    if rt is NONE:
        return a
    if rt is const("all"):
        return Tup([a, mkres(I, st, app("seq.all", ts), [m, dr])])
    raise Unsupported("return type")


def k_draws(I, f, args, kwargs, st):
    fr = bound(I, f, args, kwargs, st)
    ts = keyed(I, fr, st)
    n = I.lower(fr["num_vars"], st)
    t = app("draws", ts + [st.rng if isinstance(st.rng, T) else NONE])
    if n.op == "c" and n.args[0] == "num" and 0 < n.args[1] < 9:
        dims = [I.lower(fr[k], st) for k in ("num_mixers", "num_draws")]
        return I.alloc(st, Lst.of([mkres(I, st, raw("item", t, num(i)), dims) for i in range(int(n.args[1]))]))
    return I.alloc(st, Opq(t))


def k_expand(I, f, args, kwargs, st):
    fr = bound(I, f, args, kwargs, st)
    ts = keyed(I, fr, st)
    rows = dimn(I, fr["rows_to_mixers"], st)
    mp = I.deref(fr["mixing_pos"], st)
    if isinstance(mp, Lst) and mp.known():
        n = num(len(mp.values()))
    else:
        n = tm.mklen(I.lower(fr["mixing_pos"], st))
    return mkres(I, st, app("expand", ts), [rows, sym("Dr", "size"), padd(dimn(I, fr["design"], st, 1), n)])


def k_design(names=None):
    def op(I, f, args, kwargs, st):
        fr = bound(I, f, args, kwargs, st)
        ts = keyed(I, fr, st, drop=("names",))
        rows = tm.mknrows(I.lower(fr["long_form"], st))
        x = mkres(I, st, app("design", ts), [rows, K if names is None else num(len(names))])
        if names is not None:
            return Tup([x, I.alloc(st, Lst.of([const(n) for n in names]))])
        nm = app("design.names", ts + [I.lower(fr["names"], st)])
        v = fresh()
        return Tup([x, I.alloc(st, Lst([("t", tm.bind("tab", [v], [K], raw("item", nm, v)))]))])
    return op


def nestdim(I, v, st):
    d = I.deref(v, st)
    if isinstance(d, Dct) and d.base is None:
        return num(len(d.ents))
    return N_


def k_maps(I, f, args, kwargs, st):
    fr = bound(I, f, args, kwargs, st)
    df = I.lower(fr["long_form"], st)
    rows = tm.mknrows(df)
    dense = I.truth(fr["dense"], st)
    kind = "sp" if dense is FALSE else "nd"
    oc, ac = I.lower(fr["obs_id_col"], st), I.lower(fr["alt_id_col"], st)

    def mp(nm, dim, *ts):
        return mkres(I, st, app("map." + nm, (df,) + ts), [rows, dim], kind)
    no = raw("nuniq", tm.mkgetcol(df, oc))
    out = [("rows_to_obs", mp("obs", no, oc)), ("rows_to_alts", mp("alts", A_, ac))]
    out.append(("chosen_row_to_obs", NONE if isN(I, fr["choice_col"], st) else
                mp("chosen", no, oc, I.lower(fr["choice_col"], st))))
    out.append(("rows_to_nests", NONE if isN(I, fr["nest_spec"], st) else
                mp("nests", nestdim(I, fr["nest_spec"], st), ac, I.lower(fr["nest_spec"], st))))
    out.append(("rows_to_mixers", NONE if isN(I, fr["mix_id_col"], st) else
                mp("mix", M_, I.lower(fr["mix_id_col"], st))))
    return I.alloc(st, Dct(None, [(const(k), v) for k, v in out], "odict"))


def kernels(names=None):
    return {
        CC + "calc_probabilities": k_probs,
        NC + "calc_nested_probs": k_nested_probs,
        CC + "calc_log_likelihood": simple("LL", scalar),
        NC + "calc_nested_log_likelihood": simple("NLL", scalar),
        MC + "calc_mixed_log_likelihood": simple("MLL", scalar),
        CC + "calc_gradient": simple("G", vec(BLK)),
        NC + "calc_nested_gradient": simple("NG", vec(NBLK)),
        MC + "calc_mixed_logit_gradient": simple("MG", vec(["params"])),
        CC + "calc_hessian": simple("H", sq(BLK)),
        CC + "calc_fisher_info_matrix": simple("F", sq(BLK)),
        NC + "calc_bhhh_hessian_approximation": simple("NH", sq(NBLK)),
        MC + "calc_bhhh_hessian_approximation_mixed_logit": simple("MH", sq(["params"])),
        NC + "naturalize_nest_coefs": simple("nat", lambda I, fr, st: [dimn(I, fr["nest_coef_estimates"], st)]),
        MC + "calc_choice_sequence_probs": k_seq,
        MC + "get_normal_draws": k_draws,
        MC + "create_expanded_design_for_mixing": k_expand,
        CT + "create_design_matrix": k_design(names),
        CT + "create_long_form_mappings": k_maps,
    }


HEADS = {"P.long": CC + "calc_probabilities", "P.chosen": CC + "calc_probabilities",
         "NP.long": NC + "calc_nested_probs", "NP.chosen": NC + "calc_nested_probs",
         "LL": CC + "calc_log_likelihood", "NLL": NC + "calc_nested_log_likelihood",
         "MLL": MC + "calc_mixed_log_likelihood", "G": CC + "calc_gradient", "NG": NC + "calc_nested_gradient",
         "MG": MC + "calc_mixed_logit_gradient", "H": CC + "calc_hessian", "F": CC + "calc_fisher_info_matrix",
         "NH": NC + "calc_bhhh_hessian_approximation", "MH": MC + "calc_bhhh_hessian_approximation_mixed_logit",
         "nat": NC + "naturalize_nest_coefs", "seq.mean": MC + "calc_choice_sequence_probs",
         "seq.all": MC + "calc_choice_sequence_probs", "draws": MC + "get_normal_draws",
         "expand": MC + "create_expanded_design_for_mixing", "design": CT + "create_design_matrix",
         "design.names": CT + "create_design_matrix"}
for _m in ("obs", "alts", "chosen", "nests", "mix"):
    HEADS["map." + _m] = CT + "create_long_form_mappings"


# model types -------------------------------------------------------------------------------------------------
TYPES = {
    "MNL": dict(mod="conditional_logit", cls="MNL", est="MNLEstimator", shapes=0, inter=False),
    "Asym": dict(mod="asym_logit", cls="MNAL", est="AsymEstimator", shapes=-1, inter=True),
    "Cloglog": dict(mod="clog_log", cls="MNCL", est="ClogEstimator", shapes=0, inter=True),
    "Scobit": dict(mod="scobit", cls="MNSL", est="ScobitEstimator", shapes=1, inter=True),
    "Uneven": dict(mod="uneven_logit", cls="MNUL", est="UnevenEstimator", shapes=1, inter=True),
    "Nested Logit": dict(mod="nested_logit", cls="NestedLogit", est="NestedEstimator", shapes=0, inter=False),
    "Mixed Logit": dict(mod="mixed_logit", cls="MixedLogit", est="MixedEstimator", shapes=0, inter=False),
}
LOGIT = ["MNL", "Asym", "Cloglog", "Scobit", "Uneven"]


class Minimizer(object):
    def __init__(self):
        self.calls = []

    def __call__(self, I, args, kwargs, st):
        names = ["fun", "x0", "args", "method", "jac", "hess", "hessp", "bounds", "constraints", "tol", "callback",
                 "options"]
        kw = dict(zip(names, args))
        kw.update(kwargs)
        self.calls.append((kw, st.copy()))
        self.mark = len(I.effects)
        self.loc = I.loc[:3] if I.loc else None
        x0 = I.deref(kw["x0"], st)
        dims = x0.dims if isinstance(x0, Arr) else [sym("P", "size")]
        pre = "earlier " if I.warming else ""
        x = I.alloc(st, ar.symarr(pre + "xhat", *dims), origin=["result"])
        return I.alloc(st, Dct(app("optimiser outcome", [const(pre)]), [(const("fun"), sym(pre + "fmin", "num")), (const("x"), x),
                                      (const("success"), sym(pre + "succ", "bool")), (const("message"), sym("mess", "str")),
                                      (const("jac"), I.alloc(st, ar.symarr(pre + "jhat", *dims)))], "optres"))


def model_case(ctx, inline=False, names=None):
    mini = Minimizer()
    ks = {k: v for k, v in kernels(names).items() if k not in ctx.inline}
    c = ctx.case({} if inline else ks, {"scipy.optimize.minimize": mini})
    c.mini = mini
    c.df = sym("df", "df")
    c.dfr = c.ref(Opq(c.df), origin=["data"])
    return c


def spec_dict(c):
    return c.dct([("x", const("all_same")), ("z", const("all_diff"))], origin=["specification"])


def build(c, typ, inter=False, **extra):
    """The model object the constructor makes for symbolic data."""
    t = TYPES[typ]
    kw = dict(extra)
    c.spec = kw.pop("spec", None) or spec_dict(c)
    if t["inter"] and inter:
        kw["intercept_ref_pos"] = sym("iref", "int")
    if typ == "Asym":
        kw["shape_ref_pos"] = sym("sref", "int")
    if typ == "Nested Logit":
        kw.setdefault("nest_spec", c.dct([("n1", c.lst([num(1), num(2)])), ("n2", c.lst([num(3)]))], origin=["nest_spec"]))
        c.nest_spec = kw["nest_spec"]
    if typ == "Mixed Logit":
        kw.setdefault("mixing_id_col", COLS["mix"])
        kw.setdefault("mixing_vars", c.lst([const("x")], origin=["mixing_vars"]))
    r = c.call("pylogit.%s.%s" % (t["mod"], t["cls"]), [c.dfr, COLS["alt"], COLS["obs"], COLS["ch"], c.spec], kw)
    c.st = r.st
    return r


def sizes(typ, inter):
    """Lengths of the blocks in vector order."""
    t = TYPES[typ]
    out = []
    if typ == "Nested Logit":
        out.append(("nest", num(2)))
    if t["shapes"]:
        out.append(("shape", A_ if t["shapes"] == 1 else AM1))
    if inter:
        out.append(("inter", AM1))
    out.append(("beta", K if typ != "Mixed Logit" else num(3)))
    return out


def total(typ, inter):
    n = ZERO
    for _, d in sizes(typ, inter):
        n = padd(n, d)
    return n


# wiring ------------------------------------------------------------------------------------------------------
OPTIONS = dict(method=sym("method", "str"), loss_tol=sym("ltol", "num"), gradient_tol=sym("gtol", "num"),
               maxiter=sym("maxit", "int"), print_res=FALSE)


def configs():
    return [(t, i) for t in TYPES for i in ((False, True) if TYPES[t]["inter"] else (False,))]


def label(typ, inter):
    return typ + (" with outside intercepts" if inter else "")


def blocks(c, typ, inter, theta, st):
    """Sub-vectors of a parameter vector in the documented order."""
    a = c.I.deref(theta, st)
    out, off = dict(nest=NONE, shape=NONE, inter=NONE, beta=NONE), ZERO
    szs = sizes(typ, inter)
    for name, n in szs:
        if len(szs) == 1:
            out[name] = theta
        else:
            v = fresh()
            out[name] = c.I.alloc(st, ar.of_term(tm.bind("lam", [v], [n], tm.mkat(ar.lower(a), padd(v, off))), [n]))
        off = padd(off, n)
    return out


def run(c, qual, kw, st, args=()):
    return c.I.call(c.fn(qual), list(args), dict(kw), st)


class Wire(object):
    """What the documented composition of the kernels computes for a model."""
    def __init__(self, c, typ, inter, model, st, ridge=NONE, weights=NONE, num_draws=NONE, seed=NONE):
        self.c, self.typ, self.inter, self.model = c, typ, inter, model
        self.ridge, self.weights = ridge, weights
        self.st = st = st.copy()
        I = c.I
        m = I.deref(model, st)
        self.attrs = m.attrs
        self.nest_spec = c.nest_spec if typ == "Nested Logit" else NONE
        self.maps = run(c, CT + "create_long_form_mappings", dict(
            choice_col=COLS["ch"], nest_spec=self.nest_spec,
            mix_id_col=COLS["mix"] if typ == "Mixed Logit" else NONE), st, [c.dfr, COLS["obs"], COLS["alt"]])
        d = {k.args[1]: v for k, v in I.deref(self.maps, st).ents}
        self.r2o, self.r2a, self.c2o = d["rows_to_obs"], d["rows_to_alts"], d["chosen_row_to_obs"]
        self.r2n, self.r2m = d["rows_to_nests"], d["rows_to_mixers"]
        self.design = run(c, CT + "create_design_matrix", dict(names=NONE), st, [c.dfr, c.spec, COLS["alt"]]).items[0]
        rows = tm.mknrows(c.df)
        self.alts, self.y = [I.alloc(st, ar.of_term(tm.mkgetcol(c.df, COLS[k]), [rows])) for k in ("alt", "ch")]
        self.ut = self.attrs["utility_transform"]
        if typ == "Mixed Logit":
            pos = I.alloc(st, Lst.of([ZERO]))
            mm = dimn(I, self.r2m, st, 1)
            draws = run(c, MC + "get_normal_draws", dict(seed=seed), st, [mm, num_draws, ONE])
            self.design = run(c, MC + "create_expanded_design_for_mixing", {}, st, [self.design, draws, pos, self.r2m])
        self.est = None

    def derivs(self):
        if self.est is None:
            c, st, t = self.c, self.st, TYPES[self.typ]
            I = c.I
            cl = I.lookup("pylogit." + t["mod"], t["est"])
            zero = I.alloc(st, ar.mk([total(self.typ, self.inter)], ZERO))
            sp = I.lookup("pylogit." + t["mod"], "split_param_vec")
            self.est = I.call(cl, [self.model, self.maps, NONE, zero, sp], {}, st)
            I.call(I.getattr(self.est, "set_derivatives", st), [], {}, st)
        g = lambda n: self.c.I.getattr(self.est, n, self.st)
        return dict(transform_first_deriv_c=g("calc_dh_d_shape"), transform_first_deriv_v=g("calc_dh_dv"),
                    transform_deriv_alpha=g("calc_dh_d_alpha"))

    def term(self, v):
        return self.c.I.lower(v, self.st)

    def vec(self, name):
        return self.c.I.alloc(self.st, ar.symarr(name, total(self.typ, self.inter)))

    def call(self, which, theta):
        c, st, typ = self.c, self.st, self.typ
        b = blocks(c, typ, self.inter, theta, st)
        if typ == "Nested Logit":
            base = dict(index_coefs=b["beta"], design=self.design, rows_to_obs=self.r2o, rows_to_nests=self.r2n)
            pen = dict(ridge=self.ridge, weights=self.weights)
            if which in ("LL", "P"):
                base["nest_coefs"] = run(c, NC + "naturalize_nest_coefs", {}, st, [b["nest"]])
                if which == "P":
                    return run(c, NC + "calc_nested_probs", dict(base, chosen_row_to_obs=self.c2o,
                                                                 return_type=const("long_and_chosen_probs")), st)
                return run(c, NC + "calc_nested_log_likelihood", dict(base, choice_vector=self.y, **pen), st)
            f = "calc_nested_gradient" if which == "G" else "calc_bhhh_hessian_approximation"
            return run(c, NC + f, dict(base, orig_nest_coefs=b["nest"], choice_vec=self.y, **pen), st)
        if typ == "Mixed Logit":
            if which == "P":
                return run(c, CC + "calc_probabilities", dict(
                    beta=b["beta"], design=self.design, alt_IDs=self.alts, rows_to_obs=self.r2o,
                    rows_to_alts=self.r2a, utility_transform=self.ut, chosen_row_to_obs=self.c2o,
                    return_long_probs=TRUE), st)
            f = {"LL": "calc_mixed_log_likelihood", "G": "calc_mixed_logit_gradient",
                 "H": "calc_bhhh_hessian_approximation_mixed_logit"}[which]
            return run(c, MC + f, dict(params=b["beta"], design_3d=self.design, alt_IDs=self.alts, rows_to_obs=self.r2o,
                                       rows_to_alts=self.r2a, rows_to_mixers=self.r2m, choice_vector=self.y,
                                       utility_transform=self.ut, ridge=self.ridge, weights=self.weights), st)
        base = dict(beta=b["beta"], design=self.design, alt_IDs=self.alts, rows_to_obs=self.r2o, rows_to_alts=self.r2a,
                    utility_transform=self.ut, intercept_params=b["inter"], shape_params=b["shape"])
        if which == "P":
            return run(c, CC + "calc_probabilities", dict(base, chosen_row_to_obs=self.c2o, return_long_probs=TRUE), st)
        base.update(ridge=self.ridge, weights=self.weights)
        if which == "LL":
            return run(c, CC + "calc_log_likelihood", dict(base, choice_vector=self.y), st)
        base.update(self.derivs())
        if which == "G":
            return run(c, CC + "calc_gradient", dict(base, choice_vector=self.y), st)
        if which == "H":
            return run(c, CC + "calc_hessian", base, st)
        return run(c, CC + "calc_fisher_info_matrix", dict(base, choice_vector=self.y), st)


def heads(t):
    return {s.args[0].args[0] for s in tm.subterms(t) if s.op == "apply" and s.args and isinstance(s.args[0], T) and
            s.args[0].op == "sym"}


def wired(ctx, name, got, want, c, **kw):
    """The same kernels are applied to the same values."""
    if got is want:
        ctx.hold(name)
        return True
    quals = {HEADS[h] for h in heads(want) - heads(got) if h in HEADS} - ctx.inline
    if quals:
        raise Inline(quals)
    return ctx.same(name, got, want, c, **kw)


def fitted(ctx, typ, inter, opts=None, init=None, inline=False, extra=None, **bk):
    """Construct and fit; returns case, model reference, result of fit_mle."""
    c = model_case(ctx, inline, names=["x", "z"] if typ == "Mixed Logit" else None)
    if extra:
        bk.update(extra(c))
    r = build(c, typ, inter, **bk)
    c.model = r.v
    c.before = dict(r.content().attrs)
    c.init = c.arr("theta0", total(typ, inter), origin=["init_vals"]) if init is None else init(c)
    kw = dict(opts(c)) if opts else {}
    if typ == "Mixed Logit":
        kw.setdefault("num_draws", sym("nd", "int"))
    c.opts = kw
    f = c.I.getattr(r.v, "fit_mle", c.st)
    q = c.call(f, [c.init] if c.init is not None else [], kw)
    if len(c.mini.calls) != 1:
        raise Unsupported("%d optimiser calls" % len(c.mini.calls))
    c.mkw, c.mst = c.mini.calls[0]
    return c, q
