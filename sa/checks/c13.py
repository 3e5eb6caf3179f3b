"""C13: invalid inputs are rejected, valid ones are not."""
from .glue import *
from .c07 import names_for
from .c02 import newdata, params

META = dict(level="other",
            explanation="the condition under which a constructor, fit, prediction, interval or resampling call raises is "
                        "computed symbolically and compared, atom by atom, with the documented validity predicate; "
                        "rejections must come before the optimiser is called and carry an input-error exception")
KINDS = ("ValueError", "TypeError", "AssertionError", "NotImplementedError")
V = "spec.validity."


def rejection(c, f, args=(), kw=None, st=None):
    """(condition under which the call ends in an exception, the raise effects, result or None)."""
    r = None
    c.mini.mark = None
    try:
        r = c.call(f, args, kw, st=st)
        effs = r.effects
        cond = FALSE
    except Dead:
        effs = c.I.effects
        cond = TRUE
    rs = [(k, e) for k, e in enumerate(effs) if e.kind == "raise"]
    if cond is FALSE:
        cond = mkor(FALSE, *[e.cond for _, e in rs])
    elif not any(e.cond is not FALSE for _, e in rs):
        raise Unsupported("call does not complete")
    return cond, rs, r


def lastrepo(rs):
    for _, e in reversed(rs):
        if e.loc and str(e.loc[0]).startswith("/"):
            return e.loc[:3]
    return None


def decide(ctx, c, name, f, args, kw, want, kinds=KINDS, alt=None, key=None, before=True):
    cond, rs, r = rejection(c, f, args, kw)
    args = (name, cond, want)
    if alt is not None:
        ok = ctx.equiv_or_known(name, cond, want, alt, key, c, loc=c.lastfn, what="rejection of the call")
    else:
        ok = ctx.equiv(name, cond, want, c, loc=c.lastfn, what="rejection of the call")
    for k, e in rs:
        if ok and e.data not in kinds and e.cond is not FALSE:
            ctx.violate(name, "rejected with %s" % (e.data,), e.loc[:3])
        if before and ok and c.mini.calls and c.mini.mark is not None and k >= c.mini.mark:
            ctx.violate(name, "rejected only after the optimiser has run", e.loc[:3])
    return r


def ref(c, f, args, st=None):
    r = c.call(V + f, args, st=st)
    t = r.term()
    bad = [e for e in r.effects if e.kind == "raise" and e.cond is not FALSE]
    if bad:
        raise Unsupported("reference raises")
    return tm.mktruth(t) if hasattr(tm, "mktruth") else t


# ------------------------------------------------------------------ constructors
def od(c, *pairs, **kw):
    return c.dct(list(pairs), **kw)


def L(c, *xs):
    return c.lst([x if not isinstance(x, (int, str)) else (num(x) if isinstance(x, int) else const(x)) for x in xs])


SPECS = {
    "good": lambda c: od(c, ("x", const("all_same")), ("z", const("all_diff"))),
    "plain dict": lambda c: od(c, ("x", const("all_same")), kind="dict"),
    "list of pairs": lambda c: L(c, "x", "z"),
    "intercept": lambda c: od(c, ("intercept", L(c, 1, 2)), ("x", const("all_same"))),
    "unknown word": lambda c: od(c, ("x", const("all_sam"))),
    "alternatives": lambda c: od(c, ("x", L(c, 1, L(c, 2, 3)))),
    "one alternative": lambda c: od(c, ("x", L(c, 7))),
    "too deep": lambda c: od(c, ("x", L(c, 1, L(c, 2, L(c, 3))))),
    "a tuple": lambda c: od(c, ("x", Tup([num(1), num(2)]))),
    "a number": lambda c: od(c, ("x", num(3))),
    "nothing": lambda c: od(c, ("x", NONE)),
}
NAMES = {
    "good": lambda c: od(c, ("x", const("X")), ("z", L(c, "za", "zb", "zc"))),
    "plain dict": lambda c: od(c, ("x", const("X")), ("z", L(c, "za", "zb", "zc")), kind="dict"),
    "reordered": lambda c: od(c, ("z", L(c, "za", "zb", "zc")), ("x", const("X"))),
    "missing key": lambda c: od(c, ("x", const("X"))),
    "extra key": lambda c: od(c, ("x", const("X")), ("z", L(c, "za", "zb", "zc")), ("w", const("W"))),
    "other key": lambda c: od(c, ("x", const("X")), ("y", L(c, "za", "zb", "zc"))),
    "list for all_same": lambda c: od(c, ("x", L(c, "X")), ("z", L(c, "za", "zb", "zc"))),
    "string for all_diff": lambda c: od(c, ("x", const("X")), ("z", const("z"))),
}
LNAMES = {
    "good": lambda c: od(c, ("x", L(c, "a", "b"))),
    "too few": lambda c: od(c, ("x", L(c, "a"))),
    "too many": lambda c: od(c, ("x", L(c, "a", "b", "c"))),
    "not strings": lambda c: od(c, ("x", L(c, "a", 2))),
    "a string": lambda c: od(c, ("x", const("ab"))),
}
NESTS = {
    "good": lambda c: od(c, ("n1", L(c, 1, 2)), ("n2", L(c, 3))),
    "one nest": lambda c: od(c, ("n1", L(c, 1, 2, 3))),
    "none": lambda c: NONE,
    "plain dict": lambda c: od(c, ("n1", L(c, 1, 2)), ("n2", L(c, 3)), kind="dict"),
    "number as nest name": lambda c: od(c, (num(1), L(c, 1, 2)), ("n2", L(c, 3))),
    "tuple of alternatives": lambda c: od(c, ("n1", Tup([num(1), num(2)])), ("n2", L(c, 3))),
    "empty nest": lambda c: od(c, ("n1", L(c, 1, 2)), ("n2", L(c))),
    "empty first nest": lambda c: od(c, ("n1", L(c)), ("n2", L(c, 1, 2))),
    "strings as alternatives": lambda c: od(c, ("n1", L(c, 1, "b")), ("n2", L(c, 3))),
    "alternative in two nests": lambda c: od(c, ("n1", L(c, 1, 2)), ("n2", L(c, 2, 3))),
    "alternative twice in a nest": lambda c: od(c, ("n1", L(c, 1, 2, 2)), ("n2", L(c, 3))),
}


def construct(typ, spec="good", names=None, nests="good", mix=("x",), data=None, dotted=False, **other):
    """One constructor call, everything else symbolic."""
    def ob(ctx):
        c = plain(ctx)
        design = CT + "create_design_matrix"
        if typ != "Mixed Logit":
            c.I.opaque.pop(design, None)
        t = TYPES[typ]
        s = SPECS[spec](c) if isinstance(spec, str) else spec(c)
        kw = {}
        n = NONE
        if names is not None:
            n = kw["names"] = names(c)
        for k, v in other.items():
            kw[k] = v(c) if callable(v) else v
        ns = NONE
        if typ == "Nested Logit":
            ns = kw["nest_spec"] = NESTS[nests](c)
        m = NONE
        if typ == "Mixed Logit":
            m = kw["mixing_vars"] = L(c, *mix)
            kw["mixing_id_col"] = COLS["mix"]
        if typ == "Asym" and "shape_ref_pos" not in kw:
            kw["shape_ref_pos"] = sym("sref", "int")
        d = data(c) if data else c.dfr
        cls = "pylogit.%s.%s" % (t["mod"], t["cls"])
        want = TRUE if data else FALSE
        if typ == "Nested Logit" and nests == "none":
            want = TRUE
        if typ in ("MNL", "Mixed Logit") and kw.get("intercept_ref_pos", NONE) is not NONE:
            want = TRUE
        if typ == "Asym" and not (kw["shape_ref_pos"].op == "sym" or kw["shape_ref_pos"].op in ("num", "poly")):
            want = TRUE
        if want is FALSE:
            ind = NONE
            if typ == "Mixed Logit":
                rr = c.call(design, [c.dfr, s, COLS["alt"]], dict(names=n))
                c.st = rr.st
                ind = rr.items()[1]
            want = ref(c, "constructor", [
                c.dfr, COLS["alt"], COLS["obs"], COLS["ch"], s, n,
                kw.get("intercept_names", NONE), kw.get("intercept_ref_pos", NONE), kw.get("shape_names", NONE),
                kw.get("shape_ref_pos", NONE), ns, m, ind])
        decide(ctx, c, "invalid exactly when documented", cls, [d, COLS["alt"], COLS["obs"], COLS["ch"], s], kw, want)
    return ob


# ------------------------------------------------------------------ fitting
def noncontiguous(c):
    """Rows i < k of one situation with a row of another before k."""
    i, k = fresh(), fresh()
    col = tm.mkgetcol(c.df, COLS["obs"])
    n = tm.mknrows(c.df)
    a, b, p = tm.mkat(col, i), tm.mkat(col, k), tm.mkat(col, psub(k, ONE))
    return tm.mkany(tm.bind("lam", [i, k], [n, n], mkand(mkcmp("<", i, k), mkcmp("==", a, b), mknot(mkcmp("==", p, b)))))


def obs_model(m, name, n, *key):
    """Observation ids, often but not always in contiguous blocks."""
    r = m.rnd
    if name == "alt":
        k = r.randint(1, 4)
        out = [D(1 + j % k) for j in range(n)]
        r.shuffle(out)
        return out
    if name != "obs":
        return None
    if r.random() < 0.5:
        return [D(r.randint(1, 3)) for _ in range(n)]
    ids = [1, 2, 3, 4, 5, 6, 7, 8]
    r.shuffle(ids)
    out = []
    while len(out) < n:
        out += [D(ids.pop() if ids else 99 + len(out))] * r.randint(1, 3)
    return out[:n]


WN = sym("Wn", "size")
WEIGHTS = {
    "an array": lambda c: c.arr("w", WN),
    "none": lambda c: NONE,
    "a list": lambda c: c.lst([ONE, ONE]),
    "a number": lambda c: sym("w0", "num"),
    "two-dimensional": lambda c: c.arr("w", WN, sym("W2", "size")),
}
RIDGES = {
    "a number": lambda c: sym("lam", "num"),
    "none": lambda c: NONE,
    "an array": lambda c: c.arr("lam", sym("Ln", "size")),
    "a list": lambda c: c.lst([ONE]),
    "a string": lambda c: const("0.1"),
}


def fitting(typ, inter, opts, want, init=None, given=True):
    def ob(ctx):
        c = model_case(ctx, names=["x", "z"] if typ == "Mixed Logit" else None)
        c.over["getcol"] = obs_model
        r = build(c, typ, inter, **(names_for(c, typ, inter, {}) if typ == "Nested Logit" else {}))
        c.model = r.v
        kw = dict(opts(c))
        if typ == "Mixed Logit":
            kw.setdefault("num_draws", sym("nd", "int"))
        kw.setdefault("just_point", TRUE)
        args = [c.arr("theta0", total(typ, inter)) if init is None else init(c)] if given else []
        f = c.I.getattr(c.model, "fit_mle", c.st)
        w = want(c, kw) if callable(want) else want
        if w is not TRUE:
            w = mkor(w, noncontiguous(c))
        decide(ctx, c, "rejected exactly when invalid", f, args, kw, w)
    return ob


def wbad(c, kw):
    return ref(c, "weights_bad", [kw["weights"], tm.mknrows(c.df)])


def rbad(c, kw):
    return ref(c, "ridge_bad", [kw["ridge"]])


def starts(typ, inter, which):
    """Separate initial values for shapes, intercepts and coefficients."""
    n = {"init_shapes": A_ if typ != "Asym" else AM1, "init_intercepts": AM1, "init_coefs": K}

    def opts(c):
        return {k: c.arr(k, sym("n_" + k, "size")) for k in which}

    def want(c, kw):
        need = ["init_coefs", "init_shapes" if typ != "Cloglog" else "init_intercepts" if inter else "init_coefs"]
        if any(k not in which for k in need):
            return TRUE
        return mkor(FALSE, *[mknot(mkcmp("==", sym("n_" + k, "size"), n[k])) for k in which])
    return opts, want


# ------------------------------------------------------------------ prediction
def predicting(typ, inter, plist, want, ch=False, long=True, data=None, columns=False, named=True, alt=None, after=False):
    def ob(ctx):
        c = model_case(ctx, names=["x", "z"] if typ == "Mixed Logit" else None)
        if columns and typ != "Mixed Logit":
            c.I.opaque.pop(CT + "create_design_matrix", None)
        r = build(c, typ, inter, **(names_for(c, typ, inter, {}) if named or typ == "Nested Logit" else {}))
        c.model = r.v
        newdata(c)
        kw = dict(return_long_probs=const(long))
        if ch:
            kw["choice_col"] = const("newchoice")
        if typ == "Mixed Logit":
            kw.update(num_draws=sym("nd", "int"), seed=NONE)
        if plist is not None:
            kw["param_list"] = plist(c)
        f = c.I.getattr(c.model, "predict", c.st)
        if after:
            # a prediction with valid parameters comes first
            c.st = c.call(f, [c.dfr2], dict(kw, return_long_probs=TRUE, param_list=exactly(typ, inter)(c))).st
            f = c.I.getattr(c.model, "predict", c.st)
        cols = [COLS["alt"], COLS["obs"]] + ([COLS["mix"]] if typ == "Mixed Logit" else [])
        w = want(c)
        a = alt(c) if alt else None
        if w is not TRUE:
            ms = ref(c, "missing", [c.dfr2, c.lst(cols)])
            w = mkor(w, ms)
            a = mkor(a, ms) if a is not None else None
        decide(ctx, c, "rejected exactly when invalid", f, [data(c) if data else c.dfr2], kw, w, alt=a, key="unnamed-param-list")
    return ob


PN = dict(beta=sym("n_b", "size"), inter=sym("n_i", "size"), shape=sym("n_s", "size"), nest=sym("n_n", "size"))


def plist(typ, inter, dims=1, cols=None, length=4, replace=None, kind="list", mixdims=None):
    def mk(c):
        have = {n for n, _ in sizes(typ, inter)}
        out = []
        for n in ("beta", "inter", "shape", "nest"):
            if n not in have:
                out.append(NONE)
                continue
            d = [PN[n]] + [(cols or {}).get(n, sym("NC", "size"))] * ((mixdims or {}).get(n, dims) - 1)
            out.append(c.arr("p_" + n, *d))
        for k, v in (replace or {}).items():
            out[k] = v(c) if callable(v) else v
        out = out[:length] + [NONE] * (length - 4)
        return Tup(out) if kind == "tuple" else c.lst(out)
    return mk


def exactly(typ, inter):
    """parameters of the right lengths"""
    def mk(c):
        b, pl = params(c, typ, inter)
        n = num(2) if typ == "Mixed Logit" else padd(ONE, tm.raw("nuniq", tm.mkgetcol(c.df, COLS["alt"])))
        return c.lst([c.arr("p_beta", n), b["inter"], b["shape"], b["nest"]])
    return mk


def pwant(typ, inter, extra=FALSE, unnamed=False):
    def w(c):
        szs = dict(sizes(typ, inter))
        if unnamed:
            # what the code expects: no alternative-specific parameters without names, no standard deviations before a fit
            szs = {n: ZERO if n in ("inter", "shape") else num(2) if typ == "Mixed Logit" else d for n, d in szs.items()}
        return mkor(extra, *[mknot(mkcmp("==", PN[n], d)) for n, d in szs.items()])
    return w


# ------------------------------------------------------------------ intervals and resampling
def plain(ctx, opaque=None):
    c = model_case(ctx)
    c.I.opaque.pop(MC + "get_normal_draws", None)
    c.over["getcol"] = obs_model
    c.over["conf"] = lambda m: D(m.rnd.choice(["-5", "0", "50", "99.5", "100", "100.5", "1200"]))
    for n in ("nm", "nd", "seed", "iref", "ipos", "sref"):
        c.over[n] = lambda m: D(m.rnd.randint(-2, 5))
    return c


def direct(f, mk, want, **kw):
    def ob(ctx):
        c = plain(ctx)
        a = mk(c)
        decide(ctx, c, "rejected exactly when invalid", f, a, {}, want(c, a) if callable(want) else want, **kw)
    return ob


BC, BA, BS = "pylogit.bootstrap_calcs.", "pylogit.bootstrap_abc.", "pylogit.bootstrap_sampler."
NB, NP, NO_ = sym("NB", "size"), sym("NP", "size"), sym("NJ", "size")
CONF = {"a number": sym("conf", "num"), "a string": const("95"), "none": NONE}


def reps(c, nd=2):
    return c.arr("boot", *[NB, NP, sym("N3", "size")][:nd])


def jack(c, nd=2):
    return c.arr("jack", *[NO_, NP, sym("N3", "size")][:nd])


OBLIGATIONS = [("%s constructor" % t, construct(t)) for t in TYPES]
OBLIGATIONS += [("MNL constructor, specification: %s" % k, construct("MNL", spec=k)) for k in SPECS if k != "good"]
OBLIGATIONS += [("MNL constructor, names: %s" % k, construct("MNL", names=v)) for k, v in NAMES.items()]
OBLIGATIONS += [("MNL constructor, names of a list: %s" % k,
                 construct("MNL", spec=lambda c: od(c, ("x", L(c, 1, L(c, 2, 3)))), names=v)) for k, v in LNAMES.items()]
OBLIGATIONS += [("Nested Logit constructor, nests: %s" % k, construct("Nested Logit", nests=k)) for k in NESTS]
OBLIGATIONS += [("Mixed Logit constructor, mixing variables: %s" % ", ".join(m), construct("Mixed Logit", mix=m))
                for m in (("x",), ("z_1",), ("x", "q"))]
OBLIGATIONS += [("MNL constructor, data: %s" % k, construct("MNL", data=v)) for k, v in (
    ("a path that is not a csv file", lambda c: const("data.txt")), ("a number", lambda c: num(3)),
    ("a list", lambda c: L(c, 1)), ("nothing", lambda c: NONE), ("an array", lambda c: c.arr("dat", R, K)))]
OBLIGATIONS += [("%s constructor with an outside-intercept position" % t, construct(t, intercept_ref_pos=ZERO))
                for t in ("MNL", "Mixed Logit")]
POSITIONS = (("any integer", sym("ipos", "int")), ("none", NONE), ("a string", const("1")), ("a float", lambda c: tm.num(0.5)))
for _t in TYPES:
    if TYPES[_t]["inter"]:
        OBLIGATIONS += [("%s constructor, %d intercept names, position: %s" % (_t, _n, _k), construct(
            _t, intercept_names=lambda c, _n=_n: L(c, *["i%d" % k for k in range(_n)]), intercept_ref_pos=_v))
            for _k, _v in POSITIONS for _n in (1, 2, 3)]
    if TYPES[_t]["shapes"]:
        if _t == "Asym":
            OBLIGATIONS += [("%s constructor, 2 shape names, position: %s" % (_t, _k), construct(
                _t, shape_names=lambda c: L(c, "s1", "s2"), shape_ref_pos=_v)) for _k, _v in POSITIONS]
        else:
            OBLIGATIONS += [("%s constructor, %d shape names" % (_t, _n), construct(
                _t, shape_names=lambda c, _n=_n: L(c, *["s%d" % k for k in range(_n)]))) for _n in (1, 2, 3)]
for _t, _i in configs():
    _l = label(_t, _i)
    OBLIGATIONS += [("%s fit, weights: %s" % (_l, k), fitting(_t, _i, lambda c, v=v: dict(weights=v(c)), wbad))
                    for k, v in WEIGHTS.items()]
    OBLIGATIONS += [("%s fit, ridge: %s" % (_l, k), fitting(_t, _i, lambda c, v=v: dict(ridge=v(c)), rbad))
                    for k, v in RIDGES.items()]
    OBLIGATIONS += [("%s fit, length of the initial values" % _l, fitting(
        _t, _i, lambda c: {}, lambda c, kw, t=_t, i=_i: mknot(mkcmp("==", sym("L", "size"), total(t, i))),
        init=lambda c: c.arr("theta0", sym("L", "size"))))]
    if _t in ("MNL", "Nested Logit", "Mixed Logit"):
        OBLIGATIONS += [("%s fit, unusable %s" % (_l, k), fitting(_t, _i, lambda c, k=k: {k: c.arr("s0", K)}, TRUE))
                        for k in ("init_shapes", "init_intercepts", "init_coefs")]
    else:
        sh = ["init_shapes"] if TYPES[_t]["shapes"] else []
        full_ = sh + (["init_intercepts"] if _i else []) + ["init_coefs"]
        for k in range(len(full_) + 1):
            wh = full_ if k == len(full_) else [x for j, x in enumerate(full_) if j != k]
            if k < len(full_) and full_[k] == "init_intercepts" and _t != "Cloglog":
                continue
            o, w = starts(_t, _i, wh)
            OBLIGATIONS.append(("%s fit, separate initial values %s" % (_l, wh), fitting(
                _t, _i, o, w, init=lambda c: NONE)))
    lst_ = lambda **k: plist(_t, _i, **k)
    W = pwant(_t, _i)
    T_ = lambda c: TRUE
    OBLIGATIONS += [
        ("%s predict, specification columns" % _l, predicting(
            _t, _i, exactly(_t, _i), (lambda c: ref(c, "missing", [c.dfr2, c.lst([const("x"), const("z")])]))
            if _t != "Mixed Logit" else (lambda c: FALSE), columns=True)),
        ("%s predict, no output asked for" % _l, predicting(_t, _i, None, T_, long=False)),
        ("%s predict, data a list" % _l, predicting(_t, _i, None, T_, data=lambda c: L(c, 1))),
        ("%s predict, parameter vectors of any length" % _l, predicting(
            _t, _i, lst_(), W, alt=pwant(_t, _i, unnamed=True) if _t == "Mixed Logit" else None)),
        ("%s predict, a tuple of parameters" % _l, predicting(_t, _i, lst_(kind="tuple"), T_)),
        ("%s predict, three parameter entries, after a valid call" % _l, predicting(_t, _i, lst_(length=3), T_, after=True)),
        ("%s predict, three-dimensional parameters, after a valid call" % _l, predicting(_t, _i, lst_(dims=3), T_, after=True)),
        ("%s predict, no output asked for, after a valid call" % _l, predicting(_t, _i, None, T_, long=False, after=True)),
        ("%s predict, three parameter entries" % _l, predicting(_t, _i, lst_(length=3), T_)),
        ("%s predict, five parameter entries" % _l, predicting(_t, _i, lst_(length=5), T_)),
        ("%s predict, no index coefficients" % _l, predicting(_t, _i, lst_(replace={0: NONE}), T_)),
        ("%s predict, a list among the parameters" % _l, predicting(_t, _i, lst_(replace={1: lambda c: L(c, 1)}), T_)),
        ("%s predict, coefficients as a list" % _l, predicting(_t, _i, lst_(replace={0: lambda c: L(c, 1)}), T_)),
        ("%s predict, three-dimensional parameters" % _l, predicting(_t, _i, lst_(dims=3), T_)),
    ]
    if TYPES[_t]["shapes"] or _i:
        OBLIGATIONS.append(("%s without names, predict, parameter vectors of any length" % _l, predicting(
            _t, _i, lst_(), W, named=False, alt=pwant(_t, _i, unnamed=True))))
    if len(sizes(_t, _i)) > 1:
        o_ = sizes(_t, _i)[0][0]
        OBLIGATIONS += [("%s predict, mixed dimensions" % _l, predicting(_t, _i, lst_(mixdims={o_: 2}), T_)),
                        ("%s predict, mixed dimensions, coefficients" % _l, predicting(_t, _i, lst_(mixdims={"beta": 2}), T_))]
    if _t in LOGIT:
        OBLIGATIONS += [("%s predict, parameter matrices" % _l, predicting(_t, _i, lst_(dims=2), W))]
        if len(sizes(_t, _i)) > 1:
            OBLIGATIONS += [("%s predict, unequal numbers of columns" % _l, predicting(
                _t, _i, lst_(dims=2, cols={o_: sym("NC2", "size")}),
                pwant(_t, _i, mknot(mkcmp("==", sym("NC", "size"), sym("NC2", "size"))))))]
for _k, _v in CONF.items():
    OBLIGATIONS += [
        ("percentile interval, confidence level: %s" % _k, direct(
            BC + "calc_percentile_interval", lambda c, v=_v: [reps(c), v], lambda c, a: ref(c, "conf_bad", [a[1]]))),
        ("BCa interval, confidence level: %s" % _k, direct(
            BC + "calc_bca_interval", lambda c, v=_v: [reps(c), jack(c), c.arr("mle", NP), v],
            lambda c, a: ref(c, "conf_bad", [a[3]])))]
for _n in (1, 3):
    OBLIGATIONS += [
        ("percentile interval, %d-dimensional replicates" % _n, direct(
            BC + "calc_percentile_interval", lambda c, n=_n: [reps(c, n), num(95)], TRUE)),
        ("BCa interval, %d-dimensional bootstrap replicates" % _n, direct(
            BC + "calc_bca_interval", lambda c, n=_n: [reps(c, n), jack(c), c.arr("mle", NP), num(95)], TRUE)),
        ("BCa interval, %d-dimensional jackknife replicates" % _n, direct(
            BC + "calc_bca_interval", lambda c, n=_n: [reps(c), jack(c, n), c.arr("mle", NP), num(95)], TRUE))]
OBLIGATIONS += [
    ("percentile interval, replicates as a list", direct(BC + "calc_percentile_interval", lambda c: [L(c, 1), num(95)], TRUE)),
]

SEED = {"any integer": sym("seed", "int"), "none": NONE, "a string": const("1")}
OBLIGATIONS += [("simulation draws, seed: %s" % k, direct(
    MC + "get_normal_draws", lambda c, v=v: [sym("nm", "int"), sym("nd", "int"), num(2), v],
    lambda c, a: ref(c, "draws_bad", a))) for k, v in SEED.items()]
OBLIGATIONS += [("simulation draws, %s as text" % n, direct(
    MC + "get_normal_draws", lambda c, j=j: [const("3") if j == q else num(3) for q in range(3)], TRUE))
    for j, n in enumerate(("mixers", "draws"))]
OBLIGATIONS += [("simulation draws, none wanted", direct(MC + "get_normal_draws", lambda c: [num(3), ZERO, num(1)], TRUE))]


def resampling(ctx):
    c = plain(ctx)
    n = sym("NO", "size")
    ids = c.arr("ids", n)
    groups = c.ref(Opq(sym("groups", "dict")))
    want = ref(c, "resample_bad", [c.dfr, COLS["obs"], const("boot"), ids])
    decide(ctx, c, "rejected exactly when invalid", BS + "create_bootstrap_dataframe",
           [c.dfr, COLS["obs"], ids, groups, const("boot")], {}, want)


def sampling(seed, want):
    def ob(ctx):
        c = plain(ctx)
        decide(ctx, c, "rejected exactly when invalid", BS + "create_cross_sectional_bootstrap_samples",
               [c.arr("obs", R), c.arr("alts", R), c.arr("y", R), num(2), seed], {}, want)
        ds = [e for e in c.I.effects if e.kind == "draw"]
        ctx.true("nothing is drawn from an invalid seed", want is FALSE or not ds, "draws before the seed is rejected",
                 ds[0].loc[:3] if ds and ds[0].loc else None)
    return ob


def which_replicates(f, v, bad):
    def ob(ctx):
        from .c18 import booted
        c = booted(ctx, "MNL", False)
        c.mini.calls = []
        g = c.I.getattr(c.boot, f, c.st)
        cond, rs, r = rejection(c, g, [v])
        if bad:
            ctx.equiv("rejected", cond, TRUE, c, loc=c.lastfn, what="rejection of the call")
            input_error(ctx, rs)
        else:
            ctx.true("accepted", r is not None, "a valid choice of replicates is rejected", c.lastfn)
    return ob


def input_error(ctx, rs):
    """The call fails by rejecting its input, not by stumbling over it."""
    bad = [e for _, e in rs if e.cond is not FALSE and e.data not in KINDS]
    ctx.true("kind of error", not bad, "rejected with %s" % (bad[0].data if bad else None,), bad[0].loc[:3] if bad else None)


def interval_kind(v, bad):
    def ob(ctx):
        from .c18 import booted
        c = booted(ctx, "MNL", False)
        g = c.I.getattr(c.boot, "calc_conf_intervals", c.st)
        cond, rs, r = rejection(c, g, [num(95), v, c.init])
        ctx.true("kind of interval", (cond is TRUE) == bad, "an interval kind is %s" % ("accepted" if bad else "rejected"), c.lastfn)
    return ob


def long_weights(w, r2o, bad):
    def ob(ctx):
        c = plain(ctx)
        r = build(c, "MNL")
        c.model = r.v
        a = [c.model, w(c)] + ([r2o(c)] if r2o else [])
        cond, rs, r = rejection(c, BA + "create_long_form_weights", a)
        ctx.true("weights", (cond is TRUE) == bad, "weights are %s" % ("accepted" if bad else "rejected"), c.lastfn)
    return ob


def abc_conf(v):
    def ob(ctx):
        c = plain(ctx)
        for k in ("calc_influence_arrays_for_abc", "efron_quadratic_coef_abc", "efron_endpoints_for_abc_confidence_interval"):
            c.I.opaque[BA + k] = lambda I, f, args, kw, st: Tup([I.alloc(st, ar.symarr("infl1", NO_, NP)),
                                                                I.alloc(st, ar.symarr("infl2", NO_, NP))])
        c.I.opaque[BA + "efron_quadratic_coef_abc"] = lambda I, f, args, kw, st: I.alloc(st, ar.symarr("qc", NP))
        c.I.opaque[BA + "efron_endpoints_for_abc_confidence_interval"] = \
            lambda I, f, args, kw, st: Tup([I.alloc(st, ar.symarr("lo", NP)), I.alloc(st, ar.symarr("hi", NP))])
        r = build(c, "MNL")
        c.model = r.v
        decide(ctx, c, "rejected exactly when invalid", BA + "calc_abc_interval",
               [c.model, c.arr("mle", NP), c.arr("init", NP), v], {}, ref(c, "conf_bad", [v]))
    return ob


def panel(kw, want):
    def ob(ctx):
        c = model_case(ctx, names=["x", "z"])
        r = build(c, "Mixed Logit")
        c.model = r.v
        newdata(c)
        f = c.I.getattr(c.model, "panel_predict", c.st)
        decide(ctx, c, "rejected exactly when invalid", f, [c.dfr2, sym("nd", "int")], kw, want)
    return ob


def model_type(v, bad):
    def ob(ctx):
        c = model_case(ctx)
        cond, rs, r = rejection(c, "pylogit.pylogit.create_choice_model",
                                [c.dfr, COLS["alt"], COLS["obs"], COLS["ch"], spec_dict(c), v])
        ctx.true("model type", (cond is TRUE) == bad, "the model type is %s" % ("accepted" if bad else "rejected"), c.lastfn)
    return ob


OBLIGATIONS += [("resampled data", resampling)]
OBLIGATIONS += [("bootstrap samples, seed: %s" % k, sampling(v, TRUE if k == "a string" else FALSE)) for k, v in SEED.items()]
OBLIGATIONS += [("%s: replicates %s" % (f, v), which_replicates(f, const(v), v not in ("bootstrap", "jackknife")))
                for f in ("calc_log_likes_for_replicates", "calc_gradient_norm_for_replicates")
                for v in ("bootstrap", "jackknife", "boot", "mle_params")]
OBLIGATIONS += [("interval kind %s" % v, interval_kind(const(v), v == "percentile")) for v in ("pi", "bca", "abc", "all", "percentile")]
OBLIGATIONS += [("ABC weights: %s" % k, long_weights(w, None, bad)) for k, w, bad in (
    ("one-dimensional", lambda c: c.arr("ww", O), False), ("two-dimensional", lambda c: c.arr("ww", O, O), False),
    ("three-dimensional", lambda c: c.arr("ww", O, O, O), True), ("a list", lambda c: L(c, 1, 1), True))]
OBLIGATIONS += [("ABC mapping: %s" % k, long_weights(lambda c: c.arr("ww", O), w, bad)) for k, w, bad in (
    ("sparse", lambda c: c.arr("r2o", R, O, kind="sp"), False), ("dense", lambda c: c.arr("r2o", R, O), True))]
OBLIGATIONS += [("ABC interval, confidence level: %s" % k, abc_conf(v)) for k, v in CONF.items()]
OBLIGATIONS += [("panel_predict, no output asked for", panel(dict(return_long_probs=FALSE), TRUE))]
OBLIGATIONS += [("model type %s" % v, model_type(const(v), v not in ("MNL",))) for v in ("MNL", "mnl", "Logit", "")]
