"""C06: utility transformations and their derivatives."""
from .common import *
from fractions import Fraction

META = dict(level="other",
            explanation="value numbering of every utility transformation and derivative routine against the published "
                        "closed form, for any reference position, plus the same comparison under double-precision "
                        "range for arguments that overflow or underflow")

DR = padd(sym("Drm1", "size"), ONE)   # two or more parameter vectors at once
POS = sym("pos", "size")        # reference position: an integer in [0, A-1]
IPOS = sym("ipos", "size")


def pos_model(m):
    return D(m.rnd.randint(0, int(m.size("Am1"))))


def tcase(ctx, opaque=None):
    c = base_case(ctx, opaque)
    c.over.update({"pos": pos_model, "ipos": pos_model, "ic2": None})
    del c.over["ic2"]
    return c


def skip(pos, j):
    """position in the shorter list of a position of the full list"""
    return psub(j, mkcmp('>', j, pos))


def full(c, name, pos, at_pos, f, *more):
    """array over all alternatives built from one that leaves the reference out"""
    i = ax(0)
    v = mkat(sym(name, "arr"), skip(pos, i), *[ax(1 + k) for k in range(len(more))])
    return ar.mk([A_] + list(more), mkite(mkcmp('==', i, pos), at_pos, f(v)))


def mkarr(c, st, dims, body):
    return c.I.alloc(st, ar.mk(dims, body))


def rowlong(c, arr, st):
    return c.call("spec.choice.matmul", [c.r2a, arr], st=st)


TR = {"cloglog": "pylogit.clog_log._cloglog_utility_transform",
      "scobit": "pylogit.scobit._scobit_utility_transform",
      "uneven": "pylogit.uneven_logit._uneven_utility_transform",
      "asym": "pylogit.asym_logit._asym_utility_transform"}


def inputs(c, twod=False):
    c.v = c.arr("v", R, DR) if twod else c.arr("v", R)
    c.alts = c.arr("alts", R)
    c.r2a = c.arr("r2a", R, A_, kind="sp")
    c.D2 = [DR] if twod else []


def shapes(c, model, st):
    """(value given to the code, natural shape of each row)"""
    more = c.D2
    if model == "cloglog":
        return NONE, None, st
    if model == "asym":
        code = c.arr("eta", AM1, *more)
        e = c.call("spec.transforms.clampexp", [code], st=c.st)
        body = ar.unblock(e.content()).body
        i = ax(0)
        b2 = mkite(mkcmp("==", i, POS), ONE, subst(body, {i: skip(POS, i)}))
        fullarr = c.I.alloc(e.st, ar.mk([A_] + list(more), b2))
        n = c.call("spec.transforms.asym_shapes", [fullarr], st=e.st)
        lg = rowlong(c, n.v, n.st)
        return code, (n.v, lg.v), lg.st
    code = c.arr("shp", A_, *more)
    n = c.call("spec.transforms.natural", [code], st=c.st)
    lg = rowlong(c, n.v, n.st)
    return code, (n.v, lg.v), lg.st


def base_transform(c, model, nat, st):
    if model == "cloglog":
        return c.call("spec.transforms.cloglog", [c.v], st=st)
    if model == "asym":
        return c.call("spec.transforms.asym", [c.v, nat[1], A_], st=st)
    return c.call("spec.transforms." + model, [c.v, nat[1]], st=st)


def column(t, c):
    """(R,) -> (R, 1)"""
    a = ar.unblock(t)
    if len(a.parts) == 2:
        return a
    return ar.mk([R, ONE], a.body)


def transform(model, inter, twod):
    def ob(ctx):
        c = tcase(ctx)
        inputs(c, twod)
        code, nat, st = shapes(c, model, c.st)
        kw = {}
        if model == "asym":
            kw["shape_ref_position"] = POS
        ic = NONE
        if inter:
            ic = c.arr("ic", AM1, *c.D2)
            kw["intercept_ref_pos"] = IPOS
        # references
        st2 = c.st.copy()
        h = base_transform(c, model, nat, merge(st, c.st))
        body = ar.unblock(h.content())
        if inter:
            al = c.I.alloc(h.st, full(c, "ic", IPOS, ZERO, lambda v: v, *c.D2))
            lg = rowlong(c, al, h.st)
            body = ar.ew(padd, body, ar.unblock(lg.content()))
        body2 = column(body, c)
        if model == "asym":
            body2 = ar.amap(lambda b: capt(b), body2)
        elif model == "scobit" and inter:
            body2 = ar.amap(lambda b: capt(b), body2)
        r = c.call(TR[model], [c.v, c.alts, c.r2a, code, ic], kw)
        ctx.same("transformation", r.term(), ar.lower(body2), c, extreme=False)
        ctx.guarded("transformation out of range", r.term(), ar.lower(body2), c)
    return ob


BIG = num(Fraction(10) ** 300)


def capt(b):
    b = mkite(raw("isposinf", b), BIG, b)
    return mkite(raw("isneginf", b), pneg(BIG), b)


def merge(a, b):
    return a


EST = {"cloglog": "pylogit.clog_log.ClogEstimator", "scobit": "pylogit.scobit.ScobitEstimator",
       "uneven": "pylogit.uneven_logit.UnevenEstimator", "asym": "pylogit.asym_logit.AsymEstimator",
       "mnl": "pylogit.conditional_logit.MNLEstimator"}


def estimator(c, model, inter):
    cl = c.fn(EST[model])
    attrs = {"design": c.arr("X", R, K), "rows_to_alts": c.r2a, "alt_id_vector": c.alts,
             "shape_ref_pos": POS if model == "asym" else NONE, "intercept_ref_pos": IPOS if inter else NONE}
    return c.ref(Obj(cl, attrs))


def unskip(pos, k):
    return padd(k, mkcmp(">=", k, pos))


def derivs_(model, inter):
    def ob(ctx):
        c = tcase(ctx)
        inputs(c)
        if model == "mnl":
            code, nat, st = NONE, None, c.st
        else:
            code, nat, st = shapes(c, model, c.st)
        e = estimator(c, model, inter)
        ic = c.arr("ic", AM1) if inter else NONE
        r0 = c.call(c.I.getattr(e, "set_derivatives", c.st), [])
        s = r0.st

        def deriv(name, last):
            f = c.I.getattr(e, name, s)
            return c.call(f, [c.v, c.alts, c.r2a, last], st=s)
        i, j = ax(0), ax(1)
        # with respect to the index
        got = deriv("calc_dh_dv", code)
        if model == "mnl":
            d = ONE
        elif model == "cloglog":
            d = ar.unblock(c.call("spec.transforms.cloglog_dv", [c.v], st=st).content()).body
        elif model == "asym":
            d = ar.unblock(c.call("spec.transforms.asym_dv", [c.v, nat[1], A_], st=st).content()).body
        else:
            d = ar.unblock(c.call("spec.transforms.%s_dv" % model, [c.v, nat[1]], st=st).content()).body
        want = ar.lower(ar.mk([R, R], pmul(mkdelta(i, j), d)))
        ctx.same("d/d index", got.term(), want, c)
        ctx.guarded("d/d index out of range", got.term(), want, c)
        # with respect to the estimated shapes
        got = deriv("calc_dh_d_shape", code)
        if model in ("mnl", "cloglog"):
            ctx.true("no shape derivative", got.v is NONE, "a derivative is returned")
        elif model == "asym":
            d = ar.unblock(c.call("spec.transforms.asym_dc", [c.v, nat[1]], st=st).content()).body
            n = ar.unblock(c.I.deref(nat[0], st)).body
            own = ar.unblock(c.I.deref(nat[1], st)).body
            k = unskip(POS, j)
            ck = subst(n, {i: k})
            want = ar.lower(ar.mk([R, AM1], pmul(d, psub(pmul(mkat(sym("r2a", "arr"), i, k), own), pmul(own, ck)))))
            ctx.same("d/d shape", got.term(), want, c)
        else:
            alt = None
            args = [c.v, nat[1]]
            if model == "scobit":
                alt = c.call("spec.transforms.scobit_dshape", args + [BIG], st=st)
                alt = ar.lower(ar.mk([R, A_], pmul(mkat(sym("r2a", "arr"), i, j), ar.unblock(alt.content()).body)))
                args.append(pneg(BIG))
            d = ar.unblock(c.call("spec.transforms.%s_dshape" % model, args, st=st).content()).body
            want = ar.lower(ar.mk([R, A_], pmul(mkat(sym("r2a", "arr"), i, j), d)))
            ctx.same("d/d shape", got.term(), want, c)
            ctx.guarded("d/d shape out of range", got.term(), want, c, alt, "scobit-shape-derivative-limit")
        got = deriv("calc_dh_d_alpha", ic)
        if not inter:
            ctx.true("no intercept derivative", got.v is NONE, "a derivative is returned")
        else:
            want = ar.lower(ar.mk([R, AM1], mkat(sym("r2a", "arr"), i, unskip(IPOS, j))))
            ctx.same("d/d intercepts", got.term(), want, c)
    return ob


def mnl_transform(ctx):
    c = tcase(ctx)
    inputs(c)
    r = c.call("pylogit.conditional_logit._mnl_utility_transform", [c.v, c.alts, c.r2a, NONE, NONE])
    ctx.same("MNL transformation is the identity", r.term(), ar.lower(column(ar.symarr("v", R), c)), c)
    r = c.call("pylogit.mixed_logit.mnl_utility_transform", [c.v, c.alts, c.r2a, NONE, NONE])
    ctx.same("mixed logit transformation is the identity", r.term(), ar.lower(column(ar.symarr("v", R), c)), c)


OBLIGATIONS = [("%s transform intercepts=%d%s" % (m, i, " 2d" if t else ""), transform(m, i, t))
               for m in TR for i in (0, 1) for t in (0, 1) if (m, i, t) != ("scobit", 0, 1)] + \
    [("%s derivatives intercepts=%d" % (m, i), derivs_(m, i)) for m in list(TR) + ["mnl"] for i in (0, 1)
     if (m, i) != ("mnl", 1)] + [("MNL transform", mnl_transform)]
