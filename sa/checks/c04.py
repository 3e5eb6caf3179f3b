"""C04: gradients."""
from .glue import *
from .c15 import gradient, plainopts
from .c01 import nested_inputs

META = dict(level="other",
            explanation="value numbering of the gradient kernels against the weighted score, block by block, for every "
                        "combination of optional parameter blocks, weights and ridge")


def blocks(ctx, c, r, n):
    """Split the returned vector at the boundaries of the reference blocks."""
    return r.content()


def logit(shape, inter, ridge, wt, ckind="sp"):
    def ob(ctx):
        c = base_case(ctx)
        a = logit_args(c)
        a.update(optional(c, shape, inter, ridge, wt))
        a.update(derivs(c, ckind))
        y = c.arr("y", R)
        r = c.call("pylogit.choice_calcs.calc_gradient", [], dict(a, choice_vector=y))
        want = grad_ref(c, a, y)
        ctx.same("gradient", r.term(), want, c)
    return ob


def deriv_blocks(c, a, st):
    """[(parameter, derivative array)] in parameter-vector order."""
    v = c.call("spec.choice.index", [a["design"], a["beta"]], st=st)
    st = v.st
    out = []
    if a["shape_params"] is not NONE:
        out.append(("shape_params", c.I.call(a["transform_first_deriv_c"], [v.v, a["alt_IDs"], a["rows_to_alts"], a["shape_params"]], {}, st)))
    if a["intercept_params"] is not NONE:
        out.append(("intercept_params", c.I.call(a["transform_deriv_alpha"], [v.v, a["alt_IDs"], a["rows_to_alts"], a["intercept_params"]], {}, st)))
    dv = c.I.call(a["transform_first_deriv_v"], [v.v, a["alt_IDs"], a["rows_to_alts"], a["shape_params"]], {}, st)
    b = c.call("spec.choice.matmul", [dv, a["design"]], st=st)
    out.append(("beta", b.v))
    return out, b.st


def grad_ref(c, a, y):
    P, st = ref_probs(c, a)
    bl, st = deriv_blocks(c, a, st)
    w = a["weights"] if a["weights"] is not NONE else c.I.alloc(st, ar.mk([R], ONE))
    parts = []
    for nm, d in bl:
        g = c.call("spec.choice.gradient_block", [y, P, w, d], st=st)
        arr = g.content()
        if a["ridge"] is not NONE:
            g2 = c.call("spec.choice.ridge_grad", [g.v, a["ridge"], a[nm]], st=g.st)
            arr = g2.content()
        parts.append(ar.unblock(arr))
    return ar.lower(ar.concat(parts, 0)) if len(parts) > 1 else ar.lower(parts[0])


def nested(ridge, wt, jac):
    def ob(ctx):
        c = base_case(ctx)
        a = nested_inputs(c)
        raw_ = c.arr("raw", N_)
        a["orig_nest_coefs"] = raw_
        del a["nest_coefs"]
        y = c.arr("y", R)
        kw = dict(a, choice_vec=y)
        rid = sym("ridge", "num")
        if ridge:
            kw["ridge"] = rid
        if wt:
            kw["weights"] = c.arr("w", R)
        if jac is not None:
            kw["use_jacobian"] = const(jac)
        r = c.call("pylogit.nested_choice_calcs.calc_nested_gradient", [], kw)
        got = ar.repart(ar.unblock(r.content()), 0, (N_, K))
        w = kw["weights"] if wt else c.ref(ar.mk([R], ONE))
        wo = c.call("spec.nested.obs_weights", [w, a["rows_to_obs"]])
        sc = c.call("spec.nested.score", [raw_, a["index_coefs"], a["design"], y, a["rows_to_obs"], a["rows_to_nests"],
                                         const(jac is not False), w, wo.v], st=wo.st)
        for k, nm in ((0, "nest"), (1, "index")):
            g = c.call("spec.nested.total", [sc.items()[k]], st=sc.st)
            t = ar.unblock(g.content())
            b = t.body
            if ridge:
                if nm == "index":
                    b = psub(b, pmul(num(2), rid, mkat(sym("beta", "arr"), ax(0))))
                else:
                    # d/d(raw) of the penalty (nest - 1)^2 on the natural scale
                    g3 = c.call("spec.nested.nest_penalty_grad", [rid, raw_, const(jac is not False)], st=sc.st)
                    dev = c.call("spec.nested.nest_penalty_deviation", [rid, raw_], st=sc.st)
                    alt = ar.lower(Arr(t.parts, {(0,): psub(b, ar.unblock(dev.content()).body)}))
                    b = psub(b, ar.unblock(g3.content()).body)
            want = ar.lower(Arr(t.parts, {(0,): b}))
            gb = ar.lower(Arr(((got.parts[0][k],),), {(0,): got.bodies[(k,)]}))
            if ridge and nm == "nest":
                ctx.same_or_known("nest block", gb, want, alt, "nested-ridge-gradient", c)
            else:
                ctx.same("%s block" % nm, gb, want, c)
    return ob


def mixed(ridge, wt):
    def ob(ctx):
        c = base_case(ctx)
        a = mixed_args(c)
        if ridge:
            a["ridge"] = sym("ridge", "num")
        if wt:
            a["weights"] = c.arr("wm", R)
        r = c.call("pylogit.mixed_logit_calcs.calc_mixed_logit_gradient", [], a)
        P, st = mixed_probs(c, a)
        w = a["weights"] if wt else c.I.alloc(st, ar.mk([R], ONE))
        g = c.call("spec.mixed.gradient", [P, a["choice_vector"], a["rows_to_mixers"], a["design_3d"], w], st=st)
        if ridge:
            g = c.call("spec.choice.ridge_grad", [g.v, a["ridge"], a["params"]], st=g.st)
        ctx.same("gradient", r.term(), g.term(), c)
    return ob


def optimised(typ, inter, ridge, wt):
    def ob(ctx):
        c, q = fitted(ctx, typ, inter, lambda c: plainopts(c, typ, ridge, wt))
        gradient(ctx, c, typ, inter)
    return ob


OBLIGATIONS = [("logit gradient shape=%d intercept=%d ridge=%d weights=%d" % k, logit(*k))
               for k in [(s, i, r, w) for s in (0, 1) for i in (0, 1) for r in (0, 1) for w in (0, 1)]] + \
              [("nested gradient ridge=%d weights=%d jacobian=%s" % k, nested(*k))
               for k in [(r, w, j) for r in (0, 1) for w in (0, 1) for j in (None, False)]] + \
              [("mixed gradient ridge=%d weights=%d" % k, mixed(*k)) for k in [(r, w) for r in (0, 1) for w in (0, 1)]] + \
              [("%s fit ridge=%d weights=%d" % (label(t, i), r, w), optimised(t, i, r, w)) for t, i in configs()
               for r in (0, 1) for w in (0, 1)]
