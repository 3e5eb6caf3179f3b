"""C03: objective functions."""
from .glue import *
from .c15 import objective, plainopts
from .c01 import nested_inputs

META = dict(level="other",
            explanation="value numbering of the three log-likelihood kernels against the reference objective for every "
                        "combination of optional parameter blocks, weights and ridge")


def logit(shape, inter, ridge, wt):
    def ob(ctx):
        c = base_case(ctx)
        a = logit_args(c)
        a.update(optional(c, shape, inter, ridge, wt))
        y = c.arr("y", R)
        r = c.call("pylogit.choice_calcs.calc_log_likelihood", [], dict(a, choice_vector=y))
        P, st = ref_probs(c, a)
        w = a["weights"] if wt else c.I.alloc(st, ar.mk([R], ONE))
        want = c.call("spec.choice.log_likelihood", [P, y, w], st=st).term()
        if ridge:
            for b in ("shape_params", "intercept_params", "beta"):
                if a[b] is not NONE:
                    want = psub(want, c.call("spec.choice.ridge_penalty", [a["ridge"], a[b]]).term())
        ctx.same("objective", r.term(), want, c)
    return ob


def nested(ridge, wt):
    def ob(ctx):
        c = base_case(ctx)
        a = nested_inputs(c)
        y = c.arr("y", R)
        kw = dict(a, choice_vector=y)
        rid = sym("ridge", "num")
        if ridge:
            kw["ridge"] = rid
        if wt:
            kw["weights"] = c.arr("w", R)
        r = c.call("pylogit.nested_choice_calcs.calc_nested_log_likelihood", [], kw)
        P = c.call("spec.nested.probs", [a["nest_coefs"], a["index_coefs"], a["design"], a["rows_to_obs"], a["rows_to_nests"]])
        w = kw["weights"] if wt else c.I.alloc(P.st, ar.mk([R], ONE))
        want = c.call("spec.choice.log_likelihood", [P.v, y, w], st=P.st).term()
        if ridge:
            want = c.call("spec.nested.penalised", [want, rid, a["nest_coefs"], a["index_coefs"]]).term()
        ctx.same("objective", r.term(), want, c)
    return ob


def mixed(ridge, wt):
    def ob(ctx):
        c = base_case(ctx)
        a = mixed_args(c)
        if ridge:
            a["ridge"] = sym("ridge", "num")
        if wt:
            a["weights"] = c.arr("wm", R)
        r = c.call("pylogit.mixed_logit_calcs.calc_mixed_log_likelihood", [], a)
        P, st = mixed_probs(c, a)
        w = a["weights"] if wt else c.I.alloc(st, ar.mk([R], ONE))
        want = c.call("spec.mixed.log_likelihood", [P, a["choice_vector"], a["rows_to_mixers"], w], st=st).term()
        if ridge:
            want = psub(want, c.call("spec.choice.ridge_penalty", [a["ridge"], a["params"]]).term())
        ctx.same("objective", r.term(), want, c)
    return ob


def optimised(typ, inter, ridge, wt):
    def ob(ctx):
        c, q = fitted(ctx, typ, inter, lambda c: plainopts(c, typ, ridge, wt))
        objective(ctx, c, typ, inter)
    return ob


OBLIGATIONS = [("logit objective shape=%d intercept=%d ridge=%d weights=%d" % k, logit(*k))
               for k in [(s, i, r, w) for s in (0, 1) for i in (0, 1) for r in (0, 1) for w in (0, 1)]] + \
              [("nested objective ridge=%d weights=%d" % k, nested(*k)) for k in [(r, w) for r in (0, 1) for w in (0, 1)]] + \
              [("mixed objective ridge=%d weights=%d" % k, mixed(*k)) for k in [(r, w) for r in (0, 1) for w in (0, 1)]] + \
              [("%s fit ridge=%d weights=%d" % (label(t, i), r, w), optimised(t, i, r, w)) for t, i in configs()
               for r in (0, 1) for w in (0, 1)]
