"""C01: probability kernels."""
from .common import *

META = dict(level="other",
            explanation="value numbering of calc_probabilities / calc_nested_probs against the reference softmax, "
                        "every combination of optional outputs and coefficient/design rank")




def kernel(rank, shape, inter):
    def ob(ctx):
        c = base_case(ctx)
        D_ = padd(sym("Dm1", "size"), ONE)
        a = logit_args(c)
        o = optional(c, shape, inter, 0, 0)
        a["shape_params"], a["intercept_params"] = o["shape_params"], o["intercept_params"]
        if rank == "2d":
            a["beta"] = c.arr("beta", K, D_)
            a["utility_transform"] = c.func("U", [R, D_])
        elif rank == "3d":
            a["design"] = c.arr("X", R, D_, K)
            a["utility_transform"] = c.func("U", [R, D_])
        c2o = c.arr("c2o", R, O, kind="sp")
        # reference
        v = c.call("spec.choice.index", [a["design"], a["beta"]])
        u = c.I.call(a["utility_transform"], [v.v, a["alt_IDs"], a["rows_to_alts"], a["shape_params"], a["intercept_params"]], {}, v.st)
        st = v.st
        want_long = c.call("spec.choice.probs", [u, a["rows_to_obs"]], st=st).term()
        want_chosen = c.call("spec.choice.chosen_probs", [u, a["rows_to_obs"], c2o], st=st).term()
        for long in (False, True):
            for ch in (False, True):
                kw = dict(a, return_long_probs=const(long), chosen_row_to_obs=c2o if ch else NONE)
                if not long and not ch:
                    rejected(ctx, c, "neither output requested", "pylogit.choice_calcs.calc_probabilities", kw)
                    continue
                r = c.call("pylogit.choice_calcs.calc_probabilities", [], kw)
                nm = "long=%s chosen=%s" % (long, ch)
                if long and ch:
                    it = r.items()
                    ctx.true(nm + " returns a pair", len(it) == 2, "returns %d values" % len(it))
                    ctx.same(nm + " chosen", r.term(it[0]), want_chosen, c, extreme=True)
                    ctx.same(nm + " long", r.term(it[1]), want_long, c, extreme=True)
                    ctx.guarded(nm + " chosen, range", r.term(it[0]), want_chosen, c)
                    ctx.guarded(nm + " long, range", r.term(it[1]), want_long, c)
                elif long:
                    ctx.same(nm, r.term(), want_long, c, extreme=True)
                else:
                    ctx.same(nm, r.term(), want_chosen, c, extreme=True)
                bad = [e for e in r.effects if e.kind in ("raise", "badcall", "noattr")]
                for e in bad:
                    ctx.count("conditional " + e.kind)
    return ob


def nested_inputs(c):
    return dict(nest_coefs=c.arr("nest", N_), index_coefs=c.arr("beta", K), design=c.arr("X", R, K),
                rows_to_obs=c.arr("r2o", R, O, kind="sp"), rows_to_nests=c.arr("r2n", R, N_, kind="sp"))


def nested(ctx):
    c = base_case(ctx)
    a = nested_inputs(c)
    pos = [a["nest_coefs"], a["index_coefs"], a["design"], a["rows_to_obs"], a["rows_to_nests"]]
    c2o = c.arr("c2o", R, O, kind="sp")
    long = c.call("spec.nested.probs", pos)
    want_long = long.term()
    want_chosen = c.call("spec.nested.chosen", [long.v, c2o], st=long.st).term()
    f = "pylogit.nested_choice_calcs.calc_nested_probs"
    r = c.call(f, [], a)
    ctx.same("default output is the long probabilities", r.term(), want_long, c, extreme=True)
    r = c.call(f, [], dict(a, return_type=const("long_probs")))
    ctx.same("long", r.term(), want_long, c, extreme=True)
    r = c.call(f, [], dict(a, return_type=const("chosen_probs"), chosen_row_to_obs=c2o))
    ctx.same("chosen", r.term(), want_chosen, c, extreme=True)
    r = c.call(f, [], dict(a, return_type=const("long_and_chosen_probs"), chosen_row_to_obs=c2o))
    it = r.items()
    ctx.true("pair", len(it) == 2, "returns %d values" % len(it))
    ctx.same("pair chosen", r.term(it[0]), want_chosen, c, extreme=True)
    ctx.same("pair long", r.term(it[1]), want_long, c, extreme=True)
    ctx.guarded("pair chosen, range", r.term(it[0]), want_chosen, c)
    ctx.guarded("pair long, range", r.term(it[1]), want_long, c)
    r = c.call(f, [], dict(a, return_type=const("all_prob_dict"), chosen_row_to_obs=c2o))
    d = r.content()
    parts = {"long_probs": want_long, "chosen_probs": want_chosen,
             "prob_given_nest": c.call("spec.nested.within", pos).term(),
             "nest_choice_probs": c.call("spec.nested.nest_probs", pos).term(),
             "ind_sums_per_nest": c.call("spec.nested.nest_sums", pos).term()}
    for k, w in parts.items():
        got = d.get(const(k))
        if ctx.true("entry %s" % k, got is not None, "entry %s missing" % k):
            ctx.same("entry %s value" % k, r.term(got), w, c, extreme=True)
    for rt in ("chosen_probs", "long_and_chosen_probs"):
        rejected(ctx, c, "%s without chosen rows" % rt, f, dict(a, return_type=const(rt)))
    rejected(ctx, c, "unknown return type", f, dict(a, return_type=const("nope")))


def natural(ctx):
    c = base_case(ctx)
    x = c.arr("raw", N_)
    r = c.call("pylogit.nested_choice_calcs.naturalize_nest_coefs", [x])
    ctx.same("0-1 scaled nest coefficients", r.term(), c.call("spec.nested.natural", [x]).term(), c, extreme=True)
    ctx.true("estimated coefficients left alone", not [e for e in r.effects if e.kind == "mutate"], "modified")


OBLIGATIONS = [("calc_nested_probs", nested), ("naturalize_nest_coefs", natural)] + [("calc_probabilities %s shape=%d intercept=%d" % (r, s, i), kernel(r, s, i))
               for r in ("1d", "2d", "3d") for s in (0, 1) for i in (0, 1)]
