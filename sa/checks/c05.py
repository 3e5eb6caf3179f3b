"""C05: curvature matrices."""
from .glue import *
from .c01 import nested_inputs
from .c04 import deriv_blocks
from .c16 import Expected, NESTS2

META = dict(level="other",
            explanation="value numbering of Hessian / information / BHHH / sandwich matrices against the block formulas, "
                        "block by block, for every combination of optional parameter blocks, weights and ridge")

SZ = {"shape_params": S, "intercept_params": AM1, "beta": K}


def grid(c, names, f, st):
    """Assemble the reference matrix from blocks f(i, j)."""
    rows = []
    for i in range(len(names)):
        row = [ar.unblock(f(i, j)) for j in range(len(names))]
        rows.append(row[0] if len(row) == 1 else ar.concat(row, 1))
    return rows[0] if len(rows) == 1 else ar.concat(rows, 0)


def diag(a, t):
    """add t to the diagonal of a blocked square matrix"""
    bodies = {}
    for k, b in a.bodies.items():
        bodies[k] = padd(b, pmul(t, mkdelta(ax(0), ax(1)))) if k[0] == k[1] else b
    return Arr(a.parts, bodies, a.kind)


def logit(which, shape, inter, ridge, wt, ckind="sp"):
    def ob(ctx):
        c = base_case(ctx)
        a = logit_args(c)
        a.update(optional(c, shape, inter, ridge, wt))
        a.update(derivs(c, ckind))
        y = c.arr("y", R)
        kw = dict(a)
        f = "pylogit.choice_calcs.calc_hessian"
        if which == "information":
            kw["choice_vector"] = y
            f = "pylogit.choice_calcs.calc_fisher_info_matrix"
        r = c.call(f, [], kw)
        P, st = ref_probs(c, a)
        bl, st = deriv_blocks(c, a, st)
        w = a["weights"] if wt else c.I.alloc(st, ar.mk([R], ONE))

        def block(i, j):
            L, Rt = bl[i][1], bl[j][1]
            if which == "hessian":
                q = c.call("spec.choice.info_block", [L, Rt, P, a["rows_to_obs"], w], st=st)
                return ar.amap(pneg, q.content())
            return c.call("spec.choice.outer_block", [L, Rt, y, P, a["rows_to_obs"], w], st=st).content()
        want = grid(c, bl, block, st)
        if ridge:
            want = diag(want, pmul(num(-2), a["ridge"]))
        ctx.same(which, r.term(), ar.lower(want), c)
    return ob


def mixed(ridge, wt):
    def ob(ctx):
        tm.LIMIT = 12
        c = base_case(ctx)
        a = mixed_args(c)
        if ridge:
            a["ridge"] = sym("ridge", "num")
        if wt:
            a["weights"] = c.arr("wm", R)
        r = c.call("pylogit.mixed_logit_calcs.calc_bhhh_hessian_approximation_mixed_logit", [], a)
        P, st = mixed_probs(c, a)
        w = a["weights"] if wt else c.I.alloc(st, ar.mk([R], ONE))
        g = c.call("spec.mixed.bhhh", [P, a["choice_vector"], a["rows_to_mixers"], a["design_3d"], w], st=st)
        want = ar.unblock(g.content())
        if ridge:
            ctx.same_or_known("matrix", r.term(), ar.lower(diag(want, pmul(num(-2), a["ridge"]))),
                              ar.lower(diag(want, pmul(num(2), a["ridge"]))), "mixed-bhhh-ridge-sign", c)
        else:
            ctx.same("matrix", r.term(), ar.lower(want), c)
    return ob


def nested(ridge, wt, jac):
    def ob(ctx):
        tm.LIMIT = 12
        c = base_case(ctx)
        a = nested_inputs(c)
        raw_ = c.arr("raw", N_)
        a["orig_nest_coefs"] = raw_
        del a["nest_coefs"]
        y = c.arr("y", R)
        kw = dict(a, choice_vec=y)
        if ridge:
            kw["ridge"] = sym("ridge", "num")
        if wt:
            kw["weights"] = c.arr("w", R)
        if jac is not None:
            kw["use_jacobian"] = const(jac)
        one_r, one_o = c.ref(ar.mk([R], ONE)), c.ref(ar.mk([O], ONE))
        # the kernel is compared with the per-situation scores kept symbolic
        w = kw["weights"] if wt else one_r
        wo = c.call("spec.nested.obs_weights", [w, a["rows_to_obs"]])
        sc = c.call("spec.nested.score", [raw_, a["index_coefs"], a["design"], y, a["rows_to_obs"], a["rows_to_nests"],
                                         const(jac is not False), one_r, one_o], st=wo.st)
        r = c.call("pylogit.nested_choice_calcs.calc_bhhh_hessian_approximation", [], kw)
        got = ar.unblock(r.content())
        got = ar.repart(ar.repart(got, 0, (N_, K)), 1, (N_, K))
        its = sc.items()
        for i in range(2):
            for j in range(2):
                q = c.call("spec.nested.outer", [wo.v, its[i], its[j]], st=sc.st)
                b = ar.unblock(q.content())
                body = b.body
                if ridge and i == j:
                    body = psub(body, pmul(num(2), kw["ridge"], mkdelta(ax(0), ax(1))))
                want = ar.lower(Arr(b.parts, {(0, 0): body}))
                gb = ar.lower(Arr((got.parts[0][i:i + 1], got.parts[1][j:j + 1]), {(0, 0): got.bodies[(i, j)]}))
                ctx.same("block %d,%d" % (i, j), gb, want, c)
    return ob


def sandwich(ctx):
    c = base_case(ctx)
    h, f = c.arr("H", K, K), c.arr("F", K, K)
    r = c.call("pylogit.choice_calcs.calc_asymptotic_covariance", [h, f])
    inv = c.I.lookup("spec.linalg", "inverse")
    want = c.call("spec.choice.sandwich", [h, f, inv])
    ctx.same("inverse Hessian . information . inverse Hessian", r.term(), want.term(), c)


def matrices(typ, inter, ridge, wt):
    """What estimation stores is built from these kernels at the final parameters."""
    def ob(ctx):
        def opts(c):
            o = dict(OPTIONS)
            if ridge:
                o["ridge"] = sym("ridge", "num")
            if wt:
                o["weights"] = c.arr("w", tm.mknrows(c.df), origin=["weights"])
            if typ == "Mixed Logit":
                o.update(num_draws=sym("nd", "int"), seed=sym("seed", "int"))
            return o
        c, q = fitted(ctx, typ, inter, opts, extra=lambda c: {"nest_spec": NESTS2(c)} if typ == "Nested Logit" else {})
        e = Expected(ctx, c, q, typ, inter, ridge=c.opts.get("ridge", NONE), weights=c.opts.get("weights", NONE))
        idx = e.allnames()
        for nm, want in (("hessian", e.h), ("fisher_information", e.info), ("cov", e.cov), ("robust_cov", e.rcov)):
            e.frame(nm, want, idx, idx)
    return ob


OBLIGATIONS = [("sandwich", sandwich)] + \
    [("nested BHHH ridge=%d weights=%d jacobian=%s" % k, nested(*k))
     for k in [(0, 1, None), (1, 0, None), (0, 1, False)]] + \
    [("mixed BHHH ridge=%d weights=%d" % k, mixed(*k)) for k in [(r, w) for r in (0, 1) for w in (0, 1)]] + \
    [("%s shape=%d intercept=%d ridge=%d weights=%d" % k, logit(*k))
     for k in [(q, s, i, r, w) for q in ("hessian", "information") for s in (1, 0) for i in (1, 0)
               for r in (0, 1) for w in (0, 1)]] + \
    [("%s stored matrices ridge=%d weights=%d" % (label(t, i), r, w), matrices(t, i, r, w)) for t, i in configs()
     for r in (0, 1) for w in (0, 1)]
