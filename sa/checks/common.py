"""Symbolic inputs shared by the checks."""
from ..kit import *
from decimal import Decimal

R, O, K, S = [sym(x, "size") for x in ("R", "O", "K", "S")]
AM1 = sym("Am1", "size")
N_ = sym("N", "size")
A_ = padd(AM1, ONE)
D = Decimal


def onehot(rows, cols, f):
    return [[D(1) if f(i) == j else D(0) for j in range(cols)] for i in range(rows)]


def sizes_model(m):
    """R rows in O situations (O <= R), A alternatives."""
    o = int(m.size("O"))
    return int(m.size("R")), o


def r2o_model(m):
    r, o = int(m.size("R")), int(m.size("O"))
    return onehot(r, o, lambda i: i * o // r)


def r2a_model(m):
    r, o, a = int(m.size("R")), int(m.size("O")), int(m.size("Am1")) + 1
    shift = m.rnd.randint(0, 3)
    return onehot(r, a, lambda i: (i * 2 + shift) % a)


def r2n_model(m):
    r, n = int(m.size("R")), int(m.size("N"))
    return onehot(r, n, lambda i: (i * 3 + 1) % n)


def nest_model(m):
    return [D(m.rnd.randint(1, 1000)) / D(1000) if m.rnd.random() < .93 else D("1e-310")
            for _ in range(int(m.size("N")))]


def y_model(m):
    r, o = int(m.size("R")), int(m.size("O"))
    first = {}
    for i in range(r):
        first.setdefault(i * o // r, []).append(i)
    pick = {v[m.rnd.randint(0, len(v) - 1)] for v in first.values()}
    return [D(1) if i in pick else D(0) for i in range(r)]


def chosen_model(m):
    y = m.symval("y", "any")
    r, o = int(m.size("R")), int(m.size("O"))
    return [[y[i] if i * o // r == j else D(0) for j in range(o)] for i in range(r)]


def pos_vec(n):
    def f(m):
        return [D(m.rnd.randint(1, 3000)) / D(1009) * m.stretch for _ in range(int(m.size(n)))]
    return f


def w_model(m):
    """weights are constant within a situation"""
    r, o = int(m.size("R")), int(m.size("O"))
    per = [D(m.rnd.randint(1, 3000)) / D(1009) * max(m.stretch, 1) if m.rnd.random() < .9 else D(0) for _ in range(o)]
    return [per[i * o // r] for i in range(r)]


def std_over(case):
    case.over.update({"r2o": r2o_model, "r2a": r2a_model, "y": y_model, "c2o": chosen_model, "w": w_model,
                      "R": lambda m: Decimal(max(int(m.size("O")), m.rnd.randint(3, 6)))})
    # R is drawn through size(): make it consistent
    return case


def rejected(ctx, c, name, f, kw, args=(), kinds=("ValueError", "TypeError", "AssertionError", "NotImplementedError", "KeyError")):
    """The call never completes normally."""
    try:
        c.call(f, args, kw)
    except Dead:
        ctx.hold(name + " is rejected")
        return True
    ctx.violate(name, "accepted instead of rejected", c.I.loc)
    return False


def base_case(ctx, opaque=None, hooks=None):
    c = ctx.case(opaque, hooks)
    c.over.update({"r2o": r2o_model, "r2a": r2a_model, "y": y_model, "c2o": chosen_model, "w": w_model, "r2n": r2n_model, "nest": nest_model, **MODELS})
    return c


def logit_args(c):
    return dict(beta=c.arr("beta", K), design=c.arr("X", R, K), alt_IDs=c.arr("alts", R),
                rows_to_obs=c.arr("r2o", R, O, kind="sp"), rows_to_alts=c.arr("r2a", R, A_, kind="sp"),
                utility_transform=c.func("U", [R]))


def derivs(c, ckind="sp"):
    return dict(transform_first_deriv_c=c.func("dC", [R, S], ckind),
                transform_first_deriv_v=c.func("dV", [R, R], "sp"),
                transform_deriv_alpha=c.func("dA", [R, AM1], "sp"))


def optional(c, shape, inter, ridge, wt):
    return dict(shape_params=c.arr("shp", S) if shape else NONE,
                intercept_params=c.arr("ic", AM1) if inter else NONE,
                ridge=sym("ridge", "num") if ridge else NONE,
                weights=c.arr("w", R) if wt else NONE)


def ref_index(c, a):
    v = c.call("spec.choice.index", [a["design"], a["beta"]])
    return v


def ref_probs(c, a):
    """Reference long probabilities for logit_args, with the state they live in."""
    v = ref_index(c, a)
    u = c.I.call(a["utility_transform"], [v.v, a["alt_IDs"], a["rows_to_alts"], a["shape_params"], a["intercept_params"]], {}, v.st)
    p = c.call("spec.choice.probs", [u, a["rows_to_obs"]], st=v.st)
    return p.v, p.st


M_ = sym("M", "size")
DR = sym("Dr", "size")


def mixed_args(c):
    return dict(params=c.arr("beta", K), design_3d=c.arr("X", R, DR, K), alt_IDs=c.arr("alts", R),
                rows_to_obs=c.arr("r2o", R, O, kind="sp"), rows_to_alts=c.arr("r2a", R, A_, kind="sp"),
                rows_to_mixers=c.arr("r2m", R, M_, kind="sp"), choice_vector=c.arr("y", R),
                utility_transform=c.func("U", [R, DR]))


def mixed_probs(c, a):
    v = c.call("spec.choice.index", [a["design_3d"], a["params"]])
    u = c.I.call(a["utility_transform"], [v.v, a["alt_IDs"], a["rows_to_alts"], NONE, NONE], {}, v.st)
    p = c.call("spec.choice.probs", [u, a["rows_to_obs"]], st=v.st)
    return p.v, p.st


def obs_mixer(m, i):
    r, o, k = int(m.size("R")), int(m.size("O")), int(m.size("M"))
    return (i * o // r) % k


def r2m_model(m):
    return onehot(int(m.size("R")), int(m.size("M")), lambda i: obs_mixer(m, i))


def wm_model(m):
    per = [D(m.rnd.randint(1, 3000)) / D(1009) * max(m.stretch, 1) if m.rnd.random() < .9 else D(0) for _ in range(int(m.size("M")))]
    return [per[obs_mixer(m, i)] for i in range(int(m.size("R")))]


MODELS = {"r2m": r2m_model, "wm": wm_model}
