"""Reference definitions for the nested logit (read by the analyser, never run)."""
import numpy as np

BIG = 1e300
TINY = 1e-300


def cap(x):
    """Overflow to either side becomes the largest admitted magnitude."""
    y = np.where(np.isposinf(x), BIG, x)
    return np.where(np.isneginf(y), -1 * BIG, y)


def capup(x):
    return np.where(np.isposinf(x), BIG, x)


def floor0(x):
    return np.where(x == 0, TINY, x)


def natural(raw):
    """0-1 scaled nest coefficients: the logistic function of the raw ones."""
    e = np.exp(-1 * raw)
    e = np.where(np.isinf(e), BIG, e)
    return floor0(1.0 / (1.0 + e))


def exps(nest, beta, design, r2n):
    lam = r2n.dot(nest)
    return floor0(capup(np.exp(cap(design.dot(beta) / lam))))


def sums_per_nest(e, r2o, r2n):
    """(situation, nest) sums of exponentials."""
    return capup(np.einsum("io,in,i->on", r2o, r2n, e))


def denominators(G, nest):
    return floor0(capup((G ** nest[None, :]).sum(axis=1)))


def row_sums(G, r2o, r2n):
    """for each row, the sum over its own nest in its own situation"""
    return np.einsum("in,io,on->i", r2n, r2o, G)


def probs(nest, beta, design, r2o, r2n):
    e = exps(nest, beta, design, r2n)
    G = sums_per_nest(e, r2o, r2n)
    lam = r2n.dot(nest)
    g = row_sums(G, r2o, r2n)
    numer = floor0(capup(e * g ** (lam - 1)))
    return floor0(numer / r2o.dot(denominators(G, nest)))


def within(nest, beta, design, r2o, r2n):
    e = exps(nest, beta, design, r2n)
    G = sums_per_nest(e, r2o, r2n)
    return floor0(e / row_sums(G, r2o, r2n))


def nest_probs(nest, beta, design, r2o, r2n):
    e = exps(nest, beta, design, r2n)
    G = sums_per_nest(e, r2o, r2n)
    return floor0(G ** nest[None, :] / denominators(G, nest)[:, None])


def nest_sums(nest, beta, design, r2o, r2n):
    return sums_per_nest(exps(nest, beta, design, r2n), r2o, r2n)


def chosen(p, c2o):
    return c2o.T.dot(p)


def penalised(ll, ridge, nest, beta):
    return ll - ridge * (((nest - 1) ** 2).sum() + (beta ** 2).sum())


def score(raw, beta, design, y, r2o, r2n, jac, wr, wo):
    """(situation, parameter) contributions to the score, two blocks.

    wr, wo: weights per row and per situation."""
    nest = natural(raw)
    lam = r2n.dot(nest)
    v = design.dot(beta)
    w = capup(v / lam)
    P = probs(nest, beta, design, r2o, r2n)
    q = within(nest, beta, design, r2o, r2n)
    Q = nest_probs(nest, beta, design, r2o, r2n)
    G = nest_sums(nest, beta, design, r2o, r2n)
    logG = np.log(G)
    logG = np.where(np.isneginf(logG), -1 * BIG, logG)
    # indicator of the chosen nest, per situation and per row
    C = np.einsum("io,in,i->on", r2o, r2n, y)
    c = row_sums(C, r2o, r2n)
    t1 = (C - Q) * logG * wo[:, None]
    t2 = np.einsum("io,in,i->on", r2o, r2n, (P - c * q) * w * wr)
    t3r = cap(-1 * (y - c * q) * w * wr / lam)
    t3 = np.einsum("io,in,i->on", r2o, r2n, t3r)
    left = t1 + t2 + t3
    if jac:
        left = left * (nest * (1 - nest))[None, :]
    sy = y / lam
    sy = np.where(np.isinf(sy), BIG, sy)
    pt = q * c / lam
    pt = np.where(np.isinf(pt), BIG, pt)
    right = np.einsum("io,i,ik->ok", r2o, (sy - pt + pt * lam - P) * wr, design)
    return left, right


def obs_weights(w, r2o):
    return np.einsum("io,i->io", r2o, w).max(axis=0)


def total(s):
    return s.sum(axis=0)


def nest_penalty_grad(ridge, raw, jac):
    nest = natural(raw)
    g = 2 * ridge * (nest - 1)
    if jac:
        g = g * nest * (1 - nest)
    return g


def nest_penalty_deviation(ridge, raw):
    """What calc_nested_gradient subtracts at present (a recorded finding)."""
    return 2 * ridge * (20 - raw)


def outer(wo, a, b):
    return -1 * np.einsum("o,oa,ob->ab", wo, a, b)
