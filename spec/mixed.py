"""Reference definitions for the mixed logit (read by the analyser, never run)."""
import numpy as np


def seq(P, y, r2m):
    """(unit, draw) probability of the unit's observed choice sequence."""
    s = np.exp(np.einsum("im,i,id->md", r2m, y, np.log(P)))
    return np.where(s == 0, 1e-300, s)


def simulated(P, y, r2m):
    s = seq(P, y, r2m)
    return s.sum(axis=1) / s.shape[1]


def unit_weights(w, r2m):
    return np.einsum("im,i->im", r2m, w).max(axis=0)


def log_likelihood(P, y, r2m, w):
    return (unit_weights(w, r2m) * np.log(simulated(P, y, r2m))).sum()


def scores(P, y, r2m, X):
    """(row, parameter) contributions before weighting, averaged over draws."""
    s = seq(P, y, r2m)
    ratio = r2m.dot(s) / r2m.dot(simulated(P, y, r2m))[:, None]
    err = (y[:, None] - P) * ratio
    return np.einsum("id,idk->ik", err, X) / P.shape[1]


def gradient(P, y, r2m, X, w):
    return (scores(P, y, r2m, X) * w[:, None]).sum(axis=0)


def bhhh(P, y, r2m, X, w):
    g = r2m.T.dot(scores(P, y, r2m, X))
    return -1 * np.einsum("m,ma,mb->ab", unit_weights(w, r2m), g, g)


def draws_of_rows(draws, r2m):
    """(row, draw): the draws of the row's own unit."""
    return np.einsum("im,md->id", r2m, draws)


def expanded2(X, pos0, pos1, draws0, draws1, r2m):
    """original columns at every draw, then each mixing column times its own draws"""
    n, d, k = X.shape[0], draws0.shape[1], X.shape[1]
    out = np.empty((n, d, k + 2))
    out[:, :, :k] = np.repeat(X[:, None, :], d, axis=1)
    out[:, :, k] = X[:, pos0][:, None] * draws_of_rows(draws0, r2m)
    out[:, :, k + 1] = X[:, pos1][:, None] * draws_of_rows(draws1, r2m)
    return out


def clamp(v):
    return np.minimum(np.maximum(v, -700), 700)


def kernel(X, pos, beta, draw, obs):
    """(row) probabilities for one draw per row."""
    k = X.shape[1]
    u = np.exp(clamp(X.dot(beta[:k]) + X[:, pos] * beta[k] * draw))
    p = u / ((obs[:, None] == obs[None, :]) * u[None, :]).sum(axis=1)
    return np.where(p == 0, 1e-300, p)


def panel(Xn, obsn, mixn, Xo, obso, mixo, yo, beta, pos, draws, units):
    """
    Predicted probability of every new row: kernel probabilities averaged with the weights of its unit's draws.
    draws is (unit, draw) with units in the order of their first appearance in the new data.
    """
    n, d = Xn.shape[0], draws.shape[1]
    own = (mixn[:, None] == units[None, :]) * 1.0
    z = own.dot(draws)
    w = np.empty((n, d))
    p = np.empty((n, d))
    for j in range(d):
        p[:, j] = kernel(Xn, pos, beta, z[:, j], obsn)
    past = np.empty((n, d))
    for i in range(n):
        for j in range(d):
            q = kernel(Xo, pos, beta, z[i, j] * np.ones(Xo.shape[0]), obso)
            s = np.exp(((mixo == mixn[i]) * yo * np.log(q)).sum())
            past[i, j] = np.where(s == 0, 1e-300, s)
    known = (mixn[:, None] == mixo[None, :]).any(axis=1)
    w = np.where(known[:, None], past / past.sum(axis=1)[:, None], 1.0 / d)
    return (w * p).sum(axis=1)


def normal_draws(units, draws, variables, seed):
    if seed is not None:
        np.random.seed(seed)
    out = []
    for k in range(variables):
        out.append(np.random.standard_normal(size=(units, draws)))
    return out


def chosen(p, obs, y, situations):
    return ((situations[:, None] == obs[None, :]) * (y * p)[None, :]).sum(axis=1)
