"""Reference definitions for the logit family (read by the analyser, never run)."""
import numpy as np


def probs(u, rows_to_obs):
    """Softmax of the clamped systematic utilities within each observation."""
    e = np.exp(np.minimum(np.maximum(u, -700), 700))
    denom = rows_to_obs.dot(rows_to_obs.T.dot(e))
    p = e / denom
    return np.where(p == 0, 1e-300, p)


def chosen_probs(u, rows_to_obs, chosen_row_to_obs):
    e = np.exp(np.minimum(np.maximum(u, -700), 700))
    p = chosen_row_to_obs.T.dot(e) / rows_to_obs.T.dot(e)
    return np.where(p == 0, 1e-300, p)


def log_likelihood(p, y, w):
    return (y * w * np.log(p)).sum()


def ridge_penalty(ridge, params):
    return ridge * (params ** 2).sum()


def score_rows(y, p, w):
    return w * (y - p)


def info_block(left, right, p, rows_to_obs, w):
    """sum_i w_i p_i L_i R_i - sum_o (sum_{i in o} w_i p_i L_i)(sum_{i in o} p_i R_i)"""
    t1 = np.einsum("i,i,ia,ib->ab", w, p, left, right)
    t2 = np.einsum("i,i,ia,io,j,jb,jo->ab", w, p, left, rows_to_obs, p, right, rows_to_obs)
    return t1 - t2


def index(design, beta):
    return design.dot(beta)


def ones_like_rows(design):
    return np.ones(design.shape[0])


def gradient_block(y, p, w, deriv):
    return (w * (y - p)).dot(deriv)


def obs_weights(w, rows_to_obs):
    return np.einsum("io,i->io", rows_to_obs, w).max(axis=0)


def outer_block(left, right, y, p, rows_to_obs, w):
    wo = obs_weights(w, rows_to_obs)
    a = np.einsum("i,ia,io->oa", y - p, left, rows_to_obs)
    b = np.einsum("i,ia,io->oa", y - p, right, rows_to_obs)
    return np.einsum("o,oa,ob->ab", wo, a, b)


def neg(x):
    return -1 * x


def sandwich(h, f, inv):
    return inv(h).dot(f).dot(inv(h))


def matmul(a, b):
    return a.dot(b)


def ridge_grad(g, ridge, params):
    return g - 2 * ridge * params
