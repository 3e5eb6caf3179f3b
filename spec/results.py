"""Textbook definitions of the reported quantities (read by the analyser, never run)."""
import numpy as np
import pandas as pd
from scipy.stats import norm


def residuals(y, p):
    return y - p


def residuals_2d(y, p):
    return y[:, None] - p


def chi_squares(res, p, rows_to_obs):
    return rows_to_obs.T.dot(res ** 2 / p)


def total(x):
    return x.sum()


def rho(ll, null):
    return 1 - ll / null


def rho_bar(ll, null, k):
    return 1 - (ll - k) / null


def aic(ll, k):
    return 2 * k - 2 * ll


def bic(ll, k, n):
    return np.log(n) * k - 2 * ll


def cov(h, inv):
    return -1 * inv(h)


def std_errs(v):
    return np.sqrt(np.diag(v))


def tstats(x, se):
    return x / se


def pvalues(t):
    return 2 * norm.sf(np.abs(t))


def default_names(prefix, n):
    return [prefix + str(i) for i in range(1, n + 1)]


def bounds(x, se, alpha):
    z = norm.ppf(1 - alpha / 2.0)
    return np.concatenate([(x - z * se)[:, None], (x + z * se)[:, None]], axis=1)


def num_alts(alt_ids):
    return np.log(len(np.unique(alt_ids)))
