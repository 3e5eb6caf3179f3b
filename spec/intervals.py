"""Interval definitions of Efron and Tibshirani (read by the analyser, never run)."""
import numpy as np
import pandas as pd
from scipy.stats import norm


def both(lower, upper):
    return np.concatenate([lower[None, :], upper[None, :]], axis=0)


def percentile(reps, conf):
    tail = (100 - conf) / 2.0
    return both(np.percentile(reps, tail, interpolation="lower", axis=0),
                np.percentile(reps, 100 - tail, interpolation="higher", axis=0))


def bca_z0(reps, mle):
    return norm.ppf((reps < mle[None, :]).sum(axis=0) / reps.shape[0])


def bca_accel(jack):
    d = jack.mean(axis=0)[None, :] - jack
    den = 6 * (d ** 2).sum(axis=0) ** 1.5
    return (d ** 3).sum(axis=0) / np.where(den == 0, 1e-16, den)


def bca_percent(z0, a, p):
    """Percentage point for the nominal tail probability p."""
    z = z0 + norm.ppf(p)
    return 100 * norm.cdf(z0 + z / (1 - a * z))


def bca_lower(alpha, z0, a):
    return bca_percent(z0, a, alpha / 200.0)


def bca_upper(alpha, z0, a):
    return bca_percent(z0, a, 1 - alpha / 200.0)


def own(reps, percents, how):
    """Each parameter's own percentage point."""
    return np.diag(np.percentile(reps, percents, interpolation=how, axis=0))


def bca(reps, jack, mle, conf):
    tail = (100 - conf) / 200.0
    z0, a = bca_z0(reps, mle), bca_accel(jack)
    return both(own(reps, bca_percent(z0, a, tail), "lower"), own(reps, bca_percent(z0, a, 1 - tail), "higher"))


def row_weights(wide, r2o, given):
    return r2o.dot(wide) * given


def abc_terms(model, init, eps, r2o, given, kw):
    """Estimates with the weight of one observation moved up / down by eps."""
    n = r2o.shape[1]
    plus = np.empty((n, init.shape[0]))
    minus = np.empty((n, init.shape[0]))
    for i in range(n):
        e = (np.arange(n) == i) * 1.0
        plus[i] = model.fit_mle(init, weights=row_weights((1 - eps) / n + eps * e, r2o, given), **kw)["x"]
        minus[i] = model.fit_mle(init, weights=row_weights((1 + eps) / n - eps * e, r2o, given), **kw)["x"]
    return plus, minus


def first_influence(plus, minus, eps):
    return np.where(np.isclose(plus, minus, atol=1e-12, rtol=0), 0.0, (plus - minus) / (2 * eps))


def second_influence(mle, plus, minus, eps):
    return np.where(np.isclose(plus + minus, 2 * mle[None, :], atol=1e-12, rtol=0), 0.0,
                    (plus - 2 * mle[None, :] + minus) / eps ** 2)


def abc_accel(t):
    return (t ** 3).sum(axis=0) / (6 * (t ** 2).sum(axis=0) ** 1.5)


def abc_sigma(t):
    return ((t ** 2).sum(axis=0)) ** 0.5 / t.shape[0]


def abc_bias(t2):
    return t2.sum(axis=0) / (2.0 * t2.shape[0] ** 2)


def abc_quadratic(model, mle, init, t, sigma, eps, r2o, given, kw):
    n = t.shape[0]
    d = t / (n ** 2 * sigma[None, :])
    up = np.empty(init.shape[0])
    dn = np.empty(init.shape[0])
    for k in range(init.shape[0]):
        up[k] = model.fit_mle(init, weights=row_weights(1.0 / n + eps * d[:, k], r2o, given), **kw)["x"][k]
        dn[k] = model.fit_mle(init, weights=row_weights(1.0 / n - eps * d[:, k], r2o, given), **kw)["x"][k]
    return np.where(np.isclose(up + dn, 2 * mle, atol=1e-10, rtol=0), 0.0, (up - 2 * mle + dn) / (2 * sigma * eps ** 2))


def abc_curvature(bias, sigma, quadratic):
    return bias / sigma - quadratic


def abc_z0(a, curvature):
    return norm.ppf(2 * norm.cdf(a) * norm.cdf(-1 * curvature))


def abc_end(model, init, p, z0, a, sigma, t, r2o, given, kw):
    z = z0 + norm.ppf(p)
    lam = z / (1 - a * z) ** 2
    n = t.shape[0]
    out = np.empty(init.shape[0])
    for k in range(init.shape[0]):
        w = 1.0 / n + lam[k] / (sigma[k] * n ** 2) * t[:, k]
        out[k] = model.fit_mle(init, weights=row_weights(w, r2o, given), **kw)["x"][k]
    return out


def abc(model, mle, init, conf, eps, r2o, given, kw):
    plus, minus = abc_terms(model, init, eps, r2o, given, kw)
    t = first_influence(plus, minus, eps)
    t2 = second_influence(mle, plus, minus, eps)
    a, sigma = abc_accel(t), abc_sigma(t)
    curvature = abc_bias(t2) / sigma - abc_quadratic(model, mle, init, t, sigma, eps, r2o, given, kw)
    z0 = abc_z0(a, curvature)
    tail = (100 - conf) / 2.0
    return both(abc_end(model, init, tail * 0.01, z0, a, sigma, t, r2o, given, kw),
                abc_end(model, init, (100 - tail) * 0.01, z0, a, sigma, t, r2o, given, kw))


def frame(values, names):
    return pd.DataFrame(values, columns=names)


def ends(conf):
    alpha = 100.0 - conf
    return ["{:.3g}%".format(alpha / 2.0), "{:.3g}%".format(100 - alpha / 2.0)]


def table(interval, conf, names):
    return pd.DataFrame(interval.T, index=names, columns=ends(conf))


def together(tables, conf, names):
    out = pd.concat(tables, axis=1, ignore_index=True)
    lower, upper = ends(conf)
    out.columns = pd.MultiIndex.from_tuples([("percentile_interval", lower), ("percentile_interval", upper),
                                             ("BCa_interval", lower), ("BCa_interval", upper),
                                             ("ABC_interval", lower), ("ABC_interval", upper)])
    out.index = names
    return out
