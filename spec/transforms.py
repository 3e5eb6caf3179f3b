"""Reference utility transformations and derivatives (read by the analyser, never run)."""
import numpy as np

BIG = 1e300
TINY = 1e-300


def cap(x):
    y = np.where(np.isposinf(x), BIG, x)
    return np.where(np.isneginf(y), -1 * BIG, y)


def capup(x):
    return np.where(np.isposinf(x), BIG, x)


def capdown(x):
    return np.where(np.isneginf(x), -1 * BIG, x)


# ----------------------------------------------------------------- clog-log
def cloglog(v):
    """ln(exp(exp(v)) - 1), which tends to exp(v)"""
    h = capdown(np.log(np.exp(np.exp(v)) - 1))
    return capup(np.where(v >= 3.7, np.exp(v), h))


def cloglog_dv(v):
    """exp(v) / (1 - exp(-exp(v)))"""
    e = capup(np.exp(-1 * v))
    e = np.where(e == 0, TINY, e)
    q = 1 - np.exp(-1 * np.exp(v))
    return capup(np.where(q == 0, 1, 1.0 / (q * e)))


# ----------------------------------------------------------------- scobit
def natural(s):
    return capup(np.exp(s))


def scobit(v, g):
    """-ln((1 + exp(-v))^g - 1)"""
    p = capup((1 + capup(np.exp(-1 * v))) ** g)
    return cap(-1 * np.log(p - 1))


def scobit_dv(v, g):
    e = np.exp(-1 * v)
    p = (1 + e) ** g
    q = (1 + e) ** (g - 1)
    d = g * e * q / (p - 1)
    d = np.where(np.isposinf(d) | np.isposinf(e) | np.isposinf(p) | np.isposinf(q), g, d)
    return np.where((e == 0) | (p - 1 == 0), 1.0, d)


def scobit_dshape(v, g, far):
    """-ln(1 + exp(-v)) (1 + exp(-v))^g / ((1 + exp(-v))^g - 1) g"""
    e = np.exp(-1 * v)
    p = (1 + e) ** g
    d = -1 * np.log(1 + e) * p / (p - 1) * g
    d = np.where(p - 1 == 0, -1, d)
    d = np.where(np.isposinf(e), far, d)
    return np.where(np.isfinite(e) & np.isposinf(p), -1 * np.log(1 + e) * g, d)


# ----------------------------------------------------------------- uneven
def uneven(v, g):
    """v + ln(1 + exp(-v)) - ln(1 + exp(-g v))"""
    a = np.log(1 + np.exp(-1 * v))
    a = np.where(np.isinf(a), -1 * v, a)
    b = np.log(1 + np.exp(-1 * g * v))
    b = np.where(np.isinf(b), -1 * g * v, b)
    h = cap(v + a - b)
    return np.where(np.isneginf(v), -1 * BIG, h)


def uneven_dv(v, g):
    return 1.0 / (1.0 + np.exp(-1 * v)) + g / (1.0 + np.exp(g * v))


def uneven_dshape(v, g):
    d = v / (1.0 + np.exp(g * v))
    d = np.where(np.isposinf(v), 0, d)
    d = np.where(np.isneginf(v), -1 * BIG, d)
    return d * g


# ----------------------------------------------------------------- asymmetric
def asym_shapes(eta_full):
    """Softmax of the shape parameters with zero at the reference position.

    eta_full: exponentiated and clamped shapes, one at the reference."""
    return eta_full / eta_full.sum(axis=0)


def clampexp(eta):
    e = capup(np.exp(eta))
    return np.where(e == 0, TINY, e)


def asym(v, c, num_alts):
    """ln(c) - v ln(c) for v >= 0, ln(c) - v ln((1 - c) / (J - 1)) otherwise"""
    lc = capdown(np.log(c))
    l1 = capdown(np.log((1 - c) / (num_alts - 1)))
    h = lc - v * np.where(v >= 0, lc, l1)
    return np.where(np.isposinf(v) & (c == 1), 0, h)


def asym_dv(v, c, num_alts):
    lc = capdown(np.log(c))
    l1 = capdown(np.log((1 - c) / (num_alts - 1)))
    return -1 * np.where(v >= 0, lc, l1)


def asym_dc(v, c):
    """derivative with respect to the row's own natural shape"""
    a = capup(1.0 / c)
    b = capdown(-1.0 / (1 - c))
    d = a - v * np.where(v >= 0, a, b)
    return np.where(np.isinf(d), -1 * BIG, d)


def softmax_jac(c):
    return np.diag(c) - np.outer(c, c)


def scale_rows(d, m):
    return d[:, None] * m


def identity(v):
    return v
