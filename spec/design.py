"""Reference design-matrix columns and names (read by the analyser, never run)."""
import numpy as np


def same(df, var):
    return df[var].values[:, None]


def diff(df, var, alt):
    alts = np.unique(df[alt].values)
    return (df[alt].values[:, None] == alts[None, :]) * df[var].values[:, None]


def one(df, var, alt, a):
    return ((df[alt].values == a) * df[var].values)[:, None]


def group(df, var, alt, g):
    return (np.in1d(df[alt].values, g) * df[var].values)[:, None]


def diff_names(df, var, alt):
    return ["{}_{}".format(var, a) for a in np.unique(df[alt].values)]


def one_name(var, a):
    return ["{}_{}".format(var, a)]


def cat(a, b):
    return a + b


def with_intercept(df):
    if "intercept" not in df.columns:
        df["intercept"] = 1.0
    return df
