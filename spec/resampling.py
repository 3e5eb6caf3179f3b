"""Stratified resampling of whole observations (read by the analyser, never run)."""
import numpy as np
import pandas as pd


def draws(obs, alts, y, n, seed):
    """The draws of all replicates: groups in ascending order of the chosen alternative."""
    if seed is not None:
        np.random.seed(seed)
    for a in np.unique(alts):
        members = np.unique(obs[(alts == a) & (y == 1)])
        k = members.size
        np.random.choice(members, size=k * n, replace=True)


def samples(obs, alts, y, n, seed):
    """(replicate, position) -> drawn observation."""
    if seed is not None:
        np.random.seed(seed)
    out = []
    for a in np.unique(alts):
        members = np.unique(obs[(alts == a) & (y == 1)])
        k = members.size
        out.append(np.random.choice(members, size=k * n, replace=True).reshape((n, k)))
    return np.concatenate(out, axis=1)


def rows(df, col, i):
    """All rows of one observation."""
    return df.loc[df[col].values == i].copy()


def frame(df, col, ids, new):
    """The rows of every drawn observation, relabelled 1, 2, ... in drawing order."""
    parts = []
    for p, i in enumerate(ids):
        part = rows(df, col, i)
        part[new] = p + 1
        parts.append(part)
    return pd.concat(parts, axis=0, ignore_index=True)


def carried(w, obs, ids):
    """Each resampled row keeps the weight of the row it is a copy of."""
    return np.concatenate([w[obs == i] for i in ids])


def groups(df, col):
    d = {}
    for i in np.unique(df[col].values):
        d[i] = rows(df, col, i)
    return d


def labels(ids):
    return np.zeros(ids.shape, dtype=int) + (np.arange(ids.shape[1]) + 1)[None, :]


def refit(data, col, w):
    raise NotImplementedError("uninterpreted")


def bootstrap(df, col, ids, w, size):
    out = np.empty((ids.shape[0], size))
    for r in range(ids.shape[0]):
        if w is None:
            out[r] = refit(frame(df, col, ids[r], "bootstrap_id"), "bootstrap_id", None)
        else:
            out[r] = refit(frame(df, col, ids[r], "bootstrap_id"), "bootstrap_id", carried(w, df[col].values, ids[r]))
    return out


def jackknife(df, col, size):
    ids = np.unique(df[col].values)
    out = np.empty((ids.size, size))
    for r in range(ids.size):
        out[r] = refit(df.loc[df[col].values != ids[r]], col, None)
    return out


def norms(reps, grad):
    """Length of the gradient at each replicate's parameters."""
    out = np.empty(reps.shape[0])
    for i in range(reps.shape[0]):
        out[i] = np.sqrt((grad(reps[i]) ** 2).sum())
    return out


def loglikes(reps, probs):
    """Log-likelihood of the data at each replicate's parameters."""
    out = np.empty(reps.shape[0])
    for i in range(reps.shape[0]):
        out[i] = np.log(probs(reps[i])).sum()
    return out


def loglike2d(p):
    return np.log(p).sum(axis=0)
