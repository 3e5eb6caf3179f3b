"""Reference wide and long data formats (read by the analyser, never run)."""
from collections import OrderedDict
import numpy as np
import pandas as pd


def label(x, names):
    return int(x) if names is None else names[x]


def wide(df, ind, alt_vars, subset, obs, alt, ch, names, null):
    ids = df[obs].unique()
    alts = np.unique(df[alt].values)
    in_obs = df[obs].values[:, None] == ids[None, :]
    in_alt = df[alt].values[:, None] == alts[None, :]
    there = in_obs.T.dot(in_alt)
    first = df.drop_duplicates(subset=obs)
    one = OrderedDict()
    one[obs] = ids
    one[ch] = in_obs.T.dot(df[alt].values * (df[ch].values == 1))
    for k in ind:
        one[k] = first[k].values
    parts = [pd.DataFrame(one),
             pd.DataFrame(there, columns=["availability_{}".format(label(x, names)) for x in alts])]
    for k in alt_vars:
        cells = in_obs.T.dot(in_alt * df[k].values[:, None])
        parts.append(pd.DataFrame(np.where(there == 0, null, cells),
                                  columns=["{}_{}".format(k, label(x, names)) for x in alts]))
    for k in subset:
        pos = np.where(np.in1d(alts, subset[k]))[0]
        cells = in_obs.T.dot(in_alt * df[k].values[:, None])
        parts.append(pd.DataFrame(np.where(there == 0, null, cells)[:, pos],
                                  columns=["{}_{}".format(k, label(alts[x], names)) for x in pos]))
    return pd.concat(parts, axis=1)


def several(df, obs, alt):
    return df.duplicated(subset=[obs, alt]).any()


def none_chosen(df, obs, ch):
    return (df.groupby(obs)[ch].sum() < 1).any()


def many_chosen(df, obs, ch):
    return (df.groupby(obs)[ch].sum() > 1).any()


def long(df, ind, alt_vars, avail, obs, ch, altname, alts):
    n = df.shape[0]
    k = len(alts)
    keep = np.column_stack([df[avail[a]].values for a in alts]).ravel() != 0
    alt = np.tile(np.array(alts), n)
    cols = OrderedDict()
    cols[obs] = np.repeat(df[obs].values, k)[keep]
    cols[altname] = alt[keep]
    cols[ch] = ((np.repeat(df[ch].values, k) == alt) * 1)[keep]
    for v in ind:
        cols[v] = np.repeat(df[v].values, k)[keep]
    for v in alt_vars:
        cols[v] = np.column_stack([df[alt_vars[v][a]].values if a in alt_vars[v] else np.zeros(n)
                                   for a in alts]).ravel()[keep]
    return pd.DataFrame(cols)


def repeated(df, obs):
    return df[obs].nunique() != df.shape[0]


def blank(df, ch):
    return df[ch].isnull().any()


def unknown(df, ch, avail):
    return not df[ch].isin(list(avail.keys())).all()


def unavailable(df, ch, avail):
    return any([((df[ch].values == a) & (df[avail[a]].values == 0)).any() for a in avail])
