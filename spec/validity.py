"""When an input is invalid (read by the analyser, never run)."""
from collections import OrderedDict
from numbers import Number
import numpy as np
import pandas as pd


def missing(df, cols):
    return any([c not in df.columns for c in cols])


def not_numbers(df, cols):
    return any([df[c].dtype.kind not in ['f', 'i', 'u'] or np.isinf(df[c]).any() or np.isnan(df[c]).any()
                for c in cols])


def spec_entry(value, alts):
    if isinstance(value, str):
        return value != 'all_same' and value != 'all_diff'
    if not isinstance(value, list):
        return True
    bad = []
    for group in value:
        if isinstance(group, list):
            for x in group:
                if isinstance(x, list):
                    return True
                bad.append(x not in alts)
        else:
            bad.append(group not in alts)
    return any(bad)


def name_entry(value, name, num_alts):
    if isinstance(value, list):
        return not isinstance(name, list) or len(name) != len(value) or not all([isinstance(x, str) for x in name])
    if value == 'all_same':
        return not isinstance(name, str)
    if not isinstance(name, list):
        return True
    return len(name) != num_alts


def names_bad(spec, names, num_alts):
    if names is None:
        return False
    if not isinstance(names, OrderedDict) or set(names.keys()) != set(spec.keys()):
        return True
    return any([name_entry(spec[k], names[k], num_alts) for k in names])


def alt_names(names, pos, num_alts, need):
    """Names of alternative-specific parameters with a reference position."""
    if names is None:
        return False
    if pos is None:
        return True if need else len(names) != num_alts
    if not isinstance(pos, int):
        return True
    return any([pos < 0, pos > num_alts - 1, len(names) != num_alts - 1])


def nests_bad(nests, alts):
    if nests is None:
        return False
    if not isinstance(nests, OrderedDict):
        return True
    if not all([isinstance(k, str) for k in nests]) or not all([isinstance(nests[k], list) for k in nests]):
        return True
    if any([len(nests[k]) == 0 for k in nests]):
        return True
    els = [x for k in nests for x in nests[k]]
    if not all([isinstance(x, int) for x in els]):
        return True
    if len(set(els)) != len(els):
        return True
    return any([x not in alts for x in els]) or any([a not in els for a in np.sort(pd.unique(alts))])


def constructor(df, alt, obs, ch, spec, names, inames, ipos, snames, spos, nests, mix, indnames):
    if not isinstance(spec, OrderedDict):
        return True
    if 'intercept' in spec and 'intercept' not in df.columns:
        df = df.copy()
        df['intercept'] = 1.0
    alts = df[alt]
    return any([missing(df, [alt, obs, ch]),
                alt_names(snames, spos, alts.nunique(), False),
                alt_names(inames, ipos, alts.nunique(), True),
                nests_bad(nests, alts.values),
                missing(df, spec),
                not_numbers(df, spec),
                any([spec_entry(spec[k], alts.values) for k in spec]),
                names_bad(spec, names, alts.nunique()),
                False if mix is None else any([v not in indnames for v in mix])])


def weights_bad(w, rows):
    if w is None:
        return False
    if not isinstance(w, np.ndarray):
        return True
    if w.ndim != 1:
        return True
    return any([w.shape[0] != rows, (w < 0).any()])


def ridge_bad(r):
    return r is not None and not isinstance(r, Number)


def conf_bad(p):
    if not isinstance(p, Number):
        return True
    return any([p <= 0, p >= 100])


def draws_bad(mixers, draws, variables, seed):
    sizes = [mixers, draws, variables]
    if not all([isinstance(x, int) for x in sizes]):
        return True
    if seed is not None and not isinstance(seed, int):
        return True
    return any([x <= 0 for x in sizes] + ([seed <= 0] if seed is not None else []))


def resample_bad(df, obs, boot, ids):
    return any([obs not in df.columns, boot in df.columns, not np.isin(ids, df[obs].values).all()])
