"""Hash-consed value-graph terms with a ring / index-notation normal form.

A term never denotes a run of the program: it is the value number that the
analysis gives to an expression of the source.  Array values are described
pointwise (body over index variables), sums over an axis are monomial binders,
so dot / multiply / sum / transpose / broadcasting spellings of one tensor
expression receive the same value number.
"""
from fractions import Fraction
from hashlib import blake2b
from itertools import permutations, count

_table = {}
_ids = count()
_fresh = count()


class T(object):
    __slots__ = ("op", "args", "fv", "h", "id", "key")

    def __repr__(self):
        return show(self)


def _key(op, args):
    d = blake2b(digest_size=12)
    d.update(op.encode())
    for a in args:
        if isinstance(a, T):
            d.update(b"T")
            d.update(a.key)
        else:
            d.update(("|%s:%r" % (type(a).__name__, a)).encode())
    return d.digest()


_EMPTY = frozenset()


def raw(op, *args):
    """Hash-cons a node without simplification."""
    k = (op,) + tuple((type(a), a) if not isinstance(a, T) else a for a in args)
    t = _table.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    if op == "v":
        t.fv = frozenset([t])
    else:
        fv = _EMPTY
        for a in args:
            if isinstance(a, T) and a.fv:
                fv = fv | a.fv if fv else a.fv
        t.fv = fv
    h = 0
    for a in args:
        if isinstance(a, T) and a.h > h:
            h = a.h
    if op == "B":
        h += args[1]
    elif op == "mono":
        h += args[0]
    t.h = h
    t.id = next(_ids)
    t.key = _key(op, args)
    _table[k] = t
    return t


_tsize = {}


def tsize(t):
    """number of nodes of a term, counted as a tree"""
    n = _tsize.get(t)
    if n is None:
        n = 1 + sum(tsize(a) for a in t.args if isinstance(a, T))
        _tsize[t] = n
    return n


# ------------------------------------------------------------------ variables
def fresh():
    return raw("v", "f", next(_fresh))


def ax(i):
    return raw("v", "ax", i)


def bvar(level):
    return raw("b", level)


# ------------------------------------------------------------------ constants
def const(v):
    if isinstance(v, bool):
        return raw("c", "bool", v)
    if v is None:
        return raw("c", "none", None)
    if isinstance(v, (int, Fraction)):
        return raw("c", "num", Fraction(v))
    if isinstance(v, float):
        if v != v:
            return raw("c", "nan", None)
        if v in (float("inf"), float("-inf")):
            return INF if v > 0 else pmul(num(-1), INF)
        return raw("c", "num", Fraction(repr(v)))
    if isinstance(v, str):
        return raw("c", "str", v)
    return raw("c", type(v).__name__, repr(v))


def num(v):
    return raw("c", "num", Fraction(v))


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
INF = raw("c", "inf", None)
ZERO = num(0)
ONE = num(1)


def is_const(t):
    return t.op == "c"


def is_num(t):
    return t.op == "c" and t.args[0] == "num"


def is_str(t):
    return t.op == "c" and t.args[0] == "str"


def cval(t):
    k, v = t.args
    if k == "num":
        return int(v) if v.denominator == 1 else float(v)
    return v


def isbool(t):
    return t.op in BOOLOPS or (t.op == "c" and t.args[0] == "bool")


BOOLOPS = {"lt0", "le0", "gt0", "ge0", "eq0", "not", "and", "or", "eq",
           "isnone", "isinst", "in", "isinf", "isposinf", "isneginf", "isnan",
           "isfinite", "any", "all", "hasattr", "truth", "callable", "is",
           "has", "cmp", "isin"}

# terms that can never be None
NOTNONE = BOOLOPS | {"poly", "mono", "B", "at", "list", "dict", "tuple", "fn",
                     "delta", "sconcat", "obj", "lcat", "flat", "fmtstr",
                     "store", "setcol", "b", "shape", "dim", "lenof", "setof",
                     "sortedof", "dupd", "red", "cat", "fundef", "setitem",
                     "dfcat", "dfcols", "dfindex", "dfjoin", "dfnew", "dfreset", "dfrow", "dfrows", "dfset", "dftake",
                     "pd", "rcat"}


# ------------------------------------------------------------------ polynomials
def _terms(t):
    """Yield (mono, coef) of a term as a polynomial; mono None is constant."""
    if t.op == "poly":
        a = t.args
        for i in range(0, len(a), 2):
            yield a[i], a[i + 1]
    elif is_num(t):
        if t.args[1] != 0:
            yield ONEMONO, t.args[1]
    elif t.op == "c" and t.args[0] == "bool":
        if t.args[1]:
            yield ONEMONO, Fraction(1)
    else:
        yield as_mono(t), Fraction(1)


ONEMONO = None  # set below


def as_mono(t):
    if t.op == "mono":
        return t
    return raw("mono", 0, t, 1)


def _factors(m):
    """(dims, [(atom, exp)]) of a monomial."""
    nb = m.args[0]
    dims = m.args[1:1 + nb]
    rest = m.args[1 + nb:]
    return dims, [(rest[i], rest[i + 1]) for i in range(0, len(rest), 2)]


def _frompairs(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m is ONEMONO:
            return num(c)
        if c == 1:
            return _unmono(m)
    items.sort(key=lambda mc: (mc[0] is not ONEMONO, mc[0].key))
    flat = []
    for m, c in items:
        flat.append(m)
        flat.append(c)
    return raw("poly", *flat)


def _unmono(m):
    if m.args[0] == 0 and len(m.args) == 3 and m.args[2] == 1:
        return m.args[1]
    return m


ONEMONO = raw("mono", 0)


def padd(*ts):
    d = {}
    for t in ts:
        for m, c in _terms(t):
            d[m] = d.get(m, 0) + c
    return _frompairs(d)


def pneg(t):
    return pscale(t, -1)


def pscale(t, k):
    k = Fraction(k)
    d = {}
    for m, c in _terms(t):
        d[m] = d.get(m, 0) + c * k
    return _frompairs(d)


def psub(a, b):
    return padd(a, pneg(b))


def _openmono(m):
    dims, fs = _factors(m)
    if not dims:
        return [], [], fs
    base = m.h - len(dims)
    vs = [fresh() for _ in dims]
    mp = {base + i: v for i, v in enumerate(vs)}
    return vs, list(dims), [(inst(a, mp), e) for a, e in fs]


def _mkmono(vs, dims, factors):
    """Build canonical (term) for  sum_{vs} prod factors  (atoms only)."""
    # merge equal atoms
    coef = Fraction(1)
    d = {}
    work = list(factors)
    while work:
        a, e = work.pop()
        if e == 0:
            continue
        if is_num(a):
            if a.args[1] == 0:
                if e > 0:
                    return ZERO
            else:
                coef *= a.args[1] ** e
                continue
        if a.op == "c" and a.args[0] == "bool":
            if not a.args[1]:
                return ZERO
            continue
        d[a] = d.get(a, 0) + e
    # exp atoms combine: exp(x)*exp(y)=exp(x+y)
    exps = [a for a in d if a.op == "fn" and a.args[0] == "exp"]
    if exps and (len(exps) > 1 or d[exps[0]] != 1):
        s = padd(*[pscale(a.args[1], d[a]) for a in exps])
        for a in exps:
            del d[a]
        n = mkfn("exp", s)
        if is_num(n):
            coef *= n.args[1]
        elif n.op in ("poly", "mono"):
            d[n] = d.get(n, 0) + 1
        else:
            d[n] = d.get(n, 0) + 1
    for a in list(d):
        if d[a] == 0:
            del d[a]
        elif (isbool(a) or a.op == "delta") and d[a] > 1:
            d[a] = 1
    # |x| style: sqrt(x)^2 = x
    for a in list(d):
        if a.op == "fn" and a.args[0] == "sqrt" and abs(d[a]) >= 2:
            q = int(d[a] / 2)
            r = d[a] - 2 * q
            inner = a.args[1]
            del d[a]
            fs = list(d.items()) + ([(a, r)] if r else [])
            return pscale(_sumprod(vs, dims, pmul(_prodterm(fs), ppow(inner, q))), coef)
    ins = [a for a in d if a.op == "isin"]
    if ins:
        for a in ins:
            x, u = a.args
            for b in list(d):
                if b.op == "eq" and d[b] > 0 and x in b.args:
                    o = b.args[1] if b.args[0] is x else b.args[0]
                    if o.op == "at" and o.args[0] is u:
                        del d[a]
                        break
    # sums over selected positions become masked sums over all positions
    for k, dm in enumerate(dims):
        if dm.op == "count" and dm.args[0].op == "B":
            v = vs[k]
            M = dm.args[0]
            n = M.args[1]
            new = [fresh() for _ in range(n)]
            mp = {raw("nth", q, M, v): new[q] for q in range(n)}
            sub = [(rsub2(a, mp), e) for a, e in d.items()]
            if not any(v in a.fv for a, _ in sub):
                _, mdims, _ = bparts(M)
                prod = pmul(_prodterm(sub), bapply(M, new))
                nvs = list(vs[:k]) + list(vs[k + 1:]) + new
                nd = list(dims[:k]) + list(dims[k + 1:]) + list(mdims)
                return pscale(_sumprod(nvs, nd, prod), coef)
    # delta elimination
    vs = list(vs)
    dims = list(dims)
    for a in list(d):
        if a.op == "delta" and d.get(a) == 1:
            x, y = a.args
            for p, q in ((x, y), (y, x)):
                if p in vs:
                    del d[a]
                    i = vs.index(p)
                    nvs = vs[:i] + vs[i + 1:]
                    nd = dims[:i] + dims[i + 1:]
                    prod = _prodterm([(subst(b, {p: q}), e) for b, e in d.items()])
                    return pscale(_sumprod(nvs, nd, prod), coef)
    # binder independent of all factors -> factor dim
    used = _EMPTY
    for a in d:
        used |= a.fv
    for dm in dims:
        used |= dm.fv
    extra = []
    kept = [(v, dm) for v, dm in zip(vs, dims) if v in used]
    for v, dm in zip(vs, dims):
        if v not in used:
            extra.append(dm)
    if extra:
        prod = _prodterm(list(d.items()))
        t = _sumprod([v for v, _ in kept], [x for _, x in kept], prod)
        for dm in extra:
            t = pmul(t, dm)
        return pscale(t, coef)
    if not d:
        return num(coef)
    if not kept:
        return pscale_raw(raw("mono", 0, *_flat(d)), coef)
    return pscale_raw(_close_mono([v for v, _ in kept], [x for _, x in kept], d), coef)


def pscale_raw(m, coef):
    if m.op == "mono" and m.args[0] == 0 and len(m.args) == 1:
        return num(coef)
    return _frompairs({as_mono(m): coef})


def _flat(d):
    out = []
    for a, e in sorted(d.items(), key=lambda ae: (ae[0].key, ae[1])):
        out.append(a)
        out.append(e)
    return out


def _close_mono(vs, dims, d):
    n = len(vs)
    base = max([a.h for a in d] + [x.h for x in dims] + [0])
    # note: node height is base + n, where base is the max height of children
    if n == 1:
        mp = {vs[0]: bvar(base)}
        return raw("mono", 1, dims[0], *_flat({subst(a, mp): e for a, e in d.items()}))
    # colour refinement on binders
    marker = raw("v", "mark", 0)
    other = raw("v", "mark", 1)
    cols = []
    for v, dm in zip(vs, dims):
        mp = {u: other for u in vs}
        mp[v] = marker
        ks = sorted((rsub(a, mp).key, e) for a, e in d.items() if v in a.fv)
        cols.append((dm.key, tuple(ks)))
    order = sorted(range(n), key=lambda i: cols[i])
    groups = []
    for i in order:
        if groups and cols[groups[-1][0]] == cols[i]:
            groups[-1].append(i)
        else:
            groups.append([i])
    tot = 1
    for g in groups:
        for k in range(2, len(g) + 1):
            tot *= k
    best = None
    if tot > 720:
        cands = [order]
    else:
        cands = [[]]
        for g in groups:
            cands = [c + list(p) for c in cands for p in permutations(g)]
    for c in cands:
        mp = {vs[i]: bvar(base + j) for j, i in enumerate(c)}
        fl = _flat({rsub(a, mp): e for a, e in d.items()})
        k = [x.key if isinstance(x, T) else x for x in fl]
        if best is None or k < best[0]:
            best = (k, c)
    c = best[1]
    mp = {vs[i]: bvar(base + j) for j, i in enumerate(c)}
    return raw("mono", n, *([dims[i] for i in c] +
                            _flat({subst(a, mp): e for a, e in d.items()})))


def _prodterm(factors):
    t = ONE
    for a, e in factors:
        t = pmul(t, ppow(a, e))
    return t


def _sumprod(vs, dims, t):
    """sum over vs of an arbitrary term t."""
    if not vs:
        return t
    out = []
    for m, c in _terms(t):
        bvs, bd, fs = _openmono(m)
        out.append(pscale(_mkmono(list(vs) + bvs, list(dims) + bd, fs), c))
    return padd(*out)


def psum(v, dim, t):
    return _sumprod([v], [dim], t)


LIMIT = 4000


def pmul(*ts):
    res = None
    for t in ts:
        if res is None:
            res = t
            continue
        if is_num(res):
            res = pscale(t, res.args[1])
            continue
        if is_num(t):
            res = pscale(res, t.args[1])
            continue
        A = list(_terms(res))
        B = list(_terms(t))
        if len(A) * len(B) > LIMIT:
            res = raw("mono", 0, *_flat({res: 1, t: 1} if res is not t else {res: 2}))
            continue
        out = []
        for m1, c1 in A:
            for m2, c2 in B:
                out.append(pscale(_mulmono(m1, m2), c1 * c2))
        res = padd(*out)
    if res is None:
        return ONE
    if len(ts) == 1 and res.op == "c" and res.args[0] == "bool":
        return num(1 if res.args[1] else 0)
    return res


def _mulmono(m1, m2):
    v1, d1, f1 = _openmono(m1)
    v2, d2, f2 = _openmono(m2)
    return _mkmono(v1 + v2, d1 + d2, f1 + f2)


def ppow(t, e):
    """t ** e for integer e."""
    if e == 0:
        return ONE
    if e == 1:
        return t
    if is_num(t):
        if t.args[1] == 0 and e < 0:
            return raw("fn", "div0")
        return num(t.args[1] ** e)
    if t.op == "poly":
        ms = list(_terms(t))
        if len(ms) == 1:
            m, c = ms[0]
            return pscale(ppow(_unmono(m), e), c ** e)
        if e > 0 and len(ms) ** e <= 64:
            r = t
            for _ in range(e - 1):
                r = pmul(r, t)
            return r
        # pull out the leading coefficient so (2a+2b)^-1 == 1/2 (a+b)^-1
        lead = ms[-1][1]
        nt = pscale(t, 1 / lead)
        # pull out common atoms of all monomials (no binders)
        return pscale(raw("mono", 0, nt, e), lead ** e) if nt.op == "poly" else \
            pscale(ppow(nt, e), lead ** e)
    if t.op == "mono":
        nb = t.args[0]
        if nb == 0:
            _, fs = _factors(t)
            return _mkmono([], [], [(a, x * e) for a, x in fs])
        if e > 0 and e <= 4:
            r = t
            for _ in range(e - 1):
                r = pmul(r, t)
            return r
        # split factors independent of binders out of the sum
        vs, dims, fs = _openmono(t)
        S = set(vs)
        indep = [(a, x) for a, x in fs if not (a.fv & S)]
        if indep and not any(d.fv & S for d in dims):
            dep = [(a, x) for a, x in fs if a.fv & S]
            inner = _mkmono(vs, dims, dep)
            return pmul(_mkmono([], [], [(a, x * e) for a, x in indep]), ppow(inner, e))
        return raw("mono", 0, t, e)
    return _mkmono([], [], [(t, e)])


def pdiv(a, b):
    return pmul(a, ppow(b, -1))


# ------------------------------------------------------------------ functions
def mkfn(name, *args):
    if name == "exp":
        x = args[0]
        if x is ZERO:
            return ONE
        if x.op == "fn" and x.args[0] == "log":
            return x.args[1]
    elif name == "log":
        x = args[0]
        if x is ONE:
            return ZERO
        if x.op == "fn" and x.args[0] == "exp":
            return x.args[1]
    elif name == "sqrt":
        x = args[0]
        if is_num(x) and x.args[1] in (0, 1):
            return x
    elif name == "abs":
        x = args[0]
        if is_num(x):
            return num(abs(x.args[1]))
        ms = list(_terms(x))
        if ms and ms[-1][1] < 0:
            return mkfn("abs", pneg(x))
    elif name == "pow":
        x, y = args
        if is_num(y) and y.args[1].denominator == 1 and abs(y.args[1]) <= 6:
            return ppow(x, int(y.args[1]))
        if is_num(y) and y.args[1] == Fraction(1, 2):
            return mkfn("sqrt", x)
        if x is ONE:
            return ONE
    elif name in ("max", "min"):
        flat = []
        for a in args:
            if a.op == "fn" and a.args[0] == name:
                flat.extend(a.args[1:])
            else:
                flat.append(a)
        consts = [a for a in flat if is_num(a)]
        rest = sorted(set(a for a in flat if not is_num(a)), key=lambda t: t.key)
        if consts:
            f = max if name == "max" else min
            rest.append(num(f(a.args[1] for a in consts)))
        if len(rest) == 1:
            return rest[0]
        # canonical clip: min(max(x,lo),hi)
        if name == "max" and len(rest) == 2 and is_num(rest[1]) and \
                rest[0].op == "fn" and rest[0].args[0] == "min" and \
                len(rest[0].args) == 3 and is_num(rest[0].args[2]) and \
                rest[1].args[1] <= rest[0].args[2].args[1]:
            return mkfn("min", mkfn("max", rest[0].args[1], rest[1]), rest[0].args[2])
        return raw("fn", name, *rest)
    elif name == "floor" and is_num(args[0]):
        v = args[0].args[1]
        return num(v.numerator // v.denominator)
    return raw("fn", name, *args)


# ------------------------------------------------------------------ booleans
def isnumeric(t):
    return t.op in ("poly", "mono", "at", "fn", "dim", "lenof", "delta", "v", "b",
                    "nrows", "count", "nuniq") or \
        is_num(t) or t is INF or \
        (t.op == "sym" and t.args[1] in ("size", "int", "num"))


def _sign_norm(p):
    """(p', flip): p = k * p' with k>0 (flip False) or k<0 (flip True)."""
    ms = list(_terms(p))
    lead = [c for m, c in ms if m is not ONEMONO][-1]
    return pscale(p, 1 / lead), lead < 0


_FLIP = {"lt0": "gt0", "gt0": "lt0", "le0": "ge0", "ge0": "le0", "eq0": "eq0"}
_NEG = {"lt0": "ge0", "ge0": "lt0", "gt0": "le0", "le0": "gt0"}


def nonempty(a):
    """Input data frames have rows."""
    if a.op == "nrows":
        return a.args[0].op == "sym"
    if a.op == "nuniq":
        return a.args[0].op == "getcol" and a.args[0].args[0].op == "sym"
    return False


def size_bounds(p):
    """(lower, upper) bound of a linear form in sizes; symbolic sizes are >= 1."""
    lo = up = Fraction(0)
    for m, c in _terms(p):
        if m is ONEMONO:
            if lo is not None:
                lo += c
            if up is not None:
                up += c
            continue
        dims, fs = _factors(m)
        base = None
        if not dims and fs and all(e >= 1 for _, e in fs):
            if all((a.op == "sym" and a.args[1] == "size") or nonempty(a) for a, _ in fs):
                base = 1
            elif all(a.op in ("dim", "lenof", "v", "b", "nrows", "count", "nuniq") or
                     (a.op == "sym" and a.args[1] == "size") for a, _ in fs):
                base = 0
        if base is None:
            return None, None
        if c > 0:
            up = None
            if lo is not None:
                lo += c * base
        else:
            lo = None
            if up is not None:
                up += c * base
    return lo, up


def _count_cmp(op, p):
    """How many i satisfy c(i), compared with zero or with their number, as a statement about some or all i."""
    cnt, k, rest = None, None, []
    for m, c in _terms(p):
        if m.op == "mono" and m.args[0] == 1 and cnt is None:
            cnt, k = m, c
        else:
            rest.append((m, c))
    if cnt is None or len(rest) > 1:
        return None
    if not all(e == 1 and (isbool(a) and a.op not in ("poly", "mono", "c")) for a, e in _factors(cnt)[1]):
        return None
    if k < 0:
        op, k = _FLIP[op], -k
        rest = [(m, -c) for m, c in rest]
    vs, dims, fs = _openmono(cnt)
    if not rest or rest[0][0] is ONEMONO:
        c = rest[0][1] if rest else Fraction(0)
        # k * n + c with n = 0, 1, 2, ...
        if (op == "gt0" and c <= 0 < k + c) or (op == "ge0" and c < 0 <= k + c):
            neg = False
        elif (op == "le0" and c <= 0 < k + c) or (op == "lt0" and c < 0 <= k + c) or (op == "eq0" and c == 0):
            neg = True
        else:
            return None
        r = mkany(bind("lam", vs, dims, mkand(*[a for a, _ in fs])))
        return mknot(r) if neg else r
    m, c = rest[0]
    if c != -k or _unmono(m) is not dims[0]:
        return None
    if op in ("eq0", "ge0"):
        return mkall(bind("lam", vs, dims, mkand(*[a for a, _ in fs])))
    if op == "lt0":
        return mknot(mkall(bind("lam", vs, dims, mkand(*[a for a, _ in fs]))))
    return None


def mkcmp0(op, p):
    if is_num(p):
        v = p.args[1]
        return const({"lt0": v < 0, "le0": v <= 0, "gt0": v > 0, "ge0": v >= 0,
                      "eq0": v == 0}[op])
    if isbool(p) and p.op != "poly":
        pass
    lb, ub = size_bounds(p)
    if lb is not None and (lb > 0 or (lb == 0 and op in ("ge0", "lt0"))):
        return const(op in ("gt0", "ge0"))
    if ub is not None and (ub < 0 or (ub == 0 and op in ("le0", "gt0"))):
        return const(op in ("lt0", "le0"))
    r = _count_cmp(op, p)
    if r is not None:
        return r
    q, flip = _sign_norm(p)
    if op == "eq0" and q.op == "poly":
        ms = list(_terms(q))
        if len(ms) == 2 and ms[0][1] == -ms[1][1] and ONEMONO not in (ms[0][0], ms[1][0]):
            a, b = _unmono(ms[0][0]), _unmono(ms[1][0])
            if a.op != "mono" and b.op != "mono":
                return raw("eq", *sorted((a, b), key=lambda t: t.key))
    if flip:
        op = _FLIP[op]
    if q.op == "lenof" and op in ("eq0", "gt0", "le0"):
        r = mkempty(q.args[0])
        return mknot(r) if op == "gt0" else r
    if q.op in ("dim", "lenof", "v", "b", "nrows", "count", "nuniq") or \
            (q.op == "sym" and q.args[1] == "size"):
        # sizes and index variables are never negative
        if op == "lt0":
            return FALSE
        if op == "ge0":
            return TRUE
        if op == "le0":
            op = "eq0"
    return raw(op, q)


_cmps = {}


def mkcmp(op, a, b):
    """op in < <= > >= == !="""
    k = (op, a, b)
    r = _cmps.get(k)
    if r is None:
        r = _cmps[k] = _mkcmp(op, a, b)
    return r


def _mkcmp(op, a, b):
    if op == "!=":
        return mknot(mkcmp("==", a, b))
    if op == "==":
        if a is b:
            return TRUE
        if a.op == "c" and b.op == "c":
            ka, kb = a.args[0], b.args[0]
            if ka == kb:
                return FALSE
            if {ka, kb} == {"num", "bool"}:
                n = a if ka == "num" else b
                o = b if ka == "num" else a
                return const(n.args[1] == (1 if o.args[1] else 0))
            return FALSE
        if (is_str(a) or is_str(b)):
            o = b if is_str(a) else a
            if o.op in ("poly", "mono", "list", "tuple", "dict", "lcat", "flat",
                        "dim", "lenof", "B"):
                return FALSE
            return raw("eq", *sorted((a, b), key=lambda t: t.key))
        if a is NONE or b is NONE:
            return mkisnone(b if a is NONE else a)
        if (a.op == "c" and a.args[0] == "bool") or (b.op == "c" and b.args[0] == "bool"):
            c, o = (a, b) if (a.op == "c" and a.args[0] == "bool") else (b, a)
            if isbool(o):
                return o if c.args[1] else mknot(o)
            return raw("eq", *sorted((a, b), key=lambda t: t.key))
        if isnumeric(a) or isnumeric(b):
            return mkcmp0("eq0", psub(a, b))
        if a.op in ("list", "tuple") and b.op == a.op:
            if len(a.args) != len(b.args):
                return FALSE
            return mkand(*[mkcmp("==", x, y) for x, y in zip(a.args, b.args)])
        e = _empty_side(a, b)
        if e is not None:
            return mkempty(e)
        return raw("eq", *sorted((a, b), key=lambda t: t.key))
    if is_str(a) or is_str(b):
        return raw("cmp", op, a, b)
    o = {"<": "lt0", "<=": "le0", ">": "gt0", ">=": "ge0"}[op]
    return mkcmp0(o, psub(a, b))


def _empty_side(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op in ("list", "tuple") and not x.args and \
                y.op in ("list", "lcat", "flat", "B", "ite", "setdiff", "setof"):
            return y
    return None


_negs = ({}, {})


def mknot(a, strict=False):
    if a.op not in ("and", "or", "lt0", "le0", "gt0", "ge0"):
        return _mknot(a, strict)
    memo = _negs[bool(strict)]
    r = memo.get(a)
    if r is None:
        r = memo[a] = _mknot(a, strict)
    return r


def _mknot(a, strict=False):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "eq0" and a.args[0].op == "lenof":
        return raw("not", a)
    if a.op in _NEG and not strict:
        return mkcmp0(_NEG[a.op], a.args[0])
    if a.op == "and":
        return mkor(*[mknot(x, strict) for x in a.args])
    if a.op == "or":
        return mkand(*[mknot(x, strict) for x in a.args])
    if a.op == "any":
        return raw("all", mapbody(a.args[0], lambda b: mknot(b)))
    if a.op == "all":
        return raw("any", mapbody(a.args[0], lambda b: mknot(b)))
    return raw("not", a)


def _flatbool(op, args):
    out = []
    for a in args:
        if a.op == op:
            out.extend(a.args)
        else:
            out.append(a)
    return out


def mkand(*args):
    s = set(_flatbool("and", args))
    s.discard(TRUE)
    if FALSE in s:
        return FALSE
    for a in s:
        if mknot(a) in s:
            return FALSE
    if not s:
        return TRUE
    # absorption: a & (a | b) = a ; a & (!a | b) = a & b
    changed = False
    for a in list(s):
        if a.op == "or":
            if any(x in s for x in a.args):
                s.discard(a)
                changed = True
            else:
                keep = [x for x in a.args if mknot(x) not in s]
                if len(keep) != len(a.args):
                    s.discard(a)
                    s.add(mkor(*keep))
                    changed = True
    if changed:
        return mkand(*s)
    if len(s) == 1:
        return next(iter(s))
    return raw("and", *sorted(s, key=lambda t: t.key))


def mkor(*args):
    s = set(_flatbool("or", args))
    s.discard(FALSE)
    if TRUE in s:
        return TRUE
    for a in s:
        if mknot(a) in s:
            return TRUE
    if not s:
        return FALSE
    changed = False
    for a in list(s):
        if a.op == "and":
            if any(x in s for x in a.args):
                s.discard(a)
                changed = True
            else:
                keep = [x for x in a.args if mknot(x) not in s]
                if len(keep) != len(a.args):
                    s.discard(a)
                    s.add(mkand(*keep))
                    changed = True
    if changed:
        return mkor(*s)
    if len(s) == 1:
        return next(iter(s))
    return raw("or", *sorted(s, key=lambda t: t.key))


def mkisnone(t):
    if t is NONE:
        return TRUE
    if t.op == "c" or t.op in NOTNONE:
        return FALSE
    if t.op == "ite":
        c, a, b = t.args
        return mkite(c, mkisnone(a), mkisnone(b))
    if t.op == "sym" and t.args[1] != "any":
        return FALSE
    return raw("isnone", t)


def mkite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return mkite(c.args[0], b, a)
    if a is ONE and b is ZERO:
        return c
    if a is ZERO and b is ONE:
        return mknot(c)
    if isbool(a) and isbool(b):
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return mknot(c)
        if a is TRUE:
            return mkor(c, b)
        if a is FALSE:
            return mkand(mknot(c), b)
        if b is TRUE:
            return mkor(mknot(c), a)
        if b is FALSE:
            return mkand(c, a)
        return mkor(mkand(c, a), mkand(mknot(c), b))
    # collapse nested tests of the same condition
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    # canonical negative orientation of order tests on scalars
    r = _minmax(c, a, b)
    if r is not None:
        return r
    if c.op == "or" and False:
        pass
    return raw("ite", c, a, b)


def _minmax(c, a, b):
    """ite(x<k,k,x)=max(x,k) and clip forms, for numeric comparisons."""
    if c.op not in ("lt0", "le0", "gt0", "ge0"):
        return None
    p = c.args[0]
    d = psub(a, b)
    if is_num(d):
        return None
    # c says  p (op) 0.  if d == k*p
    try:
        q, flip = _sign_norm(d)
    except IndexError:
        return None
    if q is p:
        neg = c.op in ("lt0", "le0")
        # a-b = s*p ; when p<0: choose a
        s_pos = not flip
        if neg:
            # p<0 -> a. s>0: a<b chosen when smaller -> min ; s<0 -> max
            return mkfn("min" if s_pos else "max", a, b)
        return mkfn("max" if s_pos else "min", a, b)
    # ite(x>hi, hi, max(x,lo)) -> clip
    if is_num(a) and b.op == "fn" and b.args[0] in ("max", "min") and len(b.args) == 3 \
            and is_num(b.args[2]):
        x, k = b.args[1], b.args[2]
        if psub(x, a) is p or psub(a, x) is p:
            up = (psub(x, a) is p and c.op in ("gt0", "ge0")) or \
                 (psub(a, x) is p and c.op in ("lt0", "le0"))
            if b.args[0] == "max" and up and k.args[1] <= a.args[1]:
                return mkfn("min", b, a)
            dn = not up
            if b.args[0] == "min" and dn and k.args[1] >= a.args[1]:
                return mkfn("min", mkfn("max", x, a), k)
    return None


# ------------------------------------------------------------------ binders
def bind(kind, vs, dims, body):
    """Close a binder over fresh variables vs.  Node: B kind n dims.. body"""
    n = len(vs)
    base = max([body.h] + [d.h for d in dims])
    mp = {v: bvar(base + i) for i, v in enumerate(vs)}
    return raw("B", kind, n, *(list(dims) + [subst(body, mp)]))


def bparts(t):
    kind, n = t.args[0], t.args[1]
    return kind, t.args[2:2 + n], t.args[2 + n]


def bopen(t):
    kind, dims, body = bparts(t)
    n = len(dims)
    base = t.h - n
    vs = [fresh() for _ in range(n)]
    return kind, vs, dims, inst(body, {base + i: v for i, v in enumerate(vs)})


def bapply(t, reps):
    kind, dims, body = bparts(t)
    n = len(dims)
    base = t.h - n
    return inst(body, {base + i: r for i, r in enumerate(reps)})


def mapbody(t, f):
    if t.op == "B":
        kind, vs, dims, body = bopen(t)
        return bind(kind, vs, dims, f(body))
    return f(t)


# ------------------------------------------------------------------ substitution
def rsub(t, mp, memo=None):
    """Raw structural substitution (no renormalisation) used for keys only."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in mp:
        r = mp[t]
    elif not t.fv or not any(v in t.fv for v in mp):
        r = t
    else:
        r = raw(t.op, *[rsub(a, mp, memo) if isinstance(a, T) else a for a in t.args])
    memo[t] = r
    return r


def rsub2(t, mp, memo=None):
    """Replace whole subterms (keys of mp), renormalising."""
    if memo is None:
        memo = {}
    if t in mp:
        return mp[t]
    r = memo.get(t)
    if r is not None:
        return r
    if not any(isinstance(a, T) for a in t.args):
        r = t
    else:
        r = rebuild(t, lambda a: rsub2(a, mp, memo))
    memo[t] = r
    return r


def subst(t, mp, memo=None):
    """Capture-free substitution of free variables, renormalising."""
    if memo is None:
        memo = {}
    if t in mp:
        return mp[t]
    if not t.fv:
        return t
    for v in mp:
        if v in t.fv:
            break
    else:
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = rebuild(t, lambda a: subst(a, mp, memo))
    memo[t] = r
    return r


def inst(t, mp, memo=None):
    """Replace bound levels (keys of mp) in an opened body."""
    if memo is None:
        memo = {}
    if t.op == "b":
        return mp.get(t.args[0], t)
    r = memo.get(t)
    if r is not None:
        return r
    if not _hasb(t, mp):
        memo[t] = t
        return t
    r = rebuild_raw(t, lambda a: inst(a, mp, memo))
    memo[t] = r
    return r


_levels = {}


def blevels(t):
    """Set of bound levels occurring (anywhere) in t."""
    r = _levels.get(t)
    if r is None:
        if t.op == "b":
            r = frozenset([t.args[0]])
        else:
            r = _EMPTY
            for a in t.args:
                if isinstance(a, T):
                    r |= blevels(a)
        if t.op == "B":
            n = t.args[1]
            r = r - frozenset(range(t.h - n, t.h))
        elif t.op == "mono" and t.args[0]:
            n = t.args[0]
            r = r - frozenset(range(t.h - n, t.h))
        _levels[t] = r
    return r


def _hasb(t, mp):
    lv = blevels(t)
    return any(k in lv for k in mp)


def rebuild_raw(t, f):
    """Rebuild when bound levels of an OUTER binder are replaced."""
    return rebuild(t, f)


REBUILD = {}
_opened = {}
_depth = [0]


def opened(t):
    """A binder's variables and parts; the variables are private to the current depth of rebuilding."""
    k = (t, _depth[0])
    r = _opened.get(k)
    if r is None:
        n = t.args[1] if t.op == "B" else t.args[0]
        vs = [raw("v", "r%d" % _depth[0], i) for i in range(n)]
        mp = {t.h - n + i: v for i, v in enumerate(vs)}
        if t.op == "B":
            r = (vs, t.args[2:2 + n], inst(t.args[2 + n], mp))
        else:
            dims, fs = _factors(t)
            r = (vs, list(dims), [(inst(a, mp), e) for a, e in fs])
        _opened[k] = r
    return r


def rebuild(t, f):
    if t.op == "B" or (t.op == "mono" and t.args[0]):
        _depth[0] += 1
        try:
            vs, dims, body = opened(t)
            if t.op == "B":
                return mkB(t.args[0], list(vs), [f(d) for d in dims], f(body))
            r = ONE
            for a, e in body:
                r = pmul(r, ppow(f(a), e))
            return _sumprod(list(vs), [f(d) for d in dims], r)
        finally:
            _depth[0] -= 1
    op = t.op
    if op == "poly":
        return padd(*[pscale(f(m), c) for m, c in _terms(t)])
    if op == "mono":
        nb = t.args[0]
        if nb == 0:
            _, fs = _factors(t)
            r = ONE
            for a, e in fs:
                r = pmul(r, ppow(f(a), e))
            return r
    args = [f(a) if isinstance(a, T) else a for a in t.args]
    return remake(op, args)


def mkB(kind, vs, dims, body):
    return bind(kind, vs, dims, body)


def remake(op, args):
    h = REBUILD.get(op)
    if h is not None:
        return h(*args)
    return raw(op, *args)


# ------------------------------------------------------------------ indexing
def mkat(arr, *idx):
    """Element of an array-valued term."""
    if arr.op == "B" and arr.args[0] == "lam":
        if arr.args[1] == len(idx):
            return bapply(arr, idx)
    if arr.op == "ite":
        c, a, b = arr.args
        return mkite(c, mkat(a, *idx), mkat(b, *idx))
    if len(idx) == 1:
        i = idx[0]
        # x[first positions of x] are the distinct values in order of appearance
        if i.op == "at" and i.args[0].op == "firstidx" and i.args[0].args[0] is arr:
            return mkat(raw("uo", arr), i.args[1])
        if arr.op in ("su", "uo") and i.op == "posof" and i.args[1] is arr:
            return i.args[0]
        if arr.op in ("list", "tuple", "lcat") or (arr.op == "B" and arr.args[0] == "tab"):
            return mkitem(arr, i)
    return raw("at", arr, *idx)


def mkdelta(a, b):
    d = psub(a, b)
    if is_num(d):
        return ONE if d.args[1] == 0 else ZERO
    for x, y in ((a, b), (b, a)):
        if y.op == "posof":
            # position of y among distinct values
            return mkcmp("==", y.args[0], mkat(y.args[1], x))
    return raw("delta", *sorted((a, b), key=lambda t: t.key))


def mklen(t):
    if t.op in ("list", "tuple"):
        return num(len(t.args))
    if t.op == "B" and t.args[0] in ("tab", "lam"):
        return t.args[2]
    if t.op == "lcat":
        return padd(*[mklen(a) for a in t.args])
    if t.op == "ite":
        return mkite(t.args[0], mklen(t.args[1]), mklen(t.args[2]))
    if t.op == "keysof":
        return mklen(t.args[0])
    if t.op in ("valuesof", "itemsof", "sortedof", "listof"):
        return mklen(t.args[0])
    if is_str(t):
        return num(len(t.args[1]))
    if t.op in ("uo", "su"):
        return raw("nuniq", t.args[0])
    if t.op == "dictzip":
        return mklen(t.args[0])
    if t.op == "getcol":
        return mknrows(t.args[0])
    return raw("lenof", t)


def mknrows(df):
    while df.op in ("setcol", "dfcols", "dfreset", "dfindex"):
        df = df.args[0]
    if df.op == "dfrows":
        return remake("count", [df.args[1]])
    if df.op == "dfnew" and df.args[0].op == "dict":
        for x in df.args[0].args[1::2]:
            if x.op == "B" and x.args[0] in ("lam", "tab"):
                return x.args[2]
    if df.op == "dftake":
        x = df.args[1]
        if x.op == "firstidx":
            return raw("nuniq", x.args[0])
        if x.op == "sortidx":
            return mknrows(df.args[0])
        if x.op == "B" and x.args[0] in ("lam", "tab") and x.args[1] == 1:
            return x.args[2]
    if df.op == "ite":
        a, b = mknrows(df.args[1]), mknrows(df.args[2])
        return mkite(df.args[0], a, b)
    return raw("nrows", df)


def mkempty(t):
    """The sequence t has no element."""
    if t.op in ("list", "tuple", "dict"):
        return const(not t.args)
    if t.op == "ite":
        return mkite(t.args[0], mkempty(t.args[1]), mkempty(t.args[2]))
    if t.op == "lcat":
        return mkand(*[mkempty(a) for a in t.args])
    if t.op == "flat":
        kind, vs, dims, body = bopen(t.args[0])
        return mkall(bind("lam", vs, dims, mkempty(body)))
    if t.op == "B" and t.args[0] in ("tab", "lam"):
        return mkcmp0("eq0", t.args[2])
    if t.op in ("setof", "sortedof", "listof", "keysof", "valuesof", "itemsof", "uniqof"):
        return mkempty(t.args[0])
    if t.op == "setdiff":
        a, b = t.args
        v = fresh()
        return mkall(bind("lam", [v], [mklen(a)], raw("isin", mkitem(a, v), b)))
    return raw("eq0", raw("lenof", t))


def mkitem(t, i):
    """t[i] for sequences / mappings, i a term."""
    if t.op in ("list", "tuple") and is_num(i) and i.args[1].denominator == 1:
        k = int(i.args[1])
        if -len(t.args) <= k < len(t.args):
            return t.args[k]
    if t.op == "B" and t.args[0] == "tab":
        if is_num(i) and i.args[1] < 0:
            i = padd(t.args[2], i)
        return bapply(t, [i])
    if t.op == "B" and t.args[0] == "lam":
        kind, vs, dims, body = bopen(t)
        body = subst(body, {vs[0]: i})
        if len(vs) == 1:
            return body
        return bind("lam", vs[1:], dims[1:], body)
    if t.op == "ite":
        return mkite(t.args[0], mkitem(t.args[1], i), mkitem(t.args[2], i))
    if t.op == "dict":
        for k in range(0, len(t.args), 2):
            if t.args[k] is i:
                return t.args[k + 1]
    if t.op == "dset":
        if t.args[1] is i:
            return t.args[2]
        if is_const(t.args[1]) and is_const(i):
            return mkitem(t.args[0], i)
    if t.op == "dictzip":
        K, V = t.args
        if V.op == "B" and V.args[1] == 1:
            kind, vs, dims, body = bopen(V)
            p = remake("posof", [i, K])
            return subst(body, {vs[0]: p})
        return mkitem(V, remake("posof", [i, K]))
    if t.op == "at" or (t.op in ("getcol", "uo", "su") ):
        return mkat(t, i) if t.op != "at" else raw("item", t, i)
    return raw("item", t, i)


def mklcat(*parts):
    out = []
    for p in parts:
        if p.op == "lcat":
            q = p.args
        else:
            q = (p,)
        for x in q:
            if x.op == "list" and not x.args:
                continue
            if x.op == "list" and out and out[-1].op == "list":
                out[-1] = raw("list", *(out[-1].args + x.args))
            else:
                out.append(x)
    if not out:
        return raw("list")
    if len(out) == 1:
        return out[0]
    return raw("lcat", *out)


def mkflat(b):
    """concatenate the lists given by binder b ('tab' over list-valued body)"""
    kind, vs, dims, body = bopen(b)
    if body.op == "list" and len(body.args) == 1:
        return bind("tab", vs, dims, body.args[0])
    if body.op == "list" and not body.args:
        return raw("list")
    if is_num(dims[0]) and 0 <= dims[0].args[1] <= 64:
        return mklcat(*[subst(body, {vs[0]: num(k)})
                        for k in range(int(dims[0].args[1]))])
    return raw("flat", b)


def mksconcat(*parts):
    out = []
    for p in parts:
        q = p.args if p.op == "sconcat" else (p,)
        for x in q:
            if is_str(x):
                if x.args[1] == "":
                    continue
                if out and is_str(out[-1]):
                    out[-1] = const(out[-1].args[1] + x.args[1])
                    continue
            out.append(x)
    if not out:
        return const("")
    if len(out) == 1 and is_str(out[0]):
        return out[0]
    return raw("sconcat", *out)


def mkgetcol(df, col):
    while True:
        if df.op == "setcol":
            if df.args[1] is col:
                return df.args[2]
            if is_str(df.args[1]) and is_str(col):
                df = df.args[0]
                continue
        elif df.op == "dfcols" and df.args[1].op == "list" and col in df.args[1].args or \
                df.op == "dfreset" and is_str(col) and col is not const("index") or \
                df.op == "dfindex" and is_str(col) and col is not df.args[1]:
            df = df.args[0]
            continue
        break
    if df.op == "dfnew" and df.args[0].op == "dict":
        a = df.args[0].args
        for i in range(len(a) - 2, -1, -2):
            if a[i] is col:
                return a[i + 1]
    if df.op == "dfrows":
        i = fresh()
        c = mkgetcol(df.args[0], col)
        return bind("lam", [i], [mknrows(df)], mkat(c, remake("nth", [0, df.args[1], i])))
    if df.op == "dftake":
        i = fresh()
        b = mkat(mkgetcol(df.args[0], col), mkat(df.args[1], i))
        n = mknrows(df)
        if df.args[1].op == "sortidx":
            return bind("lam", [i], [n], b)
        if b.op == "at" and len(b.args) == 2 and b.args[1] is i and i not in b.args[0].fv and b.args[0].op in ("uo", "su"):
            return b.args[0]
        if n.op != "nrows":
            return bind("lam", [i], [n], b)
    if df.op == "ite":
        return mkite(df.args[0], mkgetcol(df.args[1], col), mkgetcol(df.args[2], col))
    return raw("getcol", df, col)


def _mk_any(b):
    if b.op == "B":
        kind, vs, dims, body = bopen(b)
        if body is FALSE:
            return FALSE
        if body.op == "or":
            return mkor(*[_mk_any(bind(kind, vs, dims, x)) for x in body.args])
        S = set(vs)
        if body.op == "and":
            out = [x for x in body.args if not (x.fv & S)]
            if out:
                inn = [x for x in body.args if x.fv & S]
                return mkand(_mk_any(bind(kind, vs, dims, mkand(*inn))), *out)
        if not (body.fv & S):
            return mkand(body, mkor(*[mkcmp0("gt0", d) for d in dims]))
        if body.op == "any" and body.args[0].op == "B":
            k2, v2, d2, b2 = bopen(body.args[0])
            return _mk_any(bind(kind, list(vs) + list(v2), list(dims) + list(d2), b2))
    elif isbool(b):
        return b
    return raw("any", b)


def mkany(b):
    return _mk_any(b)


def mkall(b):
    return mknot(mkany(mapbody(b, lambda x: mknot(x))))


REBUILD.update({
    "fn": lambda name, *a: mkfn(name, *a),
    "lt0": lambda p: mkcmp0("lt0", p), "le0": lambda p: mkcmp0("le0", p),
    "gt0": lambda p: mkcmp0("gt0", p), "ge0": lambda p: mkcmp0("ge0", p),
    "eq0": lambda p: mkcmp0("eq0", p),
    "eq": lambda a, b: mkcmp("==", a, b),
    "not": lambda a: mknot(a), "and": mkand, "or": mkor,
    "ite": mkite, "isnone": mkisnone, "at": mkat, "delta": mkdelta,
    "lenof": mklen, "item": mkitem, "lcat": mklcat, "flat": mkflat,
    "sconcat": mksconcat, "getcol": mkgetcol, "nrows": lambda d: mknrows(d),
    "any": mkany, "all": mkall,
})


# ------------------------------------------------------------------ printing
def show(t, depth=6):
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return "..."
    s = lambda x: show(x, depth - 1)
    op, a = t.op, t.args
    if op == "c":
        if a[0] == "num":
            v = a[1]
            if v.denominator == 1:
                return str(v.numerator) if abs(v) < 10 ** 9 else "%.3g" % float(v)
            return "%.6g" % float(v)
        return {"none": "None", "inf": "inf", "nan": "nan"}.get(a[0], repr(a[1]))
    if op == "sym":
        return a[0]
    if op == "v":
        return "%s%s" % (a[0], a[1])
    if op == "b":
        return "#%d" % a[0]
    if op == "poly":
        out = []
        for m, c in _terms(t):
            ms = s(m)
            if m is ONEMONO:
                out.append(show(num(c)))
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append("-" + ms)
            else:
                out.append(show(num(c)) + "*" + ms)
        return "(" + " + ".join(out) + ")"
    if op == "mono":
        dims, fs = _factors(t)
        pre = ""
        if dims:
            base = t.h - len(dims)
            pre = "SUM[" + ",".join("#%d<%s" % (base + i, s(d)) for i, d in enumerate(dims)) + "] "
        return pre + "*".join(("(%s)" % s(x) if x.op == "mono" else s(x)) + ("^%s" % e if e != 1 else "") for x, e in fs)
    if op == "B":
        kind, dims, body = bparts(t)
        base = t.h - len(dims)
        return "%s[%s: %s]" % (kind, ",".join("#%d<%s" % (base + i, s(d)) for i, d in enumerate(dims)), s(body))
    if op == "at":
        return "%s[%s]" % (s(a[0]), ",".join(s(x) for x in a[1:]))
    if op == "fn":
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1:]))
    if op in ("lt0", "le0", "gt0", "ge0", "eq0"):
        return "(%s %s 0)" % (s(a[0]), {"lt0": "<", "le0": "<=", "gt0": ">", "ge0": ">=", "eq0": "=="}[op])
    if op in ("and", "or"):
        return "(" + (" %s " % op).join(s(x) for x in a) + ")"
    if op == "not":
        return "not " + s(a[0])
    if op == "ite":
        return "(%s if %s else %s)" % (s(a[1]), s(a[0]), s(a[2]))
    if op == "item":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "attr":
        return "%s.%s" % (s(a[0]), a[1])
    if op == "list":
        return "[" + ", ".join(s(x) for x in a) + "]"
    if op == "tuple":
        return "(" + ", ".join(s(x) for x in a) + ",)"
    return "%s(%s)" % (op, ", ".join(s(x) if isinstance(x, T) else str(x) for x in a))


def sym(name, kind="any"):
    return raw("sym", name, kind)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(a for a in x.args if isinstance(a, T))
    return seen
