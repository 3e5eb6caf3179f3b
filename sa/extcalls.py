"""Library calls: builtins, numpy, scipy, pandas."""
import ast
from .ext import *
from .ext import (A, tt, num_of, out, opaque, arith, npdot, boolify, mkinf, mkisinf, term_shape,
                  arr_of_term, seqterm, as_segs, itemseq, mkrange, list_append, list_extend, dict_update,
                  isset, setbase, isdf, strlike, mkkeys, df_col, str_format, fmt, contains, truth, eta_tab,
                  inkeys, listview)
from . import ext


def arg(args, kw, i, name, default=None):
    if i is not None and i < len(args):
        return args[i]
    return kw.get(name, default)


def isnone(v):
    return v is None or v is NONE


def axis_of(I, v, st):
    if isnone(v):
        return None
    t = num_of(I, v, st)
    if not is_num(t):
        raise Unsupported("symbolic axis")
    return int(t.args[1])


def dims_of(I, v, st):
    """Shape argument -> list of dim terms."""
    d = I.deref(I.resolve(v, st), st)
    if isinstance(d, Tup):
        return [num_of(I, x, st) for x in d.items]
    if isinstance(d, Lst) and d.known():
        return [num_of(I, x, st) for x in d.values()]
    if isinstance(d, T):
        if d.op in ("tuple", "list"):
            return list(d.args)
        if d.op == "shape":
            s = term_shape(I, d.args[0])
            if s is not None:
                return s
            raise Unsupported("unknown shape")
        return [d]
    if isinstance(d, Arr) and d.rank == 1 and is_num(d.dims[0]):
        return [ar.index_at(d, 0, num(k)).body for k in range(int(d.dims[0].args[1]))]
    raise Unsupported("shape")


def reduce_axis(I, a, how, axis, keepdims=False):
    if axis is None:
        r = ar.reduce_all(a, how) if how != "mean" else None
        if how == "mean":
            n = ONE
            for d in a.dims:
                n = pmul(n, d)
            r = ar.amap(lambda b: pdiv(b, n), ar.reduce_all(a, "sum"))
        if keepdims:
            for _ in range(a.rank):
                r = ar.newaxis(r, 0)
            return r
        return Arr((), r.bodies, "py")
    if axis < 0:
        axis += a.rank
    if how == "sum":
        r = ar.reduce_sum(a, axis)
    elif how == "mean":
        n = a.dims[axis]
        r = ar.amap(lambda b: pdiv(b, n), ar.reduce_sum(a, axis))
    else:
        r = ar.reduce_gen(a, axis, how)
    if how in ("any", "all"):
        r.b = True
    if a.kind in ("mx", "sp"):
        return ar.newaxis(r, axis).withkind("mx")
    if a.kind == "df":
        r = Arr(r.parts, r.bodies, "se")
    if keepdims:
        return ar.newaxis(r, axis)
    return r


def do_reduce(I, v, how, args, kw, st, first=0):
    ax_ = arg(args, kw, first, "axis")
    keep = kw.get("keepdims")
    kd = False
    if keep is not None:
        kd = truth(I, keep, st) is TRUE
    a = A(I, v, st)
    if a.rank == 0:
        d = I.deref(I.resolve(v, st), st)
        if isinstance(d, T) and term_shape(I, d) is None:
            name = how
            nkw = {k: x for k, x in kw.items()}
            return raw("mcall", name, d, *[tt(I, x, st) for x in list(args)[first:]] +
                       [y for k in sorted(nkw) for y in (const(k), tt(I, nkw[k], st))])
        return a.body
    if how in ("any", "all"):
        a = ar.amap(boolify, a)
    axis = axis_of(I, ax_, st)
    if axis is None and ax_ is not None and isinstance(I.deref(ax_, st), Tup):
        raise Unsupported("axis tuple")
    return out(reduce_axis(I, a, how, axis, kd))


# ------------------------------------------------------------- elementwise
UN = {
    "exp": lambda x: mkfn("exp", x), "log": lambda x: mkfn("log", x),
    "sqrt": lambda x: mkfn("sqrt", x), "square": lambda x: pmul(x, x),
    "abs": lambda x: mkfn("abs", x), "absolute": lambda x: mkfn("abs", x), "fabs": lambda x: mkfn("abs", x),
    "log1p": lambda x: mkfn("log", padd(ONE, x)), "expm1": lambda x: psub(mkfn("exp", x), ONE),
    "negative": pneg, "positive": lambda x: x, "reciprocal": lambda x: pdiv(ONE, x),
    "isinf": mkisinf, "isposinf": lambda x: mkinf("isposinf", x), "isneginf": lambda x: mkinf("isneginf", x),
    "isnan": lambda x: mkinf("isnan", x),
    "isfinite": lambda x: mkand(mknot(mkisinf(x)), mknot(mkinf("isnan", x))),
    "sign": lambda x: mkfn("sign", x), "floor": lambda x: mkfn("floor", x), "ceil": lambda x: mkfn("ceil", x),
    "logical_not": lambda x: mknot(boolify(x)), "rint": lambda x: mkfn("rint", x),
    "log2": lambda x: pdiv(mkfn("log", x), mkfn("log", num(2))),
    "log10": lambda x: pdiv(mkfn("log", x), mkfn("log", num(10))),
    "tanh": lambda x: mkfn("tanh", x), "sin": lambda x: mkfn("sin", x), "cos": lambda x: mkfn("cos", x),
    "isnull": lambda x: mkinf("isnan", x), "isna": lambda x: mkinf("isnan", x),
    "notnull": lambda x: mknot(mkinf("isnan", x)), "notna": lambda x: mknot(mkinf("isnan", x)),
    "exp2": lambda x: mkfn("pow", num(2), x), "cbrt": lambda x: mkfn("pow", x, const(1.0 / 3)),
}
BOOLRES = {"isinf", "isposinf", "isneginf", "isnan", "isfinite", "logical_not", "equal", "not_equal",
           "greater", "greater_equal", "less", "less_equal", "logical_and", "logical_or", "isclose",
           "isnull", "isna", "notnull", "notna"}
BIN = {
    "add": padd, "subtract": psub, "divide": pdiv, "true_divide": pdiv, "multiply": pmul,
    "power": lambda x, y: mkfn("pow", x, y), "float_power": lambda x, y: mkfn("pow", x, y),
    "maximum": lambda x, y: mkfn("max", x, y), "minimum": lambda x, y: mkfn("min", x, y),
    "fmax": lambda x, y: mkfn("max", x, y), "fmin": lambda x, y: mkfn("min", x, y),
    "equal": lambda x, y: mkcmp("==", x, y), "not_equal": lambda x, y: mkcmp("!=", x, y),
    "greater": lambda x, y: mkcmp(">", x, y), "greater_equal": lambda x, y: mkcmp(">=", x, y),
    "less": lambda x, y: mkcmp("<", x, y), "less_equal": lambda x, y: mkcmp("<=", x, y),
    "logical_and": lambda x, y: mkand(boolify(x), boolify(y)),
    "logical_or": lambda x, y: mkor(boolify(x), boolify(y)),
    "mod": ar.mkmod, "remainder": ar.mkmod, "floor_divide": ar.mkfdiv,
    "isclose": lambda x, y: mkclose(x, y),
    "logaddexp": lambda x, y: mkfn("log", padd(mkfn("exp", x), mkfn("exp", y))),
    "arctan2": lambda x, y: mkfn("arctan2", x, y),
}


def mkclose(x, y, rtol=None, atol=None):
    """|x - y| <= atol + rtol * |y|"""
    rtol = num(Fraction(1, 10 ** 5)) if rtol is None else rtol
    atol = num(Fraction(1, 10 ** 8)) if atol is None else atol
    d = psub(x, y)
    e = psub(y, x)
    return raw("cmp", "isclose", d if d.key < e.key else e, padd(atol, pmul(rtol, mkfn("abs", y))))


def tolerances(I, args, kw, st):
    r, a = arg(args, kw, 2, "rtol"), arg(args, kw, 3, "atol")
    r, a = [None if v is None or v is NONE else num_of(I, v, st) for v in (r, a)]
    return lambda x, y: mkclose(x, y, r, a)


def ufunc(I, name, args, kw, st):
    f = UN.get(name)
    if f is not None:
        a = A(I, args[0], st)
        r = ar.amap(f, a)
    else:
        a, b = A(I, args[0], st), A(I, args[1], st)
        if name in ("add", "multiply") and a.b and b.b:
            r = ar.ew(mkor if name == "add" else mkand, a, b)
            r.b = True
        else:
            r = ar.ew(tolerances(I, args, kw, st) if name == "isclose" else BIN[name], a, b)
    if name in BOOLRES:
        r.b = True
    o = kw.get("out")
    w = kw.get("where")
    if w is not None and w is not TRUE:
        raise Unsupported("ufunc where")
    if o is not None and not isnone(o):
        if isinstance(o, Tup):
            o = o.items[0]
        if not isinstance(o, Ref):
            raise Unsupported("out=")
        c = st.heap[o.id]
        st.heap[o.id] = r.withkind(c.kind if isinstance(c, Arr) else "nd")
        I.mutation(o, st, "out=")
        return o
    return out(r)


# ------------------------------------------------------------- concatenation
def arrays_in(I, v, st):
    """List of arrays of a sequence; symbolic segments give ('t', term)."""
    segs = as_segs(I, v, st)
    res = []
    for k, x in segs:
        if k == "v":
            res.append(("a", A(I, x, st, strict=True)))
        else:
            if x.op == "ite":
                raise PhiSeq(x)
            res.append(("t", x))
    return res


class PhiSeq(Exception):
    def __init__(self, t):
        self.t = t


def seg_concat(I, t, axis, pre):
    """Concatenation of the arrays listed by the term t."""
    v = fresh()
    n = mklen(t)
    it = mkitem(t, v)
    a = arr_of_term(I, it)
    if a is None:
        s = term_shape(I, t)
        if s is not None and len(s) >= 1 and arr_of_term(I, t) is not None:
            a = ar.index_at(arr_of_term(I, t), 0, v)
    if a is None:
        raise Unsupported("concatenate of unknown arrays")
    a = pre(a)
    if axis < 0:
        axis += a.rank
    if a.rank == 0:
        raise Unsupported("concatenate scalars")
    a = ar.unblock(a)
    w = a.dims[axis]
    if any(v in d.fv for d in a.dims):
        if any(v in d.fv for i, d in enumerate(a.dims) if i != axis):
            raise Unsupported("ragged concatenate")
        tt_ = raw("rcat", axis, tm.bind("tab", [v], [n], ar.lower(a)))
        dims = list(a.dims)
        dims[axis] = psum(v, n, w)
        I.tshape[tt_] = dims
        return ar.of_term(tt_, dims)
    dims = list(a.dims)
    dims[axis] = pmul(n, w)
    tmp = fresh()
    body = subst(a.body, {ax(axis): tmp})
    if w is ONE:
        body = subst(body, {v: ax(axis), tmp: ZERO})
    else:
        body = subst(body, {v: ar.mkfdiv(ax(axis), w), tmp: ar.mkmod(ax(axis), w)})
    return ar.mk(dims, body)


def do_concat(I, v, axis, st, pre=lambda a: a):
    v = I.resolve(v, st)
    if isinstance(v, PhiV):
        return I.lift(v, st, lambda x, s: do_concat(I, x, axis, s, pre))
    try:
        items = arrays_in(I, v, st)
    except PhiSeq as e:
        segs = as_segs(I, v, st)
        j = next(i for i, (k, x) in enumerate(segs) if k == "t" and x.op == "ite")
        c, a, b = segs[j][1].args
        mk_ = lambda y: Lst(segs[:j] + as_segs(I, y, st) + segs[j + 1:])
        return I.fork(c, st, lambda s: do_concat(I, mk_(a), axis, s, pre),
                      lambda s: do_concat(I, mk_(b), axis, s, pre))
    arrs = []
    for k, x in items:
        if k == "a":
            arrs.append(pre(x))
        else:
            if is_num(mklen(x)) and mklen(x) is ZERO:
                continue
            arrs.append(seg_concat(I, x, axis, pre))
    if not arrs:
        raise Unsupported("concatenate nothing")
    if axis < 0:
        axis += arrs[0].rank
    arrs = [a if a.kind in ("mx", "sp") else Arr(a.parts, a.bodies, "nd") for a in arrs]
    try:
        return out(ar.concat(arrs, axis))
    except ar.RankError:
        raise Unsupported("concatenate ranks")


def at_least(n):
    def f(a):
        if n == 1:
            while a.rank < 1:
                a = ar.newaxis(a, 0)
            return a
        if a.rank == 1:
            return ar.newaxis(a, 0)
        while a.rank < 2:
            a = ar.newaxis(a, 0)
        return a
    return f


def colpre(a):
    if a.rank == 1:
        return ar.newaxis(a, 1)
    return a


# ------------------------------------------------------------- numpy
def np_const(I, args, kw, st, val):
    dims = dims_of(I, arg(args, kw, 0, "shape"), st)
    return ar.mk(dims, val)


def np_call(I, name, args, kw, st):
    if "dtype" in kw:
        kw = dict(kw)
        q = ext.dtype_q(I, kw.pop("dtype"), st)
        if q is not None and name not in UN and name not in BIN:
            r = np_call(I, name, args, kw, st)
            a = I.deref(r, st)
            if isinstance(a, Arr):
                if name in ("empty", "empty_like"):
                    a = Arr(a.parts, a.bodies, a.kind, a.meta, a.b)
                else:
                    a = ext.quant(I, a, q)
                a.q = q
                return a
            return r
    if name not in ("ravel", "reshape"):
        kw = {k: v for k, v in kw.items() if k not in ("order", "subok")}
    if name in UN or name in BIN:
        x = I.deref(I.resolve(args[0], st), st)
        return ufunc(I, name, args, kw, st)
    if name in ("zeros", "empty"):
        return np_const(I, args, kw, st, ZERO if name == "zeros" else sym("uninit", "num"))
    if name == "ones":
        return np_const(I, args, kw, st, ONE)
    if name == "full":
        dims = dims_of(I, arg(args, kw, 0, "shape"), st)
        v = A(I, arg(args, kw, 1, "fill_value"), st)
        if v.rank:
            return ar.ew(lambda p, q: q, ar.mk(dims, ZERO), v, kind="nd")
        return ar.mk(dims, v.body)
    if name in ("zeros_like", "ones_like", "empty_like", "full_like"):
        a = A(I, args[0], st)
        v = {"zeros_like": ZERO, "ones_like": ONE, "empty_like": sym("uninit", "num")}.get(name)
        if v is None:
            v = num_of(I, arg(args, kw, 1, "fill_value"), st)
        if a.rank == 0:
            return v
        return ar.mk(a.dims, v)
    if name in ("identity", "eye"):
        if name == "eye" and (len(args) > 1 or "M" in kw or "k" in kw):
            raise Unsupported("eye")
        n = num_of(I, arg(args, kw, 0, "n", kw.get("N")), st)
        return ar.mk([n, n], mkdelta(ax(0), ax(1)))
    if name in ("asarray", "array", "ascontiguousarray", "asanyarray", "atleast_1d", "atleast_2d",
                "asfortranarray", "copy", "asarray_chkfinite"):
        v = I.resolve(args[0], st)
        d = I.deref(v, st)
        if isinstance(d, T) and isdf(I, d):
            return raw("attr", d, "values")
        if isinstance(d, (Lst, Tup)) and name != "copy":
            try:
                a = A(I, v, st)
            except Unsupported:
                return opaque(I, "np.array", [v], {}, st)
        else:
            a = A(I, v, st)
            if a.rank == 0 and isinstance(d, T) and term_shape(I, d) is None:
                return raw("asarray", d)
        if "ndmin" in kw:
            raise Unsupported("ndmin")
        if name == "atleast_2d":
            a = at_least(2)(a)
        if name == "atleast_1d":
            a = at_least(1)(a)
        if a.rank == 0:
            return Arr(a.parts, a.bodies, "nd")
        r = Arr(a.parts, a.bodies, "nd", None, a.b)
        if name in ("asarray", "asanyarray", "ascontiguousarray", "atleast_1d", "atleast_2d") and \
                isinstance(v, Ref) and isinstance(d, Arr):
            return I.alloc(st, r, views=[v.id])
        if name == "array" and isinstance(v, Ref) and "copy" in kw and truth(I, kw["copy"], st) is not TRUE:
            return I.alloc(st, r, views=[v.id])
        if name in ("asarray", "asanyarray") and isinstance(v, Ref) and isinstance(d, T):
            return I.alloc(st, r, views=[v.id])
        return r
    if name in ("matrix", "asmatrix", "mat"):
        a = A(I, args[0], st)
        return at_least(2)(a).withkind("mx")
    if name in ("dot", "matmul"):
        return out(npdot(I, A(I, args[0], st), A(I, args[1], st)))
    if name == "outer":
        a, b = ar.ravel(A(I, args[0], st)), ar.ravel(A(I, args[1], st))
        return ar.ew(pmul, ar.newaxis(a, 1), ar.newaxis(b, 0), kind="nd")
    if name == "inner" or name == "vdot":
        a, b = A(I, args[0], st), A(I, args[1], st)
        if a.rank == 1 and b.rank == 1:
            return out(ar.dot(a, b))
        raise Unsupported("inner")
    if name == "einsum":
        return einsum(I, args, kw, st)
    if name in ("sum", "max", "amax", "min", "amin", "any", "all", "prod", "mean", "nansum"):
        how = {"amax": "max", "amin": "min", "nansum": "sum"}.get(name, name)
        return do_reduce(I, args[0], how, args, kw, st, first=1)
    if name in ("sometrue", "alltrue"):
        return do_reduce(I, args[0], "any" if name == "sometrue" else "all", args, kw, st, first=1)
    if name == "concatenate":
        axis = axis_of(I, arg(args, kw, 1, "axis", ZERO), st)
        return do_concat(I, args[0], axis if axis is not None else 0, st)
    if name == "hstack":
        v = I.resolve(args[0], st)

        def hs(v, s):
            items = arrays_in(I, v, s)
            r = None
            for k, x in items:
                if k == "a":
                    r = x.rank
            if r is None:
                w = fresh()
                a = arr_of_term(I, mkitem(items[0][1], w))
                if a is None:
                    raise Unsupported("hstack of unknown arrays")
                r = a.rank
            return do_concat(I, v, 0 if r <= 1 else 1, s, at_least(1))
        return I.lift(v, st, hs)
    if name in ("vstack", "row_stack"):
        return do_concat(I, args[0], 0, st, at_least(2))
    if name == "column_stack":
        return do_concat(I, args[0], 1, st, colpre)
    if name == "stack":
        axis = axis_of(I, arg(args, kw, 1, "axis", ZERO), st)
        return do_concat(I, args[0], axis, st, lambda a: ar.newaxis(a, axis if axis >= 0 else axis + a.rank + 1))
    if name == "append":
        axis = axis_of(I, arg(args, kw, 2, "axis"), st)
        a, b = A(I, args[0], st), A(I, args[1], st)
        if axis is None:
            a, b, axis = ar.ravel(a), ar.ravel(b), 0
        return ar.concat([a.withkind("nd"), b.withkind("nd")], axis)
    if name == "repeat":
        a = A(I, args[0], st)
        axis = axis_of(I, arg(args, kw, 2, "axis"), st)
        rep = A(I, arg(args, kw, 1, "repeats"), st)
        if rep.rank == 1 and rep.dims[0] is ONE:
            rep = ar.index_at(rep, 0, ZERO)
        if rep.rank:
            return opaque(I, "np.repeat", [a, rep], {}, st, shape=[ar.reduce_all(rep, "sum").body])
        if axis is None:
            a = ar.ravel(a)
            axis = 0
        n = rep.body
        a = ar.unblock_axis(a, axis)
        if a.dims[axis] is ONE:
            return Arr(a.parts[:axis] + ((n,),) + a.parts[axis + 1:],
                       {k: subst(b, {ax(axis): ZERO}) for k, b in a.bodies.items()}, "nd")
        bodies = {k: ext_subst(b, axis, ar.mkfdiv(ax(axis), n)) for k, b in a.bodies.items()}
        return Arr(a.parts[:axis] + ((pmul(a.dims[axis], n),),) + a.parts[axis + 1:], bodies, "nd")
    if name == "tile":
        a = A(I, args[0], st)
        reps = dims_of(I, arg(args, kw, 1, "reps"), st)
        while a.rank < len(reps):
            a = ar.newaxis(a, 0)
        while len(reps) < a.rank:
            reps = [ONE] + reps
        a = ar.unblock(a)
        dims = list(a.dims)
        b = a.body
        for i, r in enumerate(reps):
            if r is ONE:
                continue
            if dims[i] is ONE:
                b = subst(b, {ax(i): ZERO})
                dims[i] = r
            else:
                b = ext_subst(b, i, ar.mkmod(ax(i), dims[i]))
                dims[i] = pmul(dims[i], r)
        return ar.mk(dims, b)
    if name == "broadcast_to":
        a = A(I, args[0], st)
        dims = dims_of(I, args[1], st)
        z = ar.mk(dims, ZERO)
        return ar.ew(lambda p, q: q, z, a, kind="nd")
    if name == "where":
        c = A(I, args[0], st)
        if len(args) == 3:
            return out(ar.ew(lambda p, q, r: mkite(boolify(p), q, r), c, A(I, args[1], st), A(I, args[2], st)))
        if c.rank == 0:
            raise Unsupported("where of a scalar")
        return Tup([I.box(x, st) for x in ar.where_indices(ar.amap(boolify, c))])
    if name in ("nonzero", "flatnonzero", "argwhere"):
        c = ar.amap(boolify, A(I, args[0], st))
        if name == "flatnonzero":
            return ar.where_indices(ar.ravel(c))[0]
        if name == "argwhere":
            raise Unsupported("argwhere")
        return Tup([I.box(x, st) for x in ar.where_indices(c)])
    if name == "clip":
        a = A(I, args[0], st)
        lo, hi = arg(args, kw, 1, "a_min"), arg(args, kw, 2, "a_max")
        if not isnone(lo):
            a = ar.ew(lambda x, y: mkfn("max", x, y), a, A(I, lo, st))
        if not isnone(hi):
            a = ar.ew(lambda x, y: mkfn("min", x, y), a, A(I, hi, st))
        o = kw.get("out")
        if o is not None and isinstance(o, Ref):
            st.heap[o.id] = a
            I.mutation(o, st, "out=")
            return o
        return out(a)
    if name == "nan_to_num":
        return opaque(I, "np.nan_to_num", args, kw, st, shape=A(I, args[0], st).dims)
    if name == "arange":
        if len(args) == 1:
            lo, hi = ZERO, num_of(I, args[0], st)
        else:
            lo, hi = num_of(I, args[0], st), num_of(I, args[1], st)
        if len(args) > 2 and num_of(I, args[2], st) is not ONE:
            raise Unsupported("arange step")
        return ar.mk([psub(hi, lo)], padd(lo, ax(0)))
    if name in ("ravel", "squeeze", "transpose", "reshape", "sort", "diagonal", "swapaxes", "cumsum", "take",
                "argsort", "std", "var", "round", "around", "argmax", "argmin", "searchsorted", "trace"):
        if name == "sort":
            return np_sort(I, args[0], kw, st, args)
        return call_method(I, args[0], "round" if name == "around" else name, list(args[1:]), kw, st, None)
    if name == "unique":
        return np_unique(I, args, kw, st)
    if name in ("in1d", "isin"):
        x0, x1 = (arg(args, kw, 0, "ar1" if name == "in1d" else "element"),
                  arg(args, kw, 1, "ar2" if name == "in1d" else "test_elements"))
        a = A(I, x0, st)
        b = seqterm(I, ravelled(I, x1, st), st)
        au = arg(args, kw, 2, "assume_unique", FALSE)
        if truth(I, au, st) is not FALSE and not (distinct(I, x0, st) and distinct(I, x1, st)):
            # numpy's answer is then arbitrary for repeated values
            r = ar.amap(lambda x: mkcmp("==", raw("assumed", x, b), ONE), ar.ravel(a))
            return out(Arr(r.parts, r.bodies, "nd", None, True))
        if name == "in1d":
            a = ar.ravel(a)
        r = ar.amap(lambda x: ar.mkisin(x, b), a)
        r = Arr(r.parts, r.bodies, "nd", None, True)
        if truth(I, kw["invert"], st) is TRUE if "invert" in kw else False:
            r = ar.amap(mknot, r)
        return out(r)
    if name == "setdiff1d":
        return raw("sortedof", raw("setdiff", setbase(seqterm(I, args[0], st)), setbase(seqterm(I, args[1], st))))
    if name == "expand_dims":
        a = A(I, args[0], st)
        axis = axis_of(I, arg(args, kw, 1, "axis"), st)
        return ar.newaxis(a, axis if axis >= 0 else axis + a.rank + 1)
    if name == "delete" and isinstance(I.deref(I.resolve(args[1], st), st), T):
        a = A(I, args[0], st)
        i = num_of(I, args[1], st)
        axis = arg(args, kw, 2, "axis")
        if isnone(axis):
            a, axis = ar.ravel(a), 0
        else:
            axis = axis_of(I, axis, st)
            axis += a.rank if axis < 0 else 0
        n = a.dims[axis]
        if is_num(i) and i.args[1] < 0:
            i = padd(n, i)
        return out(ar.gather(a, axis, ar.mk([psub(n, ONE)], padd(ax(0), mkcmp(">=", ax(0), i)))))
    if name == "moveaxis" or name == "rollaxis":
        raise Unsupported(name)
    if name == "diag":
        a = A(I, args[0], st)
        if len(args) > 1 or "k" in kw:
            raise Unsupported("diag k")
        if a.rank == 1:
            n = a.dims[0]
            a = ar.unblock(a)
            return ar.mk([n, n], pmul(mkdelta(ax(0), ax(1)), a.body))
        a2 = a
        if len(a.parts[0]) > 1 or len(a.parts[1]) > 1:
            a2 = ar.unblock(a)
        return ar.mk([a2.dims[0]], subst(a2.body, {ax(1): ax(0)}))
    if name in ("diag_indices", "diag_indices_from"):
        v = args[0]
        n = num_of(I, v, st) if name == "diag_indices" else A(I, v, st).dims[0]
        iv = ar.mk([n], ax(0))
        return Tup([I.box(iv, st), I.box(iv, st)])
    if name in ("percentile", "quantile"):
        a = A(I, args[0], st)
        q = A(I, args[1], st)
        axis = axis_of(I, arg(args, kw, 2, "axis"), st)
        interp = kw.get("interpolation", kw.get("method", const("linear")))
        it = tt(I, interp, st)
        if axis is None:
            a, axis = ar.ravel(a), 0
        if name == "quantile":
            q = ar.amap(lambda b: pmul(num(100), b), q)
        a = ar.unblock(a)
        v = fresh()
        body = ar._renum(subst(a.body, {ax(axis): v}), {k: k - 1 for k in range(axis + 1, a.rank)})
        lam = tm.bind("lam", [v], [a.dims[axis]], body)
        rest = [d for i, d in enumerate(a.dims) if i != axis]
        if q.rank == 0:
            return out(ar.mk(rest, raw("pctl", lam, q.body, it)) if rest else ar.scalar(raw("pctl", lam, q.body, it)))
        q = ar.unblock(q)
        lam2 = subst(lam, {ax(i): ax(i + 1) for i in range(len(rest))}) if rest else lam
        return ar.mk(q.dims + rest, raw("pctl", lam2, q.body, it))
    if name in ("std", "var", "median"):
        a = A(I, args[0], st)
        return opaque(I, "np." + name, args, kw, st)
    if name == "allclose" or name == "array_equal":
        a, b = A(I, args[0], st), A(I, args[1], st)
        f = (lambda x, y: mkcmp("==", x, y)) if name == "array_equal" else tolerances(I, args, kw, st)
        return out(ar.reduce_all(ar.ew(f, a, b), "all"))
    if name == "isscalar":
        d = I.deref(args[0], st)
        if isinstance(d, Arr):
            return const(d.rank == 0)
        if isinstance(d, T) and (is_num(d) or (d.op == "sym" and d.args[1] in ("num", "int"))):
            return TRUE
        return raw("isinst", tt(I, args[0], st), "scalar")
    if name in ("float64", "int64", "float32", "int32", "float_", "int_", "bool_", "float", "int", "bool"):
        if not args:
            return ZERO
        r = call_ext(I, "builtins." + name.rstrip("_0123456789"), args, kw, st)
        if name == "float32" and isinstance(r, T):
            return ext.quant1(r, "f32")
        return r
    if name == "errstate":
        return NONE
    if name == "seterr":
        return NONE
    if name == "isreal":
        return TRUE
    if name == "issubdtype":
        return raw("isinst", tt(I, args[0], st), "dtype:" + str(show(tt(I, args[1], st))))
    if name == "size":
        return I.getattr(args[0], "size", st)
    if name == "shape":
        return I.getattr(args[0], "shape", st)
    if name == "ndim":
        d = I.deref(args[0], st)
        if isinstance(d, T) and (is_num(d) or (d.op == "sym" and d.args[1] in ("num", "int", "bool"))):
            return ZERO
        return I.getattr(args[0], "ndim", st)
    if name == "fill_diagonal":
        o = args[0]
        a = A(I, o, st)
        v = A(I, args[1], st)
        vb = v.body if v.rank == 0 else subst(ar.unblock(v).body, {})
        st.heap[o.id] = ar.mk(a.dims, mkite(mkcmp("==", ax(0), ax(1)), vb, ar.unblock(a).body), a.kind)
        I.mutation(o, st, "fill_diagonal")
        return NONE
    if name in ("copyto", "put", "putmask", "place"):
        if name == "copyto" and "where" not in kw:
            ext.setitem(I, args[0], SliceV(NONE, NONE, NONE), args[1], st)
            return NONE
        if name == "copyto" or name == "putmask" or name == "place":
            m = kw.get("where") if name == "copyto" else args[1]
            v = args[1] if name == "copyto" else args[2]
            va = A(I, v, st)
            if va.rank:
                c = A(I, args[0], st)
                st.heap[args[0].id] = ar.ew(lambda x, mm, y: mkite(boolify(mm), y, x), c, A(I, m, st), va, kind=c.kind)
                I.mutation(args[0], st, name)
            else:
                ext.setitem(I, args[0], m, v, st)
            return NONE
        raise Unsupported(name)
    if name == "vectorize":
        return args[0]
    if name == "bincount":
        w = kw.get("weights")
        return opaque(I, "np.bincount", args, kw, st)
    if name in ("linalg.norm",):
        a = A(I, args[0], st)
        if len(args) > 1 and not isnone(args[1]):
            raise Unsupported("norm ord")
        axis = axis_of(I, kw.get("axis"), st)
        sq = ar.amap(lambda b: pmul(b, b), a)
        return out(ar.amap(lambda b: mkfn("sqrt", b), reduce_axis(I, sq.withkind("nd"), "sum", axis)))
    if name in ("linalg.inv", "linalg.pinv"):
        a = A(I, args[0], st)
        t = raw("call", name.split(".")[-1], ar.lower(ar.unblock(a).withkind("nd")))
        I.tshape[t] = a.dims
        return ar.of_term(t, a.dims)
    if name == "linalg.solve":
        a, b = A(I, args[0], st), A(I, args[1], st)
        t = raw("call", "inv", ar.lower(ar.unblock(a).withkind("nd")))
        return out(ar.dot(ar.of_term(t, a.dims), b))
    if name == "linalg.multi_dot":
        ls = [A(I, x, st) for k, x in as_segs(I, args[0], st)]
        r = ls[0]
        for x in ls[1:]:
            r = npdot(I, r, x)
        return out(r)
    if name.startswith("random."):
        return rng_call(I, name[7:], args, kw, st)
    if name == "rec.fromarrays":
        ls = I.deref(arg(args, kw, 0, "arrayList"), st)
        nm = kw.get("names")
        if nm is not None and isinstance(ls, (Lst, Tup)) and not set(kw) - {"names", "arrayList"}:
            vals = list(ls.items) if isinstance(ls, Tup) else ls.values() if ls.known() else None
            L = seqterm(I, nm, st)
            if vals is not None and L.op == "list" and len(L.args) == len(vals):
                return raw("recs", *[y for k, x in zip(L.args, vals) for y in (k, tt(I, x, st))])
        return opaque(I, "np.rec.fromarrays", args, kw, st, known=True)
    return opaque(I, "np." + name, args, kw, st)


def ext_subst(b, axis, e):
    tmp = fresh()
    return subst(subst(b, {ax(axis): tmp}), {tmp: e})


def ravelled(I, v, st):
    d = I.deref(I.resolve(v, st), st)
    if isinstance(d, Arr) and d.rank > 1:
        return ar.ravel(d)
    return v


def np_sort(I, v, kw, st, args=()):
    d = I.deref(I.resolve(v, st), st)
    a = A(I, v, st)
    if a.rank == 1 and a.single() and a.body.op == "at" and a.body.args[0].op == "suidx":
        return ar.mk(a.dims, mkat(raw("firstidx", a.body.args[0].args[0]), ax(0)))
    if a.rank == 1 and a.single() and a.body.op == "at" and a.body.args[0].op in ("su", "firstidx", "suo") and \
            a.body.args[1] is ax(0):
        return a
    if a.rank == 1:
        t = seqterm(I, v, st)
        if t.op == "uo" and not kw and len(args) < 2:
            return sorted_values(I, t.args[0])
        if t.op == "list" and all(is_num(x) for x in t.args) and not kw and len(args) < 2:
            return ext.arr_of_term(I, raw("list", *sorted(t.args, key=lambda x: x.args[1])))
        t = raw("sortedof", t)
        I.tshape[t] = a.dims
        return ar.of_term(t, a.dims)
    return opaque(I, "np.sort", [v] + list(args[1:]), kw, st, shape=a.dims)


def sorted_values(I, x):
    """distinct values of x in ascending order"""
    if x in I.knownvals:
        return ext.arr_of_term(I, raw("list", *[num(k) for k in sorted(I.knownvals[x])]))
    return ar.of_term(raw("su", x), [raw("nuniq", x)])


def distinct(I, v, st):
    """Values that the code took the unique ones of."""
    t = seqterm(I, ravelled(I, v, st), st)
    return t.op in ("uo", "su", "sortedof", "setof", "keys")


def np_unique(I, args, kw, st):
    a = A(I, args[0], st)
    if a.rank == 0:
        d = I.deref(args[0], st)
        x = d if isinstance(d, T) else a.body
    else:
        x = ar.lower(Arr(ar.ravel(a).parts, ar.ravel(a).bodies))
    if x.op in ("uo", "su"):
        x = x.args[0]
    n = raw("nuniq", x)
    res = [sorted_values(I, x)]
    if len(args) > 1 or "return_index" in kw:
        f = args[1] if len(args) > 1 else kw["return_index"]
        if truth(I, f, st) is TRUE:
            res.append(ar.of_term(raw("suidx", x), [n]))
    for nm, op in (("return_inverse", "suinv"), ("return_counts", "sucnt")):
        if nm in kw and truth(I, kw[nm], st) is TRUE:
            if op == "suinv":
                dm = a.dims[0] if a.rank == 1 else raw("lenof", x)
                res.append(ar.mk([dm], ar.mkposof(mkat(x, ax(0)), raw("su", x))))
            else:
                i = fresh()
                res.append(ar.mk([n], psum(i, mklen(x) if a.rank == 0 else a.dims[0],
                                           mkcmp("==", mkat(x, i), mkat(raw("su", x), ax(0))))))
    if len(res) == 1:
        return res[0]
    return Tup([I.box(r, st) for r in res])


def einsum(I, args, kw, st):
    f = I.deref(args[0], st)
    if not (isinstance(f, T) and is_str(f)):
        raise Unsupported("einsum")
    spec = f.args[1].replace(" ", "")
    if "." in spec:
        raise Unsupported("einsum")
    ops = [A(I, x, st) for x in args[1:]]
    if "->" in spec:
        lhs, rhs = spec.split("->")
    else:
        lhs = spec
        rhs = "".join(sorted(c for c in set(lhs.replace(",", "")) if lhs.count(c) == 1))
    subs = lhs.split(",")
    dims = {}
    var = {}
    prod = ONE
    for s, a in zip(subs, ops):
        a = ar.unblock(a)
        if len(s) != a.rank:
            raise Unsupported("einsum rank")
        mp = {}
        for i, c in enumerate(s):
            if c not in var:
                var[c] = fresh()
            if c not in dims or dims[c] is ONE:
                dims[c] = a.dims[i]
            mp[ax(i)] = var[c]
        prod = pmul(prod, subst(a.body, mp))
    for c in var:
        if c not in rhs:
            prod = psum(var[c], dims[c], prod)
    body = subst(prod, {var[c]: ax(i) for i, c in enumerate(rhs)})
    return out(ar.mk([dims[c] for c in rhs], body)) if rhs else prod


# ------------------------------------------------------------- randomness
def rng_call(I, name, args, kw, st):
    if name in ("seed", "set_state"):
        s = tt(I, args[0], st) if args else (tt(I, kw["seed"], st) if "seed" in kw else NONE)
        if s is NONE:
            s = raw("call", "entropy")
        st.rng = raw("seeded", s)
        I.effect("seed", s, st)
        return NONE
    if name in ("RandomState", "default_rng", "SeedSequence", "Generator"):
        s = tt(I, args[0], st) if args else (tt(I, kw["seed"], st) if "seed" in kw else
                                             raw("call", "entropy"))
        I.effect("newrng", s, st)
        if name == "RandomState" and s is not NONE and s.op != "call":
            return I.alloc(st, Opq(raw("seeded", s), "rng"))     # the stream np.random.seed(s) starts
        return I.alloc(st, Opq(raw("rngobj", s if s is not NONE else raw("call", "entropy")), "rng"))
    return draw(I, "np." + name, args, kw, st, st.rng, None)


def draw(I, dist, args, kw, st, rng, obj):
    size = kw.get("size")
    a = list(args)
    SIZEPOS = {"np.choice": 1, "np.normal": 2, "np.uniform": 2, "np.standard_normal": 0,
               "np.random_sample": 0, "np.randint": 2, "np.permutation": None, "np.multinomial": 2}
    if size is None and dist in SIZEPOS and SIZEPOS[dist] is not None and len(a) > SIZEPOS[dist]:
        size = a.pop(SIZEPOS[dist])
    if dist in ("np.randn", "np.rand"):
        size = Tup(a)
        a = []
    dims = dims_of(I, size, st) if size is not None and not isnone(size) else []
    if dist == "np.permutation":
        x = I.deref(a[0], st)
        dims = A(I, a[0], st).dims if not (isinstance(x, T) and term_shape(I, x) == []) else [x]
    ts = []
    kw = dict(kw)
    if dist == "np.choice":
        # (a, replace=True, p=None), defaults left out
        for k, x in zip(("a", "replace", "p"), a):
            kw[k] = x
        a = [kw.pop("a")]
        if "replace" in kw and truth(I, kw["replace"], st) is TRUE:
            del kw["replace"]
        if "p" in kw and isnone(kw["p"]):
            del kw["p"]
    for x in a:
        ts.append(tt(I, x, st))
    for k in sorted(kw):
        if k not in ("size", "random_state"):
            ts += [const(k), tt(I, kw[k], st)]
    if "random_state" in kw and not isnone(kw["random_state"]):
        rng = raw("seeded", tt(I, kw["random_state"], st))
    loc, scale = ZERO, ONE
    if dist in ("norm", "np.normal", "np.standard_normal", "np.randn"):
        # one family: location plus scale times standard-normal draws of the same stream
        if dist in ("norm", "np.normal"):
            loc = num_of(I, a[0], st) if a else num_of(I, kw["loc"], st) if "loc" in kw else ZERO
            scale = num_of(I, a[1], st) if len(a) > 1 else num_of(I, kw["scale"], st) if "scale" in kw else ONE
        dist, ts = "norm", []
    shape, dims = dims, [pmul(*dims)] if len(dims) > 1 else dims    # one flat stream, then reshaped
    t = raw("draw", dist, rng, raw("tuple", *dims), *ts)
    I.effect("draw", (dist, rng), st)
    if obj is None:
        st.rng = raw("adv", rng, t)
    else:
        st.heap[obj.id] = Opq(raw("adv", rng, t), "rng")
    I.tshape[t] = dims
    if not dims:
        return padd(loc, pmul(scale, t)) if loc is not ZERO or scale is not ONE else t
    r = ar.of_term(t, dims)
    if len(shape) > 1:
        r = ar.reshape(r, shape)
    if loc is not ZERO or scale is not ONE:
        return out(Arr(r.parts, {k: padd(loc, pmul(scale, b)) for k, b in r.bodies.items()}, r.kind))
    return out(r)


# ------------------------------------------------------------- scipy
NORM = {"ppf": "normppf", "cdf": "normcdf", "sf": "normsf", "pdf": "normpdf"}


def norm_fn(I, name, args, kw, st, loc=ZERO, scale=ONE):
    loc = num_of(I, kw["loc"], st) if "loc" in kw else (num_of(I, args[1], st) if len(args) > 1 else loc)
    scale = num_of(I, kw["scale"], st) if "scale" in kw else (num_of(I, args[2], st) if len(args) > 2 else scale)
    x = args[0] if args else kw.get("x", kw.get("q"))
    a = A(I, x, st)

    def f(b):
        if name == "ppf":
            return padd(loc, pmul(scale, mkfn("normppf", b)))
        z = pdiv(psub(b, loc), scale)
        if name == "sf":
            return psub(ONE, mkfn("normcdf", z))
        if name == "pdf":
            return pdiv(mkfn("normpdf", z), scale)
        return mkfn("normcdf", z)
    return out(Arr(a.parts, {k: f(b) for k, b in a.bodies.items()}, "nd" if a.rank else "py"))


def sp_call(I, path, args, kw, st):
    p = path.split(".")
    name = p[-1]
    if path in ("scipy.sparse.issparse", "scipy.sparse.isspmatrix_csr", "scipy.sparse.isspmatrix"):
        d = I.deref(I.resolve(args[0], st), st)
        if isinstance(d, Arr):
            return const(d.kind == "sp")
        if isinstance(d, (Tup, Lst, Dct)) or (isinstance(d, T) and (d.op == "c" or tm.isnumeric(d))):
            return FALSE
        return raw("isinst", tt(I, args[0], st), "sparse")
    if path in ("scipy.sparse.csr_matrix", "scipy.sparse.csc_matrix", "scipy.sparse.coo_matrix",
                "scipy.sparse.csr_array"):
        v = I.resolve(args[0], st)
        d = I.deref(v, st)
        if isinstance(d, Tup) and len(d.items) == 2:
            data = A(I, d.items[0], st)
            rc = I.deref(d.items[1], st)
            if isinstance(rc, Tup) and len(rc.items) == 2:
                r, c = A(I, rc.items[0], st), A(I, rc.items[1], st)
                shp = arg(args, kw, 1, "shape")
                if shp is None:
                    raise Unsupported("csr without shape")
                dims = dims_of(I, shp, st)
                data, r, c = [ar.unblock(ar.ravel(x)) for x in (data, r, c)]
                k = fresh()
                g = lambda a: subst(a.body, {ax(0): k}) if a.dims[0] is not ONE else subst(a.body, {ax(0): ZERO})
                n = r.dims[0]
                body = psum(k, n, pmul(g(data), mkdelta(ax(0), g(r)), mkdelta(ax(1), g(c))))
                return ar.mk(dims, body, "sp")
            dims = [num_of(I, x, st) for x in d.items]
            return ar.mk(dims, ZERO, "sp")
        a = A(I, v, st)
        if a.rank == 1:
            a = ar.newaxis(a, 0)
        return Arr(a.parts, a.bodies, "sp")
    if path in ("scipy.sparse.diags", "scipy.sparse.spdiags"):
        a = A(I, args[0], st)
        off = I.deref(args[1], st) if len(args) > 1 else ZERO
        if isinstance(off, T) and off is not ZERO:
            raise Unsupported("diags offset")
        if a.rank == 2:
            a = ar.index_at(a, 0, ZERO)
        n = a.dims[0]
        a = ar.unblock(a)
        return ar.mk([n, n], pmul(mkdelta(ax(0), ax(1)), a.body), "sp")
    if path in ("scipy.sparse.eye", "scipy.sparse.identity"):
        n = num_of(I, args[0], st)
        return ar.mk([n, n], mkdelta(ax(0), ax(1)), "sp")
    if path in ("scipy.sparse.hstack", "scipy.sparse.vstack"):
        r = do_concat(I, args[0], 1 if name == "hstack" else 0, st, at_least(2))
        return r.withkind("sp")
    if path in ("scipy.linalg.inv", "scipy.linalg.pinv", "scipy.linalg.solve", "scipy.linalg.norm"):
        return np_call(I, "linalg." + name, args, kw, st)
    if "norm" in p:
        i = p.index("norm")
        if name in NORM:
            return norm_fn(I, name, args, kw, st)
        if name == "norm":
            loc = num_of(I, arg(args, kw, 0, "loc", ZERO), st)
            sc = num_of(I, arg(args, kw, 1, "scale", ONE), st)
            return raw("frozen", "norm", loc, sc)
        if name == "rvs":
            size = kw.get("size", args[2] if len(args) > 2 else None)
            nkw = {"size": size, "loc": kw.get("loc", args[0] if args else ZERO),
                   "scale": kw.get("scale", args[1] if len(args) > 1 else ONE)}
            if "random_state" in kw:
                nkw["random_state"] = kw["random_state"]
            return draw(I, "norm", [nkw["loc"], nkw["scale"]],
                        {k: v for k, v in nkw.items() if k in ("size", "random_state")}, st, st.rng, None)
    if name == "rvs":
        I.effect("draw", (path, raw("seeded", tt(I, kw["random_state"], st)) if "random_state" in kw else st.rng), st)
        raise Unsupported("draws of " + path)
    if path == "scipy.special.expit":
        a = A(I, args[0], st)
        return out(ar.amap(lambda b: pdiv(ONE, padd(ONE, mkfn("exp", pneg(b)))), a))
    if path in ("scipy.special.logsumexp", "scipy.misc.logsumexp"):
        axis = axis_of(I, kw.get("axis"), st)
        if set(kw) - {"axis", "keepdims"}:
            raise Unsupported("logsumexp")
        a = ar.amap(lambda b: mkfn("exp", b), A(I, args[0], st))
        return out(ar.amap(lambda b: mkfn("log", b), reduce_axis(I, a, "sum", axis, "keepdims" in kw)))
    if path == "scipy.special.xlogy":
        a, b = A(I, args[0], st), A(I, args[1], st)
        return out(ar.ew(lambda x, y: pmul(x, mkfn("log", y)), a, b))
    if path.startswith("scipy.optimize."):
        r = raw("call", path, *[tt(I, x, st) for x in args] +
                [y for k in sorted(kw) for y in (const(k), tt(I, kw[k], st))])
        return I.alloc(st, Dct(r, []))
    return opaque(I, path, args, kw, st)


# ------------------------------------------------------------- pandas
def pd_call(I, name, args, kw, st):
    if name == "Series":
        v = arg(args, kw, 0, "data", NONE)
        idx = arg(args, kw, 1, "index")
        nm = kw.get("name")
        d = I.deref(I.resolve(v, st), st)
        if isinstance(d, Dct) or v is NONE:
            return opaque(I, "pd.Series", args, kw, st, known=True)
        a = A(I, v, st)
        if a.rank == 0:
            if d is not None and isinstance(d, T) and term_shape(I, d) is None:
                return opaque(I, "pd.Series", args, kw, st, known=True)
            n = mklen(seqterm(I, idx, st)) if idx is not None else ONE
            a = ar.mk([n], a.body)
        meta = a.meta
        if idx is not None or nm is not None or meta is None:
            old = meta if meta is not None else (None, NONE)
            it = old[0]
            if not isnone(idx):
                it = seqterm(I, idx, st)
            if it is None:
                v0 = fresh()
                it = tm.bind("tab", [v0], [a.dims[0]], v0)
            nmt = tt(I, nm, st) if nm is not None else old[1]
            meta = (it, nmt)
        return Arr(a.parts, a.bodies, "se", meta)
    if name in ("DataFrame", "DataFrame.from_records") and len(args) == 1 and not kw:
        d = I.deref(I.resolve(args[0], st), st)
        if isinstance(d, T) and d.op == "recs":
            return raw("dfnew", raw("dict", *d.args), NONE)
    if name == "DataFrame":
        v = arg(args, kw, 0, "data", NONE)
        idx = arg(args, kw, 1, "index")
        cols = arg(args, kw, 2, "columns")
        d = I.deref(I.resolve(v, st), st)
        if isinstance(d, Arr) and d.rank == 2:
            ct = seqterm(I, cols, st) if not isnone(cols) else None
            it = seqterm(I, idx, st) if not isnone(idx) else None
            if ct is None:
                v0 = fresh()
                ct = tm.bind("tab", [v0], [d.dims[1]], v0)
            if it is None:
                v0 = fresh()
                it = tm.bind("tab", [v0], [d.dims[0]], v0)
            return Arr(d.parts, d.bodies, "df", (it, ct))
        if isinstance(d, T) and isdf(I, d) and isnone(cols) and isnone(idx):
            return raw("dfnew", d)
        if isinstance(d, Dct) and d.known() and isnone(idx) and d.ents:
            # frame from columns
            segs = []
            for k, x in d.ents:
                segs.append((k, x))
            ts = []
            order = None
            if not isnone(cols):
                order = seqterm(I, cols, st)
            for k, x in segs:
                ts += [k, tt(I, x, st)]
            lab = [const("labelled")] if any(getattr(I.deref(x, st), "kind", "nd") != "nd" for _, x in segs) else []
            return raw("dfnew", raw("dict", *ts), order if order is not None else NONE, *lab)
        return opaque(I, "pd.DataFrame", args, kw, st, known=True)
    if name == "concat":
        r = concat_columns(I, args, kw, st)
        if r is not None:
            return r
        r = concat_rows(I, args, kw, st)
        if r is not None:
            return r
        return opaque(I, "pd.concat", args, kw, st, known=True)
    if name == "unique":
        a = A(I, args[0], st)
        return series_unique(I, a)
    if name in ("isnull", "isna", "notnull", "notna"):
        return ufunc(I, name, args, kw, st)
    if name in ("MultiIndex.from_product", "MultiIndex.from_arrays", "MultiIndex.from_tuples"):
        t = multiindex(I, name[11:], args, kw, st)
        if t is not None:
            return t
    if name == "read_csv":
        t = raw("call", "pd.read_csv", *[tt(I, x, st) for x in args])
        return I.alloc(st, Opq(t, "df"))
    return opaque(I, "pd." + name, args, kw, st)


def multiindex(I, how, args, kw, st):
    """Indices from products, arrays or tuples of known lengths are the same index."""
    ls = as_segs(I, args[0], st)
    if kw or len(args) != 1 or any(k != "v" for k, _ in ls):
        return None
    rows = []
    for _, x in ls:
        r = as_segs(I, x, st)
        if any(k != "v" for k, _ in r):
            return None
        rows.append([tt(I, v, st) for _, v in r])
    if how == "from_product":
        import itertools
        rows = [list(x) for x in itertools.product(*rows)]
    elif how == "from_arrays":
        rows = [list(x) for x in zip(*rows)]
    return raw("list", *[raw("tuple", *r) for r in rows])


def series_unique(I, a):
    x = ar.lower(Arr(ar.ravel(a).parts, ar.ravel(a).bodies))
    if x.op in ("uo", "su"):
        return a
    return ar.of_term(raw("uo", x), [num(len(I.knownvals[x])) if x in I.knownvals else raw("nuniq", x)])


# ------------------------------------------------------------- isinstance
KINDTYPES = {
    "df": {"DataFrame"}, "str": {"str", "basestring", "unicode", "string_types"},
    "int": {"int", "Number", "Integral", "Real", "long", "integer", "int64"},
    "num": {"float", "int", "Number", "Real", "long"},
    "bool": {"bool", "int", "Number"}, "arr": {"ndarray"}, "boolarr": {"ndarray"}, "list": {"list"},
    "dict": {"dict", "Mapping"}, "odict": {"dict", "OrderedDict", "Mapping"}, "size": {"int", "Number", "Integral"},
    "tuple": {"tuple"}, "func": {"function", "FunctionType", "Callable"},
}


def isinst(I, v, cls, st):
    v = I.resolve(v, st)
    if isinstance(v, PhiV):
        return mkite(v.c, isinst(I, v.a, cls, st), isinst(I, v.b, cls, st))
    cd = I.deref(cls, st)
    if isinstance(cd, Tup):
        return mkor(*[isinst(I, v, c, st) for c in cd.items])
    if isinstance(cd, Lst):
        return mkor(*[isinst(I, v, c, st) for c in cd.values()])
    d = I.deref(v, st)
    if isinstance(cd, T) and cd.op == "typeof":
        return raw("isinst", tt(I, v, st), cd)
    nm = cd.path.split(".")[-1] if isinstance(cd, Ext) else (cd.qual if isinstance(cd, Cls) else None)
    if nm is None:
        return raw("isinst", tt(I, v, st), tt(I, cls, st))
    if isinstance(d, Obj):
        if isinstance(cd, Cls):
            return const(cd in d.cls.mro()) if d.cls is not None else raw("isinst", tt(I, v, st), nm)
        return const(nm == "object")
    have = None
    if isinstance(d, Arr):
        have = {"nd": {"ndarray"}, "se": {"Series"}, "df": {"DataFrame"}, "sp": {"csr_matrix", "spmatrix"},
                "mx": {"matrix", "ndarray"}, "py": {"float", "Number", "int"}}[d.kind]
        if d.rank == 0 and d.kind != "py":
            return raw("isinst", d.body, nm)
    elif isinstance(d, Tup):
        have = {"tuple", "Iterable", "Sequence"}
    elif isinstance(d, Lst):
        have = {"set"} if d.kind == "set" else {"Iterable"} if d.kind in ("keys", "gen", "view") else {"list", "Iterable", "Sequence"}
    elif isinstance(d, Dct):
        have = {"dict", "OrderedDict"} if d.kind == "odict" else {"dict"}
    elif isinstance(d, T):
        if d.op == "c":
            have = {"num": {"int", "float", "Number"}, "str": KINDTYPES["str"], "bool": KINDTYPES["bool"],
                    "none": {"NoneType"}}.get(d.args[0], {"float"})
            if d.args[0] == "num" and nm in ("int", "float"):
                return const((d.args[1].denominator == 1) == (nm == "int"))
        elif d.op == "ite":
            return mkite(d.args[0], isinst(I, d.args[1], cls, st), isinst(I, d.args[2], cls, st))
        elif d.op == "sym" and d.args[1] in KINDTYPES:
            have = KINDTYPES[d.args[1]]
        elif d.op in ("sconcat", "fmtval"):
            have = KINDTYPES["str"]
        elif isdf(I, d):
            have = {"DataFrame"}
        elif d.op in ("list", "lcat", "flat"):
            have = {"list"}
        elif d.op in ("dict", "dset", "dictzip"):
            have = {"dict"}
        elif d in I.tshape and I.tshape[d] not in ("df", []):
            have = {"ndarray"}
        elif d.op == "sym" and d.args[0] in I.shapes:
            have = {"ndarray"}
        elif tm.isnumeric(d) and nm in ("DataFrame", "Series", "ndarray", "str", "list", "dict", "OrderedDict", "tuple"):
            return FALSE
    elif isinstance(d, (Func, Bound, Partial, SymFunc)):
        have = {"function", "Callable"}
    if have is not None:
        return const(nm in have or nm == "object")
    return raw("isinst", tt(I, v, st), nm)


# ------------------------------------------------------------- builtins
def bi_call(I, name, args, kw, st):
    if name == "len":
        v = I.resolve(args[0], st)
        if isinstance(v, PhiV):
            return mkite(v.c, bi_call(I, "len", [v.a], {}, st), bi_call(I, "len", [v.b], {}, st))
        d = I.deref(v, st)
        if isinstance(d, Arr):
            return d.dims[0]
        if isinstance(d, Tup):
            return num(len(d.items))
        if isinstance(d, Lst):
            if d.kind == "set":
                return setlen(I, d, st)
            r = ZERO
            for k, x in d.segs:
                r = padd(r, ONE if k == "v" else seglen(I, x))
            return r
        if isinstance(d, Dct):
            if d.known() and not any(isinstance(x, PhiV) and (x.a is ABSENT or x.b is ABSENT)
                                     for _, x in d.ents):
                return num(len(d.ents))
            return mklen(tt(I, v, st))
        if isinstance(d, T):
            if isdf(I, d):
                return mknrows(d)
            s = term_shape(I, d)
            if s:
                return s[0]
            return seglen(I, d)
        raise Unsupported("len")
    if name in ("range", "xrange"):
        vals = [num_of(I, a, st) for a in args]
        if len(vals) == 1:
            return mkrange(I, ZERO, vals[0], st)
        if len(vals) == 2 or vals[2] is ONE:
            return mkrange(I, vals[0], vals[1], st)
        if all(is_num(v) for v in vals):
            return Lst.of([num(k) for k in range(*[int(v.args[1]) for v in vals])])
        if is_num(vals[2]) and vals[2].args[1] == -1:
            n = psub(vals[0], vals[1])
            v = fresh()
            return Lst([("t", tm.bind("tab", [v], [n], psub(vals[0], v)))])
        raise Unsupported("range step")
    if name in ("list", "tuple"):
        if not args:
            return Lst([]) if name == "list" else Tup([])
        v = I.resolve(args[0], st)
        if isinstance(v, PhiV):
            return I.lift(v, st, lambda x, s: I.box(bi_call(I, name, [x], {}, s), s))
        segs = as_segs(I, v, st)
        if name == "tuple":
            if all(k == "v" for k, _ in segs):
                return Tup([x for _, x in segs])
            return raw("tupleof", I.lower_segs(segs, st)) if False else I.lower_segs(segs, st)
        return Lst(segs)
    if name in ("set", "frozenset"):
        if not args:
            return Lst([], "set")
        v = I.resolve(args[0], st)
        return Lst(as_segs(I, v, st), "set")
    if name == "dict" or name == "OrderedDict":
        d = Dct(None, [], "dict" if name == "dict" else "odict")
        if args:
            v = I.resolve(args[0], st)
            x = I.deref(v, st)
            if isinstance(x, Dct) or (isinstance(x, T) and x.op in ("dict", "dset", "dictzip", "dupd", "sym", "dmerge",
                                                                  "item", "attr", "ite")):
                d = dict_update(I, d, v, st)
            else:
                d = dict_from_pairs(I, v, st, d.kind)
        for k, v in kw.items():
            if k == "**":
                d = dict_update(I, d, v, st)
            else:
                d = Dct(d.base, [z for z in d.ents if z[0] is not const(k)] + [(const(k), v)], d.kind)
        return d
    if name == "zip":
        return zip_(I, args, st)
    if name == "enumerate":
        start = num_of(I, arg(args, kw, 1, "start", ZERO), st)
        seq = itemseq(I, args[0], st)
        if seq[0] == "known":
            return Lst.of([Tup([padd(start, num(i)), I.box(x, st)]) for i, x in enumerate(seq[1])])
        if seq[0] == "phi":
            return I.fork(seq[1], st, lambda s: I.box(bi_call(I, "enumerate", [seq[2], start], {}, s), s),
                          lambda s: I.box(bi_call(I, "enumerate", [seq[3], start], {}, s), s))
        v = fresh()
        return Lst([("t", tm.bind("tab", [v], [seq[1]],
                                  raw("tuple", padd(start, v), tt(I, seq[2](v, st), st))))])
    if name == "reversed":
        seq = itemseq(I, args[0], st)
        if seq[0] == "known":
            return Lst.of(list(reversed(seq[1])))
        n = seq[1]
        v = fresh()
        return Lst([("t", tm.bind("tab", [v], [n], tt(I, seq[2](psub(psub(n, ONE), v), st), st)))])
    if name == "sorted":
        v = I.resolve(args[0], st)
        seq = itemseq(I, v, st)
        if seq[0] == "known" and all(isinstance(x, T) and is_const(x) for x in seq[1]) and not kw:
            try:
                return Lst.of(sorted(seq[1], key=lambda t: cval(t)))
            except TypeError:
                pass
        t = seqterm(I, v, st)
        if kw and set(kw) - {"reverse"}:
            return opaque(I, "sorted", args, kw, st)
        if t.op in ("su", "sortedof") and not kw:
            return Lst([("t", t)])
        return raw("sortedof", setbase(t), *([const("rev")] if kw else []))
    if name == "sum":
        seq = itemseq(I, args[0], st)
        start = num_of(I, args[1], st) if len(args) > 1 and isinstance(I.deref(args[1], st), T) else \
            (args[1] if len(args) > 1 else ZERO)
        if seq[0] == "known":
            r = start
            for x in seq[1]:
                r = I.box(I.binop(ast.Add(), r, x, st), st)
            return r
        if seq[0] == "phi":
            return I.fork(seq[1], st, lambda s: I.box(bi_call(I, "sum", [seq[2]] + list(args[1:]), {}, s), s),
                          lambda s: I.box(bi_call(I, "sum", [seq[3]] + list(args[1:]), {}, s), s))
        v = fresh()
        if isinstance(start, Ref):
            c = st.heap[start.id]
            if isinstance(c, Lst) and not c.segs:
                t = seqterm(I, args[0], st)
                w = fresh()
                return Lst([("t", mkflat(tm.bind("tab", [w], [mklen(t)], mkitem(t, w))))])
        a = A(I, seq[2](v, st), st)
        if a.rank == 0:
            return padd(start, psum(v, seq[1], a.body))
        r = Arr(a.parts, {k: psum(v, seq[1], b) for k, b in a.bodies.items()}, "nd")
        return r if start is ZERO else ar.ew(padd, A(I, start, st), r)
    if name in ("min", "max"):
        if len(args) == 1:
            seq = itemseq(I, args[0], st)
            if seq[0] == "known":
                vals = seq[1]
            else:
                a = A(I, args[0], st)
                return out(ar.reduce_all(a, name))
        else:
            vals = args
        if kw:
            raise Unsupported("min/max key")
        return mkfn(name, *[num_of(I, x, st) for x in vals])
    if name == "abs":
        return ufunc(I, "abs", args, {}, st)
    if name == "round":
        a = A(I, args[0], st)
        return out(ar.amap(lambda b: mkfn("round", b, *[num_of(I, x, st) for x in args[1:]]), a))
    if name == "pow":
        return ufunc(I, "power", args, {}, st)
    if name == "divmod":
        a, b = num_of(I, args[0], st), num_of(I, args[1], st)
        return Tup([ar.mkfdiv(a, b), ar.mkmod(a, b)])
    if name in ("any", "all"):
        seq = itemseq(I, args[0], st)
        if seq[0] == "known":
            vs = [I.truth(x, st) for x in seq[1]]
            return mkor(*vs) if name == "any" else mkand(*vs)
        if seq[0] == "phi":
            return mkite(seq[1], bi_call(I, name, [seq[2]], {}, st), bi_call(I, name, [seq[3]], {}, st))
        v = fresh()
        b = I.truth(seq[2](v, st), st)
        lam = tm.bind("lam", [v], [seq[1]], b)
        return mkany(lam) if name == "any" else mkall(lam)
    if name == "isinstance":
        return isinst(I, args[0], args[1], st)
    if name == "issubclass":
        a, b = args
        if isinstance(a, Cls) and isinstance(b, Cls):
            return const(b in a.mro())
        return raw("isinst", tt(I, a, st), tt(I, b, st))
    if name == "callable":
        v = I.deref(I.resolve(args[0], st), st)
        if isinstance(v, (Func, Bound, Partial, SymFunc, Cls, Ext)):
            return TRUE
        if isinstance(v, T) and v.op == "sym" and v.args[1] == "func":
            return TRUE
        if isinstance(v, T) and v.op != "c":
            return raw("callable", v)
        return FALSE
    if name == "hasattr":
        return hasattr_(I, args[0], tt(I, args[1], st), st)
    if name == "getattr":
        nm = tt(I, args[1], st)
        if not is_str(nm):
            o = args[0]
            if nm.op == "ite":
                return I.fork(nm.args[0], st, lambda s: bi_call(I, "getattr", [args[0], nm.args[1]] + list(args[2:]), {}, s),
                              lambda s: bi_call(I, "getattr", [args[0], nm.args[2]] + list(args[2:]), {}, s))
            return raw("getattr", tt(I, o, st), nm, *[tt(I, x, st) for x in args[2:]])
        if len(args) > 2:
            h = hasattr_(I, args[0], nm, st)
            return I.fork(h, st, lambda s: I.getattr(args[0], nm.args[1], s), lambda s: args[2])
        return I.getattr(args[0], nm.args[1], st)
    if name == "setattr":
        nm = tt(I, args[1], st)
        if not is_str(nm):
            raise Unsupported("setattr with computed name")
        I.setattr(args[0], nm.args[1], args[2], st)
        return NONE
    if name == "delattr":
        nm = tt(I, args[1], st)
        c = st.heap[args[0].id]
        attrs = {k: v for k, v in c.attrs.items() if k != nm.args[1]}
        st.heap[args[0].id] = Obj(c.cls, attrs, c.sym, c.label)
        return NONE
    if name in ("str", "repr"):
        return fmt(I, args[0], "", st) if args else const("")
    if name in ("int", "float"):
        v = I.deref(I.resolve(args[0], st), st)
        t = num_of(I, args[0], st)
        if is_num(t) and name == "int":
            q = t.args[1]
            return num(int(q))
        if is_str(t):
            try:
                return const(float(t.args[1]) if name == "float" else int(t.args[1]))
            except ValueError:
                raise Unsupported("number")
        if name == "int" and not (t.op in ("lenof", "nrows", "nuniq", "count", "v", "b") or
                                  (t.op == "sym" and t.args[1] in ("int", "size")) or tm.isbool(t)
                                  or intpoly(t)):
            return mkfn("trunc", t)
        return t
    if name == "bool":
        return I.truth(args[0], st)
    if name == "type":
        v = I.resolve(args[0], st)
        d = I.deref(v, st)
        if isinstance(d, Obj):
            return d.cls
        for ty, c in (("numpy.ndarray", lambda x: isinstance(x, Arr) and x.kind == "nd"),
                      ("builtins.list", lambda x: isinstance(x, Lst) and x.kind == "list"),
                      ("builtins.tuple", lambda x: isinstance(x, Tup)),
                      ("builtins.str", lambda x: isinstance(x, T) and is_str(x))):
            if c(d):
                return Ext(ty)
        return raw("typeof", tt(I, args[0], st))
    if name == "print":
        I.effect("print", raw("tuple", *[safe(I, a, st) for a in args]), st)
        return NONE
    if name == "map":
        f = args[0]
        seq = itemseq(I, args[1], st)
        if len(args) > 2:
            raise Unsupported("map with several iterables")
        if seq[0] == "known":
            return Lst.of([I.box(I.call(f, [I.box(x, st)], {}, st), st) for x in seq[1]])
        if seq[0] == "phi":
            raise Unsupported("map over join")
        acc = I.alloc(st, Lst([]))

        def run(i, s):
            list_append(I, acc, I.box(I.call(f, [I.box(seq[2](i, s), s)], {}, s), s), s, quiet=True)
            return s
        r = I.loopbody(seq[1], run, st)
        I.adopt(st, r)
        return st.heap[acc.id]
    if name == "filter":
        f = args[0]
        seq = itemseq(I, args[1], st)
        acc = I.alloc(st, Lst([]))

        def one(x, s):
            x = I.box(x, s)
            c = I.simp(I.truth(I.call(f, [x], {}, s), s), s)
            I.fork(c, s, lambda q: (list_append(I, acc, x, q, quiet=True), NONE)[1], lambda q: NONE)
        if seq[0] == "known":
            for x in seq[1]:
                one(x, st)
        elif seq[0] == "sym":
            def run(i, s):
                one(seq[2](i, s), s)
                return s
            r = I.loopbody(seq[1], run, st)
            I.adopt(st, r)
        else:
            raise Unsupported("filter")
        return st.heap[acc.id]
    if name == "open":
        mode = args[1] if len(args) > 1 else kw.get("mode", const("r"))
        path = args[0] if args else kw.get("file")
        t = raw("call", "open", tt(I, path, st), tt(I, mode, st))
        I.effect("open", t, st)
        return t
    if name == "iter":
        return args[0]
    if name == "next":
        seq = itemseq(I, args[0], st)
        if seq[0] == "known" and seq[1]:
            return seq[1][0]
        if seq[0] == "sym":
            return seq[2](ZERO, st)
        raise Unsupported("next")
    if name in ("vars",):
        return I.getattr(args[0], "__dict__", st)
    if name in ("locals", "globals", "dir"):
        raise Unsupported(name)
    if name == "slice":
        a = list(args)
        if len(a) == 1:
            return SliceV(NONE, a[0], NONE)
        return SliceV(a[0], a[1], a[2] if len(a) > 2 else NONE)
    if name == "property":
        return args[0]
    if name.endswith("Error") or name in ("Exception", "Warning"):
        return raw("call", "exc:" + name)
    return opaque(I, name, args, kw, st)


def intpoly(t):
    for m, c in tm._terms(t):
        if c.denominator != 1:
            return False
        if m is tm.ONEMONO:
            continue
        dims, fs = tm._factors(m)
        if dims or any(e < 0 for _, e in fs):
            return False
        if not all(f.op in ("lenof", "nrows", "nuniq", "count", "v", "b", "fdiv", "mod") or tm.isbool(f) or
                   (f.op == "sym" and f.args[1] in ("int", "size")) for f, _ in fs):
            return False
    return True


def seglen(I, t):
    if t.op == "flat":
        from .ext import flat_len
        r = flat_len(I, t)
        if r is not None:
            return r
    return mklen(t)


def setlen(I, d, st):
    t = I.lower_segs(d.segs, st)
    t = setbase(t)
    if t.op in ("uo", "su"):
        return raw("nuniq", t.args[0])
    if t.op == "list" and all(is_const(a) for a in t.args):
        return num(len(set(t.args)))
    if t.op == "list" and len(t.args) == 1:
        return ONE
    return raw("nuniq", t)


def safe(I, v, st):
    try:
        return tt(I, v, st)
    except Unsupported:
        return raw("call", "unprintable")


def hasattr_(I, o, nm, st):
    o = I.resolve(o, st)
    if isinstance(o, PhiV):
        return mkite(o.c, hasattr_(I, o.a, nm, st), hasattr_(I, o.b, nm, st))
    if not is_str(nm):
        return raw("hasattr", tt(I, o, st), nm)
    d = I.deref(o, st)
    n = nm.args[1]
    if isinstance(d, Obj):
        if n in d.attrs:
            v = I.resolve(d.attrs[n], st)
            if isinstance(v, PhiV) and v.a is ABSENT:
                return mknot(v.c)
            if isinstance(v, PhiV) and v.b is ABSENT:
                return v.c
            return FALSE if v is ABSENT else TRUE
        if d.cls is not None and I.findmember(d.cls, n) is not None:
            return TRUE
        if d.sym is not None:
            return raw("hasattr", d.sym, nm)
        return FALSE
    if isinstance(d, Arr):
        return const(n in ("shape", "dtype", "ndim", "__iter__", "__len__") or n in ext.ARRMETH)
    if isinstance(d, T):
        if d is NONE:
            return FALSE
        return raw("hasattr", d, nm)
    return raw("hasattr", tt(I, o, st), nm)


def zip_(I, args, st):
    vals = [I.resolve(a, st) for a in args]
    for j, v in enumerate(vals):
        if isinstance(v, PhiV):
            return I.lift(v, st, lambda x, s: I.box(zip_(I, vals[:j] + [x] + vals[j + 1:], s), s))
    seqs = [itemseq(I, v, st) for v in vals]
    for j, s in enumerate(seqs):
        if s[0] == "phi":
            return I.fork(s[1], st, lambda q: I.box(zip_(I, vals[:j] + [s[2]] + vals[j + 1:], q), q),
                          lambda q: I.box(zip_(I, vals[:j] + [s[3]] + vals[j + 1:], q), q))
    if all(s[0] == "known" for s in seqs):
        n = min(len(s[1]) for s in seqs) if seqs else 0
        return Lst.of([Tup([I.box(s[1][i], st) for s in seqs]) for i in range(n)])
    n = None
    for s in seqs:
        if s[0] == "known":
            n = num(len(s[1]))
            break
        n = s[1] if n is None else n
    if is_num(n):
        return Lst.of([Tup([I.box(s[1][i] if s[0] == "known" else s[2](num(i), st), st) for s in seqs])
                       for i in range(int(n.args[1]))])
    v = fresh()
    return Lst([("t", tm.bind("tab", [v], [n], raw("tuple", *[tt(I, s[2](v, st), st) for s in seqs])))])


def dict_from_pairs(I, v, st, kind):
    seq = itemseq(I, v, st)
    if seq[0] == "known":
        d = Dct(None, [], kind)
        for x in seq[1]:
            k, val = I.unpack(x, 2, st)
            kt = tt(I, k, st)
            d = Dct(None, [z for z in d.ents if z[0] is not kt] + [(kt, val)], kind)
        return d
    if seq[0] == "phi":
        return I.fork(seq[1], st, lambda q: I.box(dict_from_pairs(I, seq[2], q, kind), q),
                      lambda q: I.box(dict_from_pairs(I, seq[3], q, kind), q))
    w = fresh()
    pr = tt(I, seq[2](w, st), st)
    K = eta_tab(tm.bind("tab", [w], [seq[1]], mkitem(pr, ZERO)))
    V = eta_tab(tm.bind("tab", [w], [seq[1]], mkitem(pr, ONE)))
    return Dct(raw("dictzip", K, V), [], kind)


# ------------------------------------------------------------- dispatch
def concat_rows(I, args, kw, st):
    """pd.concat of frames, one below the other."""
    if set(kw) - {"axis", "ignore_index", "objs", "sort", "copy"} or not (args or "objs" in kw):
        return None
    ax_ = I.deref(kw.get("axis", args[1] if len(args) > 1 else ZERO), st)
    if ax_ is not ZERO and ax_ not in (const("index"), const("rows")):
        return None
    ign = I.truth(kw.get("ignore_index", FALSE), st)
    seq = I.deref(args[0] if args else kw["objs"], st)
    vals = list(seq.items) if isinstance(seq, Tup) else seq.values() if isinstance(seq, Lst) and seq.known() else []
    vals = [I.deref(I.resolve(v, st), st) for v in vals]
    if vals and ign in (TRUE, FALSE) and all(isinstance(d, Arr) and d.kind == "df" and d.rank == 2 and d.meta is not None
                                             and d.meta[1] is vals[0].meta[1] for d in vals):
        a = ar.concat([Arr(d.parts, d.bodies, "nd") for d in vals], 0)
        it = tm.mklcat(*[d.meta[0] for d in vals])
        if ign is TRUE:
            v0 = fresh()
            it = tm.bind("tab", [v0], [a.dims[0]], v0)
        return Arr(a.parts, a.bodies, "df", (it, vals[0].meta[1]))
    t = seqterm(I, args[0] if args else kw["objs"], st)
    if t.op == "B" and t.args[0] == "tab":
        if not isdf(I, tm.bopen(t)[3]):
            return None
    elif t.op != "list" or not t.args or not all(isdf(I, x) for x in t.args):
        return None
    return raw("dfcat", t, ign)


def concat_columns(I, args, kw, st):
    """pd.concat(..., axis=1) of series and frames with one index."""
    if set(kw) - {"axis", "ignore_index", "objs", "sort"} or not (args or "objs" in kw):
        return None
    ax_ = I.deref(kw.get("axis", args[1] if len(args) > 1 else ZERO), st)
    if ax_ is not ONE and ax_ is not const("columns"):
        return None
    ign = I.truth(kw.get("ignore_index", FALSE), st)
    if ign not in (TRUE, FALSE):
        return None
    seq = I.deref(args[0] if args else kw["objs"], st)
    if isinstance(seq, Tup):
        vals = list(seq.items)
    elif isinstance(seq, Lst) and seq.known():
        vals = seq.values()
    else:
        return None
    parts, cols, ix, pieces = [], [], None, []
    for v in vals:
        d = I.deref(v, st)
        if isinstance(d, T) and isdf(I, d):
            if ext.knowncols(d) == [] and parts and ext.frame_index(d) is ix:
                continue
            d = ext.frame_arr(I, d)
        if not (isinstance(d, Arr) and d.kind in ("se", "df") and d.meta is not None):
            return None
        pieces.append(d)
        if ix is not None and d.meta[0] is not ix:
            if all(p.kind == "df" for p in pieces) and ign is FALSE:
                ix = "mixed"
                continue
            return None
        ix = d.meta[0]
        if d.kind == "se":
            if d.rank != 1:
                return None
            parts.append(ar.newaxis(Arr(d.parts, d.bodies, "nd"), 1))
            cols.append(raw("list", d.meta[1]))
        else:
            parts.append(Arr(d.parts, d.bodies, "nd"))
            cols.append(d.meta[1])
    if ix == "mixed":
        # rows are matched by their labels
        return raw("dfjoin", *[raw("pd", "df", ar.lower(Arr(p.parts, p.bodies, "nd")), *p.meta) for p in pieces])
    if not parts:
        return None
    a = ar.concat(parts, 1) if len(parts) > 1 else parts[0]
    ct = tm.mklcat(*cols)
    if ign is TRUE:
        v0 = fresh()
        ct = tm.bind("tab", [v0], [a.dims[1]], v0)
    return Arr(a.parts, a.bodies, "df", (ix, ct))


def call_ext(I, path, args, kwargs, st):
    p = path
    if p.startswith("builtins."):
        return bi_call(I, p[9:], args, kwargs, st)
    if p.startswith("numpy."):
        return np_call(I, p[6:], args, kwargs, st)
    if p.startswith("scipy."):
        return sp_call(I, p, args, kwargs, st)
    if p.startswith("pandas."):
        return pd_call(I, p[7:], args, kwargs, st)
    if p == "collections.OrderedDict":
        return bi_call(I, "OrderedDict", args, kwargs, st)
    if p == "collections.defaultdict":
        raise Unsupported("defaultdict")
    if p == "functools.partial":
        return Partial(args[0], list(args[1:]), dict(kwargs))
    if p == "functools.reduce":
        return reduce_(I, args, st)
    if p in ("copy.deepcopy", "copy.copy"):
        return deepcopy(I, args[0], st, p.endswith("deepcopy"))
    if p == "warnings.warn":
        I.effect("warn", safe(I, args[0], st), st)
        return NONE
    if p.startswith("warnings.") or p.startswith("sys.stdout") or p.startswith("sys.stderr"):
        return NONE
    if p == "pickle.dump":
        I.effect("pickle", (args[0], safe(I, args[1], st)), st)
        return NONE
    if p in ("pickle.load", "pickle.loads"):
        return opaque(I, p, args, kwargs, st)
    if p == "itertools.product":
        ls = [as_segs(I, a, st) for a in args]
        if all(k == "v" for l in ls for k, _ in l) and not kwargs:
            import itertools
            return Lst.of([Tup(list(x)) for x in itertools.product(*[[v for _, v in l] for l in ls])])
        return opaque(I, p, args, kwargs, st, known=True)
    if p in ("itertools.chain",):
        segs = []
        for a in args:
            segs += as_segs(I, a, st)
        return Lst(segs)
    if p in ("itertools.chain.from_iterable",):
        t = seqterm(I, args[0], st)
        w = fresh()
        if t.op == "list":
            return mklcat(*t.args)
        return Lst([("t", mkflat(tm.bind("tab", [w], [mklen(t)], mkitem(t, w))))])
    if p.startswith("operator."):
        OPM = {"add": ast.Add, "mul": ast.Mult, "sub": ast.Sub, "truediv": ast.Div, "matmul": ast.MatMult}
        n = p[9:]
        if n in OPM:
            return I.binop(OPM[n](), args[0], args[1], st)
    if p.startswith("math."):
        n = p[5:]
        if n in UN or n in BIN:
            return ufunc(I, n, args, {}, st)
        if n == "pow":
            return ufunc(I, "power", args, {}, st)
        if n in ("fsum",):
            return bi_call(I, "sum", args, {}, st)
        if n == "isclose":
            return BIN["isclose"](num_of(I, args[0], st), num_of(I, args[1], st))
    if p.startswith("numbers."):
        return opaque(I, p, args, kwargs, st)
    if p.split(".")[-1] in ("property", "staticmethod"):
        return args[0]
    if p in ("statsmodels.iolib.summary.Summary",):
        return raw("call", p)
    if p.endswith(".tqdm") or p.endswith(".tqdm_notebook"):
        return args[0]
    if p.startswith("time."):
        return raw("call", p)
    if p.startswith("datetime.") and p.split(".")[-1] in ("now", "today", "utcnow"):
        return raw("call", "time." + p)
    if p.split(".")[0] in ("random", "secrets", "uuid") or p in ("os.urandom", "os.getpid"):
        I.effect("draw", (p, sym("rng of " + p.split(".")[0], "rng")), st)
        return opaque(I, p, args, kwargs, st)
    if p == "abc.ABCMeta":
        return NONE
    return opaque(I, p, args, kwargs, st)


def reduce_(I, args, st):
    f = args[0]
    seq = itemseq(I, args[1], st)
    if seq[0] == "known":
        vals = list(seq[1])
        if len(args) > 2:
            acc = args[2]
        elif vals:
            acc = vals.pop(0)
        else:
            raise Unsupported("reduce of nothing")
        for v in vals:
            acc = I.box(I.call(f, [acc, I.box(v, st)], {}, st), st)
        return acc
    if seq[0] == "phi":
        return I.fork(seq[1], st, lambda s: reduce_(I, [f, seq[2]] + list(args[2:]), s),
                      lambda s: reduce_(I, [f, seq[3]] + list(args[2:]), s))
    # concatenation / sum of symbolic many
    t = seqterm(I, args[1], st)
    w = fresh()
    it = mkitem(t, w)
    if is_add(I, f, st):
        a = arr_of_term(I, it)
        if a is not None and a.rank == 0 and tm.isnumeric(it):
            return psum(w, mklen(t), it)
        return Lst([("t", mkflat(tm.bind("tab", [w], [mklen(t)], it)))])
    raise Unsupported("reduce")


def is_add(I, f, st):
    f = I.resolve(f, st)
    if isinstance(f, Ext) and f.path in ("operator.add", "operator.concat", "operator.iadd", "numpy.add"):
        return True
    if isinstance(f, Func):
        b = f.node.body
        if not isinstance(f.node, ast.Lambda):
            if len(b) == 1 and isinstance(b[0], ast.Return):
                b = b[0].value
            else:
                return False
        ps = [a.arg for a in f.node.args.args]
        return isinstance(b, ast.BinOp) and isinstance(b.op, ast.Add) and isinstance(b.left, ast.Name) and \
            isinstance(b.right, ast.Name) and [b.left.id, b.right.id] == ps
    return False


def deepcopy(I, v, st, deep=True, memo=None):
    v = I.resolve(v, st)
    memo = {} if memo is None else memo
    if isinstance(v, PhiV):
        return PhiV(v.c, deepcopy(I, v.a, st, deep, memo), deepcopy(I, v.b, st, deep, memo))
    if isinstance(v, Ref):
        if v.id in memo:
            return memo[v.id]
        c = st.heap[v.id]
        r = I.alloc(st, c)
        memo[v.id] = r
        if isinstance(c, Lst) and deep:
            st.heap[r.id] = Lst([(k, deepcopy(I, x, st, True, memo) if k == "v" else x) for k, x in c.segs], c.kind)
        elif isinstance(c, Dct) and deep:
            st.heap[r.id] = Dct(c.base, [(k, deepcopy(I, x, st, True, memo)) for k, x in c.ents], c.kind)
        elif isinstance(c, Obj):
            st.heap[r.id] = Obj(c.cls, {k: (deepcopy(I, x, st, True, memo) if deep else x)
                                        for k, x in c.attrs.items()}, c.sym, c.label)
        return r
    if isinstance(v, Tup):
        return Tup([deepcopy(I, x, st, deep, memo) for x in v.items])
    return v


def call_opaque(I, f, args, kwargs, st):
    """Call of an unknown callable value."""
    for a in list(args) + list(kwargs.values()):
        pass
    ts = [tt(I, a, st) for a in args]
    for k in sorted(kwargs):
        ts += [const(k), tt(I, kwargs[k], st) if k != "**" else kwargs[k]]
    if f is NONE:
        I.do_raise("TypeError", st)
        raise Dead()
    if f.op == "ite":
        return I.fork(f.args[0], st, lambda s: call_opaque(I, f.args[1], args, kwargs, s),
                      lambda s: call_opaque(I, f.args[2], args, kwargs, s))
    if f.op == "call" and f.args[0] == "localfunc":
        I.unmodelled["localfunc"] = 1
    return raw("apply", f, *ts)


# ------------------------------------------------------------- methods
def call_method(I, obj, name, args, kw, st, src=None):
    v = I.resolve(obj, st)
    if isinstance(v, PhiV):
        return I.lift(v, st, lambda x, s: call_method(I, x, name, args, kw, s, src))
    d = I.deref(v, st)
    if isinstance(d, T) and d.op == "ite" and not strlike(I, d.args[1]) and not \
            (term_shape(I, d) or isdf(I, d)):
        return I.fork(d.args[0], st, lambda s: I.call(I.getattr(I.box(d.args[1], s), name, s), args, kw, s),
                      lambda s: I.call(I.getattr(I.box(d.args[2], s), name, s), args, kw, s))
    if isinstance(d, Lst):
        return list_method(I, v, d, name, args, kw, st)
    if isinstance(d, Dct):
        return dict_method(I, v, d, name, args, kw, st)
    if isinstance(d, Tup):
        if name == "index":
            x = tt(I, args[0], st)
            for i, it in enumerate(d.items):
                if tt(I, it, st) is x:
                    return num(i)
        if name == "count":
            x = tt(I, args[0], st)
            return padd(*[mkcmp("==", x, tt(I, it, st)) for it in d.items])
        raise Unsupported("tuple method %s" % name)
    if isinstance(d, Arr):
        return arr_method(I, v, d, name, args, kw, st)
    if isinstance(d, T):
        return term_method(I, v, d, name, args, kw, st)
    if isinstance(d, ExtM):
        base = tt(I, d, st)
        return raw("mcall", name, base, *[tt(I, a, st) for a in args])
    raise Unsupported("method %s of %r" % (name, d))


def list_method(I, v, d, name, args, kw, st):
    if name == "append" or (name == "add" and d.kind == "set"):
        list_append(I, v, args[0], st)
        return NONE
    if name in ("extend",) or (name == "update" and d.kind == "set"):
        list_extend(I, v, args[0], st)
        return NONE
    if name == "insert":
        i = num_of(I, args[0], st)
        if is_num(i):
            k = int(i.args[1])
            segs = list(d.segs)
            if 0 <= k <= len(segs) and all(s[0] == "v" for s in segs[:k]):
                segs.insert(k, ("v", args[1]))
                st.heap[v.id] = Lst(segs, d.kind)
                I.mutation(v, st, "insert")
                return NONE
            if k < 0 and all(s[0] == "v" for s in segs[k:]):
                segs.insert(len(segs) + k, ("v", args[1]))
                st.heap[v.id] = Lst(segs, d.kind)
                I.mutation(v, st, "insert")
                return NONE
        t = seqterm(I, v, st)
        w = fresh()
        n = padd(mklen(t), ONE)
        st.heap[v.id] = Lst([("t", tm.bind("tab", [w], [n],
                                           mkite(mkcmp("<", w, i), mkitem(t, w),
                                                 mkite(mkcmp("==", w, i), tt(I, args[1], st),
                                                       mkitem(t, psub(w, ONE))))))], d.kind)
        I.mutation(v, st, "insert")
        return NONE
    if name == "remove" or name == "discard":
        x = tt(I, args[0], st)
        if d.known():
            vals = d.values()
            for i, it in enumerate(vals):
                if tt(I, it, st) is x:
                    st.heap[v.id] = Lst.of(vals[:i] + vals[i + 1:], d.kind)
                    I.mutation(v, st, "remove")
                    return NONE
        t = seqterm(I, v, st)
        r = skip(t, x)
        st.heap[v.id] = Lst([("t", r)], d.kind)
        I.mutation(v, st, "remove")
        return NONE
    if name in ("pop", "__delitem__"):
        i = num_of(I, args[0], st) if args else num(-1)
        if name == "__delitem__" and not (d.known() and is_num(i)):
            t = seqterm(I, v, st)
            w = fresh()
            n = mklen(t)
            if is_num(i) and i.args[1] < 0:
                i = padd(n, i)
            st.heap[v.id] = Lst([("t", tm.bind("tab", [w], [psub(n, ONE)],
                                               mkitem(t, padd(w, mkcmp(">=", w, i)))))], d.kind)
            I.mutation(v, st, "__delitem__")
            return NONE
        if d.known() and d.segs:
            vals = d.values()
            if is_num(i):
                k = int(i.args[1])
                r = vals.pop(k)
                st.heap[v.id] = Lst.of(vals, d.kind)
                I.mutation(v, st, "pop")
                return NONE if name == "__delitem__" else r
        raise Unsupported("pop")
    if name == "index":
        x = tt(I, args[0], st)
        t = seqterm(I, v, st)
        if t.op == "list" and x in t.args and all(is_const(a) for a in t.args[:t.args.index(x)]) and is_const(x):
            return num(t.args.index(x))
        if t.op == "list" and all(is_const(a) for a in t.args) and len(t.args) <= 12 and not is_const(x):
            r = raw("posof", x, t)
            return r
        return ar.mkposof(x, t)
    if name == "count":
        x = tt(I, args[0], st)
        t = seqterm(I, v, st)
        if t.op == "list":
            return padd(*[mkcmp("==", x, a) for a in t.args]) if t.args else ZERO
        w = fresh()
        return psum(w, mklen(t), mkcmp("==", x, mkitem(t, w)))
    if name == "copy":
        return Lst(d.segs, d.kind)
    if name == "sort":
        t = seqterm(I, v, st)
        st.heap[v.id] = Lst([("t", raw("sortedof", t))], d.kind)
        I.mutation(v, st, "sort")
        return NONE
    if name == "reverse":
        if d.known():
            st.heap[v.id] = Lst.of(d.values()[::-1], d.kind)
        else:
            t = seqterm(I, v, st)
            w = fresh()
            n = mklen(t)
            st.heap[v.id] = Lst([("t", tm.bind("tab", [w], [n], mkitem(t, psub(psub(n, ONE), w))))], d.kind)
        I.mutation(v, st, "reverse")
        return NONE
    if name == "clear":
        st.heap[v.id] = Lst([], d.kind)
        I.mutation(v, st, "clear")
        return NONE
    if name == "difference":
        return raw("setdiff", setbase(seqterm(I, v, st)), setbase(seqterm(I, args[0], st)))
    if name == "issubset":
        return mkempty(raw("setdiff", setbase(seqterm(I, v, st)), setbase(seqterm(I, args[0], st))))
    if name == "union":
        return Lst(list(d.segs) + as_segs(I, args[0], st), "set")
    if name in ("intersection", "isdisjoint"):
        if d.known() and len(args) == 1:
            vals = d.values()
            ins = [contains(I, args[0], x, st) for x in vals]
            if name == "isdisjoint":
                return mknot(mkor(*ins)) if ins else TRUE
            if all(b in (TRUE, FALSE) for b in ins):
                return Lst.of([x for x, b in zip(vals, ins) if b is TRUE], "set")
        if name == "isdisjoint":
            raise Unsupported("set method isdisjoint")
        return opaque(I, "set.intersection", [v] + list(args), {}, st, known=True)
    if name == "tolist":
        return v
    if d.kind == "list" and not hasattr(list, name):
        I.do_raise("AttributeError", st)
        raise Dead()
    raise Unsupported("list method %s" % name)


def skip(t, x):
    """Sequence t with the value x removed (distinct values)."""
    if t.op == "B" and t.args[0] == "tab":
        kind, vs, dims, body = bopen(t)
        dlt = psub(body, vs[0])
        if vs[0] not in dlt.fv:
            r = psub(x, dlt)
            w = fresh()
            return tm.bind("tab", [w], [psub(dims[0], ONE)],
                           padd(dlt, w, mkcmp(">=", w, r)))
    n = mklen(t)
    r = raw("listrm", t, x)
    return r


def dict_method(I, v, d, name, args, kw, st):
    cond = any(isinstance(x, PhiV) and (x.a is ABSENT or x.b is ABSENT) for _, x in d.ents)
    if name == "keys":
        return Lst(as_segs(I, v, st), "keys")
    if name in ("values", "items", "iteritems", "itervalues", "iterkeys"):
        if d.known() and not cond:
            if name == "iterkeys":
                return Lst.of([k for k, _ in d.ents])
            if "values" in name:
                return Lst.of([x for _, x in d.ents], "view")
            return Lst.of([Tup([k, x]) for k, x in d.ents], "view")
        return term_method(I, v, tt(I, v, st), name, args, kw, st)
    if name == "get":
        kt = tt(I, args[0], st)
        dflt = args[1] if len(args) > 1 else NONE
        c = contains(I, v, kt, st)
        c = I.simp(c, st)
        return I.fork(c, st, lambda s: ext.dict_get(I, v, d, kt, s), lambda s: dflt)
    if name == "pop":
        kt = tt(I, args[0], st)
        c = I.simp(contains(I, v, kt, st), st)
        x = d.get(kt)
        if x is not None and is_const(kt):
            r = I.resolve(x, st)
            if c is not TRUE and len(args) > 1:
                r = I.fork(c, st, lambda s: ext.dict_get(I, v, d, kt, s), lambda s: args[1])
            else:
                r = ext.dict_get(I, v, d, kt, st)
            d = I.deref(v, st)
            base = d.base if d.base is None else raw("dpop", d.base, kt)
            st.heap[v.id] = Dct(base, [z for z in d.ents if z[0] is not kt], d.kind)
            I.mutation(v, st, "pop")
            return r
        r = I.fork(c, st, lambda s: ext.dict_get(I, v, d, kt, s),
                   lambda s: args[1] if len(args) > 1 else NONE) if c is not FALSE else \
            (args[1] if len(args) > 1 else NONE)
        d = I.deref(v, st)
        if d.base is not None:
            st.heap[v.id] = Dct(raw("dpop", d.base, kt), d.ents, d.kind)
        I.mutation(v, st, "pop")
        return r
    if name == "update":
        nd = d
        if args:
            nd = dict_update(I, nd, args[0], st)
        for k, x in kw.items():
            if k == "**":
                nd = dict_update(I, nd, x, st)
            else:
                nd = Dct(nd.base, [z for z in nd.ents if z[0] is not const(k)] + [(const(k), x)], nd.kind)
        st.heap[v.id] = nd
        I.mutation(v, st, "update")
        return NONE
    if name == "copy":
        return Dct(d.base, d.ents, d.kind)
    if name == "setdefault":
        kt = tt(I, args[0], st)
        c = I.simp(contains(I, v, kt, st), st)
        if c is TRUE:
            return ext.dict_get(I, v, d, kt, st)
        r = I.fork(c, st, lambda s: ext.dict_get(I, v, I.deref(v, s), kt, s), lambda s: args[1])
        d = I.deref(v, st)
        st.heap[v.id] = Dct(d.base, [z for z in d.ents if z[0] is not kt] + [(kt, I.box(r, st))], d.kind)
        I.mutation(v, st, "setdefault")
        return r
    if name == "__delitem__":
        kt = tt(I, args[0], st)
        base = d.base if d.base is None else raw("dpop", d.base, kt)
        st.heap[v.id] = Dct(base, [z for z in d.ents if z[0] is not kt], d.kind)
        I.mutation(v, st, "del")
        return NONE
    if name == "clear":
        st.heap[v.id] = Dct(None, [], d.kind)
        I.mutation(v, st, "clear")
        return NONE
    if name == "__contains__":
        return contains(I, v, args[0], st)
    raise Unsupported("dict method %s" % name)


def arr_method(I, v, d, name, args, kw, st):
    views = [v.id] if isinstance(v, Ref) else []

    def view(a):
        if isinstance(a, Arr) and a.rank == 0:
            return a.body
        return I.alloc(st, a, views=views) if views else a
    if name == "dot":
        b = A(I, args[0], st)
        return out(npdot(I, d, b))
    if name in ("sum", "max", "min", "any", "all", "mean", "prod"):
        return do_reduce(I, v if isinstance(v, Ref) else d, name, args, kw, st, first=0)
    if name in ("ravel", "flatten"):
        how = I.deref(arg(args, kw, 0, "order", const("C")), st)
        if how is const("F") and d.rank > 1:
            r = ar.ravel(ar.transpose(Arr(d.parts, d.bodies, "nd")))
            return Arr(r.parts, r.bodies, "nd") if d.kind != "mx" else ar.newaxis(r, 0).withkind("mx")
        if how is not const("C") and d.rank > 1:
            raise Unsupported("memory order")
        if d.kind == "mx":
            r = ar.newaxis(ar.ravel(d), 0).withkind("mx")
        else:
            r = ar.ravel(d)
            r = Arr(r.parts, r.bodies, "nd", None, d.b)
        return view(r) if name == "ravel" else r
    if name == "reshape":
        a = args
        if len(a) == 1:
            dims = dims_of(I, a[0], st)
        elif not a:
            dims = dims_of(I, kw["newshape"], st)
        else:
            dims = [num_of(I, x, st) for x in a]
        order = kw.get("order")
        tot = ONE
        for x in d.dims:
            tot = pmul(tot, x)
        neg = [i for i, x in enumerate(dims) if is_num(x) and x.args[1] == -1]
        if neg:
            rest = ONE
            for i, x in enumerate(dims):
                if i not in neg:
                    rest = pmul(rest, x)
            dims = [pdiv(tot, rest) if i in neg else x for i, x in enumerate(dims)]
        if order is not None:
            ot = I.deref(order, st)
            if ot is not const("F") and ot is not const("C"):
                raise Unsupported("memory order")
            if isinstance(ot, T) and is_str(ot) and ot.args[1] == "F":
                r = ar.transpose(ar.reshape(ar.transpose(d), list(reversed(dims))))
                return view(r)
        return view(ar.reshape(d, dims))
    if name == "transpose":
        if args:
            ax_ = [axis_of(I, x, st) for x in (I.deref(args[0], st).items if isinstance(I.deref(args[0], st), Tup) else args)]
            return view(ar.transpose(d, ax_))
        r = view(ar.transpose(d))
        I.transposed(v, r)
        return r
    if name == "swapaxes":
        i, j = [axis_of(I, x, st) % d.rank for x in args]
        p = list(range(d.rank))
        p[i], p[j] = p[j], p[i]
        return view(ar.transpose(d, p))
    if name == "squeeze":
        a = d
        axis = axis_of(I, arg(args, kw, 0, "axis"), st)
        for k in range(d.rank - 1, -1, -1):
            if a.parts[k] == (ONE,) and (axis is None or axis % d.rank == k):
                a = ar.dropaxis(a, k)
        return view(a)
    if name == "astype":
        ty = I.deref(args[0] if args else kw.get("dtype"), st)
        nm = ty.path.split(".")[-1] if isinstance(ty, Ext) else (ty.args[1] if isinstance(ty, T) and is_str(ty) else "")
        r = d
        if nm in ("bool", "bool_"):
            r = ar.amap(boolify, d)
            r.b = True
        elif ext.dtype_q(I, args[0] if args else kw.get("dtype"), st) is not None:
            q = ext.dtype_q(I, args[0] if args else kw.get("dtype"), st)
            r = ext.quant(I, d, q, True)
            r.q = q
        elif nm.startswith("float"):
            r = Arr(d.parts, d.bodies, d.kind, d.meta)
        elif nm in ("str", "object", "S", "U"):
            r = Arr(d.parts, d.bodies, d.kind, d.meta)
        else:
            r = Arr(d.parts, d.bodies, d.kind, d.meta)
        if "copy" in kw and truth(I, kw["copy"], st) is not TRUE:
            return view(r)
        return r
    if name in ("tocsr", "tocsc", "tocoo") and d.kind == "sp" and name == I.spformat(v) and \
            ("copy" not in kw or truth(I, kw["copy"], st) is FALSE):
        return v
    if name in ("copy", "tocsr", "tocsc", "tocoo", "conj"):
        return Arr(d.parts, d.bodies, d.kind, d.meta, d.b)
    if name in ("toarray",):
        return d.withkind("nd")
    if name == "todense":
        return d.withkind("mx")
    if name in ("view",):
        return view(d)
    if name == "to_numpy":
        return view(Arr(d.parts, d.bodies, "nd"))
    if name in ("tolist", "to_list"):
        seq = itemseq(I, v, st)
        if d.rank == 1:
            if seq[0] == "known":
                return Lst.of([I.box(x, st) for x in seq[1]])
            return Lst([("t", seqterm(I, v, st))])
        return Lst([("t", seqterm(I, v, st))])
    if name in ("multiply", "mul", "add", "sub", "subtract", "div", "divide", "power", "pow", "truediv", "true_divide"):
        b = A(I, args[0], st)
        f = {"mul": "multiply", "sub": "subtract", "div": "divide", "pow": "power", "truediv": "divide", "true_divide": "divide"}.get(name, name)
        k = d.kind if d.kind == "sp" else None
        if k is None and b.kind in ("sp", "mx"):
            k = "mx"
        r = ar.ew(BIN[f], d, b, kind=k) if k else ar.ew(BIN[f], d, b)
        return r
    if name in ("abs",):
        return ar.amap(UN["abs"], d)
    if name in ("eq", "ne", "gt", "ge", "lt", "le"):
        o = {"eq": "==", "ne": "!=", "gt": ">", "ge": ">=", "lt": "<", "le": "<="}[name]
        r = ar.ew(lambda p, q: mkcmp(o, p, q), d, A(I, args[0], st))
        r.b = True
        return r
    if name == "between":
        inc = kw.get("inclusive", const("both"))
        lo, hi = {"both": (">=", "<="), "neither": (">", "<"), "left": (">=", "<"), "right": (">", "<=")}[inc.args[1]]
        r = ar.ew(lambda p, q: mkcmp(lo, p, q), d, A(I, arg(args, kw, 0, "left"), st))
        q = ar.ew(lambda p, q: mkcmp(hi, p, q), d, A(I, arg(args, kw, 1, "right"), st))
        r = ar.ew(mkand, r, q)
        r.b = True
        return r
    if name == "clip":
        return np_call(I, "clip", [v] + list(args), kw, st)
    if name == "round" and set(kw) <= {"decimals"} and isinstance(d, Arr):
        n = num_of(I, (args or [kw.get("decimals", ZERO)])[0], st)
        if is_num(n):
            k = num(10 ** int(n.args[1])) if n.args[1] >= 0 else pdiv(ONE, num(10 ** int(-n.args[1])))
            return out(ar.amap(lambda b: pdiv(mkfn("rint", pmul(k, b)), k), d))
    if name in ("repeat", "argsort", "argmax", "argmin", "cumsum", "cumprod", "searchsorted", "std", "var", "round",
                "take"):
        if name == "repeat":
            return np_call(I, "repeat", [v] + list(args), kw, st)
        if name == "take":
            axis = axis_of(I, arg(args, kw, 1, "axis"), st)
            a = d if axis is not None else ar.ravel(d)
            return ar.gather(a, axis or 0, A(I, args[0], st))
        shape = d.dims if name in ("argsort", "cumsum", "cumprod", "round") else None
        return opaque(I, "np." + name, [v] + list(args), kw, st, shape=shape)
    if name in ("max", "min"):
        return do_reduce(I, v, name, args, kw, st)
    if name == "unique":
        return series_unique(I, d)
    if name == "nunique" and not args and not kw:
        u = series_unique(I, d)
        return A(I, u, st).dims[0]
    if name in ("isnull", "isna", "notnull", "notna"):
        r = ar.amap(UN[{"isna": "isnull", "notna": "notnull"}.get(name, name)], d)
        r.b = True
        return r
    if name == "isin":
        b = seqterm(I, ravelled(I, args[0], st), st)
        r = ar.amap(lambda x: ar.mkisin(x, b), d)
        r.b = True
        return r
    if name == "diagonal":
        return np_call(I, "diag", [v], {}, st)
    if name == "item":
        if not args:
            return num_of(I, d, st)
        raise Unsupported("item")
    if name == "nonzero":
        return np_call(I, "nonzero", [v], {}, st)
    if name == "fill":
        st.heap[v.id] = ar.amap(lambda b: num_of(I, args[0], st), d)
        I.mutation(v, st, "fill")
        return NONE
    if name == "sort":
        if d.kind in ("se", "df"):
            return opaque(I, "pd.sort", [v], kw, st)
        r = np_sort(I, d, kw, st)
        st.heap[v.id] = r
        I.mutation(v, st, "sort")
        return NONE
    if name == "trace":
        dd = np_call(I, "diag", [v], {}, st)
        return out(ar.reduce_sum(dd, 0))
    if name == "getnnz":
        return raw("call", "nnz", ar.lower(d))
    if name in ("items", "iteritems", "keys") and d.kind == "se" and d.meta is not None:
        ix = d.meta[0]
        if name == "keys":
            return ix
        return zip_(I, [ix, Arr(d.parts, d.bodies, "nd")], st)
    if name == "map" and d.kind == "se" and len(args) == 1 and not kw:
        m = I.deref(args[0], st)
        if isinstance(m, Arr) and m.kind == "se" and m.meta is not None:
            r = ext.labels_get(I, m, m.meta[0], Arr(d.parts, d.bodies, "nd"), st)
            return r.withmeta(d.meta) if d.meta is not None else Arr(r.parts, r.bodies, "se")
    if name == "to_dict" and d.kind == "se" and d.meta is not None:
        return Dct(raw("dictzip", d.meta[0], seqterm(I, Arr(d.parts, d.bodies, "nd"), st)), [])
    if name == "rename" and d.kind == "se" and len(args) == 1 and not kw:
        t = I.deref(I.resolve(args[0], st), st)
        if isinstance(t, T) and is_str(t):
            return I.alloc(st, d.withmeta(((d.meta if d.meta is not None else (NONE, NONE))[0], t)))
    if name == "reset_index" and d.kind == "se" and "drop" in kw and truth(I, kw["drop"], st) is TRUE:
        v0 = fresh()
        return d.withmeta((tm.bind("tab", [v0], [d.dims[0]], v0), d.meta[1] if d.meta else NONE))
    if name == "reset_index" and d.kind == "df" and "drop" in kw and truth(I, kw["drop"], st) is TRUE and d.meta:
        v0 = fresh()
        return d.withmeta((tm.bind("tab", [v0], [d.dims[0]], v0), d.meta[1]))
    return raw("mcall", name, tt(I, v, st), *[tt(I, a, st) for a in args] +
               [y for k in sorted(kw) for y in (const(k), tt(I, kw[k], st))])


REALCOLS = set()       # columns of the caller's tables that hold measurements, not identifiers


def measured(b):
    """Mentions a column of measurements."""
    return bool(REALCOLS) and any(x.op == "getcol" and any(y in REALCOLS for y in x.args) for x in tm.subterms(b))


def intlike(b, ids=False):
    """Whole numbers, whatever the input; with `ids`, elements of the caller's tables count as such."""
    if ids and b.op in ("at", "item"):
        return not measured(b.args[0])
    if tm.isbool(b) or b.op in ("delta", "posof", "lenof", "nrows", "nuniq", "count", "v", "b",
                                "ax", "nth", "rnk"):
        return True
    if b.op == "sym":
        return b.args[1] in ("int", "size")
    if b.op == "ite":
        return intlike(b.args[1], ids) and intlike(b.args[2], ids)
    if b.op == "fn":
        return b.args[0] in ("trunc", "floor", "ceil", "rint")
    if b.op not in ("c", "poly", "mono"):
        return intpoly(b)
    for m, c in tm._terms(b):
        if c.denominator != 1:
            return False
        if m is tm.ONEMONO:
            continue
        if any(e < 0 or not (intlike(f, ids) or f.op in ("fdiv", "mod")) for f, e in tm._factors(m)[1]):
            return False
    return True


def frame_method(I, d, name, args, kw, st):
    """drop_duplicates and reset_index of frames"""
    if name == "assign" and not args and kw:
        for k in kw:
            if not isinstance(I.deref(kw[k], st), (T, Arr)):
                return None
        for k in kw:
            va = ext.A(I, kw[k], st)
            if va.rank == 0:
                va = ar.mk([tm.mknrows(d)], va.body)
            d = raw("setcol", d, const(k), ar.lower(Arr(va.parts, va.bodies)))
        return d
    if name == "reset_index" and not args and not set(kw) - {"inplace", "drop"}:
        drop = truth(I, kw["drop"], st) if "drop" in kw else FALSE
        if drop in (TRUE, FALSE):
            return raw("dfreset", d, drop)
    if name == "drop_duplicates" and not set(kw) - {"inplace", "subset", "keep"}:
        if "keep" in kw and I.deref(kw["keep"], st) is not const("first"):
            return None
        sub = kw.get("subset", args[0] if args else NONE)
        if isnone(sub):
            cols = ext.knowncols(d)
            b = d
            while b.op in ("dfcols", "setcol", "dftake", "dfrows"):
                b = b.args[0]
            for k in cols or []:
                # the other columns are functions of this one
                if (b, k) in I.keycols:
                    return raw("dftake", d, raw("firstidx", tm.mkgetcol(d, k)))
            return None
        L = I.deref(sub, st)
        if not (isinstance(L, T) and is_str(L)):
            L = seqterm(I, sub, st)
            if L.op not in ("list", "tuple") or len(L.args) != 1:
                return None
            L = L.args[0]
        return raw("dftake", d, raw("firstidx", tm.mkgetcol(d, L)))
    if name in ("set_index", "sort_values") and not set(kw) - {"inplace", "keys", "by", "drop"}:
        L = I.deref(arg(args, kw, 0, "keys" if name == "set_index" else "by"), st)
        if isinstance(L, T) and is_str(L) and "drop" not in kw:
            if name == "set_index":
                return raw("dfindex", d, L)
            return raw("dftake", d, raw("sortidx", tm.mkgetcol(d, L)))
    if name == "duplicated" and not set(kw) - {"subset", "keep"}:
        sub = kw.get("subset", args[0] if args else NONE)
        if isnone(sub):
            return None
        L = I.deref(sub, st)
        L = [L] if isinstance(L, T) and is_str(L) else list(seqterm(I, sub, st).args) if seqterm(I, sub, st).op in ("list", "tuple") else None
        keep = I.deref(kw["keep"], st) if "keep" in kw else const("first")
        if not L or keep not in (const("first"), const("last"), FALSE):
            return None
        cols = [tm.mkgetcol(d, k) for k in L]
        n = tm.mknrows(d)
        j = fresh()
        other = mkcmp("<", j, ax(0)) if keep is const("first") else mkcmp(">", j, ax(0)) if keep is const("last") \
            else mknot(mkcmp("==", j, ax(0)))
        b = tm.mkany(tm.bind("lam", [j], [n], mkand(other, *[mkcmp("==", mkat(c, j), mkat(c, ax(0))) for c in cols])))
        return ar.mk([n], b, "se").withmeta((ext.frame_index(d), NONE))
    return None


def groupcol(I, d):
    """(frame, key, column, order) of df.groupby(key)[column]"""
    if d.op in ("item", "getcol") and d.args[0].op == "mcall" and d.args[0].args[0] == "groupby":
        g = d.args[0].args[1:]
        if isdf(I, g[0]) and len(g) in (2, 4) and is_str(g[1]) and (len(g) == 2 or g[2] is const("sort")) and is_str(d.args[1]):
            return g[0], g[1], d.args[1], "uo" if len(g) == 4 and g[3] is FALSE else "su"
    if d.op == "mcall" and d.args[0] == "groupby" and len(d.args) in (3, 5):
        x, k = d.args[1:3]
        if x.op == "getcol" and k.op == "getcol" and x.args[0] is k.args[0] and isdf(I, x.args[0]) and is_str(x.args[1]) and \
                is_str(k.args[1]) and (len(d.args) == 3 or d.args[3] is const("sort")):
            return x.args[0], k.args[1], x.args[1], "uo" if len(d.args) == 5 and d.args[4] is FALSE else "su"
    return None


def group_method(I, d, name, args, kw, st):
    """Aggregates of one column by the values of another."""
    g = groupcol(I, d)
    if g is None or args or kw or name not in ("sum", "size", "count"):
        return None
    df, k, c, order = g
    key, col = tm.mkgetcol(df, k), tm.mkgetcol(df, c)
    labels = raw(order, key)
    i = fresh()
    e = mkcmp("==", mkat(key, i), mkat(labels, ax(0)))
    b = tm.psum(i, tm.mknrows(df), pmul(e, mkat(col, i)) if name == "sum" else e)
    return ar.mk([raw("nuniq", key)], b, "se").withmeta((labels, c))


def term_method(I, v, d, name, args, kw, st):
    if strlike(I, d) or is_str(d):
        if name == "format":
            return str_format(I, d, args, kw, st)
        if is_str(d):
            if name == "join":
                seq = itemseq(I, args[0], st)
                if seq[0] == "known":
                    parts = []
                    for i, x in enumerate(seq[1]):
                        if i:
                            parts.append(d)
                        parts.append(tt(I, x, st))
                    return mksconcat(*parts) if parts else const("")
            ts = [I.deref(a, st) for a in args]
            if all(isinstance(x, T) and is_const(x) for x in ts):
                s = d.args[1]
                a = [cval(x) for x in ts]
                try:
                    r = getattr(s, name)(*a)
                except Exception:
                    raise Unsupported("string method %s" % name)
                if isinstance(r, (str, int, bool)):
                    return const(r)
                if isinstance(r, list):
                    return Lst.of([const(x) for x in r])
        if name == "format":
            return str_format(I, d, args, kw, st)
        if name in ("endswith", "startswith"):
            return raw("cmp", name, d, tt(I, args[0], st))
        return raw("mcall", name, d, *[safe(I, a, st) for a in args])
    if d.op == "frozen" and d.args[0] == "norm":
        if name in NORM:
            return norm_fn(I, name, args, kw, st, d.args[1], d.args[2])
        if name == "rvs":
            size = kw.get("size", args[0] if args else None)
            k2 = {"size": size}
            if "random_state" in kw:
                k2["random_state"] = kw["random_state"]
            return draw(I, "norm", [d.args[1], d.args[2]], k2, st, st.rng, None)
    if isinstance(v, Ref) and isinstance(st.heap[v.id], Opq) and st.heap[v.id].kind == "rng":
        return draw(I, "np." + name, args, kw, st, d, v)
    a = None if isdf(I, d) else arr_of_term(I, d)
    if a is not None and a.rank and name in ext.ARRMETH:
        if d.op == "getcol":
            a = a.withkind("se")
        r = I.alloc(st, a, views=[v.id]) if isinstance(v, Ref) else a
        return arr_method(I, r, a, name, args, kw, st)
    a = group_method(I, d, name, args, kw, st)
    if a is not None:
        return a
    # lists / dicts held as terms
    if name == "append" and isinstance(v, Ref):
        list_append(I, v, args[0], st)
        return NONE
    if name == "extend" and isinstance(v, Ref):
        list_extend(I, v, args[0], st)
        return NONE
    if name in ("keys", "iterkeys"):
        return mkkeys(d)
    if name in ("values", "itervalues", "items", "iteritems") and not isdf(I, d):
        if d.op == "dict":
            vs = [Tup([d.args[i], d.args[i + 1]]) if "items" in name else d.args[i + 1]
                  for i in range(0, len(d.args), 2)]
            return Lst.of(vs, "view")
        K = mkkeys(d)
        w = fresh()
        body = mkitem(d, mkitem(K, w))
        if "items" in name:
            body = raw("tuple", mkitem(K, w), body)
        return Lst([("t", tm.bind("tab", [w], [mklen(K)], body))], "view")
    if name == "get" and not isdf(I, d):
        kt = tt(I, args[0], st)
        dflt = tt(I, args[1], st) if len(args) > 1 else NONE
        return mkite(I.simp(inkeys(kt, d), st), mkitem(d, kt), dflt)
    if name == "copy":
        if isinstance(v, Ref):
            c = st.heap[v.id]
            return I.alloc(st, Opq(d, c.kind) if isinstance(c, Opq) else c)
        return d
    if name == "pop" and isinstance(v, Ref):
        if args:
            kt = tt(I, args[0], st)
            r = mkitem(d, kt)
            if len(args) > 1:
                r = mkite(I.simp(inkeys(kt, d), st), r, tt(I, args[1], st))
            st.heap[v.id] = Opq(raw("dpop", d, kt), st.heap[v.id].kind if isinstance(st.heap[v.id], Opq) else None)
            I.mutation(v, st, "pop")
            return r
    if name == "update" and isinstance(v, Ref):
        t = d
        if args:
            t = raw("dmerge", t, tt(I, args[0], st))
        for k in sorted(kw):
            t = raw("dset", t, const(k), tt(I, kw[k], st))
        st.heap[v.id] = Opq(t)
        I.mutation(v, st, "update")
        return NONE
    if name in ("insert", "remove", "sort", "reverse", "clear", "setdefault", "__delitem__", "add") and \
            isinstance(v, Ref):
        segs = as_segs(I, d, st)
        if name in ("insert", "remove", "sort", "reverse", "clear"):
            st.heap[v.id] = Lst(segs)
            return list_method(I, v, st.heap[v.id], name, args, kw, st)
        st.heap[v.id] = Opq(raw("mcall", name, d, *[tt(I, a, st) for a in args]))
        I.mutation(v, st, name)
        return NONE
    if name == "difference":
        return raw("setdiff", setbase(d), setbase(seqterm(I, args[0], st)))
    if name == "index" and not isdf(I, d):
        return ar.mkposof(tt(I, args[0], st), d)
    if name == "tolist":
        if d.op == "attr" and d.args[1] == "columns" or True:
            return raw("listof", d) if d.op not in ("listof", "list") else d
    if isdf(I, d):
        INPL = {"drop", "rename", "sort_values", "reset_index", "set_index", "fillna", "drop_duplicates", "insert",
                "sort", "replace", "update", "pop"}
        inpl = kw.get("inplace")
        r = frame_method(I, d, name, args, kw, st)
        if isinstance(r, Arr):
            return r
        if r is not None:
            if inpl is None or truth(I, inpl, st) is FALSE:
                return I.alloc(st, Opq(r, "df"))
            if isinstance(v, Ref):
                st.heap[v.id] = Opq(r, "df")
                I.mutation(v, st, name + " in place")
                return NONE
        if (inpl is not None and truth(I, inpl, st) is not FALSE) or name in ("insert", "update", "pop"):
            r = raw("mcall", name, d, *[tt(I, a, st) for a in args] +
                    [y for k in sorted(kw) if k != "inplace" for y in (const(k), tt(I, kw[k], st))])
            if isinstance(v, Ref):
                st.heap[v.id] = Opq(r, "df")
                I.tshape[r] = "df"
                I.mutation(v, st, name + " in place")
                return NONE
        r = raw("mcall", name, d, *[tt(I, a, st) for a in args] +
                [y for k in sorted(kw) if k != "inplace" for y in (const(k), tt(I, kw[k], st))])
        if name in INPL:
            I.tshape[r] = "df"
        if name in ("iterrows", "groupby"):
            pass
        return r
    return raw("mcall", name, d, *[safe(I, a, st) for a in args] +
               [y for k in sorted(kw) for y in (const(k), safe(I, kw[k], st))])
