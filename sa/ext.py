"""Models of builtins and of the numpy / scipy / pandas operations that the
analysed code uses.  Each model maps value numbers to value numbers; unknown
operations become opaque terms and are counted, never guessed."""
import ast
import re
import string
from fractions import Fraction
from .terms import *
from . import terms as tm
from . import arrays as ar
from .arrays import Arr
from .interp import (Unsupported, AnalysisBroken, Dead, Ref, Tup, Func, Bound, Partial, Cls, Super,
                     Mod, Ext, ExtM, PhiV, SliceV, SymFunc, PyFunc, Opq, Lst, Dct, Obj, ABSENT,
                     State, same)

BUILTINS = {
    "len", "range", "xrange", "list", "tuple", "dict", "set", "sorted", "zip", "enumerate", "sum",
    "min", "max", "abs", "any", "all", "isinstance", "hasattr", "getattr", "setattr", "str", "int",
    "float", "bool", "type", "print", "repr", "map", "filter", "reversed", "super", "open", "round",
    "ValueError", "TypeError", "KeyError", "IndexError", "AssertionError", "Exception", "AttributeError",
    "NotImplementedError", "ImportError", "RuntimeError", "LookupError", "StopIteration", "object",
    "property", "staticmethod", "classmethod", "callable", "issubclass", "id", "divmod", "pow",
    "frozenset", "iter", "next", "vars", "delattr", "UserWarning", "DeprecationWarning", "Warning",
    "ZeroDivisionError", "OverflowError", "FloatingPointError", "True", "False", "None", "bytes", "slice",
    "complex", "hash", "Ellipsis", "NotImplemented", "BaseException", "basestring", "unicode", "long",
    "FutureWarning", "RuntimeWarning", "OSError", "IOError", "globals", "locals", "dir", "chr", "ord",
}

# opaque functions whose meaning is fixed by their name (comparable)
KNOWNPURE = {"inv", "pinv", "matrix_rank", "strftime", "time", "det", "eigvals", "quantile"}


# ----------------------------------------------------------------- shapes
def term_shape(I, t):
    """Dims of an array-valued term, [] for scalars, None if unknown."""
    op = t.op
    s = I.tshape.get(t)
    if s is not None:
        return s
    if op == "B":
        if t.args[0] in ("lam", "tab"):
            kind, dims, body = tm.bparts(t)
            if t.args[0] == "tab":
                k, vs, dims, body = bopen(t)
                r = term_shape(I, body)
                if r is None or any(vs[0] in d.fv for d in r):
                    return [dims[0]] if r is None else None
                return [dims[0]] + r
            return list(dims)
        return None
    if op == "c":
        return []
    if op == "pd":
        return term_shape(I, t.args[1])
    if op in ("poly", "mono", "fn", "delta", "v", "b", "dim", "lenof", "nrows", "nuniq", "count",
              "sconcat", "red", "posof", "rnk", "nth", "fdiv", "mod", "at", "len"):
        return []
    if tm.isbool(t):
        return []
    if op == "sym":
        if t.args[0] in I.shapes:
            return list(I.shapes[t.args[0]])
        if t.args[1] in ("num", "int", "size", "str", "bool"):
            return []
        return None
    if op == "apply" and I.fshape:
        known = [I.fshape.get((t.args[0], a)) for a in t.args[1:]]
        known = [x for x in known if x is not None]
        if known and all(x == known[0] for x in known):
            return list(known[0])
    if op == "getcol":
        return [mknrows(t.args[0])]
    if op in ("uo", "su", "firstidx", "suidx"):
        return [raw("nuniq", t.args[0])]
    if op == "sortidx":
        return term_shape(I, t.args[0])
    if op == "ite":
        a, b = term_shape(I, t.args[1]), term_shape(I, t.args[2])
        if t.args[1] is NONE:
            return b
        if t.args[2] is NONE:
            return a
        if a is not None and b is not None and len(a) == len(b):
            if all(x is y for x, y in zip(a, b)):
                return a
            return [mkite(t.args[0], x, y) for x, y in zip(a, b)]
        return None
    if op == "item":
        b = t.args[0]
        if b.op == "sym" and (b.args[0] + "[]") in I.shapes:
            return list(I.shapes[b.args[0] + "[]"])
        s = term_shape(I, b)
        if s is not None and len(s) >= 1:
            return s[1:]
        return None
    if op in ("list", "tuple"):
        rs = [term_shape(I, a) for a in t.args]
        if rs and all(r is not None and len(r) == len(rs[0]) and all(x is y for x, y in zip(r, rs[0]))
                      for r in rs):
            return [num(len(rs))] + rs[0]
        if not rs:
            return [ZERO]
        return None
    if op == "lcat":
        rs = [term_shape(I, a) for a in t.args]
        if all(r is not None and len(r) == len(rs[0]) and all(x is y for x, y in zip(r[1:], rs[0][1:]))
               for r in rs):
            return [padd(*[r[0] for r in rs])] + rs[0][1:]
        return None
    if op == "flat":
        n = flat_len(I, t)
        k, vs, dims, body = bopen(t.args[0])
        r = term_shape(I, body)
        if r is not None and n is not None:
            return [n] + r[1:]
        return None
    if op == "blk":
        rank = t.args[0]
        return [padd(*p.args) for p in t.args[1:1 + rank]]
    return None


def flat_len(I, t):
    k, vs, dims, body = bopen(t.args[0])
    return psum(vs[0], dims[0], mklen(body))


def arr_of_term(I, t, kind="nd"):
    if t.op == "ite" and (t.args[1].op == "blk" or t.args[2].op == "blk"):
        a, b = arr_of_term(I, t.args[1], kind), arr_of_term(I, t.args[2], kind)
        if a is not None and b is not None and a.rank == b.rank:
            return ar.ew(lambda x, y: mkite(t.args[0], x, y), a, b, kind=kind)
    if t.op == "blk":
        rank = t.args[0]
        parts = [p.args for p in t.args[1:1 + rank]]
        from itertools import product
        keys = list(product(*[range(len(p)) for p in parts]))
        bodies = {}
        for k, sub in zip(sorted(keys), t.args[1 + rank:]):
            a = ar.of_term(sub, [parts[i][k[i]] for i in range(rank)])
            bodies[k] = a.body
        return Arr(parts, bodies, kind)
    if t.op == "pd":
        a = arr_of_term(I, t.args[1], t.args[0])
        return a.withmeta((t.args[2], t.args[3])) if a is not None else None
    s = term_shape(I, t)
    if s is None:
        return None
    if not s:
        return ar.scalar(t)
    if t.op == "B" and t.args[0] == "tab":
        k, vs, dims, body = bopen(t)
        inner = arr_of_term(I, body)
        if inner is None:
            return None
        inner = ar.unblock(inner)
        x = ar.newaxis(inner, 0)
        return ar.mk([dims[0]] + inner.dims, subst(x.body, {vs[0]: ax(0)}), kind)
    if t.op in ("list", "tuple"):
        if not t.args:
            return ar.mk([ZERO], ZERO, kind)
        items = [arr_of_term(I, a) for a in t.args]
        return ar.concat([ar.newaxis(x, 0).withkind(kind) for x in items], 0)
    if t.op == "lcat":
        items = [arr_of_term(I, a) for a in t.args]
        if any(x is None for x in items):
            return None
        return ar.concat([x.withkind(kind) for x in items], 0)
    if t.op == "item" and len(s) >= 1:
        b = arr_of_term(I, t.args[0]) if term_shape(I, t.args[0]) is not None and \
            len(term_shape(I, t.args[0])) == len(s) + 1 else None
        if b is not None:
            r = ar.index_at(b, 0, t.args[1])
            return r.withkind(kind)
    return ar.of_term(t, s, kind)


def symseq_arr(I, t, kind="nd"):
    return arr_of_term(I, t, kind)


def A(I, v, st, strict=False):
    """Value as an array (rank 0 for scalars)."""
    v = I.resolve(v, st)
    if isinstance(v, Arr):
        return v
    if isinstance(v, Ref):
        c = st.heap[v.id]
        if isinstance(c, Arr):
            return c
        if isinstance(c, Opq):
            v = c.t
        elif isinstance(c, Lst):
            return lst_arr(I, c.segs, st)
        elif isinstance(c, Dct) or isinstance(c, Obj):
            raise Unsupported("array of %r" % (c,))
    if isinstance(v, Lst):
        return lst_arr(I, v.segs, st)
    if isinstance(v, Tup):
        return lst_arr(I, [("v", x) for x in v.items], st)
    if isinstance(v, T):
        a = arr_of_term(I, v)
        if a is not None:
            return a
        if strict:
            raise Unsupported("array of unknown rank: %s" % show(v, 3))
        return ar.scalar(v)
    if isinstance(v, PhiV):
        a, b = A(I, v.a, st), A(I, v.b, st)
        if a.rank == b.rank and (a.parts == b.parts):
            return ar.ew(lambda x, y: mkite(v.c, x, y), a, b)
        raise Unsupported("phi of arrays on %s" % show(v.c, 4))
    raise Unsupported("array of %r" % (v,))


def lst_arr(I, segs, st):
    if not segs:
        return ar.mk([ZERO], ZERO)
    items = []
    for k, v in segs:
        if k == "v":
            a = A(I, v, st)
            items.append(ar.newaxis(a.withkind("nd"), 0))
        else:
            a = arr_of_term(I, v)
            if a is None:
                a = ar.mk([mklen(v)], mkitem(v, ax(0)))
            items.append(a)
    if any(x.rank != items[0].rank for x in items):
        raise Unsupported("ragged array")
    return ar.concat(items, 0)


def tt(I, v, st):
    """Value as a term."""
    return I.lower(v, st)


def num_of(I, v, st):
    """Value as a scalar term."""
    v = I.resolve(v, st)
    if isinstance(v, T):
        return v
    d = I.deref(v, st)
    if isinstance(d, T):
        return d
    if isinstance(d, Arr):
        while d.rank:
            if d.dims[0] is ONE:
                d = ar.index_at(d, 0, ZERO)
            else:
                raise Unsupported("scalar expected")
        return d.body
    if isinstance(v, PhiV):
        return mkite(v.c, num_of(I, v.a, st), num_of(I, v.b, st))
    raise Unsupported("scalar expected: %r" % (d,))


def out(a):
    """Array result: scalars become terms."""
    if isinstance(a, Arr) and a.rank == 0:
        return a.body
    return a


def opaque(I, name, args, kwargs, st, shape=None, known=False):
    """Opaque pure call."""
    ts = []
    for a in args:
        ts.append(tt(I, a, st))
    for k in sorted(kwargs):
        ts += [const(k + "="), tt(I, kwargs[k], st) if not isinstance(kwargs[k], T) else kwargs[k]]
    t = raw("call", name, *ts)
    if not known and name.split(".")[-1] not in KNOWNPURE:
        I.unmodelled[name] = I.unmodelled.get(name, 0) + 1
    if shape is not None:
        I.tshape[t] = list(shape)
        return out(ar.of_term(t, list(shape))) if shape else t
    return t


# ----------------------------------------------------------------- inf tests
def mkinf(name, t):
    if t.op == "ite":
        return mkite(t.args[0], mkinf(name, t.args[1]), mkinf(name, t.args[2]))
    if is_num(t):
        return FALSE
    if t is INF:
        return TRUE if name == "isposinf" else FALSE
    if t.op == "mono" or t.op == "poly":
        ms = list(tm._terms(t))
        if len(ms) == 1 and tm._unmono(ms[0][0]) is INF:
            pos = ms[0][1] > 0
            return const(pos if name == "isposinf" else (not pos if name == "isneginf" else False))
    if t.op == "v" or t.op == "b" or tm.isbool(t):
        return FALSE
    return raw(name, t)


for _n in ("isposinf", "isneginf", "isnan"):
    REBUILD[_n] = (lambda nm: (lambda t: mkinf(nm, t)))(_n)


def mkisinf(t):
    return mkor(mkinf("isposinf", t), mkinf("isneginf", t))


# ----------------------------------------------------------------- operators
OPS = {ast.Add: padd, ast.Sub: psub, ast.Mult: pmul, ast.Div: pdiv}


def strlike(I, t):
    return is_str(t) or t.op in ("sconcat", "fmtval", "strof") or (t.op == "sym" and t.args[1] == "str") \
        or (t.op == "mcall" and t.args[0] == "format")


def _pow(x, y):
    return mkfn("pow", x, y)


def binop(I, op, a, b, st):
    da, db = I.deref(a, st), I.deref(b, st)
    if isinstance(op, ast.Mod) and isinstance(da, T) and strlike(I, da):
        return percent(I, da, b, st)
    if isinstance(op, ast.Add):
        if isinstance(da, Tup) and isinstance(db, Tup):
            return Tup(da.items + db.items)
        if isinstance(da, Lst) or isinstance(db, Lst):
            if isinstance(da, Arr) or isinstance(db, Arr):
                return arith(I, op, A(I, a, st), A(I, b, st))
            return Lst(as_segs(I, a, st) + as_segs(I, b, st))
        if isinstance(da, T) and isinstance(db, T):
            if strlike(I, da) or strlike(I, db):
                return mksconcat(da, db)
            if da.op in LISTOPS or db.op in LISTOPS:
                return mklcat(da, db)
    if isinstance(op, ast.Mult):
        for x, y, yv in ((da, db, b), (db, da, a)):
            if isinstance(x, (Lst, Tup)) and isinstance(y, T):
                items = x.values() if isinstance(x, Lst) else list(x.items)
                if isinstance(x, Tup) or x.known():
                    if is_num(y):
                        r = items * int(y.args[1])
                        return Tup(r) if isinstance(x, Tup) else Lst.of(r)
                    if len(items) == 1:
                        v = fresh()
                        return Lst([("t", tm.bind("tab", [v], [y], tt(I, items[0], st)))])
            if isinstance(x, T) and is_str(x) and isinstance(y, T) and is_num(y):
                return const(x.args[1] * int(y.args[1]))
    if isinstance(op, ast.Sub) and (isset(I, a, st) or isset(I, b, st)):
        return raw("setdiff", setbase(tt(I, a, st)), setbase(tt(I, b, st)))
    if isinstance(op, ast.BitOr) and isinstance(da, Dct) and isinstance(db, (Dct, T)):
        return dict_update(I, da, b, st)
    if isinstance(da, (Obj, Dct)) or isinstance(db, (Obj, Dct)):
        raise Unsupported("operator on object")
    x, y = A(I, a, st), A(I, b, st)
    return out(arith(I, op, x, y))


LISTOPS = {"list", "lcat", "flat", "listof", "keysof", "sortedof"}


def iskeys(d):
    """Compares as a set: sets and dictionary key views."""
    return (isinstance(d, Lst) and d.kind in ("set", "keys")) or (isinstance(d, T) and d.op in ("setof", "setdiff", "keysof"))


def isset(I, v, st):
    d = I.deref(v, st)
    return (isinstance(d, Lst) and d.kind == "set") or (isinstance(d, T) and d.op in ("setof", "setdiff"))


def setbase(t):
    while t.op in ("setof", "sortedof", "listof"):
        t = t.args[0]
    return t


def arith(I, op, x, y):
    if isinstance(op, ast.MatMult):
        return npdot(I, x, y)
    if isinstance(op, ast.Mult) and ("sp" in (x.kind, y.kind) or "mx" in (x.kind, y.kind)) \
            and x.rank and y.rank:
        if x.rank == 2 and x.kind == "nd" and y.kind == "sp" and y.rank == 2:
            r = ar.dot(x, y)
            return r.withkind("nd")
        r = ar.dot(x, y)
        if "mx" in (x.kind, y.kind):
            if r.rank == 1:
                r = ar.newaxis(r, 1 if y.rank == 1 else 0)
            return r.withkind("mx")
        return r
    if isinstance(op, (ast.Add, ast.Sub, ast.Mult)) and x.b and y.b and (x.rank or y.rank) and \
            not isinstance(op, ast.Sub):
        f = mkor if isinstance(op, ast.Add) else mkand
        r = ar.ew(f, x, y)
        r.b = True
        return r
    if type(op) in OPS:
        return ar.ew(OPS[type(op)], x, y)
    if isinstance(op, ast.Pow):
        return ar.ew(_pow, x, y)
    if isinstance(op, ast.FloorDiv):
        return ar.ew(ar.mkfdiv, x, y)
    if isinstance(op, ast.Mod):
        return ar.ew(ar.mkmod, x, y)
    if isinstance(op, (ast.BitAnd, ast.BitOr)):
        f = mkand if isinstance(op, ast.BitAnd) else mkor
        g = lambda p, q: f(boolify(p), boolify(q))
        r = ar.ew(g, x, y)
        r.b = True
        return r
    if isinstance(op, ast.BitXor):
        return ar.ew(lambda p, q: mkite(boolify(p), mknot(boolify(q)), boolify(q)), x, y)
    raise Unsupported("operator %s" % type(op).__name__)


def boolify(t):
    if tm.isbool(t):
        return t
    if t.op == "ite":
        return mkite(t.args[0], boolify(t.args[1]), boolify(t.args[2]))
    if is_num(t):
        return const(t.args[1] != 0)
    if t.op in ("poly", "mono", "at", "fn", "delta", "lenof", "nrows", "count", "nuniq") or \
            (t.op == "sym" and t.args[1] in ("int", "num", "size")):
        if t.op == "at" and t.args[0].op == "sym" and t.args[0].args[1] == "boolarr":
            return raw("truth", t)
        return mknot(mkcmp("==", t, ZERO))
    return raw("truth", t)


def npdot(I, x, y):
    if x.kind == "mx" or y.kind == "mx":
        r = ar.dot(x, y)
        if r.rank == 1:
            r = ar.newaxis(r, 1 if y.rank == 1 else 0)
        return r.withkind("mx")
    if x.kind == "se":
        x = x.withkind("nd")
    if y.kind in ("se", "df"):
        y = Arr(y.parts, y.bodies, "nd")
    return ar.dot(x, y)


CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}


def compare(I, op, a, b, st):
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(I, b, a, st)
        return r if isinstance(op, ast.In) else mknot(r)
    da, db = I.deref(a, st), I.deref(b, st)
    if isinstance(op, (ast.Is, ast.IsNot)):
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                r = TRUE
            elif isinstance(da, T) or isinstance(db, T):
                r = raw("is", tt(I, a, st), tt(I, b, st))
            else:
                r = FALSE
        elif isinstance(da, T) and isinstance(db, T):
            if da.op == "c" and db.op == "c":
                r = const(da is db)
            elif tm.isbool(da) or tm.isbool(db):
                r = mkcmp("==", da, db)
            else:
                r = raw("is", da, db)
        elif isinstance(da, Ext) and isinstance(db, Ext):
            r = const(da.path == db.path)
        elif isinstance(da, (Func, Cls)) and isinstance(db, (Func, Cls)):
            r = const(da is db)
        elif (isinstance(da, (Arr, Lst, Dct, Obj, Tup)) and isinstance(db, T) and db.op == "c") or \
                (isinstance(db, (Arr, Lst, Dct, Obj, Tup)) and isinstance(da, T) and da.op == "c"):
            r = FALSE
        else:
            r = raw("is", tt(I, a, st), tt(I, b, st))
        return r if isinstance(op, ast.Is) else mknot(r)
    o = CMP[type(op)]
    if o in ("==", "!="):
        if isinstance(da, (Ext, Func, Cls)) or isinstance(db, (Ext, Func, Cls)):
            if isinstance(da, T) and da.op == "typeof" or isinstance(db, T) and db.op == "typeof":
                r = raw("eq", *sorted((tt(I, a, st), tt(I, b, st)), key=lambda t: t.key))
            else:
                r = const(tt(I, a, st) is tt(I, b, st))
            return r if o == "==" else mknot(r)
        if isinstance(da, (Lst, Tup, Dct, Obj)) or isinstance(db, (Lst, Tup, Dct, Obj)):
            if not isinstance(da, Arr) and not isinstance(db, Arr):
                if iskeys(da) and iskeys(db):
                    xs, ys = setbase(tt(I, a, st)), setbase(tt(I, b, st))
                    if xs.op == ys.op == "list" and all(is_const(v) for v in xs.args + ys.args):
                        return const((set(xs.args) == set(ys.args)) == (o == "=="))
                    return mkcmp(o, raw("setof", xs), raw("setof", ys))
                return mkcmp(o, tt(I, a, st), tt(I, b, st))
    if iskeys(da) and iskeys(db):
        if o in ("<", ">"):
            raise Unsupported("proper subset")
        p, q = (a, b) if o == "<=" else (b, a)
        return mkempty(raw("setdiff", setbase(seqterm(I, p, st)), setbase(seqterm(I, q, st))))
    x, y = A(I, a, st), A(I, b, st)
    f = lambda p, q: mkcmp(o, p, q)
    r = ar.ew(f, x, y)
    if r.rank:
        r.b = True
        if r.meta is not None and r.kind == "se":
            pass
    return out(r)


def contains(I, cont, x, st):
    cont = I.resolve(cont, st)
    if isinstance(cont, PhiV):
        return I.lift(cont, st, lambda c, s: contains(I, c, x, s))
    x = I.resolve(x, st)
    if isinstance(x, PhiV):
        return I.lift(x, st, lambda c, s: contains(I, cont, c, s))
    c = I.deref(cont, st)
    xt = tt(I, x, st)
    if isinstance(c, Tup):
        return mkor(*[mkcmp("==", xt, tt(I, v, st)) for v in c.items])
    if isinstance(c, Lst):
        return mkor(*[mkcmp("==", xt, tt(I, v, st)) if k == "v" else ar.mkisin(xt, v) for k, v in c.segs])
    if isinstance(c, Dct):
        r = FALSE
        for k, v in c.ents:
            e = mkcmp("==", xt, k)
            if isinstance(v, PhiV) and v.a is ABSENT:
                e = mkand(e, mknot(v.c))
            elif isinstance(v, PhiV) and v.b is ABSENT:
                e = mkand(e, v.c)
            r = mkor(r, e)
        if c.base is not None:
            r = mkor(r, inkeys(xt, c.base))
        return r
    if isinstance(c, Arr):
        return ar.mkisin(xt, ar.lower(c))
    if isinstance(c, T):
        if is_str(c) and is_str(xt):
            return const(xt.args[1] in c.args[1])
        if strlike(I, c):
            return raw("in", xt, c)
        return inkeys(xt, c)
    if type(c).__name__ == "Ext":
        return raw("in", xt, raw("call", c.path))
    raise Unsupported("in %r" % (c,))


def inkeys(x, t):
    if t.op == "dset":
        return mkor(mkcmp("==", x, t.args[1]), inkeys(x, t.args[0]))
    if t.op == "dictzip":
        return ar.mkisin(x, t.args[0])
    if t.op == "dupd":
        return mkor(inkeys(x, t.args[0]), ar.mkisin(x, t.args[1]))
    if t.op == "dpop":
        return mkand(inkeys(x, t.args[0]), mknot(mkcmp("==", x, t.args[1])))
    return ar.mkisin(x, t)


def truth(I, v, st):
    d = I.deref(v, st)
    if isinstance(d, T):
        if tm.isbool(d):
            return d
        if d.op == "c":
            if d.args[0] == "num":
                return const(d.args[1] != 0)
            if d is NONE:
                return FALSE
            if d.args[0] == "str":
                return const(d.args[1] != "")
            return TRUE
        if d.op == "ite":
            return mkite(d.args[0], truth(I, d.args[1], st), truth(I, d.args[2], st))
        if d.op in ("poly", "mono", "lenof", "nrows", "count", "nuniq", "at", "fn", "delta") or \
                (d.op == "sym" and d.args[1] in ("int", "num", "size")):
            return boolify(d)
        if d.op in ("list", "lcat", "flat", "setdiff", "setof", "tuple", "dict", "keysof", "sortedof") or \
                (d.op == "B" and d.args[0] == "tab"):
            return mknot(mkempty(d))
        if d.op == "sym" and d.args[1] in ("func", "df", "arr"):
            return TRUE
        if d.op == "sym" and d.args[1] in ("list", "dict"):
            return mknot(mkempty(d))
        return raw("truth", d)
    if isinstance(d, Arr):
        if d.rank == 0:
            return truth(I, d.body, st)
        if all(x is ONE for x in d.dims):
            while d.rank:
                d = ar.index_at(d, 0, ZERO)
            return truth(I, d.body, st)
        raise Unsupported("truth of an array")
    if isinstance(d, Lst):
        if any(k == "v" for k, _ in d.segs):
            return TRUE
        return mkor(*[mknot(mkempty(v)) for _, v in d.segs])
    if isinstance(d, Tup):
        return const(bool(d.items))
    if isinstance(d, Dct):
        if d.ents and not all(isinstance(v, PhiV) for _, v in d.ents):
            return TRUE
        if d.base is None and not d.ents:
            return FALSE
        return mknot(mkempty(tt(I, v, st)))
    return TRUE


# ----------------------------------------------------------------- strings
def fmt(I, v, spec, st):
    v = I.resolve(v, st)
    if isinstance(v, PhiV):
        return mkite(v.c, fmt(I, v.a, spec, st), fmt(I, v.b, spec, st))
    d = I.deref(v, st)
    t = tt(I, v, st)
    if t.op == "ite":
        return mkite(t.args[0], fmt(I, t.args[1], spec, st), fmt(I, t.args[2], spec, st))
    if not spec:
        if is_str(t) or strlike(I, t):
            return t
        if is_num(t):
            return const(str(cval(t)))
        if t.op == "c" and t.args[0] in ("bool", "none"):
            return const(str(t.args[1]))
    return raw("fmtval", t, spec or "")


def percent(I, f, args, st):
    if not is_str(f):
        return raw("mcall", "%", f, tt(I, args, st))
    d = I.deref(args, st)
    items = list(d.items) if isinstance(d, Tup) else [args]
    s = f.args[1]
    parts = []
    i = 0
    cur = ""
    k = 0
    while k < len(s):
        if s[k] == "%":
            j = k + 1
            while j < len(s) and s[j] not in "diouxXeEfFgGcrsa%":
                j += 1
            if j >= len(s):
                raise Unsupported("format")
            if s[j] == "%":
                cur += "%"
            else:
                parts.append(const(cur))
                cur = ""
                sp = s[k + 1:j + 1]
                if i >= len(items):
                    raise Unsupported("format")
                parts.append(fmt(I, items[i], "" if sp in ("s", "d", "i") else sp, st))
                i += 1
            k = j + 1
        else:
            cur += s[k]
            k += 1
    parts.append(const(cur))
    return mksconcat(*parts)


def str_format(I, f, args, kwargs, st):
    if f.op == "ite":
        return mkite(f.args[0], str_format(I, f.args[1], args, kwargs, st),
                     str_format(I, f.args[2], args, kwargs, st))
    if not is_str(f):
        return raw("mcall", "format", f, *[tt(I, a, st) for a in args])
    parts = []
    auto = 0
    for lit, name, spec, conv in string.Formatter().parse(f.args[1]):
        if lit:
            parts.append(const(lit))
        if name is None:
            continue
        if name == "":
            v = args[auto] if auto < len(args) else NONE
            auto += 1
        elif name.isdigit():
            v = args[int(name)] if int(name) < len(args) else NONE
        elif name in kwargs:
            v = kwargs[name]
        else:
            parts.append(raw("fmtval", raw("call", "fmtfield", const(name)), spec or ""))
            continue
        parts.append(fmt(I, v, spec or "", st))
    return mksconcat(*parts)


# ----------------------------------------------------------------- sequences
def as_segs(I, v, st):
    v = I.resolve(v, st)
    if isinstance(v, PhiV):
        return [("t", tt(I, v, st))]
    d = I.deref(v, st)
    if isinstance(d, Lst):
        return list(d.segs)
    if isinstance(d, Tup):
        return [("v", x) for x in d.items]
    if isinstance(d, Arr):
        seq = itemseq(I, v, st)
        if seq[0] == "known":
            return [("v", I.box(x, st)) for x in seq[1]]
        return [("t", seqterm(I, v, st))]
    if isinstance(d, Dct):
        if d.known() and not any(isinstance(x, PhiV) and (x.a is ABSENT or x.b is ABSENT) for _, x in d.ents):
            return [("v", k) for k, _ in d.ents]
        return [("t", mkkeys(tt(I, v, st)))]
    if isinstance(d, T):
        if d.op in ("list", "tuple"):
            return [("v", a) for a in d.args]
        if d.op == "lcat":
            segs = []
            for a in d.args:
                segs += as_segs(I, a, st)
            return segs
        return [("t", listview(d))]
    raise Unsupported("sequence of %r" % (d,))


def listview(t):
    """Sequence term of the iteration over t."""
    if t.op in ("dictzip", "dset", "dict", "dupd", "dpop"):
        return mkkeys(t)
    return t


def mkkeys(t):
    if t.op == "dict":
        return raw("list", *[t.args[i] for i in range(0, len(t.args), 2)])
    if t.op == "dictzip":
        return t.args[0]
    if t.op == "dset":
        base = mkkeys(t.args[0])
        if base.op == "list" and all(is_const(a) for a in base.args) and is_const(t.args[1]):
            return base if t.args[1] in base.args else raw("list", *(base.args + (t.args[1],)))
        return raw("keysof", t)
    if t.op == "ite":
        return mkite(t.args[0], mkkeys(t.args[1]), mkkeys(t.args[2]))
    return raw("keysof", t)


REBUILD["keysof"] = mkkeys


def eta_tab(t):
    """tab i: xs[i]  ->  xs"""
    if t.op == "B" and t.args[0] == "tab":
        kind, vs, dims, body = bopen(t)
        if body.op in ("item", "at") and len(body.args) == 2 and body.args[1] is vs[0] and \
                vs[0] not in body.args[0].fv and mklen(body.args[0]) is dims[0]:
            return body.args[0]
    return t


def mkdupd(d, ks, vs):
    """d updated, in order, with the pairs of two tables."""
    if d.op == "dict" and not d.args:
        k = eta_tab(ks)
        if k.op in ("su", "uo"):
            return raw("dictzip", k, vs)
    return raw("dupd", d, ks, vs)


REBUILD["dupd"] = mkdupd


def seqterm(I, v, st):
    """Sequence term of a value."""
    d = I.deref(v, st)
    if isinstance(d, Arr):
        if d.rank == 0:
            raise Unsupported("iteration over a scalar")
        if d.rank == 1:
            if d.single():
                t = ar.lower(d)
                if t.op == "B" and t.args[0] == "lam":
                    kk, vs, dims, body = bopen(t)
                    return eta_tab(tm.bind("tab", vs, dims, body))
                if t.op == "sym" and t not in I.tshape:
                    I.tshape[t] = d.dims
                return t
            return mklcat(*[seqterm(I, ar.mk([d.parts[0][j]], d.bodies[(j,)]), st) if d.parts[0][j] is not ONE
                            else raw("list", subst(d.bodies[(j,)], {ax(0): ZERO}))
                            for j in range(len(d.parts[0]))])
        v0 = fresh()
        return tm.bind("tab", [v0], [d.dims[0]], ar.lower(ar.index_at(d, 0, v0)))
    if isinstance(d, (Lst, Tup, Dct)):
        parts = []
        for k, x in as_segs(I, v, st):
            parts.append(raw("list", tt(I, x, st)) if k == "v" else x)
        return mklcat(*parts)
    if isinstance(d, T):
        return listview(d)
    raise Unsupported("sequence")


MAXUNROLL = 40


def itemseq(I, it, st):
    it = I.resolve(it, st)
    if isinstance(it, PhiV):
        return ("phi", it.c, it.a, it.b)
    d = I.deref(it, st)
    if isinstance(d, Tup):
        return ("known", list(d.items))
    if isinstance(d, Lst):
        if d.known():
            return ("known", d.values())
        if len(d.segs) == 1:
            return itemseq(I, d.segs[0][1], st)
        t = seqterm(I, it, st)
        return ("sym", mklen(t), lambda i, s: mkitem(t, i))
    if isinstance(d, Dct):
        segs = as_segs(I, it, st)
        return itemseq(I, Lst(segs), st)
    if isinstance(d, Arr):
        if d.rank == 0:
            raise Unsupported("iteration over a scalar")
        n = d.dims[0]
        if is_num(n) and n.args[1] <= MAXUNROLL:
            return ("known", [out(ar.index_at(d, 0, num(k))) for k in range(int(n.args[1]))])
        if d.kind == "df":
            raise Unsupported("iteration over a frame")
        dd = ar.unblock_axis(d, 0)
        return ("sym", n, lambda i, s: out(ar.index_at(dd, 0, i)))
    if isinstance(d, T):
        if d.op == "ite":
            return ("phi", d.args[0], d.args[1], d.args[2])
        if d.op in ("list", "tuple"):
            return ("known", list(d.args))
        if is_str(d):
            return ("known", [const(x) for x in d.args[1]])
        if d.op == "dict":
            return ("known", [d.args[i] for i in range(0, len(d.args), 2)])
        if d.op == "mcall" and d.args[0] == "groupby" and len(d.args) == 3 and isdf(I, d.args[1]) and \
                isinstance(d.args[2], T) and (is_str(d.args[2]) or d.args[2].op == "sym"):
            # groups in ascending order of the key, rows in their original order
            df, col = d.args[1], tm.mkgetcol(d.args[1], d.args[2])
            su = raw("su", col)

            def group(i, s):
                v = fresh()
                m = tm.bind("lam", [v], [tm.mknrows(df)], mkcmp("==", mkat(col, v), mkat(su, i)))
                return Tup([mkat(su, i), I.box(raw("dfrows", df, m), s)])
            return ("sym", raw("nuniq", col), group)
        if d.op == "mcall" and d.args[0] == "iterrows" and len(d.args) == 2 and isdf(I, d.args[1]):
            return ("sym", tm.mknrows(d.args[1]),
                    lambda i, s: Tup([mkitem(frame_index(d.args[1]), i), raw("dfrow", d.args[1], i)]))
        d = listview(d)
        n = mklen(d)
        if is_num(n) and n.args[1] <= MAXUNROLL and d.op == "B":
            return ("known", [mkitem(d, num(k)) for k in range(int(n.args[1]))])
        a = arr_of_term(I, d) if d.op != "B" else None
        if a is not None and a.rank >= 1:
            return itemseq(I, a, st)
        return ("sym", n, lambda i, s: mkitem(d, i))
    raise Unsupported("iteration over %r" % (d,))


def mkrange(I, lo, hi, st):
    n = psub(hi, lo)
    if is_num(n):
        k = int(n.args[1])
        if k <= MAXUNROLL:
            return Lst.of([padd(lo, num(j)) for j in range(max(0, k))])
    v = fresh()
    return Lst([("t", tm.bind("tab", [v], [n], padd(lo, v)))])


def list_append(I, ref, v, st, quiet=False):
    c = st.heap[ref.id]
    if isinstance(c, Lst):
        st.heap[ref.id] = Lst(c.segs + (("v", v),), c.kind)
    elif isinstance(c, Opq):
        st.heap[ref.id] = Opq(mklcat(c.t, raw("list", tt(I, v, st))), c.kind)
    else:
        raise Unsupported("append")
    if not quiet:
        I.mutation(ref, st, "append")


def list_extend(I, ref, v, st):
    c = st.heap[ref.id]
    segs = as_segs(I, v, st)
    if isinstance(c, Lst):
        st.heap[ref.id] = Lst(list(c.segs) + segs, c.kind)
    elif isinstance(c, Opq):
        st.heap[ref.id] = Opq(mklcat(c.t, I.lower_segs(segs, st)), c.kind)
    else:
        raise Unsupported("extend")
    I.mutation(ref, st, "extend")


def dict_update(I, d, v, st):
    """New Dct content: d updated with v."""
    v = I.resolve(v, st)
    x = I.deref(v, st)
    if isinstance(d, Ref):
        d = st.heap[d.id]
    if isinstance(x, (Lst, Tup)) and not (isinstance(x, Lst) and x.kind == "set"):
        from .extcalls import dict_from_pairs
        v = x = dict_from_pairs(I, v, st, d.kind)
    if isinstance(x, Dct):
        if x.base is None:
            ents = list(d.ents)
            for k, val in x.ents:
                ents = [z for z in ents if z[0] is not k] + [(k, val)]
            return Dct(d.base, ents, d.kind)
        if not d.ents and d.base is None:
            return Dct(x.base, x.ents, d.kind)
    if isinstance(x, T):
        if x is NONE:
            return d
        if not d.ents and d.base is None:
            return Dct(x, [], d.kind)
    return Dct(raw("dmerge", I.lower_content(d, st), tt(I, v, st)), [], d.kind)


def kwlookup(I, extra, name, default, st):
    """Value of keyword `name` in a symbolic ** mapping, with its default."""
    if extra.op == "dset":
        if extra.args[1] is const(name):
            return I.box(extra.args[2], st)
        if is_const(extra.args[1]):
            return kwlookup(I, extra.args[0], name, default, st)
    c = inkeys(const(name), extra)
    c = I.simp(c, st)
    if c is FALSE:
        return default
    return I.mergev(c, mkitem(extra, const(name)), default, None) if c is not TRUE else \
        I.box(mkitem(extra, const(name)), st)


# ----------------------------------------------------------------- attributes
CONSTS = {"numpy.inf": INF, "numpy.Inf": INF, "numpy.infty": INF, "numpy.PINF": INF,
          "numpy.NINF": pmul(num(-1), INF), "numpy.newaxis": NONE,
          "numpy.nan": raw("c", "nan", None), "numpy.NaN": raw("c", "nan", None),
          "sys.float_info.epsilon": num(Fraction(1, 2 ** 52)), "numpy.pi": sym("pi", "num"), "numpy.e": mkfn("exp", ONE)}


def getattr_(I, o, name, st):
    if isinstance(o, Ext):
        p = o.path + "." + name
        if p in CONSTS:
            return CONSTS[p]
        return Ext(p)
    if isinstance(o, Mod):
        full = o.module + "." + name
        env = I.module(o.module)
        if env is not None and name in env:
            return env[name]
        if full in I.w.modules:
            return Mod(full)
        raise AnalysisBroken("name %s not found in %s" % (name, o.module))
    if isinstance(o, Super):
        c = o.cls
        m = I.findmember(I.deref(o.self_, st).cls, name, after=c) if isinstance(I.deref(o.self_, st), Obj) \
            else None
        if m is None:
            if name in ("__init__", "__setstate__"):
                return PyFunc(lambda I2, a, k, s: NONE, "object.__init__")
            raise Unsupported("super().%s" % name)
        if isinstance(m, Func) and not getattr(m, "static", False):
            return Bound(m, o.self_)
        return m
    if isinstance(o, Cls):
        if name == "__name__":
            return const(o.qual.split(".")[-1])
        if name == "__dict__":
            raise Unsupported("class __dict__")
        m = I.findmember(o, name)
        if m is None:
            raise Unsupported("class attribute %s" % name)
        if getattr(m, "clsm", False):
            return Bound(m, o)
        return m
    if isinstance(o, Func):
        if name == "__name__":
            return const(o.qual.split(".")[-1])
        raise Unsupported("function attribute")
    if isinstance(o, Partial):
        if name == "func":
            return o.func
        if name == "keywords":
            return Dct(None, [(const(k), v) for k, v in o.kwargs.items()])
    if isinstance(o, Bound):
        if name in ("__self__", "im_self"):
            return o.self_
        if name == "__name__":
            return const(o.func.qual.split(".")[-1])
    c = I.deref(o, st)
    if isinstance(c, Obj):
        return obj_attr(I, o, c, name, st)
    if isinstance(c, Arr):
        return arr_attr(I, o, c, name, st)
    if isinstance(c, T):
        return term_attr(I, o, c, name, st)
    if isinstance(c, (Lst, Dct, Tup)):
        if name == "__class__":
            raise Unsupported("__class__")
        return ExtM(o, name)
    if isinstance(c, ExtM):
        return ExtM(o, name)
    if isinstance(c, (Ext, Func, Cls)):
        return getattr_(I, c, name, st)
    raise Unsupported("attribute %s of %r" % (name, c))


def obj_attr(I, o, c, name, st):
    if name in c.attrs:
        v = c.attrs[name]
        v = I.resolve(v, st)
        if isinstance(v, PhiV) and (v.a is ABSENT or v.b is ABSENT):
            v = v.b if v.a is ABSENT else v.a
        if v is not ABSENT:
            return v
    if name == "__class__":
        return c.cls
    if name == "__dict__":
        return Dct(None, [(const(k), v) for k, v in c.attrs.items()])
    m = I.findmember(c.cls, name) if c.cls is not None else None
    if m is not None:
        if isinstance(m, Func):
            if getattr(m, "prop", False):
                return I.call_func(m, [o], {}, st)
            if getattr(m, "static", False):
                return m
            if getattr(m, "clsm", False):
                return Bound(m, c.cls)
            return Bound(m, o)
        return m
    if c.sym is not None:
        t = raw("attr", c.sym, name)
        v = I.alloc(st, Opq(t), origin=I.origin.get(o.id) if isinstance(o, Ref) else None)
        attrs = dict(c.attrs)
        attrs[name] = v
        st.heap[o.id] = Obj(c.cls, attrs, c.sym, c.label)
        return v
    I.do_raise("AttributeError", st)
    I.effect("noattr", name, st)
    raise Dead()


ARRMETH = {"dot", "sum", "mean", "max", "min", "any", "all", "ravel", "flatten", "reshape", "transpose",
           "astype", "copy", "toarray", "todense", "tocsr", "tocsc", "tocoo", "tolist", "multiply", "power",
           "repeat", "std", "prod", "cumsum", "sort", "argsort", "unique", "nunique", "isin", "isnull", "notnull",
           "to_dict", "diagonal", "squeeze", "take", "fill", "item", "nonzero", "duplicated", "to_frame",
           "abs", "round", "var", "iteritems", "items", "keys", "reset_index", "groupby", "drop", "rename",
           "trace", "getnnz", "argmax", "argmin", "searchsorted", "conj", "view", "cumprod", "clip",
           "value_counts", "map", "apply", "sort_values", "set_index", "to_numpy", "swapaxes", "drop_duplicates",
           "add", "sub", "mul", "div", "subtract", "divide", "to_csv", "head", "tail", "minimum", "maximum",
           "eq", "ne", "gt", "ge", "lt", "le", "between", "pow", "isna", "notna", "to_list", "true_divide", "truediv"}


def arr_attr(I, o, c, name, st):
    views = [o.id] if isinstance(o, Ref) else []

    def view(a):
        return I.alloc(st, a, views=views) if views and isinstance(a, Arr) and a.rank else a
    if name == "shape":
        return Tup(c.dims)
    if name == "ndim":
        return num(c.rank)
    if name == "size":
        r = ONE
        for d in c.dims:
            r = pmul(r, d)
        return r
    if name == "T":
        r = view(ar.transpose(c))
        I.transposed(o, r)
        return r
    if name == "A":
        return view(c.withkind("nd"))
    if name == "A1":
        return view(ar.ravel(c).withkind("nd"))
    if name == "values":
        return view(Arr(c.parts, c.bodies, "nd"))
    if name == "flat":
        return view(ar.ravel(c))
    if name == "dtype":
        return raw("dtype", ar.lower(c))
    if name == "index" and c.kind in ("se", "df"):
        if c.meta is not None:
            return c.meta[0]
        v = fresh()
        return tm.bind("tab", [v], [c.dims[0]], v)
    if name == "name" and c.kind == "se":
        return c.meta[1] if c.meta is not None else NONE
    if name == "columns" and c.kind == "df":
        return c.meta[1] if c.meta is not None else raw("attr", ar.lower(c), "columns")
    if name in ("iloc", "loc", "iat", "at", "ix"):
        return ExtM(o, name)
    if name == "data" and c.kind == "sp":
        r = opaque(I, "spdata", [c], {}, st, shape=[raw("call", "nnz", ar.lower(c))], known=True)
        return view(I.deref(r, st) if isinstance(r, Ref) else r)
    if name == "nnz":
        return raw("call", "nnz", ar.lower(c))
    if name == "hasnans":
        return ar.reduce_all(ar.amap(lambda x: mkinf("isnan", x), c), "any").body
    if name == "is_unique" and c.rank == 1:
        from .extcalls import series_unique
        return mkcmp("==", A(I, series_unique(I, c), st).dims[0], c.dims[0])
    if name == "indices" or name == "indptr":
        return raw("attr", ar.lower(c), name)
    if name in ARRMETH:
        return ExtM(o, name)
    if c.kind == "df":
        return df_col(I, o, const(name), st)
    if name in ("real",):
        return o
    raise Unsupported("array attribute %s" % name)


def term_attr(I, o, t, name, st):
    if t.op == "ite":
        c, a, b = t.args
        return I.fork(c, st, lambda s: I.getattr(a, name, s), lambda s: I.getattr(b, name, s))
    if strlike(I, t):
        return ExtM(o, name)
    a = None
    if not isdf(I, t):
        a = arr_of_term(I, t)
        if a is not None and a.rank == 0:
            a = None
    if a is not None and (name in ("shape", "ndim", "size", "T", "A", "values", "dtype", "flat") or
                          name in ARRMETH):
        if t.op == "getcol":
            a = a.withkind("se")
        if name in ARRMETH:
            return ExtM(I.alloc(st, a, views=[o.id]) if isinstance(o, Ref) else a, name)
        if isinstance(o, Ref):
            return arr_attr(I, I.alloc(st, a, views=[o.id]), a, name, st)
        return arr_attr(I, a, a, name, st)
    if isdf(I, t):
        if name == "shape":
            return Tup([mknrows(t), raw("ncols", dfcols(t))])
        if name == "columns":
            return dfcolumns(t)
        if name == "index":
            return raw("attr", t, "index")
        if name == "values":
            a = frame_arr(I, t)
            if a is not None:
                return I.alloc(st, Arr(a.parts, a.bodies, "nd"))
            return raw("attr", t, "values")
        if name in ("loc", "iloc", "ix", "at", "iat"):
            return ExtM(o, name)
        return ExtM(o, name)
    if name in ("shape",):
        return raw("shape", t)
    if name == "ndim":
        return raw("attr", t, "ndim")
    if t.op == "sym" and t.args[1] in ("list", "dict") or t.op in (
            "dict", "dset", "dictzip", "dupd", "list", "lcat", "flat", "B", "keysof", "setof", "setdiff",
            "dmerge", "dpop", "tuple", "sortedof"):
        return ExtM(o, name)
    if name in METHODNAMES:
        return ExtM(o, name)
    r = raw("attr", t, name)
    return r


METHODNAMES = {
    "append", "extend", "insert", "remove", "index", "pop", "keys", "values", "items", "get", "update",
    "copy", "format", "join", "strip", "lower", "upper", "startswith", "endswith", "split", "replace",
    "sum", "dot", "mean", "any", "all", "tolist", "ravel", "reshape", "astype", "unique", "isin",
    "groupby", "count", "sort", "reverse", "difference", "union", "issubset", "intersection", "isdisjoint", "setdefault",
    "at", "iat", "iterrows", "drop", "drop_duplicates", "duplicated", "reset_index", "isnull", "rename", "merge",
    "write", "read", "close", "flush", "rvs", "ppf", "cdf", "sf", "pdf", "to_csv", "sort_values",
    "set_index", "to_dict", "to_frame", "transpose", "max", "min", "toarray", "multiply", "loc", "iloc",
    "iteritems", "std", "__delitem__", "add_table_2cols", "add_table_params", "tocsr", "clear", "add",
    "discard", "title", "assign", "fillna", "apply", "pivot", "melt", "stack", "unstack", "random_sample",
    "normal", "choice", "standard_normal", "randn", "seed", "all_equal", "diagonal", "get_group", "first"}


def isdf(I, t):
    if t.op == "sym" and t.args[1] == "df":
        return True
    if t.op in ("setcol", "dfrows", "dfcat", "dfnew", "dftake", "dfcols", "dfreset", "dfindex", "dfjoin"):
        return True
    if t.op == "ite":
        return isdf(I, t.args[1]) or isdf(I, t.args[2])
    if t.op == "mcall" and t.args[0] in ("reset_index", "copy", "drop_duplicates") and isinstance(t.args[1], T):
        return isdf(I, t.args[1])
    return t in I.tshape and I.tshape.get(t) == "df"


def dfcols(t):
    return t


def knowncols(t):
    """Labels of a frame whose columns are listed, else None."""
    if t.op == "dfcols" and t.args[1].op == "list":
        return list(t.args[1].args)
    if t.op == "setcol":
        L = knowncols(t.args[0])
        return None if L is None else L if t.args[1] in L else L + [t.args[1]]
    if t.op in ("dfrows", "dftake"):
        return knowncols(t.args[0])
    if t.op == "dfnew" and t.args[0].op == "dict":
        if len(t.args) > 1 and t.args[1] is not NONE:
            return list(t.args[1].args) if t.args[1].op == "list" else None
        return list(t.args[0].args[::2])
    if t.op == "dfindex":
        L = knowncols(t.args[0])
        return None if L is None else [x for x in L if x is not t.args[1]]
    if t.op == "dfreset":
        L = knowncols(t.args[0])
        return L if L is None or t.args[1] is TRUE else [const("index")] + L
    return None


def frame_index(t):
    while t.op in ("setcol", "dfcols"):
        t = t.args[0]
    if t.op == "dfindex":
        return mkgetcol(*t.args)
    if t.op == "dfreset" or t.op == "dfnew" and len(t.args) == 2 and t.args[0].op == "dict":
        v0 = fresh()
        return tm.bind("tab", [v0], [mknrows(t)], v0)
    if t.op == "dfrows" or t.op == "dftake":
        ix = frame_index(t.args[0])
        v0 = fresh()
        n = mknrows(t)
        if n.op != "nrows":
            p = remake("nth", [0, t.args[1], v0]) if t.op == "dfrows" else mkat(t.args[1], v0)
            return tm.bind("tab", [v0], [n], mkitem(ix, p))
    return raw("attr", t, "index")


def frame_arr(I, t):
    """Array form of a frame with listed columns."""
    L = knowncols(t)
    if not L:
        return None
    parts = []
    n = mknrows(t)
    for k in L:
        c = mkgetcol(t, k)
        a = arr_of_term(I, c)
        if a is None or a.rank != 1:
            a = ar.of_term(c, [n])
        parts.append(ar.newaxis(Arr(a.parts, a.bodies, "nd"), 1))
    a = ar.concat(parts, 1) if len(parts) > 1 else parts[0]
    return Arr(a.parts, a.bodies, "df", (frame_index(t), raw("list", *L)))


def dfcolumns(t):
    if t.op == "setcol":
        base = dfcolumns(t.args[0])
        return raw("colsadd", base, t.args[1])
    if t.op == "dfrows":
        return dfcolumns(t.args[0])
    return raw("attr", t, "columns")


def setattr_(I, o, name, v, st):
    if isinstance(o, Ref):
        c = st.heap[o.id]
        if isinstance(c, Obj):
            m = I.findmember(c.cls, "__setattr__") if c.cls else None
            attrs = dict(c.attrs)
            attrs[name] = v
            st.heap[o.id] = Obj(c.cls, attrs, c.sym, c.label)
            I.effect("setattr", (o.id, name, v), st)
            if I.origin.get(o.id):
                I.mutation(o, st, "attribute %s assigned" % name)
            return
        if isinstance(c, Arr):
            if name == "data" and c.kind == "sp":
                a = A(I, v, st)
                st.heap[o.id] = sp_setdata(c, a)
                I.mutation(o, st, "sparse data assigned")
                return
            if name in ("index", "name", "columns") and c.kind in ("se", "df"):
                ix, nm = c.meta if c.meta is not None else (NONE, NONE)
                t = seqterm(I, v, st) if name != "name" else tt(I, v, st)
                st.heap[o.id] = c.withmeta((t, nm) if name == "index" else (ix, t))
                I.mutation(o, st, "attribute %s assigned" % name)
                return
            if name == "shape":
                st.heap[o.id] = ar.reshape(c, [num_of(I, x, st) for x in I.deref(v, st).items])
                I.mutation(o, st, "shape assigned")
                return
        if isinstance(c, Opq):
            st.heap[o.id] = Opq(raw("setattr", c.t, name, tt(I, v, st)), c.kind)
            I.mutation(o, st, "attribute %s assigned" % name)
            return
    raise Unsupported("attribute store on %r" % (o,))


def sp_setdata(c, a):
    """sparse.data = a : one stored element per row."""
    if c.rank != 2:
        raise Unsupported("sparse data")
    c = ar.unblock(c)
    b = c.body
    if a.rank == 2 and a.dims[0] is ONE:
        a = ar.index_at(a, 0, ZERO)
    if a.rank == 0:
        nb = pmul(pattern(b), a.body)
        return ar.mk(c.dims, nb, "sp")
    if a.rank != 1:
        raise Unsupported("sparse data rank")
    return ar.mk(c.dims, pmul(pattern(b), ar.unblock(a).body), "sp")


def indicator(f):
    """an element of one of the 0/1 mapping matrices"""
    if f.op != "at":
        return False
    b = f.args[0]
    if b.op == "apply":
        return b.args[0].op == "sym" and b.args[0].args[0].startswith("map.")
    return b.op == "sym" and b.args[0] in INDICATORS


INDICATORS = {"r2o", "r2a", "r2n", "c2o", "r2m"}


def pattern(b):
    """Non-zero pattern of a 0/1 or diagonal body."""
    if tm.isbool(b) or b.op == "delta" or indicator(b):
        return b
    ms = list(tm._terms(b))
    if len(ms) == 1 and tm._factors(ms[0][0])[0]:
        return b
    shared = None
    for m in ms:
        dims, fs = tm._factors(m[0])
        ds = [] if dims else [f for f, e in fs if f.op == "delta" or (tm.isbool(f) and len(f.fv) > 1) or indicator(f)]
        shared = ds if shared is None else [d for d in shared if d in ds]
    if shared:
        r = ONE
        for d in shared:
            r = pmul(r, d)
        return r
    raise Unsupported("sparsity pattern")


# ----------------------------------------------------------------- subscripts
def df_col(I, o, k, st):
    """column(s) of a frame"""
    t = I.deref(o, st)
    if isinstance(t, Arr):
        if t.kind == "df" and t.meta is not None:
            a = ar.index_at(t, 1, ar.mkposof(k, t.meta[1]) if t.meta[1].op not in ("list", "tuple")
                            or k not in t.meta[1].args else num(t.meta[1].args.index(k)))
            a = a.withkind("se").withmeta((t.meta[0], k))
            return I.alloc(st, a, views=[o.id]) if isinstance(o, Ref) else a
        raise Unsupported("column of an array frame")
    col = mkgetcol(t, k)
    a = arr_of_term(I, col, "se")
    if a is None:
        a = ar.of_term(col, [mknrows(t)], "se")
    a = a.withkind("se")
    if t.op == "dfindex":
        a = a.withmeta((frame_index(t), k))
    if isinstance(o, Ref):
        return I.alloc(st, a, views=[o.id])
    return a


def row_get(I, row, k, st):
    """Entry of one row of a frame."""
    if k.op == "ite":
        c, a, b = k.args
        return mkite(c, row_get(I, row, a, st), row_get(I, row, b, st))
    return mkat(mkgetcol(row.args[0], k), row.args[1])


def getitem(I, o, k, st):
    if isinstance(o, ExtM) and o.name in ("at", "loc"):
        b = I.deref(o.obj, st)
        if isinstance(b, T) and b.op == "dfrow":
            o = b
    if isinstance(o, T) and o.op == "dfrow":
        k = tt(I, k, st)
        if is_str(k) or k.op in ("ite", "sym", "item"):
            return row_get(I, o, k, st)
    if isinstance(o, ExtM):
        return loc_get(I, o, k, st)
    if isinstance(o, Ext):
        if o.path in ("numpy.r_", "numpy.c_"):
            d = I.deref(k, st)
            items = list(d.items) if isinstance(d, Tup) else [k]
            if o.path == "numpy.c_":
                return call_ext(I, "numpy.column_stack", [Tup(items)], {}, st)
            return call_ext(I, "numpy.hstack", [Tup(items)], {}, st)
        raise Unsupported("subscript of %r" % o)
    c = I.deref(o, st)
    if isinstance(c, T) and is_str(c):
        kk = I.deref(k, st)
        if isinstance(kk, SliceV):
            bs = [NONE if x is None else tt(I, x, st) for x in (kk.lo, kk.hi, kk.step)]
            if all(b is NONE or is_num(b) for b in bs):
                return const(c.args[1][slice(*[None if b is NONE else int(b.args[1]) for b in bs])])
            raise Unsupported("slice of a string")
        if isinstance(kk, T) and is_num(kk):
            if -len(c.args[1]) <= int(kk.args[1]) < len(c.args[1]):
                return const(c.args[1][int(kk.args[1])])
            I.do_raise("IndexError", st)
            raise Dead()
    if isinstance(c, Tup):
        kk = I.deref(k, st)
        if isinstance(kk, T) and is_num(kk):
            i = int(kk.args[1])
            if -len(c.items) <= i < len(c.items):
                return c.items[i]
            I.do_raise("IndexError", st)
            raise Dead()
        if isinstance(kk, SliceV):
            sl = slice(*[None if x is NONE else int(x.args[1]) for x in (kk.lo, kk.hi, kk.step)])
            return Tup(c.items[sl])
        if isinstance(kk, T) and kk.op == "ite":
            return I.fork(kk.args[0], st, lambda s: getitem(I, o, kk.args[1], s),
                          lambda s: getitem(I, o, kk.args[2], s))
        raise Unsupported("tuple index")
    if isinstance(c, Lst):
        return list_get(I, o, c, k, st)
    if isinstance(c, Dct):
        return dict_get(I, o, c, k, st)
    if isinstance(c, Arr):
        if c.kind == "df":
            kk = I.deref(k, st)
            if isinstance(kk, T) and (is_str(kk) or not tm.isnumeric(kk)):
                return df_col(I, o, kk, st)
            if isinstance(kk, (Lst, Tup)):
                raise Unsupported("frame columns")
        return arr_get(I, o, c, k, st)
    if isinstance(c, T):
        return term_get(I, o, c, k, st)
    if isinstance(c, Obj):
        m = I.findmember(c.cls, "__getitem__")
        if m is not None:
            return I.call_func(m, [o, k], {}, st)
    raise Unsupported("subscript of %r" % (c,))


def list_get(I, o, c, k, st):
    kk = I.deref(k, st)
    if isinstance(kk, SliceV):
        if c.known() and all(x is NONE or is_num(I.deref(x, st)) for x in (kk.lo, kk.hi, kk.step)):
            sl = slice(*[None if x is NONE else int(I.deref(x, st).args[1]) for x in (kk.lo, kk.hi, kk.step)])
            return Lst.of(c.values()[sl])
        # slice with known segment boundary
        t = seqterm(I, o, st)
        return seq_slice(I, t, kk, st)
    i = num_of(I, k, st)
    if i.op == "ite":
        return I.fork(i.args[0], st, lambda s: list_get(I, o, c, i.args[1], s),
                      lambda s: list_get(I, o, c, i.args[2], s))
    if is_num(i):
        n = int(i.args[1])
        segs = c.segs
        if n >= 0:
            for j, (kd, v) in enumerate(segs):
                if kd != "v":
                    r = mkitem(v, num(n - j))
                    if len(segs) == j + 1 or True:
                        if len(segs) == j + 1:
                            return r
                    break
                if j == n:
                    return v
            else:
                I.do_raise("IndexError", st)
                raise Dead()
        else:
            for j, (kd, v) in enumerate(reversed(segs)):
                if kd != "v":
                    if len(segs) == j + 1:
                        return mkitem(v, padd(mklen(v), num(n + j)))
                    break
                if j == -n - 1:
                    return v
    t = seqterm(I, o, st)
    return mkitem(t, i)


def seq_slice(I, t, s, st):
    n = mklen(t)
    lo = ZERO if s.lo is NONE else normidx(num_of(I, s.lo, st), n)
    hi = n if s.hi is NONE else normidx(num_of(I, s.hi, st), n)
    if s.step is not NONE and not (is_num(s.step) and s.step.args[1] == 1):
        if is_num(s.step) and s.step.args[1] == -1 and s.lo is NONE and s.hi is NONE:
            v = fresh()
            return Lst([("t", tm.bind("tab", [v], [n], mkitem(t, psub(psub(n, ONE), v))))])
        raise Unsupported("strided slice")
    if lo is ZERO and hi is n:
        return Lst([("t", t)])
    if t.op == "lcat":
        # cut at segment boundaries
        off = ZERO
        cuts = [off]
        for a in t.args:
            off = padd(off, mklen(a))
            cuts.append(off)
        if lo in cuts and hi in cuts:
            i, j = cuts.index(lo), cuts.index(hi)
            return Lst([("t", mklcat(*t.args[i:j]))])
    v = fresh()
    return Lst([("t", tm.bind("tab", [v], [psub(hi, lo)], mkitem(t, padd(lo, v))))])


def dict_get(I, o, c, k, st):
    kt = tt(I, k, st)
    v = c.get(kt)
    if v is not None:
        if isinstance(v, PhiV) and (v.a is ABSENT or v.b is ABSENT) and I.simp(v.c, st) not in (TRUE, FALSE):
            # where this entry is absent, an entry under an equal key is meant
            alike = [w for q, w in c.ents if q is not kt and mkcmp("==", kt, q) is not FALSE]
            if len(alike) == 1:
                w = I.resolve(alike[0], st)
                return PhiV(v.c, w if v.a is ABSENT else v.a, w if v.b is ABSENT else v.b)
        v = I.resolve(v, st)
        if isinstance(v, PhiV) and (v.a is ABSENT or v.b is ABSENT):
            v = v.b if v.a is ABSENT else v.a
        if v is not ABSENT:
            return v
    if kt.op == "ite":
        return I.fork(kt.args[0], st, lambda s: dict_get(I, o, c, kt.args[1], s),
                      lambda s: dict_get(I, o, c, kt.args[2], s))
    if c.base is not None and (is_const(kt) and all(is_const(q) for q, _ in c.ents) or not c.ents):
        return mkitem(c.base, kt)
    if c.base is None and is_const(kt) and all(is_const(q) for q, _ in c.ents):
        I.do_raise("KeyError", st)
        raise Dead()
    if c.base is None and c.ents and not is_const(kt):
        # choice by key
        def pick(j, s):
            if j == len(c.ents) - 1:
                return c.ents[j][1]
            q, v = c.ents[j]
            return I.fork(mkcmp("==", kt, q), s, lambda s1: v, lambda s1: pick(j + 1, s1))
        if len(c.ents) <= 12:
            return pick(0, st)
    return mkitem(tt(I, o, st), kt)


def normidx(i, n):
    """Python index semantics for a possibly negative position."""
    if is_num(i):
        return padd(n, i) if i.args[1] < 0 else i
    sg = ar.known_sign(i)
    if sg is not None and sg < 0:
        return padd(n, i)
    if i.op == "ite":
        return mkite(i.args[0], normidx(i.args[1], n), normidx(i.args[2], n))
    lo, up = tm.size_bounds(i)
    if up is not None and up < 0:
        return padd(n, i)
    ts = list(tm._terms(i))
    if ts and all(c < 0 and m is not tm.ONEMONO and counting(m) for m, c in ts):
        return mkite(mkcmp("<", i, ZERO), padd(n, i), i)
    return i


def counting(m):
    """numbers that cannot be negative: sizes, counts, sums of truth values"""
    u = tm._unmono(m)
    if ar.is_size(u) or u.op in ("count", "nuniq"):
        return True
    return all(tm.isbool(f) or f.op == "delta" or ar.is_size(f) or f.op in ("count", "nuniq")
               for f, e in tm._factors(m)[1] if e > 0) and all(e > 0 for _, e in tm._factors(m)[1])


def selectors(I, c, k, st):
    """Normalise a subscript into a list of selectors."""
    d = I.deref(k, st)
    items = list(d.items) if isinstance(d, Tup) else [k]
    outl = []
    nreal = 0
    for x in items:
        xd = I.deref(I.resolve(x, st), st)
        if isinstance(x, PhiV):
            x = I.resolve(x, st)
        if xd is NONE:
            outl.append(("new",))
            continue
        if isinstance(xd, Ext) and xd.path in ("Ellipsis", "builtins.Ellipsis"):
            outl.append(("ell",))
            continue
        if isinstance(xd, SliceV):
            outl.append(("slice", xd))
            nreal += 1
            continue
        if isinstance(xd, (Arr, Lst, Tup)) or (isinstance(xd, T) and term_shape(I, xd) not in (None, [])):
            a = A(I, x, st)
            if a.rank == 0:
                outl.append(("int", a.body))
                nreal += 1
                continue
            if all(tm.isbool(b) or (b.op == "at" and b.args[0].op == "sym" and b.args[0].args[1] == "boolarr")
                   for b in a.bodies.values()):
                outl.append(("mask", ar.amap(boolify, a)))
                nreal += a.rank
            else:
                outl.append(("idx", a))
                nreal += 1
            continue
        if isinstance(xd, T):
            if xd.op == "call" and xd.args[0] == "ix_":
                raise Unsupported("ix_")
            outl.append(("int", xd))
            nreal += 1
            continue
        raise Unsupported("subscript %r" % (xd,))
    if ("ell",) in outl:
        i = outl.index(("ell",))
        outl[i:i + 1] = [("slice", SliceV(NONE, NONE, NONE))] * (c.rank - nreal)
    else:
        outl += [("slice", SliceV(NONE, NONE, NONE))] * (c.rank - nreal)
    return outl


def slice_bounds(I, s, n, st):
    lo = ZERO if s.lo is NONE else normidx(num_of(I, s.lo, st), n)
    hi = n if s.hi is NONE else normidx(num_of(I, s.hi, st), n)
    if is_num(n) and is_num(hi) and hi.args[1] > n.args[1]:
        hi = n
    elif s.hi is not NONE:
        # clipping when certain
        dlt = psub(hi, n)
        if is_num(dlt) and dlt.args[1] > 0:
            hi = n
    return lo, hi


def arr_get(I, o, c, k, st):
    sels = selectors(I, c, k, st)
    if sum(1 for s in sels if s[0] in ("idx",)) == 0 and not any(s[0] == "mask" for s in sels):
        a = c
        axis = 0
        for s in sels:
            if s[0] == "new":
                a = ar.newaxis(a, axis)
                axis += 1
            elif s[0] == "int":
                i = normidx(s[1], a.dims[axis])
                a2 = ar.index_at(a, axis, i)
                if c.kind in ("mx", "sp") and c.rank == 2 and a2.rank == 1 and \
                        not all(z[0] == "int" for z in sels):
                    a2 = ar.newaxis(a2, axis).withkind(c.kind)
                    axis += 1
                a = a2
            else:
                sl = s[1]
                n = a.dims[axis]
                stp = num_of(I, sl.step, st) if sl.step is not NONE else ONE
                if stp is not ONE:
                    if is_num(stp) and stp.args[1] == -1 and sl.lo is NONE and sl.hi is NONE:
                        iv = ar.mk([n], psub(psub(n, ONE), ax(0)))
                        a = ar.gather(a, axis, iv)
                    else:
                        raise Unsupported("strided slice")
                else:
                    lo, hi = slice_bounds(I, sl, n, st)
                    a = ar.slice_axis(a, axis, lo, hi)
                axis += 1
        if a.kind in ("mx", "sp") and a.rank == 0:
            return a.body
        if a.rank == 0:
            return a.body
        if c.kind == "se" and a.rank == 1:
            a = a.withkind("se")
        if isinstance(o, Ref) and c.kind != "sp":
            return I.alloc(st, a, views=[o.id])
        return a
    # masks alone on leading axes
    masks = [s for s in sels if s[0] == "mask"]
    rest = [s for s in sels if s[0] != "mask"]
    if len(masks) == 1 and sels[0][0] == "mask" and \
            all(s[0] == "slice" and s[1].lo is NONE and s[1].hi is NONE and s[1].step is NONE for s in rest):
        m = masks[0][1]
        if m.rank == 2 and m.dims[1] is ONE and c.rank == 2 and c.dims[1] is ONE:
            pass
        idxs = ar.where_indices(m)
        if m.rank == 1:
            r = ar.gather(c, 0, idxs[0])
            if c.kind == "se" and c.meta is not None:
                r = r.withmeta(None)
            return r
        return ar.gather_multi(c, idxs + [None] * (c.rank - m.rank)).withkind("nd")
    # general fancy indexing
    a = c
    axis = 0
    idxs = []
    nsel = []
    for s in sels:
        if s[0] == "mask":
            for q in ar.where_indices(s[1]):
                nsel.append(("idx", q))
        else:
            nsel.append(s)
    sels = nsel
    fancy = [i for i, s in enumerate(sels) if s[0] == "idx"]
    if len(fancy) == 1 and not any(s[0] == "int" for s in sels):
        for s in sels:
            if s[0] == "new":
                a = ar.newaxis(a, axis)
            elif s[0] == "slice":
                lo, hi = slice_bounds(I, s[1], a.dims[axis], st)
                if s[1].step is not NONE:
                    raise Unsupported("strided slice")
                a = ar.slice_axis(a, axis, lo, hi)
            else:
                ix = s[1]
                if ix.rank == 1:
                    a = ar.gather(a, axis, negfix(ix, a.dims[axis]))
                elif ix.rank == 2 and a.rank == 1:
                    ii = ar.unblock(ix)
                    b = ar.unblock(a)
                    tmp = fresh()
                    body = subst(subst(b.body, {ax(0): tmp}), {tmp: ii.body})
                    a = ar.mk(ii.dims, body, "nd")
                    axis += 1
                else:
                    raise Unsupported("fancy index rank")
            axis += 1
        return a
    if any(s[0] in ("new",) for s in sels):
        raise Unsupported("fancy index with newaxis")
    # several index arrays / ints: contiguous fancy block at the front only
    ii = []
    front = True
    for j, s in enumerate(sels):
        if s[0] == "idx":
            ii.append(negfix(s[1], c.dims[j]))
        elif s[0] == "int":
            ii.append(ar.scalar(normidx(s[1], c.dims[j])))
        else:
            if s[1].lo is not NONE or s[1].hi is not NONE or s[1].step is not NONE:
                lo, hi = slice_bounds(I, s[1], c.dims[j], st)
                c = ar.slice_axis(c, j, lo, hi)
            ii.append(None)
    pos = [j for j, x in enumerate(ii) if x is not None]
    if pos != list(range(pos[0], pos[-1] + 1)) :
        # separated: index axes go first
        r = ar.gather_multi(c, ii)
        return r
    r = ar.gather_multi(c, ii)
    if pos[0] > 0:
        n0 = pos[0]
        rk = max(x.rank for x in ii if x is not None)
        perm = list(range(rk, rk + n0)) + list(range(rk)) + list(range(rk + n0, r.rank))
        r = ar.transpose(r, perm)
    return r


def negfix(ix, n):
    return ar.amap(lambda b: normidx(b, n) if is_num(b) else b, ix)


def term_get(I, o, t, k, st):
    if t.op == "ite":
        c, a, b = t.args
        if c is not None and (a is not NONE and b is not NONE):
            return I.fork(c, st, lambda s: I.getitem(a, k, s), lambda s: I.getitem(b, k, s))
    kk = I.deref(k, st)
    if isdf(I, t):
        if isinstance(kk, (Lst,)) or (isinstance(kk, T) and kk.op in ("list", "lcat", "flat", "B")) or \
                (isinstance(kk, T) and kk.op == "sym" and kk.args[1] == "list"):
            ct = seqterm(I, k, st)
            if t.op == "dfcols" and t.args[1].op == "list" and ct.op == "list" and \
                    all(x in t.args[1].args for x in ct.args):
                t = t.args[0]
            return I.alloc(st, Opq(raw("dfcols", t, ct)))
        if isinstance(kk, Arr):
            if kk.rank == 1 and all(tm.isbool(b) for b in kk.bodies.values()):
                return raw("dfrows", t, ar.mask_term(kk))
            return raw("dfcols", t, ar.lower(kk))
        return df_col(I, o, tt(I, k, st), st)
    a = arr_of_term(I, t)
    if a is not None and a.rank:
        if t.op == "getcol":
            a = a.withkind("se")
        r = I.alloc(st, a, views=[o.id]) if isinstance(o, Ref) else a
        return arr_get(I, r, a, k, st)
    if t.op == "shape":
        return raw("dim", t.args[0], kk) if isinstance(kk, T) else raw("item", t, tt(I, k, st))
    if isinstance(kk, SliceV):
        if t.op in ("attr", "call", "mcall", "sym", "item"):
            if is_str(t) or strlike(I, t):
                return raw("strslice", t, tt(I, k, st))
        return tt(I, seq_slice(I, t, kk, st), st)
    if isinstance(kk, (Arr, Tup, Lst)):
        return raw("item", t, tt(I, k, st))
    i = tt(I, k, st)
    if is_num(i) and i.args[1] < 0:
        i = padd(mklen(t), i)
    r = mkitem(t, i)
    return r


def labels_get(I, c, ix, k, st):
    """Entries of a series (labels ix, taken to be unique) for a list of labels."""
    L = seqterm(I, k, st)
    n = tm.mklen(L)
    off = None
    if ix is L:
        off = ZERO
    elif ix.op == "lcat" and L in ix.args:
        off = padd(ZERO, *[tm.mklen(a) for a in ix.args[:ix.args.index(L)]])
    pos = padd(ax(0), off) if off is not None else ar.mkposof(mkitem(L, ax(0)), ix)
    b = subst(ar.unblock(c).body, {ax(0): pos})
    a = ar.mk([n], b, "se")
    return Arr(a.parts, a.bodies, "se", (L, c.meta[1]))


def loc_get(I, o, k, st):
    """df.loc[..], series.iloc[..] etc."""
    base, how = o.obj, o.name
    c = I.deref(base, st)
    kd = I.deref(k, st)
    if how in ("iloc", "iat") and isinstance(c, Arr):
        return arr_get(I, base, c, k, st)
    if how in ("loc", "ix", "at"):
        if isinstance(c, T) and isdf(I, c):
            if isinstance(kd, Tup) and len(kd.items) == 2:
                rows, col = kd.items
                rd, cd = I.deref(rows, st), I.deref(col, st)
                fullrows = isinstance(rd, SliceV) and rd.lo is NONE and rd.hi is NONE
                if isinstance(cd, T) and not (cd.op in ("list", "B", "lcat")):
                    a = df_col(I, base, cd, st)
                    if fullrows:
                        return a
                    av = I.deref(a, st)
                    ra = A(I, rows, st) if not isinstance(rd, SliceV) else None
                    if ra is not None and ra.rank == 1 and all(tm.isbool(b) for b in ra.bodies.values()):
                        return arr_get(I, av, av, rows, st).withkind("se")
                    return raw("loc", tt(I, base, st), tt(I, rows, st), cd)
                if fullrows:
                    return raw("dfcols", c, seqterm(I, col, st))
                if isinstance(rd, Arr) and isinstance(cd, SliceV) and cd.lo is NONE and cd.hi is NONE and \
                        rd.rank == 1 and all(tm.isbool(b) for b in rd.bodies.values()):
                    return raw("dfrows", c, ar.mask_term(rd))
                if isinstance(rd, Arr):
                    return raw("dfcols", raw("dfrows", c, ar.mask_term(rd)), seqterm(I, col, st))
            if isinstance(kd, Arr) and kd.rank == 1 and all(tm.isbool(b) for b in kd.bodies.values()):
                return raw("dfrows", c, ar.mask_term(kd))
        if isinstance(c, Arr) and c.kind == "se":
            if isinstance(kd, Arr) and all(tm.isbool(b) for b in kd.bodies.values()):
                return arr_get(I, base, c, k, st)
            if c.meta is not None and c.rank == 1 and (isinstance(kd, (Lst, Arr)) or isinstance(kd, T) and (
                    kd.op in LISTOPS or kd.op == "B" or kd is c.meta[0] or
                    c.meta[0].op == "lcat" and kd in c.meta[0].args)):
                return labels_get(I, c, c.meta[0], k, st)
            if isinstance(kd, Arr):
                return arr_get(I, base, c, k, st)
            if c.meta is not None and isinstance(kd, T):
                ix = c.meta[0]
                if ix.op == "list" and kd in ix.args:
                    return out(ar.index_at(c, 0, num(ix.args.index(kd))))
                return out(ar.index_at(c, 0, ar.mkposof(kd, ix)))
            if c.meta is not None and isinstance(kd, Lst):
                return raw("loc", tt(I, base, st), tt(I, k, st))
    if how == "iloc" and isinstance(c, T) and isdf(I, c):
        if isinstance(kd, Tup) and len(kd.items) == 2:
            cd = I.deref(kd.items[1], st)
            if isinstance(cd, SliceV) and cd.lo is NONE and cd.hi is NONE:
                kd = I.deref(kd.items[0], st)
        if isinstance(kd, Arr) and kd.rank == 1:
            if all(tm.isbool(b) for b in kd.bodies.values()):
                return raw("dfrows", c, ar.mask_term(kd))
            b = ar.unblock(kd).body
            if b.op == "nth" and b.args[2] is ax(0) and kd.dims[0].op == "count" and kd.dims[0].args[0] is b.args[1]:
                return raw("dfrows", c, b.args[1])
            return raw("dftake", c, ar.lower(kd))
        if isinstance(kd, SliceV) and (kd.step is NONE or kd.step is ONE):
            n = tm.mknrows(c)
            v = fresh()
            fix = lambda x: padd(n, x) if is_num(x) and x.args[1] < 0 else x
            m = mkand(TRUE if kd.lo is NONE else mkcmp(">=", v, fix(kd.lo)), TRUE if kd.hi is NONE else mkcmp("<", v, fix(kd.hi)))
            return raw("dfrows", c, tm.bind("lam", [v], [n], m)) if m is not TRUE else c
    return raw(how, tt(I, base, st), tt(I, k, st))


# ----------------------------------------------------------------- stores
def setitem(I, o, k, v, st):
    if isinstance(o, ExtM):
        return loc_set(I, o, k, v, st)
    if not isinstance(o, Ref):
        if isinstance(o, T) and o.op == "ite":
            raise Unsupported("store through a join")
        raise Unsupported("store on %r" % (o,))
    c = st.heap[o.id]
    if isinstance(c, Lst):
        i = num_of(I, k, st) if not isinstance(I.deref(k, st), SliceV) else None
        if i is None:
            raise Unsupported("list slice store")
        if is_num(i) and c.known():
            vals = c.values()
            n = int(i.args[1])
            if not -len(vals) <= n < len(vals):
                raise Unsupported("list index")
            vals[n] = v
            st.heap[o.id] = Lst.of(vals, c.kind)
        else:
            t = seqterm(I, o, st)
            w = fresh()
            st.heap[o.id] = Lst([("t", tm.bind("tab", [w], [mklen(t)],
                                               mkite(mkcmp("==", w, i), tt(I, v, st), mkitem(t, w))))], c.kind)
        I.mutation(o, st, "item assigned")
        return
    if isinstance(c, Dct):
        kt = tt(I, k, st)
        if c.get(kt) is not None:
            st.heap[o.id] = Dct(c.base, [(q, v if q is kt else w) for q, w in c.ents], c.kind)
        else:
            st.heap[o.id] = Dct(c.base, list(c.ents) + [(kt, v)], c.kind)
        I.mutation(o, st, "item assigned")
        return
    if isinstance(c, Opq):
        t = c.t
        if isdf(I, t):
            col = tt(I, k, st)
            va = A(I, v, st)
            if va.rank == 0:
                va = ar.mk([mknrows(t)], va.body)
            st.heap[o.id] = Opq(raw("setcol", t, col, ar.lower(Arr(va.parts, va.bodies))), c.kind)
            I.mutation(o, st, "column assigned")
            return
        a = arr_of_term(I, t)
        if a is not None and a.rank:
            st.heap[o.id] = a
            return setitem(I, o, k, v, st)
        st.heap[o.id] = Opq(raw("dset", t, tt(I, k, st), tt(I, v, st)), c.kind)
        I.mutation(o, st, "item assigned")
        return
    if isinstance(c, Arr):
        if c.kind == "df":
            kk = I.deref(k, st)
            if isinstance(kk, T) and is_str(kk):
                t = tt(I, o, st)
                va = A(I, v, st)
                raise Unsupported("column store on constructed frame")
        arr_set(I, o, c, k, v, st)
        I.mutation(o, st, "item assigned")
        return
    if isinstance(c, Obj):
        m = I.findmember(c.cls, "__setitem__")
        if m is not None:
            I.call_func(m, [o, k, v], {}, st)
            return
    raise Unsupported("store on %r" % (c,))


def full(I, s, n, st):
    if s[0] != "slice":
        return False
    lo, hi = slice_bounds(I, s[1], n, st)
    return lo is ZERO and hi is n and s[1].step is NONE


def dtype_q(I, dt, st):
    """What numbers go through on their way into an array of this dtype."""
    ty = I.deref(dt, st)
    nm = ty.path.split(".")[-1] if isinstance(ty, Ext) else (ty.args[1] if isinstance(ty, T) and is_str(ty) else "")
    if re.match(r"u?int\d*_?$|long$|[iu]\d$", nm):
        return "trunc"
    if nm in ("float32", "single", "f4", "float16", "half", "f2", "f"):
        return "f32"
    return None


def quant1(b, q, ids=False):
    if q == "trunc":
        from .extcalls import intlike
        return b if intlike(b, ids) else mkfn("trunc", b)
    if is_num(b) and b.args[1].denominator == 1 and abs(b.args[1]) < 2 ** 11:
        return b
    if tm.isbool(b) or b.op in ("lenof", "nrows", "nuniq", "count", "ite_bool"):
        return b
    return mkfn("f32", b)


def quant(I, a, q, ids=False):
    r = ar.amap(lambda b: quant1(b, q, ids), a)
    return Arr(r.parts, r.bodies, a.kind, a.meta, a.b)


def arr_set(I, o, c, k, v, st):
    if c.q is not None:
        v = quant(I, A(I, v, st), c.q)
    arr_set_(I, o, c, k, v, st)
    n = st.heap[o.id]
    if c.q is not None and isinstance(n, Arr) and n.q is None:
        n = st.heap[o.id] = Arr(n.parts, n.bodies, n.kind, n.meta, n.b)
        n.q = c.q
    if c.meta is not None and isinstance(n, Arr) and n.meta is None and n.rank == c.rank:
        st.heap[o.id] = Arr(n.parts, n.bodies, c.kind, c.meta)


def arr_set_(I, o, c, k, v, st):
    sels = selectors(I, c, k, st)
    val = A(I, v, st)
    if any(s[0] == "new" for s in sels):
        raise Unsupported("store with newaxis")
    n = c.rank
    # one boolean mask on the leading axes, everything else full
    if sels[0][0] == "mask":
        m = sels[0][1]
        if all(full(I, s, c.dims[m.rank + j], st) for j, s in enumerate(sels[1:])):
            st.heap[o.id] = ar.masked_store(c, m, val)
            return
    # where(mask) indices on all leading axes
    if all(s[0] == "idx" for s in sels) and len(sels) == n:
        w = ar.is_where([s[1] for s in sels])
        if w is not None:
            st.heap[o.id] = ar.masked_store(c, w, val)
            return
    if sels[0][0] == "idx" and all(full(I, s, c.dims[1 + j], st) for j, s in enumerate(sels[1:])):
        w = ar.is_where([sels[0][1]])
        if w is not None:
            st.heap[o.id] = ar.masked_store(c, w, val)
            return
    active = [j for j in range(n) if not full(I, sels[j], c.dims[j], st)] if len(sels) == n else None
    if active is None:
        raise Unsupported("store selector")
    if not active:
        # whole array
        if val.rank > n:
            raise Unsupported("store rank")
        st.heap[o.id] = ar.ew(lambda p, q: q, c, val, kind=c.kind)
        return
    ctx = I.loopctx[-1] if I.loopctx else None
    ints = [j for j in active if sels[j][0] == "int"]
    if len(active) == 1:
        j = active[0]
        s = sels[j]
        if s[0] == "int":
            i = normidx(s[1], c.dims[j])
            if ctx is not None and ctx.i in i.fv and o.id in ctx_outer(I, ctx, o, st):
                ctx.stores.setdefault(o.id, []).append((j, i, val, None))
                vv = val
                cc = ar.unblock(c)
                while vv.rank < n - 1:
                    vv = ar.newaxis(vv, 0)
                big = ar.newaxis(vv, j)
                st.heap[o.id] = ar.ew(lambda p, q: mkite(mkcmp("==", ax(j), i), q, p), cc, ar.unblock(big),
                                      kind=c.kind)
                return
            vv = val
            while vv.rank < n - 1:
                vv = ar.newaxis(vv, 0)
            if vv.rank == n:
                big = vv
            else:
                big = ar.newaxis(vv, j)
            if is_num(i) or known_cut(c, j, i):
                st.heap[o.id] = ar.store_axis(c, j, i, padd(i, ONE), big)
            else:
                cc = ar.unblock(c)
                st.heap[o.id] = ar.ew(lambda p, q: mkite(mkcmp("==", ax(j), i), q, p), cc, ar.unblock(big),
                                      kind=c.kind)
            return
        if s[0] == "slice":
            lo, hi = slice_bounds(I, s[1], c.dims[j], st)
            if s[1].step is not NONE:
                raise Unsupported("strided store")
            vv = val
            while vv.rank < n:
                vv = ar.newaxis(vv, 0)
            st.heap[o.id] = ar.store_axis(c, j, lo, hi, vv)
            return
        if s[0] == "idx" and s[1].rank == 1:
            st.heap[o.id] = ar.scatter(c, j, s[1], val)
            return
    # nested: slices / ints on several axes
    if all(sels[j][0] in ("int", "slice") for j in active):
        if ctx is not None and any(sels[j][0] == "int" and ctx.i in sels[j][1].fv for j in active):
            j = [q for q in active if sels[q][0] == "int" and ctx.i in sels[q][1].fv]
            if len(j) == 1 and len(active) == 2 and all(sels[q][0] == "int" for q in active):
                # a[i, const] inside a loop over i
                cond_store(I, o, c, sels, val, st)
                return
        cond_store(I, o, c, sels, val, st)
        return
    if sum(1 for j in active if sels[j][0] == "idx") >= 1:
        cond_store(I, o, c, sels, val, st)
        return
    raise Unsupported("store form")


def ctx_outer(I, ctx, o, st):
    return ctx.cells if ctx.cells else {o.id}


def known_cut(c, j, i):
    offs = ar._offsets(c.parts[j])
    return i in offs or padd(i, ONE) is c.dim(j)


def cond_store(I, o, c, sels, val, st):
    cc = ar.unblock(c)
    conds = []
    kept = []      # axes of the selection in order -> index expression into val
    fancy_done = False
    idx_axes = [j for j, s in enumerate(sels) if s[0] == "idx"]
    lead = None
    if len(idx_axes) > 1:
        lead = next((j for j in idx_axes if sels[j][1].rank == 1 and ar.unblock(sels[j][1]).body is ax(0)), None)
        if lead is None or any(sels[j][1].rank != 1 or sels[j][1].dims != sels[lead][1].dims for j in idx_axes) or \
                idx_axes != list(range(idx_axes[0], idx_axes[0] + len(idx_axes))):
            raise Unsupported("store through several index arrays")
    for j, s in enumerate(sels):
        n = cc.dims[j]
        if lead is not None and j in idx_axes:
            if j != lead:
                conds.append(mkcmp("==", ax(j), subst(ar.unblock(s[1]).body, {ax(0): ax(lead)})))
            elif s[1].dims[0] is not n:
                conds.append(mkcmp("<", ax(j), s[1].dims[0]))
            if j == idx_axes[0]:
                kept.append((ax(lead), s[1].dims[0]))
        elif s[0] == "int":
            conds.append(mkcmp("==", ax(j), normidx(s[1], n)))
        elif s[0] == "slice":
            lo, hi = slice_bounds(I, s[1], n, st)
            if not (lo is ZERO and hi is n):
                conds += [mkcmp(">=", ax(j), lo), mkcmp("<", ax(j), hi)]
            kept.append((psub(ax(j), lo), psub(hi, lo)))
        elif s[0] == "idx":
            if s[1].rank != 1:
                raise Unsupported("index rank")
            it = ar.lower(s[1])
            conds.append(ar.mkisin(ax(j), it))
            kept.append((ar.mkposof(ax(j), it), s[1].dims[0]))
        else:
            raise Unsupported("mask in mixed store")
    vb = ar.unblock(val)
    if vb.rank:
        if vb.rank > len(kept):
            lead = vb.rank - len(kept)
            for _ in range(lead):
                if vb.parts[0] != (ONE,):
                    raise Unsupported("store shape")
                vb = ar.index_at(vb, 0, ZERO)
        tmp = [fresh() for _ in range(vb.rank)]
        b = subst(vb.body, {ax(i): tmp[i] for i in range(vb.rank)})
        off = len(kept) - vb.rank
        mp = {}
        for i in range(vb.rank):
            mp[tmp[i]] = ZERO if vb.parts[i] == (ONE,) else kept[off + i][0]
        b = subst(b, mp)
    else:
        b = vb.body
    st.heap[o.id] = ar.mk(cc.dims, mkite(mkand(*conds), b, cc.body), c.kind)


def loc_set(I, o, k, v, st):
    base, how = o.obj, o.name
    if not isinstance(base, Ref):
        raise Unsupported("loc store")
    c = st.heap[base.id]
    kd = I.deref(k, st)
    if isinstance(c, Arr) and (how in ("iloc", "iat") or
                               (isinstance(kd, Arr) and all(tm.isbool(b) for b in kd.bodies.values()))):
        arr_set(I, base, c, k, v, st)
        I.mutation(base, st, "%s assigned" % how)
        return
    if isinstance(c, Arr) and c.kind == "se" and c.meta is not None and isinstance(kd, T):
        ix = c.meta[0]
        src = kd.args[0] if kd.op in ("item", "at") and len(kd.args) == 2 else None
        if src is not None and src.op == "listof":
            src = src.args[0]
        if src is not None and isinstance(kd.args[1], T) and is_const(kd.args[1]) and \
                (src is ix or mkitem(ix, kd.args[1]) is kd):
            arr_set(I, base, c, kd.args[1], v, st)      # labels are unique
        elif ix.op == "list" and kd in ix.args:
            arr_set(I, base, c, num(ix.args.index(kd)), v, st)
        elif ix.op == "list" and all(is_const(a) for a in ix.args) and is_const(kd):
            a = ar.concat([c, ar.newaxis(A(I, v, st), 0)], 0)
            st.heap[base.id] = Arr(a.parts, a.bodies, "se", (raw("list", *(ix.args + (kd,))), c.meta[1]))
        elif c.rank == 1 and ix.op != "c":
            # the position that carries the label
            p = fresh()
            m = ar.of_term(tm.bind("lam", [p], [c.dims[0]], mkcmp("==", mkitem(ix, p), kd)), [c.dims[0]])
            a = ar.masked_store(c, m, A(I, v, st))
            st.heap[base.id] = Arr(a.parts, a.bodies, "se", c.meta)
        else:
            st.heap[base.id] = Opq(raw("serset", tt(I, base, st), kd, tt(I, v, st)))
        I.mutation(base, st, "%s assigned" % how)
        return
    if isinstance(c, Opq) and isdf(I, c.t) and isinstance(kd, Tup) and len(kd.items) == 2:
        rows, col = kd.items
        rd = I.deref(rows, st)
        ct = tt(I, col, st)
        if isinstance(rd, Arr) and rd.rank == 1 and all(tm.isbool(b) for b in rd.bodies.values()):
            a = I.deref(df_col(I, c.t, ct, st), st)
            na = ar.masked_store(a, rd, A(I, v, st))
            st.heap[base.id] = Opq(raw("setcol", c.t, ct, ar.lower(Arr(na.parts, na.bodies))), c.kind)
            I.mutation(base, st, "loc assigned")
            return
        if isinstance(rd, SliceV) and rd.lo is NONE and rd.hi is NONE:
            setitem(I, base, col, v, st)
            return
    if isinstance(c, Arr) and c.kind == "df":
        st.heap[base.id] = Opq(raw("dfset", tt(I, base, st), tt(I, k, st), tt(I, v, st)))
        I.mutation(base, st, "%s assigned" % how)
        return
    if isinstance(c, Opq):
        st.heap[base.id] = Opq(raw("dfset", c.t, tt(I, k, st), tt(I, v, st)), c.kind)
        I.mutation(base, st, "%s assigned" % how)
        return
    raise Unsupported("loc store %s %s" % (c, show(tt(I, k, st), 3)))


def call_ext(I, path, args, kwargs, st):
    from . import extcalls
    args = [I.resolve(a, st) for a in args]
    phi = [i for i, a in enumerate(args) if isinstance(a, PhiV)]
    if not phi:
        return extcalls.call_ext(I, path, args, kwargs, st)
    try:
        return extcalls.call_ext(I, path, args, kwargs, st)
    except Unsupported:
        # the call for either value
        i = phi[0]
        a = args[i]
        return I.fork(a.c, st, lambda s: call_ext(I, path, args[:i] + [a.a] + args[i + 1:], kwargs, s),
                      lambda s: call_ext(I, path, args[:i] + [a.b] + args[i + 1:], kwargs, s))


def call_method(I, obj, name, args, kwargs, st, src=None):
    from . import extcalls
    return extcalls.call_method(I, obj, name, args, kwargs, st, src)


def call_opaque(I, f, args, kwargs, st):
    from . import extcalls
    return extcalls.call_opaque(I, f, args, kwargs, st)
