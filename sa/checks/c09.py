"""C09: mapping matrices."""
from .common import *

META = dict(level="other",
            explanation="value numbering of every mapping constructor for symbolic identifier columns against the "
                        "indicator definition (first-appearance, sorted and specification orders)")
M = "pylogit.choice_tools."
OBS, ALT, CH, MIX = [const(x) for x in ("obs", "alt", "ch", "mix")]


def ids_model(m):
    return [D(m.rnd.choice([7, 3, 11, 2, 5])) for _ in range(int(m.size("R")))]


def col(df, name):
    return raw("getcol", df, name)


def getcol(m, name, n):
    if name in ("obs", "mix"):
        return [D(m.rnd.choice([7, 3, 11])) for _ in range(n)]
    if name == "alt":
        return [D(m.rnd.choice([4, 1, 3, 2])) for _ in range(n)]
    if name == "ch":
        return [D(m.rnd.randint(0, 1)) for _ in range(n)]
    return None


def case(ctx):
    c = base_case(ctx)
    c.over.update({"ids": ids_model, "getcol": getcol,
                   "uniq": lambda m: [D(x) for x in m.rnd.sample([7, 3, 11, 2, 5, 13], int(m.size("K")))]})
    c.df = sym("df", "df")
    c.dfr = c.ref(Opq(c.df), origin=["data"])
    return c


def indicator(rows, nr, cols, nc):
    return ar.lower(ar.mk([nr, nc], mkcmp("==", mkat(rows, ax(0)), mkat(cols, ax(1)))))


def base(ctx):
    c = case(ctx)
    ids = c.arr("ids", R)
    t = sym("ids", "arr")
    uo, nu = raw("uo", t), raw("nuniq", t)
    r = c.call(M + "get_original_order_unique_ids", [ids])
    ctx.same("identifiers in order of first appearance", r.term(), uo, c)
    r = c.call(M + "create_sparse_mapping", [ids])
    ctx.same("default mapping", r.term(), indicator(t, R, uo, nu), c)
    ctx.true("mapping is sparse", getattr(r.content(), "kind", "sp") == "sp", "a dense array is returned", c.lastfn)
    u = c.arr("uniq", K)
    r = c.call(M + "create_sparse_mapping", [ids, u])
    ctx.same("mapping to given identifiers", r.term(), indicator(t, R, sym("uniq", "arr"), K), c)
    r = c.call(M + "create_sparse_mapping", [], dict(id_array=ids, unique_ids=u))
    ctx.same("mapping to given identifiers, by keyword", r.term(), indicator(t, R, sym("uniq", "arr"), K), c)
    r = c.call(M + "create_row_to_some_id_col_mapping", [ids])
    ctx.same("dense mapping", r.term(), indicator(t, R, uo, nu), c)
    rejected(ctx, c, "identifiers given as a list", M + "create_sparse_mapping", {}, [c.lst([num(1), num(2)])])


KEYS = ["rows_to_obs", "rows_to_alts", "chosen_row_to_obs", "rows_to_nests", "rows_to_mixers"]


def expected(c, choice, nests, mix):
    df = c.df
    n = tm.mknrows(df)
    o, a, m = mkgetcol(df, OBS), mkgetcol(df, ALT), mkgetcol(df, MIX)
    w = {}
    ro = mkcmp("==", mkat(o, ax(0)), mkat(raw("uo", o), ax(1)))
    w["rows_to_obs"] = ar.lower(ar.mk([n, raw("nuniq", o)], ro))
    w["rows_to_alts"] = indicator(a, n, raw("su", a), raw("nuniq", a))
    w["chosen_row_to_obs"] = ar.lower(ar.mk([n, raw("nuniq", o)], pmul(mkat(mkgetcol(df, CH), ax(0)), ro))) if choice else NONE
    w["rows_to_mixers"] = indicator(m, n, raw("uo", m), raw("nuniq", m)) if mix else NONE
    if nests:
        b = FALSE
        for j, (_, alts) in reversed(list(enumerate(nests))):
            inj = mkor(*[mkcmp("==", mkat(a, ax(0)), num(x)) for x in alts])
            b = mkor(mkand(mkcmp("==", ax(1), num(j)), inj), b)
        w["rows_to_nests"] = ar.lower(ar.mk([n, num(len(nests))], b))
    else:
        w["rows_to_nests"] = NONE
    return w


NESTS = {"none": None, "two": [("b", [1, 3]), ("a", [2, 4])], "three": [("z", [4]), ("m", [3, 1]), ("a", [2])]}


def long_form(choice, nests, mix, dense):
    def ob(ctx):
        c = case(ctx)
        kw = {}
        if choice:
            kw["choice_col"] = CH
        if nests != "none":
            kw["nest_spec"] = c.dct([(k, c.lst([num(x) for x in v])) for k, v in NESTS[nests]], origin=["nests"])
        if mix:
            kw["mix_id_col"] = MIX
        if dense:
            kw["dense"] = TRUE
        r = c.call(M + "create_long_form_mappings", [c.dfr, OBS, ALT], kw)
        want = expected(c, choice, NESTS[nests], mix)
        d = r.content()
        for k in KEYS:
            v = d.get(const(k)) if isinstance(d, Dct) else None
            if not ctx.true("entry %s" % k, v is not None, "entry %s is missing" % k, c.lastfn):
                continue
            ctx.same(k, r.term(v), want[k], c)
            if want[k] is not NONE and dense:
                kd = getattr(r.content(v), "kind", None)
                ctx.true("%s is dense" % k, kd != "sp", "a sparse matrix is returned", c.lastfn)
        ctx.true("inputs left alone", not [e for e in r.effects if e.kind == "mutate"], "an input is modified", c.lastfn)
    return ob


def fit_mappings(nests, mix):
    """get_mappings_for_fit passes the model's own data and identifiers."""
    def ob(ctx):
        c = case(ctx)
        cl = c.fn("pylogit.base_multinomial_cm_v2.MNDC_Model")
        ns = c.dct([(k, c.lst([num(x) for x in v])) for k, v in NESTS[nests]]) if nests != "none" else NONE
        me = c.ref(Obj(cl, {"data": c.dfr, "obs_id_col": OBS, "alt_id_col": ALT, "choice_col": CH,
                            "nest_spec": ns, "mixing_id_col": MIX if mix else NONE}))
        f = c.I.getattr(me, "get_mappings_for_fit", c.st)
        for dense in (False, True):
            r = c.call(f, [], {"dense": const(dense)})
            want = expected(c, True, NESTS[nests], mix)
            d = r.content()
            for k in KEYS:
                v = d.get(const(k)) if isinstance(d, Dct) else None
                if ctx.true("entry %s" % k, v is not None, "entry %s is missing" % k, c.lastfn):
                    ctx.same("%s dense=%s" % (k, dense), r.term(v), want[k], c)
    return ob


OBLIGATIONS = [("mapping primitives", base)] + \
    [("create_long_form_mappings choice=%d nests=%s mixing=%d dense=%d" % k, long_form(*k))
     for k in [(c, n, m, d) for c in (0, 1) for n in NESTS for m in (0, 1) for d in (0, 1)]] + \
    [("get_mappings_for_fit nests=%s mixing=%d" % k, fit_mappings(*k)) for k in [("none", 0), ("two", 0), ("three", 1)]]
