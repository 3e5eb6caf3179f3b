"""C08: design matrix columns and names."""
from .common import *
from .c09 import case, getcol
from .. import extcalls

META = dict(level="other",
            explanation="value numbering of create_design_matrix for a symbolic data frame (any rows, alternatives and "
                        "values) and a family of specifications covering every specification form and their "
                        "combinations, against per-column definitions; the same for default and user names")
M = "pylogit.choice_tools."
S_ = const
ALT = const("alt")

SPECS = {
    "generic": [("x", "all_same")],
    "per alternative": [("y", "all_diff")],
    "listed": [("z", [1, 3])],
    "grouped": [("z", [[1, 2], [3, 4]])],
    "mixed list": [("z", [2, [1, 3], 4])],
    "mixed list 2": [("z", [[4, 1], 2])],
    "all forms": [("x", "all_same"), ("y", "all_diff"), ("z", [1, [2, 3]]), ("w", "all_same")],
    "all forms reordered": [("z", [[3, 1], 2]), ("w", "all_same"), ("y", "all_diff"), ("x", "all_same")],
    "two lists": [("q", [4]), ("z", [[1, 2, 3]]), ("x", [2, 4])],
    "intercept": [("intercept", [1, 2, 3]), ("x", "all_same")],
}


def value(c, s):
    if isinstance(s, str):
        return const(s)
    return c.lst([c.lst([num(a) for a in g]) if isinstance(g, list) else num(g) for g in s])


def reference(c, spec, names=None):
    st = c.st
    cols, nm = [], c.lst([])
    for var, s in spec:
        v = const(var)
        if s == "all_same":
            items = [("same", [c.dfr, v], c.lst([v]))]
        elif s == "all_diff":
            r = c.call("spec.design.diff_names", [c.dfr, v, ALT], st=st)
            items = [("diff", [c.dfr, v, ALT], None)]
        else:
            items = []
            for g in s:
                gv = c.lst([num(a) for a in g]) if isinstance(g, list) else num(g)
                items.append(("group" if isinstance(g, list) else "one", [c.dfr, v, ALT, gv], gv))
        for f, args, nv in items:
            st = merge_st(st, c)
            r = c.call("spec.design." + f, args, st=st)
            st = r.st
            cols.append(r.content())
            if names is None:
                if f == "same":
                    one = nv
                elif f == "diff":
                    q = c.call("spec.design.diff_names", args, st=st)
                    one, st = q.v, q.st
                else:
                    q = c.call("spec.design.one_name", [v, nv], st=st)
                    one, st = q.v, q.st
                q = c.call("spec.design.cat", [nm, one], st=st)
                nm, st = q.v, q.st
        if names is not None:
            q = c.call("spec.design.cat", [nm, c.I.alloc(st, Lst.of([const(x) for x in names[var]], "list"))], st=st)
            nm, st = q.v, q.st
    mat = cols[0] if len(cols) == 1 else ar.concat(cols, 1)
    return ar.lower(ar.unblock(mat)), c.I.lower(nm, st)


def merge_st(st, c):
    """make later allocations of the base state visible"""
    for k, v in c.st.heap.items():
        st.heap.setdefault(k, v)
    return st


def matrix(name):
    def ob(ctx):
        c = case(ctx)
        extcalls.REALCOLS.update(const(x) for x in "xyzwq")
        spec = SPECS[name]
        sp = c.dct([(k, value(c, s)) for k, s in spec], origin=["specification"])
        want, wn = reference(c, spec)
        r = c.call(M + "create_design_matrix", [c.dfr, sp, ALT])
        it = r.items()
        if not ctx.true("returns matrix and names", len(it) == 2, "returns %d values" % len(it), c.lastfn):
            return
        ctx.same("design matrix", unb(r, it[0]), want, c)
        ctx.same("default names", r.term(it[1]), wn, c)
        ctx.true("inputs left alone", not [e for e in r.effects if e.kind == "mutate"], "an input is modified", c.lastfn)
    return ob


def unb(r, v):
    a = r.content(v)
    return ar.lower(ar.unblock(a)) if isinstance(a, Arr) else r.term(v)


def named(name, order):
    """User names given in any order of the same variables."""
    def ob(ctx):
        c = case(ctx)
        extcalls.REALCOLS.update(const(x) for x in "xyzwq")
        spec = SPECS[name]
        names = {}
        for var, s in spec:
            n = 1 if s == "all_same" else 4 if s == "all_diff" else len(s)
            names[var] = ["%s name %d" % (var, i) for i in range(n)]
        sp = c.dct([(k, value(c, s)) for k, s in spec], origin=["specification"])
        seq = list(spec) if order == "same order" else list(reversed(spec)) if order == "reversed" else spec[1:] + spec[:1]
        nm = c.dct([(k, const(names[k][0]) if s == "all_same" else c.lst([const(x) for x in names[k]]))
                    for k, s in seq], origin=["names"])
        want, wn = reference(c, spec, names)
        try:
            r = c.call(M + "create_design_matrix", [c.dfr, sp, ALT], {"names": nm})
        except Dead:
            ctx.violate("names", "valid names in another order are rejected", c.lastfn)
            return
        it = r.items()
        ctx.same("design matrix", unb(r, it[0]), want, c)
        ctx.same("user names follow the columns", r.term(it[1]), wn, c)
        ctx.true("inputs left alone", not [e for e in r.effects if e.kind == "mutate"], "an input is modified", c.lastfn)
    return ob


def positions(ctx):
    c = case(ctx)
    names = c.lst([const(x) for x in ("a", "b", "c", "d")])
    for pick, want in ((["c"], [2]), (["d", "a"], [3, 0]), (["b", "c", "a"], [1, 2, 0])):
        r = c.call(M + "convert_mixing_names_to_positions", [c.lst([const(x) for x in pick]), names])
        ctx.same("positions of %s" % pick, r.term(), raw("list", *[num(x) for x in want]), c)


OBLIGATIONS = [("create_design_matrix %s" % n, matrix(n)) for n in SPECS] + \
    [("create_design_matrix names %s, %s" % (n, o), named(n, o)) for n in SPECS if len(SPECS[n]) > 1 or n == "mixed list"
     for o in ("same order", "reversed", "rotated")] + [("mixing names", positions)]
