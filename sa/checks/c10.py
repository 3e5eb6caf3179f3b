"""C10: conversions between wide and long format."""
from .common import *
from ..kit import replace
from .. import randint as ri, extcalls
from .c13 import rejection

META = dict(level="other",
            explanation="value numbering of both conversions on a symbolic data frame (unknown rows, identifiers, order and "
                        "availability) against a row-by-row reference; the frames are compared by observation, alternative "
                        "and column name; the raising conditions are compared with the invalid-data conditions")
M = "pylogit.choice_tools."
F = "spec.formats."
OBS, ALT, CH = [const(x) for x in ("obs", "alt", "ch")]
ALTS = [8, 1, 5, 3]
MEASURED = {const(x) for x in ["x", "y", "p", "q", "s", "t"] + [v + str(a) for v in "pq" for a in range(10)]}
LONG = [(("x", "y"), ("p", "q"), (("s", (3, 1)),), None, None),
        ((), ("p",), (), None, "null"),
        (("x",), (), (("s", (5, 3)), ("t", (8,))), {3: "car", 1: "bus", 5: "walk", 8: "bike"}, None),
        (("y", "x"), ("q", "p"), (("s", (5,)),), {8: "a", 5: "b", 3: "c", 1: "d"}, "null")]


def pool(m):
    """Identifiers: not 1, 2, 3, ..., not sorted."""
    ids = [11, 3, 7, 20, 5, 13]
    m.rnd.shuffle(ids)
    return ids


def long_data(loose):
    def gen(m):
        if hasattr(m, "joint"):
            return m.joint
        rows = []
        k4 = m.rnd.choice((4, 4, 36))       # some columns are fractions between zero and one
        lo = -20 if k4 == 4 else 0
        for o in pool(m)[:m.rnd.randint(1, 3)]:
            alts = m.rnd.sample(ALTS, m.rnd.randint(1, 4))
            c = m.rnd.choice(alts)
            x, y = m.rnd.randint(lo, 36) / k4, m.rnd.randint(0, 1)
            for a in alts:
                rows.append(dict(obs=o, alt=a, ch=int(a == c), x=x, y=y, p=m.rnd.randint(-36, 36) / 4, q=m.rnd.randint(1, 99),
                                 s=m.rnd.randint(-9, 9), t=m.rnd.randint(-2, 2)))
        if len({r["alt"] for r in rows}) < 4:
            # every alternative occurs
            o = rows[-1]
            for a in set(ALTS) - {r["alt"] for r in rows}:
                rows.append(dict(o, alt=a, ch=0, p=m.rnd.randint(-36, 36) / 4, q=m.rnd.randint(1, 99), s=m.rnd.randint(-9, 9), t=3))
        m.rnd.shuffle(rows)
        if loose and m.rnd.random() < 0.7:
            for _ in range(m.rnd.randint(1, 2)):
                r = m.rnd.choice(rows)
                k = m.rnd.choice(["obs", "alt", "ch", "ch"])
                r[k] = m.rnd.choice([q[k] for q in rows] + ([0, 1] if k == "ch" else []))
        m.joint = rows
        return rows
    return gen


def models(gen):
    def getcol(m, name, n):
        rows = gen(m)
        return [D(r[name]) for r in rows] if name in rows[0] else None
    return {"nrows": lambda m: len(gen(m)), "getcol": getcol}


def frame(ctx, gen):
    c = base_case(ctx)
    extcalls.REALCOLS.update(MEASURED)
    c.over.update(models(gen))
    c.over["null"] = lambda m: D(-999)
    c.df = sym("df", "df")
    c.dfr = c.ref(Opq(c.df), origin=["data"])
    c.mini = c
    return c


def strs(c, names, **kw):
    return c.lst([const(x) for x in names], **kw)


def present(cond, df, names):
    cols = raw("attr", df, "columns")
    return replace(cond, {raw("isin", const(k), cols): TRUE for k in names})


def rowset(t, *keys):
    return raw("rowset", t, raw("list", *keys))


def untouched(ctx, c, r):
    bad = [e for e in r.effects if e.kind == "mutate"]
    ctx.true("inputs left alone", not bad, "an input is modified", bad[0].loc[:3] if bad else c.lastfn)


def reject(ctx, c, cond, name, f, args, names):
    w = c.call(F + f, args).term()
    w = present(w, c.df, names)
    want = mkor(cond, w)
    weak = ri.weak_parts(cond, tm.subterms(w))
    if weak and cond is not want and ri.agree(cond, want, over=c.over, sizes=c.sizes, seeds=range(90))[0] != "same":
        ctx.unsure(name + " rejected", "unmodelled construct: %s" % "; ".join(sorted({show(x, 2)[:80] for x in weak})[:3]))
        return
    ctx.same(name + " rejected", cond, want, c, c.lastrepo, models=90)


def to_wide(k):
    def ob(ctx):
        ind, av, sub, nm, null = LONG[k]
        c = frame(ctx, long_data(False))
        c.I.keycols.add((c.df, OBS))
        iv, al = strs(c, ind, origin=["ind_vars"]), strs(c, av, origin=["alt_specific_vars"])
        sv = c.dct([(x, c.lst([num(a) for a in v])) for x, v in sub], origin=["subset_specific_vars"])
        nd = c.dct([(num(a), const(v)) for a, v in nm.items()], "dict", origin=["alt_name_dict"]) if nm else NONE
        nl = sym("null", "num") if null else raw("c", "nan", None)
        kw = {}
        if nm:
            kw["alt_name_dict"] = nd
        if null:
            kw["null_value"] = nl
        cond, rs, r = rejection(c, M + "convert_long_to_wide", [c.dfr, iv, al, sv, OBS, ALT, CH], kw)
        c.lastrepo = fn = c.lastfn
        if r is None:
            raise Unsupported("conversion does not complete")
        want = c.call(F + "wide", [c.dfr, iv, al, sv, OBS, ALT, CH, nd, nl])
        ctx.same("wide frame", rowset(r.term(), OBS), rowset(want.term(), OBS), c, fn)
        untouched(ctx, c, r)
        names = list(ind) + list(av) + [x for x, _ in sub] + ["obs", "alt", "ch"]
        cond = present(cond, c.df, names)
        ctx.same("valid data accepted", cond, FALSE, c, fn)
        c.over.update(models(long_data(True)))
        reject(ctx, c, cond, "repeated observation-alternative pairs", "several", [c.dfr, OBS, ALT], names)
        reject(ctx, c, cond, "observations without choice", "none_chosen", [c.dfr, OBS, CH], names)
        reject(ctx, c, cond, "observations with several choices", "many_chosen", [c.dfr, OBS, CH], names)
    return ob


WIDE = [((2, 1), ("x", "y"), {"p": {1: "p1", 2: "p2"}, "q": {2: "q2"}}, None),
        ((1, 2, 3), ("x",), {"q": {3: "q3", 1: "q1"}, "p": {3: "p3", 2: "p2", 1: "p1"}}, "alternative"),
        ((7, 2, 4), (), {"p": {4: "p4", 7: "p7", 2: "p2"}}, None),
        ((4, 9, 1, 6), ("y", "x"), {"p": {6: "p6", 1: "p1"}, "q": {9: "p9"}}, "alternative")]


def wide_data(alts, loose):
    def gen(m):
        if hasattr(m, "joint"):
            return m.joint
        rows = []
        k4 = m.rnd.choice((4, 4, 36))
        lo = -20 if k4 == 4 else 0
        ch = list(alts) + [m.rnd.choice(alts) for _ in range(m.rnd.randint(0, 2))]
        m.rnd.shuffle(ch)
        for o, c in zip(pool(m), ch):
            r = dict(obs=o, ch=c, x=m.rnd.randint(lo, 36) / k4, y=m.rnd.randint(0, 1))
            for a in alts:
                r["a%d" % a] = int(a == c or m.rnd.random() < 0.6)
                r["p%d" % a] = m.rnd.randint(-36, 36) / 4
                r["q%d" % a] = m.rnd.randint(1, 99)
            rows.append(r)
        if loose and m.rnd.random() < 0.7:
            for _ in range(m.rnd.randint(1, 2)):
                r = m.rnd.choice(rows)
                k = m.rnd.choice(["obs", "av", "av", "unknown", "blank"])
                if k == "obs":
                    r[k] = m.rnd.choice(rows)["obs"]
                elif k == "av" and r["ch"] in alts:
                    r["a%d" % r["ch"]] = 0
                elif k == "blank":
                    r["ch"] = "NaN"
                elif k == "unknown" and r["ch"] in alts:
                    r["ch"] = 55
        m.joint = rows
        return rows
    return gen


def to_long(k):
    def ob(ctx):
        alts, ind, av, altname = WIDE[k]
        c = frame(ctx, wide_data(alts, False))
        c.I.knownvals[mkgetcol(c.df, CH)] = alts
        iv = strs(c, ind, origin=["ind_vars"])
        vd = c.dct([(v, c.dct([(num(a), const(x)) for a, x in m.items()])) for v, m in av.items()], origin=["alt_specific_vars"])
        ad = c.dct([(num(a), const("a%d" % a)) for a in alts], origin=["availability_vars"])
        kw = {"new_alt_id_name": const(altname)} if altname else {}
        nm = const(altname or "alt_id")
        cond, rs, r = rejection(c, M + "convert_wide_to_long", [c.dfr, iv, vd, ad, OBS, CH], kw)
        c.lastrepo = fn = c.lastfn
        if r is None:
            raise Unsupported("conversion does not complete")
        want = c.call(F + "long", [c.dfr, iv, vd, ad, OBS, CH, nm, c.lst([num(a) for a in sorted(alts)])])
        ctx.same("long frame", rowset(r.term(), OBS, nm), rowset(want.term(), OBS, nm), c, fn)
        untouched(ctx, c, r)
        names = list(ind) + [x for m in av.values() for x in m.values()] + ["a%d" % a for a in alts] + ["obs", "ch"]
        cond = present(cond, c.df, names)
        ctx.same("valid data accepted", cond, FALSE, c, fn)
        # the choices of invalid data are arbitrary
        c.I.knownvals.clear()
        c.over.update(models(wide_data(alts, True)))
        reject(ctx, c, cond, "repeated observations", "repeated", [c.dfr, OBS], names)
        reject(ctx, c, cond, "blank choices", "blank", [c.dfr, CH], names)
        reject(ctx, c, cond, "unknown choices", "unknown", [c.dfr, CH, ad], names)
        reject(ctx, c, cond, "choices of unavailable alternatives", "unavailable", [c.dfr, CH, ad], names)
    return ob


def only_inputs(ob):
    """The conversion leaves its arguments alone (part of C11)."""
    def run(ctx):
        n = len(ctx.held), len(ctx.inconclusive), len(ctx.violations)
        ob(ctx)
        for l, k in zip((ctx.held, ctx.inconclusive, ctx.violations), n):
            l[k:] = [x for x in l[k:] if "inputs left alone" in (x if isinstance(x, str) else str(getattr(x, "ob", x)))]
    return run


OBLIGATIONS = [("long to wide %d" % k, to_wide(k)) for k in range(len(LONG))] + \
    [("wide to long %d" % k, to_long(k)) for k in range(len(WIDE))]
