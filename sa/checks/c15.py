"""C15: fit options reach the computation."""
from .glue import *
from .c07 import names_for

META = dict(level="other",
            explanation="every model type's fit_mle is evaluated symbolically up to the optimiser; what the optimiser is "
                        "given is compared with the kernels applied to the user's own option values")


def allopts(c, typ, just):
    w = c.arr("w", tm.mknrows(c.df), origin=["weights"])
    o = dict(OPTIONS, ridge=sym("ridge", "num"), weights=w, just_point=const(just),
             constrained_pos=c.lst([ZERO, num(second(typ))], origin=["constrained_pos"]))
    if typ == "Mixed Logit":
        o.update(num_draws=sym("nd", "int"), seed=sym("seed", "int"))
    return o


def second(typ):
    return 2 if typ == "Mixed Logit" else 3


def entries(I, v, st):
    d = I.deref(v, st)
    if not isinstance(d, Dct) or d.base is not None:
        raise Unsupported("options are not a known dict")
    return {k.args[1]: x for k, x in d.ents}


def pieces(c, typ, inter):
    """Objective, gradient and curvature the optimiser is given, and the reference ones."""
    I, kw, st, o = c.I, c.mkw, c.mst, c.opts
    w = Wire(c, typ, inter, c.model, st, ridge=o.get("ridge", NONE), weights=o.get("weights", NONE),
             num_draws=o.get("num_draws", NONE), seed=o.get("seed", NONE))
    th = w.vec("th")
    s2 = w.st
    # not the first evaluation: the same vector, as the optimiser overwrites it
    now = s2.heap[th.id]
    s2.heap[th.id] = ar.symarr("earlier th", total(typ, inter))
    n0 = len(I.effects)
    I.call(kw["fun"], [th], {}, s2)
    del I.effects[n0:]
    s2.heap[th.id] = now
    got = I.call(kw["fun"], [th], {}, s2)
    jac = I.deref(kw.get("jac", NONE), st)
    its = got.items if isinstance(got, Tup) else None
    if its is None or jac is not TRUE:
        if isinstance(jac, T):
            raise Unsupported("objective without gradient pair")
        its = [got, I.call(kw["jac"], [th], {}, s2)]
    return w, th, its


def constrained(c, typ):
    cons = set()
    if "constrained_pos" in c.opts:
        cons |= {0, second(typ)}
    return cons | ({1} if typ == "Nested Logit" else set())


def objective(ctx, c, typ, inter, name="the negative objective is minimised"):
    w, th, its = pieces(c, typ, inter)
    wired(ctx, name, c.I.lower(its[0], w.st), pneg(w.term(w.call("LL", th))), c)


def gradient(ctx, c, typ, inter, name="with the negative gradient"):
    w, th, its = pieces(c, typ, inter)
    g = c.I.deref(w.call("G", th), w.st)
    cons = constrained(c, typ)
    want = zeroed(g, cons) if cons else ar.amap(pneg, ar.unblock(g))
    wired(ctx, name, c.I.lower(its[1], w.st), ar.lower(want), c)


def plainopts(c, typ, ridge, wt):
    o = dict(OPTIONS, just_point=TRUE)
    if ridge:
        o["ridge"] = sym("ridge", "num")
    if wt:
        o["weights"] = c.arr("w", tm.mknrows(c.df), origin=["weights"])
    if typ == "Mixed Logit":
        o.update(num_draws=sym("nd", "int"), seed=sym("seed", "int"))
    return o


def optimiser(typ, inter, just, plain=False):
    def ob(ctx):
        c, q = fitted(ctx, typ, inter, (lambda c: dict(plainopts(c, typ, False, False), just_point=const(just))) if plain else
                      (lambda c: allopts(c, typ, just)))
        I, kw, st = c.I, c.mkw, c.mst
        o = c.opts
        loc = c.mini.loc
        low = lambda v: I.lower(v, st)
        opts = entries(I, kw["options"], st) if "options" in kw else {}
        ctx.same("method", low(kw.get("method", NONE)), o["method"], c, loc)
        ctx.same("loss tolerance", low(kw.get("tol", opts.get("ftol", NONE))), o["loss_tol"], c, loc)
        ctx.same("gradient tolerance", low(opts.get("gtol", NONE)), o["gradient_tol"], c, loc)
        ctx.same("iteration limit", low(opts.get("maxiter", NONE)), o["maxiter"], c, loc)
        ctx.same("initial values", low(kw["x0"]), low(c.init), c, loc)
        at = I.deref(c.model, q.st).attrs
        for k, a in (("method", "optimization_method"), ("ridge", "ridge_param")):
            if a not in at and a not in c.before:
                ctx.violate("%s recorded on the model" % k, "is not recorded", c.lastfn)
                continue
            ctx.same("%s recorded on the model" % k, I.lower(at.get(a, c.before.get(a, NONE)), q.st), o.get(k, NONE), c, c.lastfn)
        objective(ctx, c, typ, inter, "ridge and weights in the objective")
        gradient(ctx, c, typ, inter, "ridge, weights and constraints in the gradient")
        if "hess" in kw and I.isnone(kw["hess"], st) is not TRUE:
            w, th, its = pieces(c, typ, inter)
            s2 = w.st
            h = I.call(kw["hess"], [th], {}, s2)
            hk = I.deref(w.call("H", th), s2)
            hk = ar.amap(pneg, ar.unblock(hk))
            if typ in ("Nested Logit", "Mixed Logit"):
                hk = fixed_rows(hk, constrained(c, typ))
            wired(ctx, "ridge and weights in the Hessian", I.lower(h, s2), ar.lower(hk), c)
    return ob


def zeroed(g, cons):
    g = ar.unblock(g)
    hit = tm.mkor(*[tm.mkcmp("==", ax(0), num(i)) for i in sorted(cons)])
    return ar.amap(lambda b: mkite(hit, ZERO, pneg(b)), g)


def fixed_rows(h, cons):
    """negated curvature with unit rows for the constrained positions"""
    def f(b):
        for i in sorted(cons):
            r, cl = tm.mkcmp("==", ax(0), num(i)), tm.mkcmp("==", ax(1), num(i))
            b = mkite(tm.mkand(r, cl), ONE, mkite(tm.mkor(r, cl), ZERO, b))
        return b
    return ar.amap(f, h)


def warning(typ, inter):
    def ob(ctx):
        c, q = fitted(ctx, typ, inter, lambda c: dict(ridge=sym("ridge", "num"), just_point=TRUE))
        ctx.true("a penalised fit warns", any(e.kind == "warn" for e in q.effects),
                 "no warning is issued for a ridge value", c.lastfn)
        c, q = fitted(ctx, typ, inter, lambda c: dict(just_point=TRUE))
        ctx.true("an unpenalised fit does not warn", not any(e.kind == "warn" for e in q.effects),
                 "a warning is issued without a ridge value", c.lastfn)
    return ob


# resampling entry points -------------------------------------------------------------------------------------
CONF = sym("conf", "num")


def recorded(c, typ):
    """Every refit, with the arguments it is given."""
    calls = []

    def op(I, f, args, kwargs, st):
        fr = bound(I, f, args, kwargs, st)
        if "kwargs" in fr:
            d = I.deref(fr.pop("kwargs"), st)
            fr.update({k.args[1]: v for k, v in d.ents})
        o = I.deref(fr["self"], st)
        calls.append((fr, st.copy(), I.loc, o))
        return I.alloc(st, Dct(app("refit outcome", [const(o.cls.node.name)]), [(const("x"), mkres(I, st, app("refit", [const(o.cls.node.name), I.lower(fr["init_vals"], st)]),
                                                         [dimn(I, fr["init_vals"], st)]))], "optres"))
    for t in TYPES.values():
        c.I.opaque["pylogit.%s.%s.fit_mle" % (t["mod"], t["cls"])] = op
    return calls


def resampled(ctx, typ, inter):
    c = model_case(ctx)
    c.over["conf"] = lambda m: D(m.rnd.randint(50, 999)) / D(10)
    c.model = build(c, typ, inter, **names_for(c, typ, inter, {})).v
    mn = c.call("pylogit.conditional_logit.MNL", [c.dfr, COLS["alt"], COLS["obs"], COLS["ch"],
                                                  c.dct([("x", const("all_same"))])],
                dict(names=c.dct([("x", const("mnl x"))])))
    c.st, c.mnl = mn.st, mn.v
    c.P = total(typ, inter)
    c.calls = recorded(c, typ)
    b = c.call("pylogit.bootstrap.Boot", [c.model, c.arr("mle", c.P)])
    c.st, c.boot = b.st, b.v
    c.w = c.arr("w", tm.mknrows(c.df))
    c.user = dict(method=sym("method", "str"), loss_tol=sym("ltol", "num"), gradient_tol=sym("gtol", "num"),
                  maxiter=sym("maxit", "int"), ridge=sym("ridge", "num"), constrained_pos=c.lst([ZERO]), print_res=FALSE)
    c.mnl0 = c.arr("mnl0", c.P if typ == "MNL" else ONE)
    c.mnlopts = dict(method=sym("mmethod", "str"), ridge=sym("mridge", "num"), maxiter=sym("mmaxit", "int"))
    return c


def custominit(c):
    """The user's own function from the first fit to initial values."""
    return c.func("userinit", [c.P])


def flows(c, typ):
    """Call, whether a first plain fit belongs to it, what the refits have to be given."""
    B = lambda n: c.I.getattr(c.boot, n, c.st)
    mo = dict(mnl_init_vals=c.mnl0)
    if typ != "MNL":
        mo.update(mnl_obj=c.mnl, mnl_fit_kwargs=c.dct(list(c.mnlopts.items())), extract_init_vals=custominit(c))
    user = dict(c.user)
    boot = dict(user, weights=None)
    init = c.arr("init", c.P)
    abc = dict(user, init_vals=init)
    return [("bootstrap", lambda: c.call(B("generate_bootstrap_replicates"), [sym("NB", "int")],
                                         dict(user, boot_seed=sym("seed", "int"), **mo)), True, user),
            ("jackknife", lambda: c.call(B("generate_jackknife_replicates"), [], dict(user, **mo)), True, user),
            ("ABC interval", lambda: c.call(B("calc_abc_interval"), [CONF, init], user), False, abc),
            ("requested interval", lambda: c.call(B("calc_conf_intervals"), [CONF],
                                                  dict(user, init_vals=init, interval_type=const("abc"))), False, abc)]


def forwarding(typ, inter, which):
    def ob(ctx):
        c = resampled(ctx, typ, inter)
        I = c.I
        name, go, first, want = flows(c, typ)[which]
        q = go()
        fn = c.lastfn
        own = [k for k in c.calls if k[3].cls.node.name == TYPES[typ]["cls"]]
        ctx.true("the model is refitted", bool(own), "no refit happens", fn)
        for fr, st, loc, o in own:
            low = lambda v: I.lower(v, st)
            for k, v in want.items():
                if k not in fr:
                    ctx.violate("%s reaches the refit" % k, "is not passed on", loc)
                else:
                    ctx.same("%s reaches the refit" % k, low(fr[k]), low(v), c, loc)
            ctx.true("a point estimate is asked for", fr.get("just_point") is TRUE, "the refit is not point-only", loc)
            if first and typ == "MNL":
                ctx.same("initial values reach the refit", low(fr["init_vals"]), low(c.mnl0), c, loc)
            elif first:
                ctx.true("the user's initial-value function is used", mentions(low(fr["init_vals"]), "userinit"),
                         "the refit starts elsewhere", loc)
        if first and typ != "MNL":
            plain = [k for k in c.calls if k[3].cls.node.name == "MNL"]
            ctx.true("a plain fit gives the start", bool(plain), "no plain fit happens", fn)
            for fr, st, loc, o in plain:
                for k, v in list(c.mnlopts.items()) + [("init_vals", c.mnl0)]:
                    if k not in fr:
                        ctx.violate("%s reaches the plain fit" % k, "is not passed on", loc)
                    else:
                        ctx.same("%s reaches the plain fit" % k, I.lower(fr[k], st), I.lower(v, st), c, loc)
                ctx.true("a point estimate is asked for", fr.get("just_point") is TRUE, "the plain fit is not point-only", loc)
    return ob


def gradat(w, theta, st):
    w.st = st
    return w.call("G", theta)


def norms(typ, inter, which):
    """Gradient norms use the user's ridge and weights."""
    def ob(ctx):
        c = resampled(ctx, typ, inter)
        I = c.I
        at = I.deref(c.boot, c.st).attrs
        reps = c.arr("reps", sym("NR", "size"), c.P)
        at[which + "_replicates"] = I.call(c.fn("spec.intervals.frame"), [reps, I.getattr(at["mle_params"], "index", c.st)], {}, c.st)
        q = c.call(I.getattr(c.boot, "calc_gradient_norm_for_replicates", c.st), [],
                   dict(replicates=const(which), ridge=c.user["ridge"], weights=c.w))
        fn = c.lastfn
        w = Wire(c, typ, inter, c.model, q.st, ridge=c.user["ridge"], weights=c.w)
        s2 = w.st
        if typ != "Nested Logit":
            w.derivs()
        grad = PyFunc(lambda I2, a, k, s: gradat(w, a[0], s), "gradient")
        want = I.call(c.fn("spec.resampling.norms"), [reps, grad], {}, s2)
        wired(ctx, "norms of the replicates' gradients", I.lower(q.v, q.st), I.lower(want, s2), c)
    return ob


BOOTED = [x for x in configs() if x[0] != "Mixed Logit"]
FLOWS = ["bootstrap", "jackknife", "ABC interval", "requested interval"]

OBLIGATIONS = [("%s fit%s" % (label(t, i), " point only" if j else ""), optimiser(t, i, j))
               for t, i in configs() for j in (True, False)] + \
    [("%s ridge warning" % label(t, i), warning(t, i)) for t, i in configs()] + \
    [("%s %s options" % (label(t, i), f), forwarding(t, i, j)) for t, i in BOOTED for j, f in enumerate(FLOWS)] + \
    [("%s %s gradient norms" % (label(t, i), w), norms(t, i, w)) for t, i in BOOTED for w in ("bootstrap", "jackknife")]
OBLIGATIONS += [("%s fit%s, after an earlier one" % (label(t, i), " without options" if p else ""), again(optimiser(t, i, True, p)))
                for t, i in configs() for p in (False, True)] + \
    [("%s %s options, after earlier calls" % (label(t, i), f), again(forwarding(t, i, j))) for t, i in BOOTED
     if t in ("MNL", "Nested Logit") for j, f in enumerate(FLOWS)] + \
    [("%s %s gradient norms, after earlier calls" % (label(t, i), w), again(norms(t, i, w))) for t, i in BOOTED
     if t in ("MNL", "Nested Logit") for w in ("bootstrap", "jackknife")]
