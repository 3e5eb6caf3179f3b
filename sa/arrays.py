"""Array values in blocked index form.

An Arr describes an array of known rank: per axis a partition into symbolic
block sizes, and for every combination of blocks a pointwise body over the
local index variables ax(0..n-1).  All operations are exact on this form.
"""
from itertools import product
from .terms import *
from . import terms as tm


class Arr(object):
    __slots__ = ("parts", "bodies", "kind", "meta", "b", "q")

    def __init__(self, parts, bodies, kind="nd", meta=None, b=None):
        self.b = b                # True for arrays of logical dtype
        self.q = None             # what a number goes through when it is stored: None, "trunc", "f32"
        self.parts = tuple(tuple(p) for p in parts)
        self.bodies = bodies
        self.kind = kind
        self.meta = meta          # (index term, name / columns term) of pandas values

    @property
    def rank(self):
        return len(self.parts)

    def dim(self, k):
        return padd(*self.parts[k])

    @property
    def dims(self):
        return [self.dim(k) for k in range(self.rank)]

    def single(self):
        return len(self.bodies) == 1

    @property
    def body(self):
        if self.single():
            return next(iter(self.bodies.values()))
        return unblock(self).body

    def withkind(self, kind):
        return Arr(self.parts, self.bodies, kind, self.meta)

    def withmeta(self, meta):
        return Arr(self.parts, self.bodies, self.kind, meta)

    def same(self, o):
        return isinstance(o, Arr) and self.parts == o.parts and self.kind == o.kind \
            and self.bodies == o.bodies

    def __repr__(self):
        return "Arr[%s %s: %s]" % (self.kind, ",".join(show(d) for d in self.dims),
                                   "; ".join(show(b) for b in self.bodies.values()))


class RankError(Exception):
    pass


def mk(dims, body, kind="nd"):
    n = len(dims)
    return Arr([(d,) for d in dims], {(0,) * n: body}, kind)


def scalar(t, kind="py"):
    return Arr((), {(): t}, kind)


def of_term(t, dims, kind="nd"):
    """Array denoted by term t with the given dims (eta expansion)."""
    if t.op == "B" and t.args[0] == "lam" and t.args[1] == len(dims):
        return from_lam(t, kind)
    return mk(list(dims), mkat(t, *[ax(i) for i in range(len(dims))]), kind)


def from_lam(t, kind="nd"):
    knd, dims, body = tm.bparts(t)
    n = len(dims)
    return mk(list(dims), tm.bapply(t, [ax(i) for i in range(n)]), kind)


def symarr(name, *dims, **kw):
    s = sym(name, kw.get("symkind", "arr"))
    return of_term(s, list(dims), kw.get("kind", "nd"))


def lower(a):
    """Term for an array value."""
    if a.rank == 0:
        return a.body
    if not a.single():
        # canonical blocked term
        keys = sorted(a.bodies)
        args = [a.rank]
        for p in a.parts:
            args.append(raw("parts", *p))
        for k in keys:
            args.append(lower(Arr([(a.parts[i][k[i]],) for i in range(a.rank)],
                                  {(0,) * a.rank: a.bodies[k]})))
        return raw("blk", *args)
    body = a.body
    n = a.rank
    if body.op == "at" and len(body.args) == n + 1 and \
            all(body.args[i + 1] is ax(i) for i in range(n)) and \
            not any(ax(i) in body.args[0].fv for i in range(n)):
        return body.args[0]
    vs = [fresh() for _ in range(n)]
    return tm.bind("lam", vs, [p[0] for p in a.parts],
                   subst(body, {ax(i): vs[i] for i in range(n)}))


def _offsets(part):
    off = ZERO
    out = []
    for p in part:
        out.append(off)
        off = padd(off, p)
    return out


def unblock(a):
    if a.single():
        return a
    res = None
    n = a.rank

    def build(axis, key):
        if axis == n:
            offs = {}
            for i in range(n):
                o = _offsets(a.parts[i])[key[i]]
                if o is not ZERO:
                    offs[ax(i)] = psub(ax(i), o)
            b = a.bodies[key]
            return subst(b, offs) if offs else b
        part = a.parts[axis]
        offs = _offsets(part)
        t = build(axis + 1, key + (len(part) - 1,))
        for k in range(len(part) - 2, -1, -1):
            t = mkite(mkcmp("<", ax(axis), offs[k + 1]), build(axis + 1, key + (k,)), t)
        return t
    return mk(a.dims, build(0, ()), a.kind)


def shift(b, axis, off):
    if off is ZERO:
        return b
    return subst(b, {ax(axis): padd(ax(axis), off)})


def repart(a, axis, part):
    """Refine the partition of one axis to `part` if that is possible."""
    cur = a.parts[axis]
    part = tuple(part)
    if cur == part:
        return a
    if len(cur) == 1:
        offs = _offsets(part)
        bodies = {}
        for k, b in a.bodies.items():
            for j in range(len(part)):
                kk = k[:axis] + (j,) + k[axis + 1:]
                bodies[kk] = shift(b, axis, offs[j])
        return Arr(a.parts[:axis] + (part,) + a.parts[axis + 1:], bodies, a.kind)
    # part refines cur?
    bodies = {}
    j = 0
    mapping = []
    for i, size in enumerate(cur):
        off = ZERO
        rest = size
        while True:
            if j >= len(part):
                return None
            mapping.append((i, off))
            rest = psub(rest, part[j])
            off = padd(off, part[j])
            j += 1
            if rest is ZERO:
                break
            if is_num(rest) and rest.args[1] < 0:
                return None
            if j >= len(part):
                return None
    if j != len(part):
        return None
    for k, b in a.bodies.items():
        for j2, (i, off) in enumerate(mapping):
            if i == k[axis]:
                bodies[k[:axis] + (j2,) + k[axis + 1:]] = shift(b, axis, off)
    return Arr(a.parts[:axis] + (part,) + a.parts[axis + 1:], bodies, a.kind)


def _common(parts):
    """A common refinement of several partitions of one axis, or None."""
    parts = [p for p in parts]
    fin = [p for p in parts if len(p) > 1]
    if not fin:
        return parts[0]
    first = fin[0]
    if all(p == first for p in fin):
        return first
    # merge cut points when the differences are constants we can order
    cuts = []
    for p in fin:
        offs = _offsets(p)[1:]
        for o in offs:
            if o not in cuts:
                cuts.append(o)
    # total order by known sign of differences
    order = []
    for c in cuts:
        placed = False
        for i, d in enumerate(order):
            df = psub(d, c)
            sg = known_sign(df)
            if sg is None:
                return None
            if sg > 0:
                order.insert(i, c)
                placed = True
                break
        if not placed:
            order.append(c)
    total = padd(*first)
    out = []
    prev = ZERO
    for c in order + [total]:
        out.append(psub(c, prev))
        prev = c
    return tuple(out)


def known_sign(p):
    """Sign of a difference of sizes when certain (sizes are >= 1)."""
    if is_num(p):
        v = p.args[1]
        return 0 if v == 0 else (1 if v > 0 else -1)
    pos = neg = False
    c0 = 0
    for m, c in tm._terms(p):
        if m is tm.ONEMONO:
            c0 = c
            continue
        u = tm._unmono(m)
        if not is_size(u):
            return None
        if c > 0:
            pos = True
        else:
            neg = True
    if pos and not neg and c0 >= 0:
        return 1
    if neg and not pos and c0 <= 0:
        return -1
    # a - 1 with a a size >= 1 is >= 0, not strictly known
    return None


def is_size(u):
    return u.op in ("dim", "lenof", "nrows") or (u.op == "sym" and u.args[1] == "size")


MISFIT = []


def fit(parts, how):
    """Remember lengths that have to be equal and are not written the same."""
    ts = []
    for p in parts:
        t = padd(*p) if len(p) > 1 else p[0]
        if t not in ts:
            ts.append(t)
    if len(ts) > 1:
        MISFIT.append((ts[0], ts[1], how))


def align(arrs):
    """Broadcast ranks and partitions; returns list of arrays of equal rank."""
    n = max(a.rank for a in arrs)
    out = []
    for a in arrs:
        while a.rank < n:
            a = newaxis(a, 0)
        out.append(a)
    for axis in range(n):
        full = [i for i, a in enumerate(out) if a.parts[axis] != (ONE,)]
        if not full:
            continue
        if len(full) > 1:
            fit([out[i].parts[axis] for i in full], "broadcast together")
        part = _common([out[i].parts[axis] for i in full])
        if part is None:
            for i in full:
                out[i] = unblock_axis(out[i], axis)
            part = out[full[0]].parts[axis]
        for i in full:
            r = repart(out[i], axis, part)
            if r is None:
                out[i] = unblock_axis(out[i], axis)
                r = repart(out[i], axis, part)
            out[i] = r
        # broadcast size-one axes
        for i, a in enumerate(out):
            if i not in full:
                bodies = {}
                for k, b in a.bodies.items():
                    nb = subst(b, {ax(axis): ZERO})
                    for j in range(len(part)):
                        bodies[k[:axis] + (j,) + k[axis + 1:]] = nb
                out[i] = Arr(a.parts[:axis] + (part,) + a.parts[axis + 1:], bodies, a.kind)
    return out


def unblock_axis(a, axis):
    part = a.parts[axis]
    if len(part) == 1:
        return a
    offs = _offsets(part)
    total = padd(*part)
    groups = {}
    for k, b in a.bodies.items():
        groups.setdefault(k[:axis] + (0,) + k[axis + 1:], {})[k[axis]] = b
    bodies = {}
    for kk, g in groups.items():
        t = shift(g[len(part) - 1], axis, pneg(offs[-1]))
        for j in range(len(part) - 2, -1, -1):
            t = mkite(mkcmp("<", ax(axis), offs[j + 1]),
                      shift(g[j], axis, pneg(offs[j])), t)
        bodies[kk] = t
    return Arr(a.parts[:axis] + ((total,),) + a.parts[axis + 1:], bodies, a.kind)


KORD = {"py": 0, "nd": 1, "se": 2, "df": 3, "sp": 4, "mx": 5}


def joinkind(kinds):
    ks = [k for k in kinds if k != "py"]
    if not ks:
        return "py"
    if "mx" in ks:
        return "mx"
    if "df" in ks:
        return "df"
    if "se" in ks:
        return "se"
    if "sp" in ks and all(k == "sp" for k in ks):
        return "sp"
    if "sp" in ks:
        return "mx"
    return "nd"


def ew(fn, *arrs, **kw):
    kind = kw.get("kind") or joinkind([a.kind for a in arrs])
    if all(a.rank == 0 for a in arrs):
        return Arr((), {(): fn(*[a.body for a in arrs])}, kind)
    al = align(list(arrs))
    bodies = {}
    for k in al[0].bodies:
        bodies[k] = fn(*[a.bodies[k] for a in al])
    meta = None
    if kind in ("se", "df"):
        ms = [a.meta for a in arrs if a.meta is not None and a.kind == kind]
        if ms:
            meta = ms[0]
            if kind == "se" and any(m[1] is not meta[1] for m in ms):
                meta = (meta[0], NONE)
    return Arr(al[0].parts, bodies, kind, meta)


def amap(fn, a, kind=None):
    return Arr(a.parts, {k: fn(b) for k, b in a.bodies.items()}, kind or a.kind, a.meta)


def _renum(b, mp):
    mp = {ax(i): ax(j) for i, j in mp.items() if i != j}
    return subst(b, mp) if mp else b


def newaxis(a, pos):
    n = a.rank
    bodies = {}
    mp = {i: i + 1 for i in range(pos, n)}
    for k, b in a.bodies.items():
        bodies[k[:pos] + (0,) + k[pos:]] = _renum(b, mp)
    return Arr(a.parts[:pos] + ((ONE,),) + a.parts[pos:], bodies, a.kind)


def dropaxis(a, axis):
    """Remove an axis of size one."""
    a = unblock_axis(a, axis)
    return index_at(a, axis, ZERO)


def index_at(a, axis, i):
    """Select index i (term) of an axis."""
    part = a.parts[axis]
    if len(part) > 1:
        # locate block
        offs = _offsets(part)
        blk = None
        for j in range(len(part)):
            d = psub(i, offs[j])
            if is_num(d) and d.args[1] >= 0 and \
                    (d is ZERO or (is_num(part[j]) and d.args[1] < part[j].args[1])):
                blk = (j, d)
        if blk is None:
            d = psub(i, padd(*part))
            if is_num(d) and d.args[1] == -1:
                blk = (len(part) - 1, psub(part[-1], ONE))
        if blk is None:
            a = unblock_axis(a, axis)
            return index_at(a, axis, i)
        j, d = blk
        a = Arr(a.parts[:axis] + ((part[j],),) + a.parts[axis + 1:],
                {k[:axis] + (0,) + k[axis + 1:]: b for k, b in a.bodies.items()
                 if k[axis] == j}, a.kind)
        i = d
    n = a.rank
    bodies = {}
    tmp = fresh()
    for k, b in a.bodies.items():
        nb = subst(b, {ax(axis): tmp})
        nb = _renum(nb, {q: q - 1 for q in range(axis + 1, n)})
        nb = subst(nb, {tmp: i})
        bodies[k[:axis] + k[axis + 1:]] = nb
    kind = a.kind
    if kind == "df" and n == 2:
        kind = "se"
    return Arr(a.parts[:axis] + a.parts[axis + 1:], bodies, kind)


def transpose(a, perm=None):
    n = a.rank
    if perm is None:
        perm = list(range(n))[::-1]
    bodies = {}
    inv = {p: i for i, p in enumerate(perm)}
    vs = [fresh() for _ in range(n)]
    for k, b in a.bodies.items():
        nb = subst(b, {ax(i): vs[i] for i in range(n)})
        nb = subst(nb, {vs[i]: ax(inv[i]) for i in range(n)})
        bodies[tuple(k[p] for p in perm)] = nb
    return Arr([a.parts[p] for p in perm], bodies, a.kind)


def slice_axis(a, axis, lo, hi):
    """a[lo:hi] along axis; lo/hi terms (lo>=0 meaning) already normalised."""
    part = a.parts[axis]
    total = padd(*part)
    if lo is ZERO and hi is total:
        return a
    offs = _offsets(part) + [total]
    sel = None
    # find block boundaries
    li = next((j for j, o in enumerate(offs) if o is lo), None)
    hi_ = next((j for j, o in enumerate(offs) if o is hi), None)
    if li is not None and hi_ is not None and li < hi_:
        keep = list(range(li, hi_))
        bodies = {k[:axis] + (k[axis] - li,) + k[axis + 1:]: b
                  for k, b in a.bodies.items() if k[axis] in keep}
        return Arr(a.parts[:axis] + (tuple(part[j] for j in keep),) + a.parts[axis + 1:],
                   bodies, a.kind)
    if len(part) > 1:
        # try inside one block
        for j in range(len(part)):
            s1 = known_sign(psub(lo, offs[j]))
            s2 = known_sign(psub(offs[j + 1], hi))
            if s1 is not None and s2 is not None and s1 >= 0 and s2 >= 0:
                b1 = Arr(a.parts[:axis] + ((part[j],),) + a.parts[axis + 1:],
                         {k[:axis] + (0,) + k[axis + 1:]: b for k, b in a.bodies.items()
                          if k[axis] == j}, a.kind)
                return slice_axis(b1, axis, psub(lo, offs[j]), psub(hi, offs[j]))
        # refine with cut points
        cuts = _common([part, tuple(x for x in (lo, psub(hi, lo), psub(total, hi))
                                    if x is not ZERO)])
        if cuts is not None:
            r = repart(a, axis, cuts)
            if r is not None and r.parts[axis] != part:
                return slice_axis(r, axis, lo, hi)
        a = unblock_axis(a, axis)
    size = psub(hi, lo)
    bodies = {k: shift(b, axis, lo) for k, b in a.bodies.items()}
    return Arr(a.parts[:axis] + ((size,),) + a.parts[axis + 1:], bodies, a.kind)


def gather(a, axis, idx):
    """a.take(idx) along axis, idx a rank-1 Arr of positions."""
    a = unblock_axis(a, axis)
    if not idx.single():
        # blockwise
        out = None
        bodies = {}
        for j, p in enumerate(idx.parts[0]):
            for k, b in a.bodies.items():
                bodies[k[:axis] + (j,) + k[axis + 1:]] = _gsub(b, axis, idx.bodies[(j,)])
        return Arr(a.parts[:axis] + (idx.parts[0],) + a.parts[axis + 1:], bodies, a.kind)
    bodies = {k: _gsub(b, axis, idx.body) for k, b in a.bodies.items()}
    return Arr(a.parts[:axis] + (idx.parts[0],) + a.parts[axis + 1:], bodies, a.kind)


def _gsub(b, axis, ib):
    tmp = fresh()
    nb = subst(b, {ax(axis): tmp})
    return subst(nb, {tmp: subst(ib, {ax(0): ax(axis)})})


def gather_multi(a, idxs):
    """Fancy indexing on several axes with aligned index arrays (rank 1 or 0).

    idxs: list over axes of a: Arr index or None (kept axis).  Result axes: the
    broadcast index axis in front, then kept axes.
    """
    a = unblock(a)
    ib = align([i for i in idxs if i is not None])
    ib = [unblock(x) for x in ib]
    n = a.rank
    r = ib[0].rank
    tmp = [fresh() for _ in range(n)]
    body = subst(a.body, {ax(i): tmp[i] for i in range(n)})
    mp = {}
    kept = []
    j = 0
    first = None
    for i in range(n):
        if idxs[i] is not None:
            mp[tmp[i]] = ib[j].body
            j += 1
        else:
            kept.append(i)
    for q, i in enumerate(kept):
        mp[tmp[i]] = ax(r + q)
    return Arr(ib[0].parts + tuple(a.parts[i] for i in kept),
               {(0,) * (r + len(kept)): subst(body, mp)}, a.kind)


def reduce_sum(a, axis):
    n = a.rank
    groups = {}
    for k, b in a.bodies.items():
        v = fresh()
        nb = subst(b, {ax(axis): v})
        nb = _renum(nb, {q: q - 1 for q in range(axis + 1, n)})
        s = psum(v, a.parts[axis][k[axis]], nb)
        kk = k[:axis] + k[axis + 1:]
        groups[kk] = padd(groups[kk], s) if kk in groups else s
    return Arr(a.parts[:axis] + a.parts[axis + 1:], groups, a.kind)


def reduce_gen(a, axis, how):
    """max / min / prod / any / all over one axis (binder terms)."""
    a = unblock_axis(a, axis)
    n = a.rank
    bodies = {}
    for k, b in a.bodies.items():
        v = fresh()
        nb = subst(b, {ax(axis): v})
        nb = _renum(nb, {q: q - 1 for q in range(axis + 1, n)})
        d = a.parts[axis][0]
        if how == "any":
            t = mkany(tm.bind("lam", [v], [d], nb))
        elif how == "all":
            t = mkall(tm.bind("lam", [v], [d], nb))
        else:
            t = raw("red", how, tm.bind("lam", [v], [d], nb))
        bodies[k[:axis] + k[axis + 1:]] = t
    return Arr(a.parts[:axis] + a.parts[axis + 1:], bodies, a.kind)


def reduce_all(a, how):
    while a.rank:
        if how == "sum":
            a = reduce_sum(a, a.rank - 1)
        else:
            a = reduce_gen(a, a.rank - 1, how)
    return a


def dot(a, b):
    """numpy.dot semantics."""
    if a.rank == 0 or b.rank == 0:
        return ew(pmul, a, b)
    ka = a.rank - 1
    kb = 0 if b.rank == 1 else b.rank - 2
    fit([a.parts[ka], b.parts[kb]], "multiplied")
    part = _common([a.parts[ka], b.parts[kb]])
    if part is not None:
        a2 = repart(a, ka, part)
        b2 = repart(b, kb, part)
    else:
        a2 = b2 = None
    if a2 is None or b2 is None:
        a, b = unblock_axis(a, ka), unblock_axis(b, kb)
        part = a.parts[ka]
    else:
        a, b = a2, b2
    na = a.rank - 1
    nb = b.rank - 1
    groups = {}
    bt = {}
    for k2, y in b.bodies.items():
        v = fresh()
        mp = {}
        tmps = {i: fresh() for i in range(b.rank)}
        y = subst(y, {ax(i): tmps[i] for i in range(b.rank)})
        mp = {}
        pos = na
        for i in range(b.rank):
            if i != kb:
                mp[tmps[i]] = ax(pos)
                pos += 1
        bt[k2] = (subst(y, mp), tmps[kb])
    for k1, x in a.bodies.items():
        for k2, (y, yv) in bt.items():
            if k1[ka] != k2[kb]:
                continue
            v = fresh()
            # protect a's free axes: a uses ax(0..na-1) and ax(ka)
            xx = subst(x, {ax(ka): v})
            yy = subst(y, {yv: v})
            s = psum(v, part[k1[ka]], pmul(xx, yy))
            kk = k1[:ka] + k2[:kb] + k2[kb + 1:]
            groups[kk] = padd(groups[kk], s) if kk in groups else s
    kind = "nd"
    ks = (a.kind, b.kind)
    if "mx" in ks:
        kind = "mx"
    elif ks == ("sp", "sp"):
        kind = "sp"
    elif ks[0] == "py" and ks[1] == "py":
        kind = "nd"
    return Arr(a.parts[:ka] + tuple(p for i, p in enumerate(b.parts) if i != kb),
               groups, kind)


def concat(arrs, axis):
    n = arrs[0].rank
    if any(a.rank != n for a in arrs):
        raise RankError("concat")
    for o in range(n):
        if o == axis:
            continue
        fit([a.parts[o] for a in arrs], "joined")
        part = _common([a.parts[o] for a in arrs])
        arrs2 = []
        for a in arrs:
            r = repart(a, o, part) if part is not None else None
            if r is None:
                r = unblock_axis(a, o)
            arrs2.append(r)
        arrs = arrs2
    parts = []
    bodies = {}
    for a in arrs:
        base = len(parts)
        parts.extend(a.parts[axis])
        for k, b in a.bodies.items():
            bodies[k[:axis] + (k[axis] + base,) + k[axis + 1:]] = b
    kind = joinkind([a.kind for a in arrs])
    res = Arr(arrs[0].parts[:axis] + (tuple(parts),) + arrs[0].parts[axis + 1:], bodies, kind)
    return simplify_parts(res)


def simplify_parts(a):
    """Drop zero-sized blocks."""
    for axis in range(a.rank):
        part = a.parts[axis]
        if len(part) > 1 and ZERO in part:
            keep = [j for j, p in enumerate(part) if p is not ZERO]
            if not keep:
                keep = [0]
            bodies = {k[:axis] + (keep.index(k[axis]),) + k[axis + 1:]: b
                      for k, b in a.bodies.items() if k[axis] in keep}
            a = Arr(a.parts[:axis] + (tuple(part[j] for j in keep),) + a.parts[axis + 1:],
                    bodies, a.kind)
    return a


def ravel(a):
    n = a.rank
    if n == 0:
        return newaxis(a, 0)
    if n == 1:
        return a
    # drop size-one axes
    for axis in range(n - 1, -1, -1):
        if a.rank > 1 and a.parts[axis] == (ONE,):
            a = dropaxis(a, axis)
    if a.rank == 1:
        return a
    a = unblock(a)
    return reshape_flat(a)


def reshape_flat(a):
    n = a.rank
    total = ONE
    for d in a.dims:
        total = pmul(total, d)
    dims = a.dims
    idx = {}
    rest = ax(0)
    tmp = [fresh() for _ in range(n)]
    body = subst(a.body, {ax(i): tmp[i] for i in range(n)})
    for i in range(n - 1, -1, -1):
        if i == 0:
            idx[tmp[0]] = rest
        else:
            idx[tmp[i]] = mkmod(rest, dims[i])
            rest = mkfdiv(rest, dims[i])
    return mk([total], subst(body, idx), a.kind if a.kind != "sp" else "nd")


def mkfdiv(a, b):
    if a is ZERO:
        return ZERO
    if b is ONE:
        return a
    q, r = _split_mult(a, b)
    if q is not None and q is not ZERO:
        if r is ZERO or r.op == "v" or r.op == "b":
            return padd(q, mkfdiv(r, b) if r is not ZERO and not _below(r, b) else ZERO)
    if is_num(a) and is_num(b) and b.args[1] != 0:
        return num(a.args[1] // b.args[1])
    return raw("fdiv", a, b)


def mkmod(a, b):
    if b is ONE or a is ZERO:
        return ZERO
    q, r = _split_mult(a, b)
    if q is not None and q is not ZERO:
        return r if r is ZERO or _below(r, b) else mkmod(r, b)
    if is_num(a) and is_num(b) and b.args[1] != 0:
        return num(a.args[1] % b.args[1])
    return raw("mod", a, b)


def _below(r, b):
    # only used for recombination  i*C + j  with j an axis variable over C
    return r.op in ("v", "b")


def _split_mult(a, b):
    """a = q*b + r syntactically."""
    if b.op not in ("dim", "sym", "lenof", "nrows"):
        return None, a
    q = []
    r = []
    for m, c in tm._terms(a):
        dims, fs = tm._factors(m)
        d = dict(fs)
        if not dims and d.get(b, 0) >= 1:
            d[b] -= 1
            q.append(pscale(tm._prodterm([(x, e) for x, e in d.items() if e]), c))
        else:
            r.append(pscale(tm._unmono(m) if m is not tm.ONEMONO else ONE, c))
    return (padd(*q) if q else ZERO), (padd(*r) if r else ZERO)


REBUILD["fdiv"] = mkfdiv
REBUILD["mod"] = mkmod


def reshape(a, dims):
    """C-order reshape to terms dims."""
    if a.rank == len(dims) and all(x is y for x, y in zip(a.dims, dims)):
        return a
    f = ravel(a)
    if len(dims) == 1:
        return f
    # drop ones
    core = [(i, d) for i, d in enumerate(dims) if d is not ONE]
    if len(core) <= 1:
        res = f
        if not core:
            res = index_at(f, 0, ZERO)
            for i in range(len(dims)):
                res = newaxis(res, 0)
            return res
        for i in range(len(dims)):
            if i < core[0][0]:
                res = newaxis(res, 0)
            elif i > core[0][0]:
                res = newaxis(res, res.rank)
        return res
    f = unblock(f)
    flat = ZERO
    for i, d in enumerate(dims):
        flat = padd(pmul(flat, d), ax(i))
    tmp = fresh()
    body = subst(subst(f.body, {ax(0): tmp}), {tmp: flat})
    return mk(list(dims), body, f.kind)


# ------------------------------------------------------------------ masks
def mknth(k, m, i):
    if i.op == "rnk" and i.args[0] is m:
        return i.args[1 + k]
    return raw("nth", k, m, i)


def mkrnk(m, *idx):
    # rnk(M, nth(M,i)) = i
    if all(x.op == "nth" and x.args[0] == k and x.args[1] is m and x.args[2] is idx[0].args[2]
           for k, x in enumerate(idx)):
        return idx[0].args[2]
    return raw("rnk", m, *idx)


REBUILD["nth"] = mknth
REBUILD["rnk"] = mkrnk


def mask_term(mask):
    m = unblock(mask)
    vs = [fresh() for _ in range(m.rank)]
    return tm.bind("lam", vs, m.dims, subst(m.body, {ax(i): vs[i] for i in range(m.rank)}))


def where_indices(mask):
    """np.where(mask): list of rank-1 index arrays."""
    t = mask_term(mask)
    n = raw("count", t)
    return [mk([n], mknth(k, t, ax(0))) for k in range(mask.rank)]


def is_where(idxs):
    """If the index arrays are exactly where(mask), return the mask term."""
    m = None
    for k, a in enumerate(idxs):
        if a.rank != 1 or not a.single():
            return None
        b = a.body
        if b.op != "nth" or b.args[0] != k or b.args[2] is not ax(0):
            return None
        if m is None:
            m = b.args[1]
        elif m is not b.args[1]:
            return None
    if m is None or m.args[1] != len(idxs):
        return None
    n = raw("count", m)
    if any(a.dims[0] is not n for a in idxs):
        return None               # part of the positions only
    return m


def masked_store(a, mask, val):
    """a[mask] = val ; mask of rank <= a.rank on the leading axes."""
    t = mask_term(mask) if isinstance(mask, Arr) else mask
    nm = t.args[1]
    if val.rank == 0 or (val.rank == 1 and val.parts[0] == (ONE,)):
        v = val if val.rank == 0 else index_at(val, 0, ZERO)
        vb = v.body
        if val.rank == 0 and isinstance(mask, Arr) and mask.rank == a.rank:
            return ew(lambda m, x: mkite(m, vb, x), mask, a, kind=a.kind)
    else:
        vv = unblock(val)
        tmp = [fresh() for _ in range(vv.rank)]
        vb = subst(vv.body, {ax(i): tmp[i] for i in range(vv.rank)})
        mp = {}
        extra = vv.rank - 1
        if extra == a.rank - nm:
            mp[tmp[0]] = mkrnk(t, *[ax(i) for i in range(nm)])
            for q in range(extra):
                mp[tmp[1 + q]] = ax(nm + q) if vv.parts[1 + q] != (ONE,) else ZERO
        elif vv.rank <= a.rank - nm:
            # broadcast along the masked axes
            for q in range(vv.rank):
                mp[tmp[q]] = ax(a.rank - vv.rank + q)
        else:
            raise RankError("masked store")
        vb = subst(vb, mp)
    a = unblock(a)
    cond = tm.bapply(t, [ax(i) for i in range(nm)])
    return mk(a.dims, mkite(cond, vb, a.body), a.kind)


def store_axis(a, axis, lo, hi, val):
    """a[..., lo:hi, ...] = val (val broadcast to the slice shape)."""
    part = a.parts[axis]
    total = padd(*part)
    cut = [x for x in (lo, psub(hi, lo), psub(total, hi)) if x is not ZERO]
    com = _common([part, tuple(cut)])
    r = repart(a, axis, com) if com is not None else None
    if r is None:
        r = repart(unblock_axis(a, axis), axis, tuple(cut))
    offs = _offsets(r.parts[axis]) + [total]
    li = offs.index(lo)
    hi_ = offs.index(hi)
    target = Arr(r.parts[:axis] + (r.parts[axis][li:hi_],) + r.parts[axis + 1:],
                 {k[:axis] + (k[axis] - li,) + k[axis + 1:]: b
                  for k, b in r.bodies.items() if li <= k[axis] < hi_}, r.kind)
    new = ew(lambda o, v: v, target, val, kind=a.kind)
    # other axes may have been refined by align
    for o in range(r.rank):
        if o != axis and new.parts[o] != r.parts[o]:
            r2 = repart(r, o, new.parts[o])
            if r2 is None:
                raise RankError("store")
            r = r2
    if new.rank != r.rank:
        raise RankError("store rank")
    seg = new.parts[axis]
    pre = r.parts[axis][:li]
    post = r.parts[axis][hi_:]
    bodies = {}
    for k, b in r.bodies.items():
        if k[axis] < li:
            bodies[k] = b
        elif k[axis] >= hi_:
            bodies[k[:axis] + (k[axis] - hi_ + li + len(seg),) + k[axis + 1:]] = b
    for k, b in new.bodies.items():
        bodies[k[:axis] + (k[axis] + li,) + k[axis + 1:]] = b
    return Arr(r.parts[:axis] + (pre + seg + post,) + r.parts[axis + 1:], bodies, a.kind)


def scatter(a, axis, idx, val):
    """a[..., idx, ...] = val with idx a rank-1 Arr (distinct positions)."""
    a = unblock_axis(a, axis)
    it = lower(idx)
    n = a.rank
    bodies = {}
    inn = mkisin(ax(axis), it)
    pos = mkposof(ax(axis), it)
    if val.rank:
        v = unblock(val)
        # broadcast val to rank n
        while v.rank < n:
            v = newaxis(v, 0)
        tmp = [fresh() for _ in range(n)]
        vb = subst(v.body, {ax(i): tmp[i] for i in range(n)})
        mp = {}
        for i in range(n):
            if v.parts[i] == (ONE,):
                mp[tmp[i]] = ZERO
            else:
                mp[tmp[i]] = pos if i == axis else ax(i)
        vb = subst(vb, mp)
        a = unblock(a)
    else:
        vb = val.body
    bodies = {k: mkite(inn, vb, b) for k, b in a.bodies.items()}
    return Arr(a.parts, bodies, a.kind)


def mkisin(x, it):
    """x is an element of the sequence term it."""
    if it.op in ("list", "tuple"):
        return mkor(*[mkcmp("==", x, e) for e in it.args])
    if it.op == "B" and it.args[1] == 1:
        kind, vs, dims, body = bopen(it)
        # lam i: i + c over n  -> range test
        d = psub(body, vs[0])
        if vs[0] not in d.fv:
            return mkand(mkcmp(">=", x, d), mkcmp("<", x, padd(d, dims[0])))
        r = _skip_of(body, vs[0])
        if r is not None:
            return mknot(mkcmp("==", x, r))
        if body.op in ("item", "at") and body.args[-1] is vs[0] and \
                vs[0] not in body.args[0].fv and len(body.args) == 2:
            return mkisin(x, body.args[0])
        return mkany(bind("lam", vs, dims, mkcmp("==", x, body)))
    if it.op == "ite":
        return mkite(it.args[0], mkisin(x, it.args[1]), mkisin(x, it.args[2]))
    if it.op == "lcat":
        return mkor(*[mkisin(x, p) for p in it.args])
    if it.op == "colsadd":
        return mkor(mkcmp("==", x, it.args[1]), mkisin(x, it.args[0]))
    if it.op in ("sortedof", "setof", "listof", "keysof"):
        return mkisin(x, it.args[0])
    if it.op in ("uo", "su"):
        src = it.args[0]
        if x.op == "at" and x.args[0] is src:
            return TRUE
        return mkisin(x, src)
    if it.op == "dictzip":
        return mkisin(x, it.args[0])
    if it.op == "flat":
        kind, vs, dims, body = bopen(it.args[0])
        return mkany(bind("lam", vs, dims, mkisin(x, body)))
    if it.op == "dict":
        return mkor(*[mkcmp("==", x, it.args[i]) for i in range(0, len(it.args), 2)])
    if it.op == "blk" and it.args[0] == 1:
        return mkor(*[mkisin(x, p) for p in it.args[2:]])
    return raw("isin", x, it)


def _skip_of(body, v):
    """body == v + [v >= r]  ->  r"""
    d = psub(body, v)
    if d.op in ("ge0", "le0"):
        p = d.args[0]
        r = psub(v, p) if d.op == "ge0" else padd(v, p)
        if v not in r.fv:
            return r
    return None


def mkposof(x, it):
    if it.op in ("su", "uo") and x.op == "at" and len(x.args) == 2 and x.args[0] is it:
        return x.args[1]
    if it.op == "B" and it.args[1] == 1:
        kind, vs, dims, body = bopen(it)
        d = psub(body, vs[0])
        if vs[0] not in d.fv:
            return psub(x, d)
        r = _skip_of(body, vs[0])
        if r is not None:
            return psub(x, mkcmp(">", x, r))
    return raw("posof", x, it)


REBUILD["isin"] = mkisin
REBUILD["posof"] = mkposof


def skip_range(r):
    """body of list(range(n)) with position r removed, at ax(0)."""
    return padd(ax(0), mkcmp(">=", ax(0), r))
