"""Random interpretation of value-number terms (after Gulwani and Necula).

Two value numbers with different normal forms may still denote the same
function (log(a/b) against log(a)-log(b), say).  Before a difference between
the value computed by the source and the value demanded by the reference is
reported, both *terms* are interpreted in random small models: sizes become
small integers, symbolic inputs become random reals in exact-range decimal
arithmetic, everything the term language does not interpret becomes a random
function of its arguments.  The program is never run; the only thing
interpreted here is the term produced by the analysis.
"""
import random
import time
from decimal import Decimal, Context, localcontext, InvalidOperation, DivisionByZero, Overflow
import decimal
from fractions import Fraction
from hashlib import blake2b
from .terms import *
from . import terms as tm


# rows, situations, mixing units ... are drawn so that every situation has rows
SIZES = {"R": (3, 6), "O": (1, 3), "K": (1, 3), "S": (1, 3), "Am1": (1, 3), "D": (1, 3), "N": (1, 2),
         "M": (1, 3)}


class Skip(Exception):
    """This model gives the term no definite value."""


class Misshapen(Skip):
    """An element is taken of something that has none."""


class NanArg(Skip):
    """arithmetic on a missing value"""


class Un(object):
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Un) and o.k == self.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return "u" + self.k.hex()[:6]


CTX = Context(prec=60, Emax=10 ** 15, Emin=-10 ** 15,
              traps=[])
D0, D1 = Decimal(0), Decimal(1)
FMAX = Decimal("1.7976931348623157e308")
TINY = Decimal("4.9e-324")
EXPCAP = Decimal(10) ** 9


def enc(v):
    """Canonical byte encoding (numbers rounded)."""
    if v is None:
        return b"N"
    if isinstance(v, bool):
        v = D1 if v else D0
    if isinstance(v, Decimal):
        if v == 0:
            return b"0"
        if not v.is_finite():
            return str(v).encode()
        return ("%.14e" % v).encode()
    if isinstance(v, int):
        return enc(Decimal(v))
    if isinstance(v, str):
        return b"s" + v.encode()
    if isinstance(v, Un):
        return b"u" + v.k
    if isinstance(v, (list, tuple)):
        return b"[" + b",".join(enc(x) for x in v) + b"]"
    if isinstance(v, dict):
        return b"{" + b",".join(enc(a) + b":" + enc(b) for a, b in v.items()) + b"}"
    if isinstance(v, SetV):
        return b"S" + b",".join(sorted(enc(x) for x in v.items))
    return repr(v).encode()


class SetV(object):
    def __init__(self, items):
        self.items = items

    def __eq__(self, o):
        return isinstance(o, SetV) and sorted(map(enc, self.items)) == sorted(map(enc, o.items))

    def __hash__(self):
        return 0


def uhash(*parts):
    d = blake2b(digest_size=10)
    for p in parts:
        b = p if isinstance(p, bytes) else enc(p)
        d.update(str(len(b)).encode() + b"#" + b)
    return d.digest()


SCALE = [Decimal(1)]


def unnum(u):
    """Random real attached to an uninterpreted value."""
    n = int.from_bytes(u.k[:6], "big")
    if u.k[6] % 4 == 0:
        return Decimal(u.k[7] % 4)
    return CTX.divide(Decimal(n % 6000001 - 3000000), Decimal(1000003)) * SCALE[0]


def noise(x):
    return x == 0 or NLO < abs(x) < NHI


NLO, NHI = Decimal("1e-80"), Decimal("1e-42")


NAN = Decimal("NaN")


def nanlift(f):
    def g(self, t, env):
        try:
            return f(self, t, env)
        except NanArg:
            return NAN
    return g


def close(a, b):
    if isinstance(a, Decimal) and isinstance(b, Decimal) and (a.is_nan() or b.is_nan()):
        return a.is_nan() and b.is_nan()
    if isinstance(a, bool):
        a = D1 if a else D0
    if isinstance(b, bool):
        b = D1 if b else D0
    if isinstance(a, Decimal) and isinstance(b, Decimal):
        if a == b:
            return True
        if not (a.is_finite() and b.is_finite()):
            return False
        m = max(abs(a), abs(b))
        if abs(a - b) <= m * Decimal("1e-12"):
            return True
        # rounding noise of the interpretation (60 digits) against zero
        return noise(a) and noise(b)
    if isinstance(a, Decimal) and isinstance(b, Un):
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        ka, kb = {enc(k): v for k, v in a.items()}, {enc(k): v for k, v in b.items()}
        return list(ka) == list(kb) and all(close(ka[k], kb[k]) for k in ka)
    return a == b


_PLANS = {}


def plan(t):
    """Summation order of a sum-product term (variable elimination)."""
    if t in _PLANS:
        return _PLANS[t]
    dims, fs = tm._factors(t)
    base = t.h - len(dims)
    mine = {base + k: d for k, d in enumerate(dims)}
    fl = [(a, x, frozenset(l for l in tm.blevels(a) if l in mine)) for a, x in fs]
    first = [(a, x) for a, x, l in fl if not l]
    rest = [f for f in fl if f[2]]
    order = []
    if any(l in mine for d in dims for l in tm.blevels(d)):
        order = sorted(mine)
    else:
        todo = set(mine)
        while todo:
            best = None
            for l in sorted(todo):
                done = set(order) | {l}
                live = set()
                touch = closed = 0
                for a, x, ls in rest:
                    if not ls <= done:
                        live |= ls & done
                    elif l in ls:
                        closed += 1 + (a.op == "at" and len(ls) > 1 or a.op == "delta")
                    if l in ls and ls & set(order):
                        touch += 1
                k = (-min(touch, 1), len(live), -closed, l)
                if best is None or k < best[0]:
                    best = (k, l)
            order.append(best[1])
            todo.discard(best[1])
    steps, bound = [], set()
    for l in order:
        need = set()
        for a, x, ls in rest:
            if not ls <= bound:
                need |= ls & bound
        bound.add(l)
        now = [(a, x) for a, x, ls in rest if ls <= bound and l in ls]
        now.sort(key=lambda f: (0 if f[0].op == "delta" or isbool(f[0]) else 1 if f[0].op == "at" else 2))
        steps.append((l, mine[l], now, sorted(need)))
    _PLANS[t] = (base, first, steps)
    return _PLANS[t]


class Model(object):
    """One random interpretation.  over: {sym name: value or fn(model)}"""
    def __init__(self, seed, over=None, scale=1, sizes=None):
        self.rnd = random.Random(seed)
        self.salt = str(seed).encode()
        self.over = over or {}
        self.scale = scale
        self.memo = {}
        self.syms = {}
        self.sizes = dict(sizes or {})
        self.tainted = False
        self.stretch = D1

    def size(self, name):
        if name not in self.sizes:
            lo, hi = SIZES.get(name, (1, 3))
            self.sizes[name] = Decimal(self.rnd.randint(lo, hi))
        return self.sizes[name]

    def symval(self, name, kind):
        k = name
        if k in self.syms:
            return self.syms[k]
        if name.startswith("earlier ") and self.rnd.random() < .5:
            # part of what an earlier call was given is what this one is given, perhaps in another order
            v = self.symval(name[8:], kind)
            if isinstance(v, list) and self.rnd.random() < .7:
                v = self.rnd.sample(v, len(v))
        elif name in self.over:
            v = self.over[name]
            if callable(v):
                v = v(self)
        elif kind == "size":
            v = self.size(name)
        elif kind in ("num",):
            v = CTX.divide(Decimal(self.rnd.randint(-3000, 3000)), Decimal(1013)) * self.scale
            if v == 0:
                v = D1
        elif kind == "int":
            v = Decimal(self.rnd.randint(1, 4))
        elif kind == "bool":
            v = self.rnd.random() < .5
        elif kind == "str":
            v = "str_" + name
        else:
            v = Un(uhash(b"sym", self.salt, name))
        self.syms[k] = v
        return v

    # ---------------------------------------------------------------- eval
    def ev(self, t, env=None):
        if env is None:
            env = {}
        lv = tm.blevels(t)
        key = (t, tuple((l, env.get(l)) for l in sorted(lv))) if lv else t
        if key in self.memo:
            r = self.memo[key]
            if isinstance(r, Skip):
                raise r
            return r
        f = getattr(self, "o_" + t.op, None)
        try:
            if f is not None:
                r = f(t, env)
            else:
                r = self.unint(t, env)
        except Skip as e:
            self.memo[key] = e
            raise
        self.memo[key] = r
        return r

    def unint(self, t, env):
        parts = [b"op", t.op.encode(), self.salt]
        for a in t.args:
            parts.append(self.ev(a, env) if isinstance(a, T) else ("%s" % (a,)).encode())
        return Un(uhash(*parts))

    def num(self, t, env):
        return self.tonum(self.ev(t, env))

    def tonum(self, v):
        if isinstance(v, bool):
            return D1 if v else D0
        if isinstance(v, Decimal):
            if v.is_nan():
                raise NanArg("nan")
            return v
        if isinstance(v, Un):
            x = unnum(v)
            return x
        if isinstance(v, (list, tuple)) and len(v) == 1:
            return self.tonum(v[0])
        raise Skip("number expected, got %r" % (v,))

    def int_(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, Un):
            return 1 + v.k[0] % 4
        v = self.tonum(v)
        if v != v.to_integral_value():
            raise Skip("integer expected")
        return int(v)

    def bool_(self, t, env):
        v = self.ev(t, env)
        return self.tobool(v)

    def tobool(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Un):
            return v.k[1] % 2 == 0
        if isinstance(v, Decimal):
            return v != 0
        if v is None:
            return False
        if isinstance(v, (list, tuple, dict, str)):
            return len(v) > 0
        raise Skip("bool")

    def aslist(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, SetV):
            return list(v.items)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, Un):
            n = self.lens(v)
            return [Un(uhash(b"elt", v, Decimal(i))) for i in range(n)]
        raise Skip("sequence expected")

    def lens(self, v):
        if isinstance(v, (list, tuple, dict, str)):
            return len(v)
        if isinstance(v, SetV):
            return len(v.items)
        if isinstance(v, Un):
            return 1 + v.k[2] % 4
        raise Skip("len")

    # ---------------------------------------------------------------- ops
    def o_c(self, t, env):
        k, v = t.args
        if k == "num":
            return CTX.divide(Decimal(v.numerator), Decimal(v.denominator))
        if k == "inf":
            return Decimal("Infinity")
        if k == "nan":
            return NAN
        return v

    def o_sym(self, t, env):
        return self.symval(*t.args)

    def o_v(self, t, env):
        return Un(uhash(b"v", str(t.args).encode()))

    def o_b(self, t, env):
        if t.args[0] not in env:
            raise Skip("unbound index")
        return Decimal(env[t.args[0]])

    @nanlift
    def o_poly(self, t, env):
        s = D0
        for m, c in tm._terms(t):
            s = CTX.add(s, CTX.multiply(self.num(m, env), CTX.divide(Decimal(c.numerator), Decimal(c.denominator))))
        if s.is_nan():
            raise Skip("nan")
        return s

    @nanlift
    def o_mono(self, t, env):
        base, first, steps = plan(t)

        def factors(fs, e):
            p = D1
            for a, x in fs:
                if x > 0 and (isbool(a) or a.op == "delta"):
                    if not self.bool_(a, e):
                        return D0
            for a, x in fs:
                v = self.num(a, e)
                if x != 1:
                    if v == 0 and x < 0:
                        raise Skip("division by zero")
                    v = CTX.power(v, Decimal(x))
                if v == 0:
                    return D0
                p = CTX.multiply(p, v)
            if p.is_nan():
                raise Skip("nan")
            return p
        memo = {}

        def rec(k, e):
            if k == len(steps):
                return D1
            lvl, dim, fs, live = steps[k]
            key = (k, tuple(e[l] for l in live))
            if key in memo:
                return memo[key]
            s = D0
            for i in range(self.int_(dim, e)):
                e[lvl] = i
                p = factors(fs, e)
                if p != 0:
                    s = CTX.add(s, CTX.multiply(p, rec(k + 1, e)))
            e.pop(lvl, None)
            if s.is_nan():
                raise Skip("nan")
            memo[key] = s
            return s
        p = factors(first, env)
        if p == 0 or not steps:
            return p
        return CTX.multiply(p, rec(0, dict(env)))

    def o_B(self, t, env):
        kind, dims, body = tm.bparts(t)
        base = t.h - len(dims)
        if kind == "fun":
            e2 = dict(env)
            for k in range(len(dims)):
                e2[base + k] = 1000 + k
            return Un(uhash(b"fun", self.salt, self.ev(body, e2)))

        def rec(k, e):
            if k == len(dims):
                return self.ev(body, e)
            out = []
            for i in range(max(0, self.int_(dims[k], e))):
                e2 = dict(e)
                e2[base + k] = i
                out.append(rec(k + 1, e2))
            return out
        return rec(0, env)

    def o_blk(self, t, env):
        n = t.args[0]
        parts = []
        for q in range(n):
            parts.append([self.int_(p, env) for p in t.args[1 + q].args])
        import itertools
        keys = list(itertools.product(*[range(len(p)) for p in parts]))
        vals = {k: self.ev(t.args[1 + n + i], env) for i, k in enumerate(sorted(keys))}
        offs = [[sum(p[:i]) for i in range(len(p))] for p in parts]

        def get(idx):
            key, rel = [], []
            for q, x in enumerate(idx):
                b = 0
                while b + 1 < len(parts[q]) and x >= offs[q][b + 1]:
                    b += 1
                key.append(b)
                rel.append(x - offs[q][b])
            v = vals[tuple(key)]
            return self.index(v, [Decimal(r) for r in rel])

        def build(q, idx):
            if q == n:
                return get(idx)
            return [build(q + 1, idx + [x]) for x in range(sum(parts[q]))]
        return build(0, [])

    def o_draw(self, t, env):
        """np.choice picks elements of its population; other draws stay uninterpreted"""
        if t.args[0] == "np.choice" and len(t.args[2].args) == 1:
            pop = self.ev(t.args[3], env)
            if isinstance(pop, list):
                u = self.unint(t, env)
                n = self.int_(t.args[2].args[0], env)
                if n and not pop:
                    raise Skip("empty population")
                if len(t.args) > 4 and n > len(pop):
                    raise Skip("population too small")
                return [pop[uhash(b"pick", u, Decimal(i))[0] % len(pop)] for i in range(n)]
        return self.unint(t, env)

    def o_rcat(self, t, env):
        """arrays of different lengths, one after the other along an axis"""
        parts = self.ev(t.args[1], env)
        if not isinstance(parts, list) or not parts:
            return self.unint(t, env)

        def join(xs, q):
            if not all(isinstance(x, (list, tuple)) for x in xs):
                raise Skip("concatenation")
            if q == 0:
                return [y for x in xs for y in x]
            return [join(list(ys), q - 1) for ys in zip(*xs)]
        return join(parts, int(t.args[0]))

    def index(self, v, idx):
        for i in range(len(idx)):
            if isinstance(v, Un):
                v = Un(uhash(b"elt", v, idx[i]))
                continue
            j = idx[i]
            if isinstance(v, (list, tuple)):
                if isinstance(j, bool):
                    j = D1 if j else D0
                if isinstance(j, Un):
                    raise Skip("index")
                if not isinstance(j, Decimal) or j != j.to_integral_value():
                    raise Skip("index")
                j = int(j)
                if not -len(v) <= j < len(v):
                    raise Skip("index out of range")
                v = v[j]
            elif isinstance(v, dict):
                h = enc(j)
                for a, b in v.items():
                    if enc(a) == h:
                        v = b
                        break
                else:
                    raise Skip("missing key")
            elif isinstance(v, Decimal):
                raise Misshapen("index of number")
            elif isinstance(v, str):
                raise Skip("index of str")
            else:
                raise Skip("index of %r" % (v,))
        return v

    def o_at(self, t, env):
        h = t.args[0]
        if h.op == "apply" and h.args[0].op == "sym" and h.args[0].args[0] in self.over.get("probabilities", ()):
            v = self.index(self.ev(h, env), [self.ev(a, env) for a in t.args[1:]])
            if isinstance(v, Un):
                x = abs(unnum(v))
                p = (x + D1) / (x + D1 + D1)
                return CTX.power(p, int(min(self.stretch, 4000))) if self.stretch > 1 else p
            return v
        return self.index(self.ev(t.args[0], env), [self.ev(a, env) for a in t.args[1:]])

    def o_item(self, t, env):
        return self.index(self.ev(t.args[0], env), [self.ev(a, env) for a in t.args[1:]])

    @nanlift
    def o_fn(self, t, env):
        name = t.args[0]
        if name in ("max", "min"):
            vs = [self.num(a, env) for a in t.args[1:]]
            return max(vs) if name == "max" else min(vs)
        if name == "div0":
            raise Skip("division by zero")
        xs = [self.num(a, env) for a in t.args[1:]]
        x = xs[0] if xs else None
        if name == "exp":
            if x > EXPCAP:
                return Decimal("Infinity")
            if x < -EXPCAP:
                return D0
            return CTX.exp(x)
        if name == "log":
            if x < 0:
                raise Skip("log")
            return CTX.ln(x)
        if name == "sqrt":
            if x < 0:
                # undefined: a stand-in value, and the model alone does not refute
                self.tainted = True
                return CTX.sqrt(-x) * Decimal("0.7310585786300048792511592418")
            return CTX.sqrt(x)
        if name == "abs":
            return abs(x)
        if name == "pow":
            y = xs[1]
            if x < 0 and y != y.to_integral_value():
                raise Skip("pow")
            if x == 0 and y <= 0:
                raise Skip("pow")
            if x > 0 and abs(CTX.multiply(y, CTX.ln(x))) > EXPCAP:
                return Decimal("Infinity") if CTX.multiply(y, CTX.ln(x)) > 0 else D0
            r = CTX.power(x, y)
            if r.is_nan():
                raise Skip("pow")
            return r
        if name == "floor":
            return x.to_integral_value(rounding=decimal.ROUND_FLOOR)
        if name == "ceil":
            return x.to_integral_value(rounding=decimal.ROUND_CEILING)
        if name == "f32":
            # digits are lost; which ones depends on magnitudes the models do not sample
            if x in (0, 1, -1) or x.is_infinite():
                return x
            return CTX.multiply(x, Decimal("1.0009765625"))
        if name == "trunc":
            return x.to_integral_value(rounding=decimal.ROUND_DOWN)
        if name in ("rint", "round") and len(xs) == 1:
            return x.to_integral_value(rounding=decimal.ROUND_HALF_EVEN)
        if name == "sign":
            return Decimal((x > 0) - (x < 0))
        if name == "normcdf" or name == "normppf" or True:
            return Un(uhash(b"fn", name, *xs))

    def cmp0(self, t, env, f):
        return f(self.num(t.args[0], env))

    def o_lt0(self, t, env):
        return self.cmp0(t, env, lambda x: x < 0)

    def o_le0(self, t, env):
        return self.cmp0(t, env, lambda x: x <= 0)

    def o_gt0(self, t, env):
        return self.cmp0(t, env, lambda x: x > 0)

    def o_ge0(self, t, env):
        return self.cmp0(t, env, lambda x: x >= 0)

    def o_eq0(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, (str, list, tuple, dict)) or v is None:
            return False
        x = self.tonum(v)
        if t.args[0].op == "poly":
            # equality of two reals: tolerate the rounding of the interpretation
            parts = [abs(self.num(m, env) * CTX.divide(Decimal(c.numerator), Decimal(c.denominator)))
                     for m, c in tm._terms(t.args[0])]
            big = max(parts)
            return abs(x) <= big * Decimal("1e-40") or abs(x) < TINY
        return abs(x) < TINY

    def o_cmp(self, t, env):
        if t.args[0] != "isclose":
            return self.unint(t, env)
        d, tol = abs(self.num(t.args[1], env)), self.num(t.args[2], env)
        if d <= tol:
            return True
        # differences below the tolerance are rare in random models: let some stand for them
        return uhash(b"close", d, tol, self.salt)[0] % 4 == 0

    def o_eq(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if isinstance(a, Un) and isinstance(b, Un):
            return a == b or (unnum(a) == unnum(b))
        if isinstance(a, Un) and isinstance(b, (Decimal,)):
            return unnum(a) == b
        if isinstance(b, Un) and isinstance(a, (Decimal,)):
            return unnum(b) == a
        if isinstance(a, Un) or isinstance(b, Un):
            # an uninterpreted value against a constant: random, reproducible
            return uhash(b"eq", *sorted((enc(a), enc(b))))[0] % 3 == 0
        return close(a, b)

    def o_not(self, t, env):
        return not self.bool_(t.args[0], env)

    def o_and(self, t, env):
        skip = None
        for a in t.args:
            try:
                if not self.bool_(a, env):
                    return False
            except Skip as e:
                skip = e
        if skip:
            raise skip
        return True

    def o_or(self, t, env):
        skip = None
        for a in t.args:
            try:
                if self.bool_(a, env):
                    return True
            except Skip as e:
                skip = e
        if skip:
            raise skip
        return False

    def o_ite(self, t, env):
        return self.ev(t.args[1] if self.bool_(t.args[0], env) else t.args[2], env)

    def o_isnone(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, Un):
            return uhash(b"isnone", v)[0] % 4 == 0
        return v is None

    def o_delta(self, t, env):
        return D1 if self.num(t.args[0], env) == self.num(t.args[1], env) else D0

    def _all(self, v):
        if isinstance(v, list):
            for x in v:
                yield from self._all(x)
        else:
            yield v

    def quant(self, t, env, want):
        b = t.args[0]
        v = self.ev(b, env)
        if isinstance(v, Un):
            return self.tobool(Un(uhash(b"any", v)))
        return any(self.tobool(x) == want for x in self._all(v))

    def o_any(self, t, env):
        return self.quant(t, env, True)

    def o_all(self, t, env):
        return not self.quant(t, env, False)

    def o_isinf(self, t, env):
        return abs(self.num(t.args[0], env)) > FMAX

    def o_isposinf(self, t, env):
        return self.num(t.args[0], env) > FMAX

    def o_isneginf(self, t, env):
        return self.num(t.args[0], env) < -FMAX

    def o_isnan(self, t, env):
        try:
            v = self.ev(t.args[0], env)
        except Skip:
            raise
        if isinstance(v, Un):
            return uhash(b"isnan", v)[0] % 4 == 0
        return False

    def o_isfinite(self, t, env):
        return abs(self.num(t.args[0], env)) <= FMAX

    def o_list(self, t, env):
        return [self.ev(a, env) for a in t.args]

    o_tuple = o_list

    def o_lcat(self, t, env):
        out = []
        for a in t.args:
            out += self.aslist(self.ev(a, env))
        return out

    def o_flat(self, t, env):
        out = []
        for x in self.aslist(self.ev(t.args[0], env)):
            out += self.aslist(x)
        return out

    def o_sconcat(self, t, env):
        vs = [self.ev(a, env) for a in t.args]
        if all(isinstance(v, str) for v in vs):
            return "".join(vs)
        return Un(uhash(b"sconcat", *vs))

    def o_dict(self, t, env):
        d = {}
        for i in range(0, len(t.args), 2):
            d[self.hk(self.ev(t.args[i], env))] = self.ev(t.args[i + 1], env)
        return d

    def hk(self, k):
        if isinstance(k, bool):
            return D1 if k else D0
        if isinstance(k, list):
            return tuple(self.hk(x) for x in k)
        return k

    def o_dset(self, t, env):
        d = self.ev(t.args[0], env)
        if isinstance(d, dict):
            d = dict(d)
            d[self.hk(self.ev(t.args[1], env))] = self.ev(t.args[2], env)
            return d
        return self.unint(t, env)

    def o_dupd(self, t, env):
        d = self.ev(t.args[0], env)
        ks, vs = self.ev(t.args[1], env), self.ev(t.args[2], env)
        if isinstance(d, dict) and isinstance(ks, list) and isinstance(vs, list):
            d = dict(d)
            for k, v in zip(ks, vs):
                d[self.hk(k)] = v
            return d
        return self.unint(t, env)

    def o_dictzip(self, t, env):
        ks, vs = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if isinstance(ks, list) and isinstance(vs, list):
            return {self.hk(k): v for k, v in zip(ks, vs)}
        return self.unint(t, env)

    def o_lenof(self, t, env):
        return Decimal(self.lens(self.ev(t.args[0], env)))

    def nrows(self, v):
        f = self.over.get("nrows")
        if f is None:
            return 2 + v.k[3] % 4
        return int(f(self, v) if getattr(f, "__code__", None) is not None and f.__code__.co_argcount == 2 else f(self))

    def o_nrows(self, t, env):
        v = self.ev(t.args[0], env)
        return Decimal(self.nrows(v)) if isinstance(v, Un) else self.unint(t, env)

    def o_attr(self, t, env):
        if t.args[1] == "index":
            v = self.ev(t.args[0], env)
            if isinstance(v, Un):
                k = ("index", enc(v))
                if k not in self.syms:
                    n = self.nrows(v)
                    self.syms[k] = [Decimal(x) for x in self.rnd.sample(range(2 * n), n)]
                return self.syms[k]
        return self.unint(t, env)

    def o_rowset(self, t, env):
        """Rows of a frame by key; columns by name."""
        f = t.args[0]
        if f.op == "dfjoin":
            names, rows, k = [], {}, 0
            for p in f.args:
                nm = self.aslist(self.ev(p.args[3], env))
                for lab, r in zip(self.aslist(self.ev(p.args[2], env)), self.aslist(self.ev(p.args[1], env))):
                    row = rows.setdefault(enc(self.scalar_key(lab)), {})
                    row.update({k + j: x for j, x in enumerate(self.aslist(r))})
                k += len(nm)
                names += nm
            rows = [[r.get(j, NAN) for j in range(k)] for r in rows.values()]
        elif f.op == "pd":
            a, names = self.ev(f.args[1], env), self.aslist(self.ev(f.args[3], env))
            rows = [self.aslist(r) for r in self.aslist(a)]
        else:
            from . import ext
            L = ext.knowncols(f)
            if L is None:
                raise Skip("columns of a frame")
            names = [self.ev(k, env) for k in L]
            cols = [self.aslist(self.ev(tm.mkgetcol(f, k), env)) for k in L]
            rows = [list(r) for r in zip(*cols)]
            if len({len(c) for c in cols}) > 1:
                return "ragged frame"
        if any(len(r) != len(names) for r in rows) or len({enc(n) for n in names}) != len(names):
            return "ragged frame"
        order = sorted(range(len(names)), key=lambda i: enc(names[i]))
        keys = [i for k in t.args[1].args for i in range(len(names)) if enc(names[i]) == enc(self.ev(k, env))]
        if len(keys) != len(t.args[1].args):
            return "missing key columns"
        rows.sort(key=lambda r: [self.sortkey(r[i]) for i in keys])
        return [[names[i] for i in order]] + [[r[i] for i in order] for r in rows]

    def o_getcol(self, t, env):
        df = self.ev(t.args[0], env)
        c = self.ev(t.args[1], env)
        if isinstance(df, Un):
            n = self.nrows(df)
            f = self.over.get("getcol")
            if f is not None and isinstance(c, str):
                k = ("getcol", enc(df), c)
                if k not in self.syms:
                    self.syms[k] = f(self, c, n, enc(df)) if f.__code__.co_argcount == 4 else f(self, c, n)
                if self.syms[k] is not None:
                    return self.syms[k]
            u = Un(uhash(b"getcol", df, c))
            return [Un(uhash(b"elt", u, Decimal(i))) for i in range(n)]
        return self.unint(t, env)

    def scalar_key(self, v):
        if isinstance(v, Un):
            return unnum(v)
        if isinstance(v, bool):
            return D1 if v else D0
        return v

    def sortkey(self, v):
        v = self.scalar_key(v)
        if isinstance(v, Decimal):
            return (0, v, "")
        return (1, D0, enc(v).hex())

    def uniq(self, v):
        out, seen = [], set()
        for x in self.aslist(v):
            k = enc(self.scalar_key(x))
            if k not in seen:
                seen.add(k)
                out.append(self.scalar_key(x) if isinstance(x, (Un, bool)) else x)
        return out

    def o_sortidx(self, t, env):
        xs = self.aslist(self.ev(t.args[0], env))
        return [Decimal(i) for i in sorted(range(len(xs)), key=lambda i: self.sortkey(xs[i]))]

    def o_uo(self, t, env):
        return self.uniq(self.ev(t.args[0], env))

    def o_su(self, t, env):
        return sorted(self.uniq(self.ev(t.args[0], env)), key=self.sortkey)

    def o_suidx(self, t, env):
        xs = [enc(self.scalar_key(x)) for x in self.aslist(self.ev(t.args[0], env))]
        return [Decimal(xs.index(enc(self.scalar_key(u)))) for u in self.o_su(t, env)]

    def o_firstidx(self, t, env):
        xs = [enc(self.scalar_key(x)) for x in self.aslist(self.ev(t.args[0], env))]
        return [Decimal(xs.index(enc(self.scalar_key(u)))) for u in self.o_uo(t, env)]

    def o_nuniq(self, t, env):
        return Decimal(len(self.uniq(self.ev(t.args[0], env))))

    def o_posof(self, t, env):
        x = enc(self.scalar_key(self.ev(t.args[0], env)))
        xs = [enc(self.scalar_key(v)) for v in self.aslist(self.ev(t.args[1], env))]
        if x not in xs:
            raise Skip("position of a missing value")
        return Decimal(xs.index(x))

    def o_isin(self, t, env):
        x = enc(self.scalar_key(self.ev(t.args[0], env)))
        c = self.ev(t.args[1], env)
        if isinstance(c, Un):
            return uhash(b"isin", x, c)[0] % 2 == 0
        return x in [enc(self.scalar_key(v)) for v in self.aslist(c)]

    def o_setof(self, t, env):
        return SetV(self.uniq(self.ev(t.args[0], env)))

    def o_setdiff(self, t, env):
        b = {enc(self.scalar_key(v)) for v in self.aslist(self.ev(t.args[1], env))}
        return [x for x in self.uniq(self.ev(t.args[0], env)) if enc(self.scalar_key(x)) not in b]

    def o_sortedof(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, SetV):
            v = v.items
        r = sorted([self.scalar_key(x) for x in self.aslist(v)], key=self.sortkey)
        return r[::-1] if len(t.args) > 1 else r

    def o_listof(self, t, env):
        return self.aslist(self.ev(t.args[0], env))

    def o_keysof(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, dict):
            return list(v.keys())
        return self.unint(t, env)

    def truepos(self, m, env):
        v = self.ev(m, env)
        n = m.args[1] if m.op == "B" else 1
        out = []

        def rec(v, idx):
            if len(idx) == n:
                if self.tobool(v):
                    out.append(tuple(idx))
                return
            for i, x in enumerate(self.aslist(v)):
                rec(x, idx + [i])
        rec(v, [])
        return out

    def o_count(self, t, env):
        return Decimal(len(self.truepos(t.args[0], env)))

    def o_nth(self, t, env):
        k, m, i = t.args
        p = self.truepos(m, env)
        j = self.int_(i, env)
        if not 0 <= j < len(p):
            raise Skip("nth")
        return Decimal(p[j][k])

    def o_rnk(self, t, env):
        p = self.truepos(t.args[0], env)
        idx = tuple(self.int_(a, env) for a in t.args[1:])
        if idx not in p:
            raise Skip("rank of unselected position")
        return Decimal(p.index(idx))

    def o_red(self, t, env):
        how = t.args[0]
        v = self.ev(t.args[1], env)
        xs = [self.tonum(x) for x in self._all(v)]
        if not xs:
            raise Skip("empty reduction")
        if how == "max":
            return max(xs)
        if how == "min":
            return min(xs)
        if how == "prod":
            p = D1
            for x in xs:
                p = CTX.multiply(p, x)
            return p
        if how in ("argmax", "argmin"):
            return Decimal(xs.index(max(xs) if how == "argmax" else min(xs)))
        if how == "median":
            s = sorted(xs)
            n = len(s)
            return s[n // 2] if n % 2 else (s[n // 2] + s[n // 2 - 1]) / 2
        return Un(uhash(b"red", how, *xs))

    def o_fdiv(self, t, env):
        a, b = self.num(t.args[0], env), self.num(t.args[1], env)
        if b == 0:
            raise Skip("div")
        return (a / b).to_integral_value(rounding=decimal.ROUND_FLOOR)

    def o_mod(self, t, env):
        a, b = self.num(t.args[0], env), self.num(t.args[1], env)
        if b == 0:
            raise Skip("mod")
        return a - b * (a / b).to_integral_value(rounding=decimal.ROUND_FLOOR)

    def o_pd(self, t, env):
        return ["pd", self.ev(t.args[1], env), self.ev(t.args[2], env), self.ev(t.args[3], env)]

    def o_obj(self, t, env):
        d = {"__class__": t.args[0]}
        for i in range(2, len(t.args), 2):
            d[self.ev(t.args[i], env)] = self.ev(t.args[i + 1], env)
        return d


class Machine(Model):
    """Interpretation with the range and rounding of double precision.

    Overflow gives infinity, underflow zero, undefined operations NaN, so a
    guard against them that is missing (or produces another value) shows."""

    def tonum(self, v):
        if isinstance(v, bool):
            return D1 if v else D0
        if isinstance(v, Decimal):
            return CTX.plus(v)
        return Model.tonum(self, v)

    def o_poly(self, t, env):
        s, big = D0, D0
        for m, c in tm._terms(t):
            v = CTX.multiply(self.num(m, env), CTX.divide(Decimal(c.numerator), Decimal(c.denominator)))
            s = CTX.add(s, v)
            if v.is_finite():
                big = max(big, abs(v))
        if s.is_finite() and abs(s) <= CTX.multiply(big, Decimal("1e-15")):
            return D0
        return s

    def o_mono(self, t, env):
        base, first, steps = plan(t)

        def factors(fs, e):
            p = D1
            for a, x in fs:
                if x > 0 and (isbool(a) or a.op == "delta"):
                    if not self.bool_(a, e):
                        return D0
            q = None
            for a, x in fs:
                v = self.num(a, e)
                if a.op == "at" and a.args[0].op == "sym" and v == 0 and x > 0:
                    return D0
                if x not in (1, -1):
                    v = self.power(v, Decimal(abs(x)))
                if x > 0:
                    p = CTX.multiply(p, v)
                else:
                    q = v if q is None else CTX.multiply(q, v)
            if q is None:
                return p
            if q == 0:
                return Decimal("NaN") if p == 0 or p.is_nan() else CTX.copy_sign(Decimal("Infinity"), p)
            return CTX.divide(p, q)

        def rec(k, e):
            if k == len(steps):
                return D1
            lvl, dim, fs, live = steps[k]
            s = D0
            for i in range(self.int_(dim, e)):
                e[lvl] = i
                p = factors(fs, e)
                if p != 0:
                    s = CTX.add(s, CTX.multiply(p, rec(k + 1, e)))
            e.pop(lvl, None)
            return s
        p = factors(first, env)
        if not steps or p == 0:
            return p
        return CTX.multiply(p, rec(0, dict(env)))

    def power(self, x, y):
        if y == 0 or x == 1:
            return D1
        if x == 0 and y < 0:
            return Decimal("Infinity")
        return CTX.power(x, y)

    def o_fn(self, t, env):
        name = t.args[0]
        if name in ("max", "min"):
            vs = [self.num(a, env) for a in t.args[1:]]
            for v in vs:
                if v.is_nan():
                    return v
            return max(vs) if name == "max" else min(vs)
        if name == "div0":
            return Decimal("Infinity")
        xs = [self.num(a, env) for a in t.args[1:]]
        if any(x.is_nan() for x in xs):
            return Decimal("NaN")
        x = xs[0] if xs else None
        if name == "exp":
            if x > 1000:
                return Decimal("Infinity")
            if x < -1000:
                return D0
            return CTX.exp(x)
        if name == "log":
            if x == 0:
                return Decimal("-Infinity")
            return Decimal("NaN") if x < 0 else CTX.ln(x)
        if name == "sqrt" and x < 0:
            return Decimal("NaN")
        if name == "pow":
            return self.power(xs[0], xs[1])
        return Model.o_fn(self, t, env)

    def cmp0(self, t, env, f):
        x = self.num(t.args[0], env)
        return False if x.is_nan() else f(x)

    def o_eq0(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, (str, list, tuple, dict)) or v is None:
            return False
        return self.tonum(v) == 0

    def o_isinf(self, t, env):
        return self.num(t.args[0], env).is_infinite()

    def o_isposinf(self, t, env):
        x = self.num(t.args[0], env)
        return x.is_infinite() and x > 0

    def o_isneginf(self, t, env):
        x = self.num(t.args[0], env)
        return x.is_infinite() and x < 0

    def o_isfinite(self, t, env):
        return self.num(t.args[0], env).is_finite()

    def o_isnan(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, Decimal):
            return v.is_nan()
        return Model.o_isnan(self, t, env)


MACHINE = Context(prec=17, Emax=308, Emin=-307, traps=[])


def flat(v):
    if isinstance(v, (list, tuple)):
        for x in v:
            yield from flat(x)
    else:
        yield v


def machine_agree(a, b, seeds=range(40), over=None, scales=(1, 40, 400, 4000), sizes=None):
    """'same' / ('diff', ...) / 'unknown' under double-precision range and rounding."""
    n = 0
    g = globals()
    for s in seeds:
        save = g["CTX"]
        g["CTX"] = MACHINE
        try:
            with localcontext(MACHINE):
                m = Machine(s, over, Decimal(scales[s % len(scales)]), sizes)
                SCALE[0] = m.scale
                x, y = list(flat(m.ev(a))), list(flat(m.ev(b)))
        except (Skip, RecursionError, ValueError, ArithmeticError):
            continue
        finally:
            g["CTX"] = save
        if len(x) != len(y):
            continue
        n += 1
        for p, q in zip(x, y):
            if isinstance(p, Decimal) and isinstance(q, Decimal):
                if p.is_nan() or q.is_nan():
                    if p.is_nan() != q.is_nan():
                        return ("diff", (s, p, q))
                    continue
                if p == q:
                    continue
                if not (p.is_finite() and q.is_finite()):
                    return ("diff", (s, p, q))
                if abs(p - q) > Decimal("1e-3") * max(abs(p), abs(q), Decimal("1e-9")):
                    return ("diff", (s, p, q))
    return ("same", n) if n >= 3 else ("unknown", n)


WEAK = {"call", "mcall", "fold", "viewmod", "acc", "apply?", "getattr", "dfset", "serset", "asarray",
        "listrm", "thunk", "cyc", "rngat"}


def weak_parts(t, known=()):
    """Subterms whose meaning the analysis does not model."""
    starts = {s.args[0] for s in known if s.op == "rngat"}
    return {s for s in tm.subterms(t) if s.op in WEAK and not (s.op == "rngat" and s.args[0] in starts)} - set(known)


WRONG = "an array of another shape"


def evaluate(t1, t2, seed, over, scale, sizes, prec, stretch=None):
    ctx = CTX.copy()
    ctx.prec = prec
    global_ctx = globals()
    save = global_ctx["CTX"]
    global_ctx["CTX"] = ctx
    try:
        with localcontext(ctx):
            m = Model(seed, over, Decimal(scale), sizes)
            SCALE[0] = m.scale
            if stretch is not None:
                m.stretch = stretch
            try:
                x = m.ev(t1)
            except Misshapen:
                return m, WRONG, m.ev(t2)
            return m, x, m.ev(t2)
    finally:
        global_ctx["CTX"] = save


MODERATE = (1, 1, 7)
EXTREME = (1, 1, 40, 400, 4000)


def agree(a, b, seeds=range(30), over=None, scales=MODERATE, sizes=None):
    """('same', n) / ('diff', model) / ('unknown', reason)."""
    if a is b:
        return ("same", 0)
    n = 0
    why = None
    soft = []
    for s in seeds:
        sc = scales[s % len(scales)]
        try:
            m, x, y = evaluate(a, b, s, over, sc, sizes, 60)
            if not close(x, y):
                # only digits that survive a change of precision count
                m2, x2, y2 = evaluate(a, b, s, over, sc, sizes, 95)
                if not (close(x, x2) and close(y, y2)):
                    why = "cancellation"
                    continue
                if close(x2, y2):
                    continue
                # clipping at 1e-300: cancellations against terms of order one need that many digits
                m3, x3, y3 = evaluate(a, b, s, over, sc, sizes, 720)
                if close(x3, y3):
                    continue
                if m.tainted or x is WRONG:
                    soft.append((m, x, y))
                    continue
                return ("diff", (m, x, y))
            n += 1
        except Skip as e:
            why = str(e)
            continue
        except (RecursionError, ValueError, ArithmeticError) as e:
            why = "%s: %s" % (type(e).__name__, e)
            continue
    if len(soft) >= 5 and (n == 0 or all(x is WRONG for _, x, _ in soft)):
        return ("diff", soft[0])
    if n >= 3 and not soft:
        r = beyond(a, b, over, sizes)
        if r is not None:
            return ("diff", r)
        return ("same", n)
    return ("unknown", why)


def thresholds(t):
    """Constants that values or sizes are compared with."""
    out = set()
    for s in tm.subterms(t):
        if s.op in ("lt0", "le0", "gt0", "ge0", "eq0"):
            const = None
            lead = None
            for m, c in tm._terms(s.args[0]):
                if m is tm.ONEMONO:
                    const = c
                else:
                    lead = c
            if const and lead:
                out.add(abs(const / lead))
        elif s.op == "fn" and s.args[0] in ("max", "min"):
            out |= {abs(x.args[1]) for x in s.args[1:] if isinstance(x, T) and tm.is_num(x)}
    return {x for x in out if x and EDGE < x < 1 / EDGE}


EDGE = Fraction(1, 10 ** 290)       # guards at the ends of the double range are judged by machine_agree alone
BUDGET = 12


def beyond(a, b, over, sizes):
    """Interpretations on the far side of the constants that only one of the terms compares something with."""
    new = thresholds(a) ^ thresholds(b)
    if not new:
        return None
    end = time.time() + BUDGET
    tries = []
    for c in sorted(new)[:6]:
        c = Decimal(c.numerator) / Decimal(c.denominator)
        for k in (Decimal("0.5"), Decimal(2), Decimal(30)):
            for x in {c * k, Decimal(1) / (c * k), abs(c.ln()) * k if c != 1 else c}:
                if Decimal("1e-9") < x < Decimal(100000):
                    tries += [(x, x, None), (1, x, None)]
    probe = None
    for s in range(3):
        try:
            probe = evaluate(a, b, s, over, 1, sizes, 60)[0]
            break
        except (Skip, RecursionError, ValueError, ArithmeticError):
            continue
    if probe is not None:
        for c in sorted(new)[:6]:
            if c.denominator == 1 and 3 <= c <= 400:
                for n in sorted(probe.sizes):
                    if n not in (sizes or {}) and n not in (over or {}):
                        tries += [(1, Decimal(1), (n, int(c) + 2)), (40, Decimal(1), (n, 2 * int(c)))]
    for k, (sc, st, big) in enumerate(tries):
        sz = dict(sizes or {})
        if big:
            sz[big[0]] = Decimal(big[1])
            if big[0] in ("O", "M") and "R" in probe.sizes:
                sz["R"] = Decimal(big[1])
        for s in range(4):
            if time.time() > end:
                return None
            try:
                m, x, y = evaluate(a, b, 1000 + 10 * k + s, over, sc, sz, 60, st)
                if close(x, y) or m.tainted or not apart(x, y):
                    continue
                m, x, y = evaluate(a, b, 1000 + 10 * k + s, over, sc, sz, 400, st)
                if not close(x, y) and apart(x, y):
                    return (m, x, y)
            except (Skip, RecursionError, ValueError, ArithmeticError):
                continue
    return None


def apart(x, y):
    """A difference that no rounding of the interpretation explains."""
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) != len(y) or any(apart(p, q) for p, q in zip(x, y))
    if isinstance(x, Decimal) and isinstance(y, Decimal):
        if x.is_nan() or y.is_nan() or not (x.is_finite() and y.is_finite()):
            return False
        return abs(x - y) > max(abs(x), abs(y)) * Decimal("1e-9") and max(abs(x), abs(y)) > Decimal("1e-200")
    return not close(x, y)
