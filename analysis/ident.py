"""Identity test for value numbers.

Two terms with different normal forms may still denote the same function of their atoms
(the normaliser is incomplete).  Before a difference is reported, both terms are
interpreted over random values of their uninterpreted atoms (random interpretation,
polynomial identity testing).  A difference is reported only if some interpretation tells
them apart; terms containing unmodelled parts are never reported."""
import os
import hashlib
import math

from terms import *
import engine as en


class Unknown(Exception):
    pass


class Undef(Exception):
    """don't-care value was needed"""


def h64(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), "little")


SMALL = [0.0, 1.0, -1.0, 2.0, 0.5, 3.0]


class V(object):
    """constructed value"""
    __slots__ = ("path", "var", "f")

    def __init__(self, path, var, f):
        self.path, self.var, self.f = path, var, f


class W(object):
    """struct overlay on an opaque base"""
    __slots__ = ("base", "f")

    def __init__(self, base, f):
        self.base, self.f = base, f


class L(object):
    """finite list; base: the opaque list it was copied from before some elements changed"""
    __slots__ = ("xs", "base")

    def __init__(self, xs, base=None):
        self.xs = xs
        self.base = base.base if isinstance(base, L) else base


class M(object):
    """map: opaque base (or None = empty) plus overlay key->(key, value or GONE)"""
    __slots__ = ("base", "d")

    def __init__(self, base, d):
        self.base, self.d = base, d


GONE = object()


MATH = {"exp": lambda x: math.exp(min(x, 50.0)), "ln": lambda x: math.log(x), "sqrt": lambda x: math.sqrt(x), "floor": math.floor,
        "ceil": math.ceil, "sin": math.sin, "cos": math.cos, "trunc": lambda x: float(int(x)),
        "signum": lambda x: math.copysign(1.0, x)}


class AnyErr(object):
    """stands for every error result"""


ANYERR = T("anyerr")
WORK = 1500000      # evaluation steps per comparison before it settles for fewer interpretations
FAR = 40            # lengths are drawn up to here
WITNESS = os.environ.get("QM_WIT")


class Ev(object):
    def __init__(self, seed, forced=None, long=False):
        self.seed = seed
        self.long = long
        self.forced = forced if forced is not None else {}
        self.memo = {}
        self.n = 0

    # ---------------------------------------------------------------- atoms
    def atom(self, *key):
        if key in self.forced:
            return self.forced[key]
        x = h64(self.seed, key)
        if x % 100 < 45:
            return SMALL[(x >> 8) % len(SMALL)]
        return ((x >> 8) % 1000003) / 250000.0 - 1.5

    def key(self, v):
        if isinstance(v, bool):
            return ("b", v)
        if isinstance(v, (int, float)):
            if v != v:
                return ("nan",)
            return ("n", "%.9g" % (v + 0.0))
        if isinstance(v, str):
            return ("s", v)
        if isinstance(v, V):
            return ("V", v.path, v.var, tuple((n, self.key(x())) for n, x in v.f))
        if isinstance(v, W):
            d = [(n, self.key(x())) for n, x in sorted(v.f.items())]
            bk = self.key(v.base)
            d = [(n, k) for n, k in d if k != self.key(self.field(v.base, n))]
            if not d:
                return bk
            return ("W", bk, tuple(d))
        if isinstance(v, L):
            ks = tuple(self.key(x) for x in v.xs)
            if v.base is not None and self.llen(v.base) == len(ks) and all(self.key(self.lidx(v.base, float(i))) == k for i, k in enumerate(ks)):
                return self.key(v.base)
            return ("L", ks)
        if isinstance(v, AnyErr):
            return ("anyerr",)
        if isinstance(v, M):
            if v.base is None:
                return ("M", None, tuple(sorted((k, self.key(x)) for k, (_, x) in v.d.items())))
            d = []
            for k, (kv, x) in v.d.items():
                if x is GONE:
                    if self.haskey(v.base, kv):
                        d.append((k, "gone"))
                elif not (self.haskey(v.base, kv) and self.key(self.mapat(v.base, kv)) == self.key(x)):
                    d.append((k, self.key(x)))
            if not d:
                return self.key(v.base)
            return ("M", self.key(v.base), tuple(sorted(d)))
        raise Unknown()

    def num(self, v):
        if isinstance(v, bool):
            return 1.0 if v else 0.0
        if isinstance(v, (int, float)):
            return v
        # compared composite values: ordered by identity
        return self.atom("num", self.key(v))

    def boolean(self, v):
        if isinstance(v, bool):
            return v
        k = ("bool", self.key(v))
        if k in self.forced:
            return self.forced[k]
        return h64(self.seed, *k) % 2 == 0

    def field(self, v, n):
        if isinstance(v, V):
            for m, x in v.f:
                if m == n:
                    return x()
            raise Undef()
        if isinstance(v, W):
            if n in v.f:
                return v.f[n]()
            return self.field(v.base, n)
        if isinstance(v, L):
            return self.atom("lfld", self.key(v), n)
        return self.atom("fld", self.key(v), n)

    def base(self, v):
        while isinstance(v, W):
            v = v.base
        return v

    # ----------------------------------------------------------- containers
    def llen(self, v):
        if isinstance(v, L):
            return len(v.xs)
        if isinstance(v, M):
            if v.base is None:
                return len(v.d)
            return self.llen(v.base) + sum((x is not GONE) - self.haskey(v.base, kv) for k, (kv, x) in v.d.items())
        if isinstance(v, str):
            return len(v)
        k = ("len", self.key(v))
        if k in self.forced:
            return self.forced[k]
        return h64(self.seed, *k) % 4 if not self.long else 2 + h64(self.seed, *k) % 2

    def lidx(self, v, i):
        if isinstance(v, L):
            j = int(round(self.num(i)))
            if isinstance(self.num(i), float) and abs(self.num(i) - j) > 1e-9 or not (0 <= j < len(v.xs)):
                return self.atom("oob", self.key(v), self.key(i))
            return v.xs[j]
        return self.atom("idx", self.key(v), self.key(i))

    def tolist(self, v):
        if isinstance(v, L):
            return list(v.xs)
        return [self.lidx(v, float(i)) for i in range(self.llen(v))]

    # arrays are lists of lists; an opaque one is ragged in the interpretation, which is harmless
    def col(self, v, k, i):
        if k == 0:
            return self.lidx(v, i)
        return L([self.col(r, k - 1, i) for r in self.tolist(v)])

    def setcol(self, v, k, i, x):
        xs = self.tolist(v)
        if k == 0:
            j = self.num(i)
            if abs(j - round(j)) > 1e-9 or not (0 <= int(round(j)) < len(xs)):
                return v
            xs[int(round(j))] = x
            return L(xs, v)
        ys = self.tolist(x)
        return L([self.setcol(r, k - 1, i, y) for r, y in zip(xs, ys)] + xs[len(ys):], v)

    def dim(self, v, k):
        if k == 0:
            return self.llen(v)
        if isinstance(v, L) and v.xs:
            return self.dim(v.xs[0], k - 1)
        return h64(self.seed, "dim", self.key(v), k) % 4

    def keys_of(self, v):
        """generated keys of an opaque map"""
        if isinstance(v, M):
            ks = [] if v.base is None else [k for k in self.keys_of(v.base)]
            have = set(self.key(k) for k in ks)
            for k, (kv, x) in v.d.items():
                if k not in have and x is not GONE:
                    ks.append(kv)
            return [k for k in ks if self.key(k) not in v.d or v.d[self.key(k)][1] is not GONE]
        n = self.llen(v)
        return [self.atom("mkey", self.key(v), i) + 10 * (i + 1) for i in range(n)]

    def haskey(self, m, k):
        if isinstance(m, M):
            if self.key(k) in m.d:
                return m.d[self.key(k)][1] is not GONE
            return m.base is not None and self.haskey(m.base, k)
        kk = self.key(k)
        if any(self.key(x) == kk for x in self.keys_of(m)):
            return True
        f = self.forced.get(("has", self.key(m), kk))
        return h64(self.seed, "has", self.key(m), kk) % 2 == 0 if f is None else f

    def mapat(self, m, k):
        if isinstance(m, M):
            e = m.d.get(self.key(k))
            if e is not None and e[1] is not GONE:
                return e[1]
            if m.base is None or e is not None:
                raise Undef()
            return self.mapat(m.base, k)
        return self.atom("at", self.key(m), self.key(k))

    def mapput(self, m, k, v):
        d = dict(m.d) if isinstance(m, M) else {}
        b = m.base if isinstance(m, M) else m
        d[self.key(k)] = (k, v)
        return M(b, d)

    def mapdel(self, m, k):
        d = dict(m.d) if isinstance(m, M) else {}
        b = m.base if isinstance(m, M) else m
        d.pop(self.key(k), None)
        if b is not None:
            d[self.key(k)] = (k, GONE)
        return M(b, d)

    # ------------------------------------------------------------------ eval
    def ev(self, t, env=None):
        env = env or {}
        if not env:
            r = self.memo.get(t)
            if r is not None:
                return r
        self.n += 1
        if self.n > 400000:
            raise Unknown()
        r = self._ev(t, env)
        if not env:
            self.memo[t] = r
        return r

    def count(self, t, env):
        n = self.ev(t, env)
        n = self.num(n)
        n = int(round(n)) if abs(n - round(n)) < 1e-9 else h64(self.seed, "cnt", self.key(n)) % 4
        return max(0, min(n, FAR + 8))

    def loop(self, t, env):
        n, lv, body = t.args[-3:]
        for i in range(self.count(n, env)):
            e = dict(env)
            e[T("bv", lv)] = float(i)
            yield i, e, body

    def _ev(self, t, env):
        o, a = t.op, t.args
        if o == "num":
            return float(a[0])
        if o == "bool":
            return a[0]
        if o == "str":
            return a[0]
        if o == "bot":
            raise Undef()
        if o in ("unk", "mu", "uninit", "agg?"):
            raise Unknown()
        if o in ("bv", "acc"):
            if t in env:
                return env[t]
            raise Unknown()
        if o == "ix":
            if t in env:
                return env[t]
            return float(h64(self.seed, "ix", repr(a)) % 4)     # a loop counter
        if o == "p":
            return self.atom("p", a[0])
        if o == "poly":
            s = 0.0
            for m, c in a[0]:
                x = float(c)
                for b, e in m:
                    v = self.num(self.ev(b, env))
                    if v == 0 and e < 0:
                        x = self.atom("div0")
                        break
                    x *= v ** e
                s += x
            return s
        if o == "P":
            return self.num(self.ev(a[0], env))
        if o == "dd":
            return self.ev(self.pick(t, env), env)
        if o == "agg":
            return V(a[0], a[1], [(n, self.lazy(x, env)) for n, x in a[2]])
        if o == "with":
            b = self.ev(a[0], env)
            if isinstance(b, V):
                d = dict(a[1])
                return V(b.path, b.var, [(n, self.lazy(d[n], env) if n in d else x) for n, x in b.f])
            f = dict(b.f) if isinstance(b, W) else {}
            bb = b.base if isinstance(b, W) else b
            for n, x in a[1]:
                f[n] = self.lazy(x, env)
            return W(bb, f)
        if o == "fld":
            return self.field(self.ev(a[0], env), a[1])
        if o == "lam":
            return self.atom("lam", a[0], self.key(self.ev(a[1], env)))
        if o == "call":
            xs = [self.ev(x, env) for x in a[1]]
            f = MATH.get(a[0])
            if f is not None and isinstance(xs[0], (int, float)):
                try:
                    return float(f(xs[0]))
                except (ValueError, OverflowError):
                    pass
            return self.atom("call", a[0], tuple(self.key(x) for x in xs))
        if o == "mut":
            xs = [self.ev(x, env) for x in a[2]]
            return self.atom("mut", a[0], a[1], tuple(self.key(x) for x in xs))
        if o == "len":
            return float(self.llen(self.ev(a[0], env)))
        if o == "idx":
            return self.lidx(self.ev(a[0], env), self.ev(a[1], env))
        if o == "at":
            return self.mapat(self.ev(a[0], env), self.ev(a[1], env))
        if o == "has":
            return self.haskey(self.ev(a[0], env), self.ev(a[1], env))
        if o == "put":
            return self.mapput(self.ev(a[0], env), self.ev(a[1], env), self.ev(a[2], env))
        if o == "unput":
            return self.mapdel(self.ev(a[0], env), self.ev(a[1], env))
        if o == "map0":
            return M(None, {})
        if o in ("mkey", "mval"):
            m = self.ev(a[0], env)
            ks = self.keys_of(m)
            i = int(round(self.num(self.ev(a[1], env))))
            if not (0 <= i < len(ks)):
                return self.atom("oobm", self.key(m), i)
            return ks[i] if o == "mkey" else self.mapat(m, ks[i])
        if o == "setmval":
            m = self.ev(a[0], env)
            ks = self.keys_of(m)
            i = int(round(self.num(self.ev(a[1], env))))
            if not (0 <= i < len(ks)):
                return m
            return self.mapput(m, ks[i], self.ev(a[2], env))
        if o == "setidx":
            xs = self.tolist(self.ev(a[0], env))
            i = self.num(self.ev(a[1], env))
            if abs(i - round(i)) > 1e-9 or not (0 <= int(round(i)) < len(xs)):
                b = self.ev(a[0], env)
                return self.atom("setidx", self.key(b), self.key(i), self.key(self.ev(a[2], env)))
            xs[int(round(i))] = self.ev(a[2], env)
            return L(xs)
        if o == "col":
            return self.col(self.ev(a[0], env), a[1], self.ev(a[2], env))
        if o == "setcol":
            return self.setcol(self.ev(a[0], env), a[1], self.ev(a[2], env), self.ev(a[3], env))
        if o == "dim":
            return float(self.dim(self.ev(a[0], env), a[1]))
        if o == "rep":
            return L([self.ev(a[0], env)] * self.count(a[1], env))
        if o == "vec":
            xs = []
            for s in a[0]:
                if s[0] == "it":
                    xs.append(self.ev(s[1], env))
                elif s[0] == "seg":
                    xs.extend(self.tolist(self.ev(s[1], env)))
                else:
                    for i in range(self.count(s[1], env)):
                        e = dict(env)
                        e[T("bv", s[2])] = float(i)
                        x = self.pick(s[3], e)
                        if x is en.SKIP:
                            continue
                        if x.op == "flat":
                            xs.extend(self.tolist(self.ev(x.args[0], e)))
                        else:
                            xs.append(self.ev(x, e))
            return L(xs)
        if o == "flat":
            return self.ev(a[0], env)
        if o == "mapidx":
            b = self.ev(a[0], env)
            xs = self.tolist(b)
            for i, e, body in self.loop(t, env):
                x = self.pick(body, e)
                if x is en.SKIP:
                    continue
                j = self.num(self.ev(x.args[0], e))
                if abs(j - round(j)) < 1e-9 and 0 <= int(round(j)) < len(xs):
                    xs[int(round(j))] = self.ev(x.args[1], e)
            return L(xs)
        if o == "putall":
            m = self.ev(a[0], env)
            for i, e, body in self.loop(t, env):
                x = self.pick(body, e)
                if x is en.SKIP:
                    continue
                m = self.mapput(m, self.ev(x.args[0], e), self.ev(x.args[1], e))
            return m
        if o == "sum":
            s = 0.0
            for i, e, body in self.loop(t, env):
                x = self.pick(body, e)
                if x is en.SKIP:
                    continue
                s += self.num(self.ev(x, e))
            return s
        if o == "any":
            for i, e, body in self.loop(t, env):
                if self.boolean(self.ev(body, e)):
                    return True
            return False
        if o == "wit":
            for i, e, body in self.loop(t, env):
                if self.boolean(self.ev(body, e)):
                    return float(i)
            raise Undef()
        if o == "fold":
            acc = self.ev(a[0], env)
            lv = a[2]
            for i in range(self.count(a[1], env)):
                e = dict(env)
                e[T("bv", lv)] = float(i)
                e[T("acc", lv)] = acc
                acc = self.ev(a[3], e)
                # force
                self.key(acc)
            return acc
        if o == "min":
            return min(self.num(self.ev(a[0], env)), self.num(self.ev(a[1], env)))
        if o == "win":
            v = self.ev(a[0], env)
            xs = self.tolist(v)
            i = int(self.num(self.ev(a[1], env)))
            k = int(self.num(self.ev(a[2], env)))
            return L(xs[i:i + k])
        if o == "fconst":
            if a[0] == "NaN":
                return float("nan")
            if a[0] == "PI":
                return math.pi
            return self.atom("fconst", a[0])
        if o == "anyerr":
            return AnyErr()
        if o == "isa":
            return self.boolean_atom("isa", self.key(self.ev(a[0], env)), a[1])
        if o in ("has0",):
            raise Unknown()
        if o == "ref":
            raise Unknown()
        # anything else: uninterpreted in its printed structure
        return self.atom(o, tuple(self.argkey(x, env) for x in a))

    def boolean_atom(self, *k):
        if k in self.forced:
            return self.forced[k]
        return h64(self.seed, k) % 2 == 0

    def argkey(self, x, env):
        if isinstance(x, T):
            return self.key(self.ev(x, env))
        if isinstance(x, tuple):
            return tuple(self.argkey(y, env) for y in x)
        return x

    def lazy(self, x, env):
        memo = []

        def f():
            if not memo:
                memo.append(self.ev(x, env))
            return memo[0]
        return f

    def pick(self, t, env):
        """leaf selected by the decisions"""
        while t.op == "dd":
            var, kids = t.args
            if var.op == "cmp0":
                b = self.forced and self.farlen(var.args[0], env)
                if b and b in self.forced:
                    t = kids[self.forced[b]]
                    continue
                x = self.num(self.ev(var.args[0], env))
                if x != x:
                    raise Undef()
                i = 0 if x < -1e-12 else 2 if x > 1e-12 else 1
                if i == 1 and self.composite(var.args[0]):
                    raise Undef()       # a tie with a written-out value would not make the two the same here
                t = kids[i]
            elif var.op == "discr":
                v = self.base(self.ev(var.args[0], env))
                names = var.args[1]
                if isinstance(v, V):
                    if v.var not in names:
                        raise Undef()
                    t = kids[names.index(v.var)]
                else:
                    t = kids[self.discr(v, names)]
            else:
                t = kids[1 if self.boolean(self.ev(var, env)) else 0]
        return t

    def farlen(self, d, env):
        """the comparison d of a length with a number too large for the lists drawn here is decided freely"""
        if d.op != "poly" or len(d.args[0]) != 2:
            return None
        c, ls = None, []
        for m, x in d.args[0]:
            if not m:
                c = x
            elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == "len" and abs(x) == 1:
                ls.append((m[0][0], x))
        if c is None or not ls or ls[0][1] * c > -FAR:
            return None
        k = self.atomkey(ls[0][0], env)
        return k and ("far", k, str(c))

    def composite(self, d):
        """does the difference d involve a value that was put together on the spot?"""
        return any(b.op == "agg" for m, _ in (d.args[0] if d.op == "poly" else ()) for b, _ in m)

    def discr(self, v, names):
        f = self.forced.get(("discr", self.key(v)))
        if f is not None and f < len(names):
            return f
        h = h64(self.seed, "discr", self.key(v))
        if names == en.RES or names == en.OPT:
            # most steps succeed in two interpretations of three, so that long chains are followed to their end
            b = (0, 3, 5)[h64(self.seed, "bias", names) % 3]
            if b and h % (1 << b):
                return names.index("Ok" if names == en.RES else "Some")
            h >>= b
        return h % len(names)

    # ------------------------------------------------------------- comparison
    def same(self, x, y, depth=0):
        if depth > 12:
            return True
        if isinstance(x, AnyErr) or isinstance(y, AnyErr):
            o = y if isinstance(x, AnyErr) else x
            if isinstance(o, AnyErr):
                return True
            if isinstance(o, V):
                return o.var == "Err"
            if isinstance(o, (bool, str, L, M)):
                return False
            return en.RES[self.discr(self.base(o), en.RES)] == "Err"
        if isinstance(x, V) or isinstance(y, V):
            if isinstance(x, V) and isinstance(y, V):
                if x.var != y.var or (x.path != y.path and x.path.split("::")[-1] != y.path.split("::")[-1]):
                    return False
                dx, dy = dict(x.f), dict(y.f)
                for n in set(dx) | set(dy):
                    if n not in dx or n not in dy:
                        return False
                    try:
                        a = dx[n]()
                        b = dy[n]()
                    except Undef:
                        continue
                    if not self.same(a, b, depth + 1):
                        return False
                return True
            v, o = (x, y) if isinstance(x, V) else (y, x)
            if isinstance(o, (bool, str, L, M)):
                return False
            # eta: an opaque value equal to the aggregate of its own parts
            if v.var:
                names = {"Some": en.OPT, "None": en.OPT, "Ok": en.RES, "Err": en.RES}.get(v.var)
                if names is None:
                    return False
                if names[self.discr(self.base(o), names)] != v.var:
                    return False
            for n, f in v.f:
                try:
                    a = f()
                except Undef:
                    continue
                if not self.same(a, self.field(o, n), depth + 1):
                    return False
            return True
        if isinstance(x, bool) or isinstance(y, bool):
            return self.boolean(x) == self.boolean(y)
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            if x != x or y != y:
                return x != x and y != y
            return abs(x - y) <= 1e-6 * max(1.0, abs(x), abs(y))
        if isinstance(x, L) or isinstance(y, L):
            if isinstance(x, (str, M)) or isinstance(y, (str, M)):
                return False
            a, b = self.tolist(x), self.tolist(y)
            return len(a) == len(b) and all(self.same(p, q, depth + 1) for p, q in zip(a, b))
        if isinstance(x, W) or isinstance(y, W):
            bx, by = self.base(x), self.base(y)
            ns = set(x.f if isinstance(x, W) else ()) | set(y.f if isinstance(y, W) else ())
            if not self.same(bx, by, depth + 1):
                return False
            for n in ns:
                try:
                    a, b = self.field(x, n), self.field(y, n)
                except Undef:
                    continue
                if not self.same(a, b, depth + 1):
                    return False
            return True
        if isinstance(x, M) or isinstance(y, M):
            kx = dict((self.key(k), k) for k in (x.d[q][0] for q in x.d)) if isinstance(x, M) else {}
            ky = dict((self.key(k), k) for k in (y.d[q][0] for q in y.d)) if isinstance(y, M) else {}
            bx = x.base if isinstance(x, M) else x
            by = y.base if isinstance(y, M) else y
            if (bx is None) != (by is None):
                return False
            if bx is not None and self.key(bx) != self.key(by):
                return False
            for k in set(kx) | set(ky):
                kv = kx.get(k, ky.get(k))
                if self.haskey(x, kv) != self.haskey(y, kv):
                    return False
                if self.haskey(x, kv) and not self.same(self.mapat(x, kv), self.mapat(y, kv), depth + 1):
                    return False
            return True
        return self.key(x) == self.key(y)


    # ------------------------------------------------------- steering decisions
    def fix(self, k, v):
        if k not in self.forced:
            self.forced[k] = v
            self.memo = {}

    def force(self, var, i, rnd, env=None):
        """make an uninterpreted decision come out as its i-th outcome"""
        if var.op == "discr":
            v = self.base(self.ev(var.args[0], env))
            if not isinstance(v, (V, L, M, bool, str)):
                self.fix(("discr", self.key(v)), i)
        elif var.op == "has":
            m, k = self.ev(var.args[0], env), self.ev(var.args[1], env)
            while isinstance(m, M):
                m = m.base
            if m is not None:
                self.fix(("has", self.key(m), self.key(k)), i == 1)
        elif var.op == "isa":
            self.fix(("isa", self.key(self.ev(var.args[0], env)), var.args[1]), i == 1)
        elif var.op == "any":
            # false: at every index; true: at one of them
            es = list(self.loop(var, env or {}))
            if i == 1 and es:
                es = [es[rnd() % len(es)]]
            for _, e, body in es:
                self.steer(body, TRUE if i == 1 else FALSE, rnd, e)
        elif var.op == "cmp0":
            self.aim(var.args[0], i, rnd, env)
        else:
            v = self.ev(var, env)
            if not isinstance(v, bool):
                self.fix(("bool", self.key(v)), i == 1)

    def steer(self, d, to, rnd, env=None, keep=False):
        """force decisions one after the other on a random way to a leaf"""
        no = FALSE if to is TRUE else TRUE
        while d.op == "dd":
            var, kids = d.args
            ok = [i for i, k in enumerate(kids) if k is not no and k.op != "bot"]
            if not ok:
                return False
            ask = T("dd", var, tuple(num(i) for i in range(len(kids))))
            cur = int(self.pick(ask, env or {}).args[0])
            if cur not in ok or not keep and rnd() % 2:
                self.force(var, ok[rnd() % len(ok)], rnd, env)
                cur = int(self.pick(ask, env or {}).args[0])
                if cur not in ok:
                    return False
            d = kids[cur]
        return d is to

    def aim(self, d, i, rnd, env):
        """give one of the free numbers in d a value that makes d negative, zero or positive"""
        x = self.num(self.ev(d, env))
        if x != x or i == (0 if x < -1e-12 else 2 if x > 1e-12 else 1):
            return
        far = self.farlen(d, env)
        if far:
            return self.fix(far, i)
        want = (i - 1) * (1 + rnd() % 3) * (1, 1, 1, 0.1, 0.01, 1e-3)[rnd() % 6]     # far from the bound, or close to it
        # d is linear in it: value at two points
        cand = []
        for m, c in (d.args[0] if d.op == "poly" else (((((d, 1),), 1),))):
            for b, e in m:
                if e == 1 and b not in cand and sum(1 for n, _ in (d.args[0] if d.op == "poly" else ()) for q, _ in n if q is b) <= 1:
                    cand.append(b)
        cand = [(b, self.atomkey(b, env)) for b in cand]
        cand = sorted(((k in self.forced, rnd(), i, b, k) for i, (b, k) in enumerate(cand) if k is not None), key=lambda x: x[:3])
        for _, _, _, b, k in cand:
            old = self.forced.get(k)
            v0 = self.num(self.ev(b, env))
            self.forced[k] = v0 + 1
            self.memo = {}
            try:
                slope = self.num(self.ev(d, env)) - x
            except (Undef, Unknown):
                slope = 0
            if slope == slope and abs(slope) > 1e-9:
                v = v0 + (want - x) / slope
                if k[0] == "len":
                    v = v0 + ((i - 1) * max(1, abs(want)) - x) / slope
                    v = int(round(v))
                if k[0] != "len" or 0 <= v <= FAR + 2:
                    self.forced[k] = v
                    self.memo = {}
                    try:
                        y = self.num(self.ev(d, env))
                    except (Undef, Unknown):
                        y = float("nan")
                    if i == (0 if y < -1e-12 else 2 if y > 1e-12 else 1):
                        return
            if old is None:
                self.forced.pop(k, None)
            else:
                self.forced[k] = old
            self.memo = {}

    def atomkey(self, t, env):
        """key under which the value of a free number is drawn"""
        o, a = t.op, t.args
        if o == "P":
            return self.atomkey(a[0], env)
        if o == "p":
            return ("p", a[0])
        if o == "len":
            v = self.ev(a[0], env)
            return None if isinstance(v, (L, M, str)) else ("len", self.key(v))
        if o == "fld":
            v = self.base(self.ev(a[0], env))
            return None if isinstance(v, (V, L, M)) else ("fld", self.key(v), a[1])
        if o == "idx":
            v = self.ev(a[0], env)
            return None if isinstance(v, L) else ("idx", self.key(v), self.key(self.ev(a[1], env)))
        if o == "call" and a[0] not in MATH:
            return ("call", a[0], tuple(self.key(self.ev(x, env)) for x in a[1]))
        return None


def compare(e, a, b, cond):
    """'skip' | 'unk' | True | False"""
    try:
        if cond is not TRUE and not e.boolean(e.ev(cond)):
            return "skip"
    except (Undef, Unknown):
        return "skip"
    except RecursionError:
        return "unk"
    try:
        y = e.ev(b)
        e.key(y)
    except Undef:
        return "skip"
    except (Unknown, RecursionError):
        return "unk"
    try:
        x = e.ev(a)
        r = e.same(x, y)
        if WITNESS and r is False:
            print("computed %r\nrequired %r" % (e.key(x), e.key(y)))
        return r
    except (Undef, Unknown):
        return "skip"
    except RecursionError:
        return "unk"


def differ(x, y, depth=0):
    """where two leaves are written differently"""
    if x is y:
        return FALSE
    if depth > 6:
        return TRUE
    if y.op == "anyerr":
        # any error will do
        if x.op == "agg":
            return FALSE if x.args[1] == "Err" else TRUE
        return en.isvar(x, en.RES, "Ok")
    if y.op == "agg" and y.args[1] == "Ok" and x.op not in ("agg", "anyerr") and y.args[2][0][1] is en.fld(x, "Ok.0"):
        return en.isvar(x, en.RES, "Err")
    deeper = lambda p, q: differ(p, q, depth + 1)
    if x.op == "agg" and y.op == "agg" and x.args[:2] == y.args[:2] and [n for n, _ in x.args[2]] == [n for n, _ in y.args[2]]:
        r = FALSE
        for (_, p), (_, q) in zip(x.args[2], y.args[2]):
            r = disj(r, apply(deeper, p, q))
        return r
    if x.op == "vec" and y.op == "vec" and len(x.args[0]) == len(y.args[0]):
        r = FALSE
        for p, q in zip(x.args[0], y.args[0]):
            if p[0] == "it" and q[0] == "it":
                r = disj(r, apply(deeper, p[1], q[1]))
            elif p[0] == "map" and q[0] == "map" and p[1] is q[1] and p[2] == q[2]:
                b = apply(deeper, p[3], q[3])
                r = disj(r, b if b.op == "bool" else lit(T("any", p[1], p[2], b), True))
            elif p != q:
                return TRUE
        return r
    return TRUE


def limits(a, b):
    """differences between a length and a number, where one value depends on the lesser of them"""
    out = []
    for t in (a, b):
        for x in subterms(t):
            if x.op in ("min", "max") and len(x.args) == 2:
                p, q = x.args if x.args[1].op == "num" else x.args[::-1]
                if q.op == "num" and p.op == "len" and 3 < q.args[0] <= FAR and not en.contains(p, lambda y: y.op in ("bv", "acc", "mu", "unk")):
                    d = p - q
                    if d not in out:
                        out.append(d)
    return out[:6]


def identical(a, b, cond=TRUE, trials=160, seed=1):
    """('eq', n) | ('diff', seed) | ('unk', n): compare where cond holds.  Two interpretations must differ
    before the values count as different (one could be rounding)."""
    if a is b:
        return ("eq", 0)
    ok, bad, work = 0, None, 0
    for k in range(trials * 10):
        if k >= trials and (ok >= trials // 4 or work > WORK):
            break
        e = Ev((seed, k), long=k % 4 == 3)
        r = compare(e, a, b, cond)
        work += e.n
        if r == "unk":
            return ("unk", k)
        if r is False:
            if bad is not None:
                return ("diff", k)
            bad = k
        elif r is True:
            ok += 1
    # lists longer than a limit written in the code
    for w, x in enumerate(limits(a, b)):
        for k in range(30):
            rnd = lambda n=[0]: (n.__setitem__(0, n[0] + 1), h64("limit", seed, w, k, n[0]))[1]
            e = Ev((seed, "l", w, k))
            try:
                e.aim(x, 2, rnd, {})
                if cond is not TRUE:
                    e.steer(cond, TRUE, rnd, keep=True)
            except (Undef, Unknown, RecursionError):
                continue
            r = compare(Ev(e.seed, e.forced), a, b, cond)
            if r is False:
                if bad is not None:
                    return ("diff", k)
                bad = k
    # steer the decisions towards where the two values are written differently
    try:
        d = conj(cond, apply(differ, a, b))
    except Blowup:
        d = TRUE
    if d.op == "dd":
        for w in range(trials // 2):
            rnd = lambda n=[0]: (n.__setitem__(0, n[0] + 1), h64("walk", seed, w, n[0]))[1]
            if work > 3 * WORK and w > trials // 16:
                break
            for k in range(4):
                e = Ev((seed, "w", w, k), long=k % 2 == 1)
                try:
                    e.steer(d, TRUE, rnd)
                    e.memo = {}
                    e.steer(d, TRUE, rnd, keep=True)
                except (Undef, Unknown, RecursionError):
                    work += e.n
                    continue
                work += e.n
                r = compare(Ev(e.seed, e.forced, e.long), a, b, cond)
                if r == "unk":
                    return ("unk", k)
                if r is False:
                    if bad is not None:
                        return ("diff", k)
                    bad = k
                elif r is True:
                    ok += 1
    return ("eq", ok) if ok > 3 else ("unk", ok)


def holds(c, cond=TRUE, trials=160, seed=1):
    """is boolean c true wherever cond holds: ('eq'|'diff'|'unk', n)"""
    return identical(c, TRUE, cond, trials, seed)
