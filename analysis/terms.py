"""Hash-consed value terms, decision diagrams over branch conditions, and polynomial
normal forms.  These are the value numbers of the dataflow analysis in engine.py.

A value is a term T(op, args).  Joins of control flow are 'dd' terms: a decision node on
a condition variable with one child per element of the variable's domain.  Equal values
are the same Python object."""
from fractions import Fraction


class T(object):
    __slots__ = ("op", "args", "id", "_fv", "__weakref__")
    table = {}
    order = []

    def __new__(cls, op, *args):
        k = (op,) + args
        t = cls.table.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            t.id = len(cls.order)
            t._fv = None
            cls.table[k] = t
            cls.order.append(t)
        return t

    def __hash__(self):
        return self.id

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id

    # arithmetic, for writing required values in rules
    def __add__(self, o):
        return apply(add, self, _n(o))

    def __radd__(self, o):
        return apply(add, _n(o), self)

    def __sub__(self, o):
        return apply(sub, self, _n(o))

    def __rsub__(self, o):
        return apply(sub, _n(o), self)

    def __mul__(self, o):
        return apply(mul, self, _n(o))

    def __rmul__(self, o):
        return apply(mul, _n(o), self)

    def __truediv__(self, o):
        return apply(div, self, _n(o))

    def __rtruediv__(self, o):
        return apply(div, _n(o), self)

    def __neg__(self):
        return apply(lambda x: scale(x, -1), self)


def _n(x):
    return x if isinstance(x, T) else num(x)


BOT = T("bot")
TRUE = T("bool", True)
FALSE = T("bool", False)
UNIT = T("agg", "tuple", "", ())
CMP = ("L", "E", "G")


class Blowup(Exception):
    pass


# ------------------------------------------------------------------ decision diagrams
def dom(var):
    """Domain of a condition variable."""
    if var.op == "discr":
        return var.args[1]
    if var.op == "cmp0":
        return CMP
    return (False, True)


def mk_dd(var, kids):
    live = [k for k in kids if k is not BOT]
    if not live:
        return BOT
    f = live[0]
    if all(k is f for k in live):
        return f
    if var.op == "discr":
        # a value rebuilt from its own variants is the value itself
        x = var.args[0]
        hit = False
        for n, k in zip(var.args[1], kids):
            if k is BOT:
                continue
            if k.op != "agg" or k.args[1] != n:
                break
            if not all(v.op == "fld" and v.args[0] is x and v.args[1] == fn for fn, v in k.args[2]):
                break
            hit = hit or bool(k.args[2])
        else:
            if hit:
                return x
    if var.op == "cmp0":
        # at equality the two sides agree: pick a canonical branch
        L, E, G = kids
        if E is not L and L is not BOT and E is not BOT and E.op != "dd" and L.op != "dd" and L is not G:
            if _multiple(var.args[0], E, L):
                kids = (L, L, G)
        L, E, G = kids
        if E is not G and E is not L and E is not BOT and G is not BOT and E.op != "dd" and G.op != "dd":
            if _multiple(var.args[0], E, G):
                kids = (L, G, G)
    return T("dd", var, tuple(kids))


def _numeric(t):
    return t.op in ("poly", "num")


def _multiple(d, a, b):
    """a - b is a rational multiple of d (d == 0 here)"""
    if not (a.op in ("poly", "num", "call", "fld", "p", "idx", "mu", "with", "sum", "at", "ix", "elem", "len", "mval", "mkey") and
            b.op in ("poly", "num", "call", "fld", "p", "idx", "mu", "with", "sum", "at", "ix", "elem", "len", "mval", "mkey")):
        return False
    p = to_poly(sub(a, b))
    q = to_poly(d)
    if not p or len(p) != len(q) or set(p) != set(q):
        return False
    r = None
    for m in p:
        x = p[m] / q[m]
        if r is None:
            r = x
        elif r != x:
            return False
    return True


def case(var, kids):
    """Decision on var, kids aligned with dom(var); kids may mention any variable."""
    ok = True
    for k in kids:
        if k.op == "dd" and k.args[0].id <= var.id:
            ok = False
            break
    if ok:
        return mk_dd(var, tuple(kids))
    d = dom(var)
    res = BOT
    for v, k in zip(d, kids):
        res = ite(lit(var, v), k, res) if res is not BOT else restrict(k, lit(var, v))
    return res


def lit(var, val):
    return mk_dd(var, tuple(TRUE if v == val else FALSE for v in dom(var)))


def cof(v, var, i):
    if v.op == "dd" and v.args[0] is var:
        return v.args[1][i]
    return v


def cofactor(v, var, val):
    """v with the decision on var fixed to val"""
    i = dom(var).index(val)
    memo = {}

    def rec(x):
        if x.op != "dd":
            return x
        r = memo.get(x)
        if r is None:
            if x.args[0] is var:
                r = rec(x.args[1][i])
            else:
                r = mk_dd(x.args[0], tuple(rec(k) for k in x.args[1]))
            memo[x] = r
        return r
    return rec(v)


LIMIT = 6000


def forget(v, c, vars):
    """a value that agrees with v wherever c holds and decides on none of vars; None if there is none"""
    memo = {}
    cnt = [0]

    def rec(ps):
        ps = tuple(sorted(set((x, k) for x, k in ps if k is not FALSE and k is not BOT and x is not BOT),
                          key=lambda q: (q[0].id, q[1].id)))
        if not ps:
            return BOT
        if len(set(x for x, k in ps)) == 1:
            return ps[0][0]
        r = memo.get(ps, 0)
        if r != 0:
            return r
        top = None
        for q in ps:
            for x in q:
                if x.op == "dd" and (top is None or x.args[0].id < top.id):
                    top = x.args[0]
        if top is None:
            r = None
        else:
            cnt[0] += 1
            if cnt[0] > LIMIT:
                raise Blowup()
            kids = []
            for i in range(len(dom(top))):
                k = rec(tuple((cof(x, top, i), cof(y, top, i)) for x, y in ps))
                if k is None:
                    break
                kids.append(k)
            r = case(top, kids) if len(kids) == len(dom(top)) else None
        memo[ps] = r
        return r
    ps = [(v, c)]
    for var in vars:
        ps = [(cofactor(x, var, d), cofactor(k, var, d)) for x, k in ps for d in dom(var)]
        ps = list(set((x, k) for x, k in ps if k is not FALSE and k is not BOT and x is not BOT))
    return rec(tuple(ps))


def apply(f, *vs):
    memo = {}
    cnt = [0]

    def rec(vs):
        r = memo.get(vs)
        if r is not None:
            return r
        top = None
        for v in vs:
            if v.op == "dd":
                x = v.args[0]
                if top is None or x.id < top.id:
                    top = x
        if top is None:
            if BOT in vs:
                r = BOT
            else:
                r = f(*vs)
        else:
            cnt[0] += 1
            if cnt[0] > LIMIT:
                raise Blowup()
            r = case(top, [rec(tuple(cof(v, top, i) for v in vs)) for i in range(len(dom(top)))])
        memo[vs] = r
        return r
    return rec(tuple(vs))


_ite_memo = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    k = (c, a, b)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    r = _ite(c, a, b, [0])
    _ite_memo[k] = r
    return r


def _ite(c, a, b, cnt):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c is BOT:
        return BOT
    if a is b:
        return a
    k = (c, a, b)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    if c.op != "dd":
        c = boolify(c)
        return _ite(c, a, b, cnt)
    # push decisions inside structs of the same shape
    m = _merge_struct(c, a, b, cnt)
    if m is not None:
        _ite_memo[k] = m
        return m
    top = c.args[0]
    for v in (a, b):
        if v.op == "dd" and v.args[0].id < top.id:
            top = v.args[0]
    cnt[0] += 1
    if cnt[0] > LIMIT:
        raise Blowup()
    kids = [_ite(cof(c, top, i), cof(a, top, i), cof(b, top, i), cnt) for i in range(len(dom(top)))]
    r = case2(top, kids)
    _ite_memo[k] = r
    return r


def case2(var, kids):
    # kids come from cofactors, so they normally only mention later variables, but merged
    # structs may have been produced below
    live = [k for k in kids if k is not BOT]
    if len(live) > 1 and all(k.op == "agg" and k.args[:2] == live[0].args[:2] and
                             [n for n, _ in k.args[2]] == [n for n, _ in live[0].args[2]] for k in live) \
            and live[0].args[0] in STRUCTS:
        names = [n for n, _ in live[0].args[2]]
        out = []
        for i, n in enumerate(names):
            out.append((n, case(var, [BOT if k is BOT else k.args[2][i][1] for k in kids])))
        return T("agg", live[0].args[0], live[0].args[1], tuple(out))
    return case(var, kids)


STRUCTS = set(["tuple", "closure"])  # struct-like aggregates (single variant); engine adds paths


def _merge_struct(c, a, b, cnt):
    if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0] and a.args[1] == b.args[1] and a.args[0] in STRUCTS:
        fa, fb = a.args[2], b.args[2]
        if [n for n, _ in fa] == [n for n, _ in fb]:
            return T("agg", a.args[0], a.args[1], tuple((n, _ite(c, x, y, cnt)) for (n, x), (_, y) in zip(fa, fb)))
    if a.op == "with" or b.op == "with":
        ba = a.args[0] if a.op == "with" else a
        bb = b.args[0] if b.op == "with" else b
        if ba is bb:
            da = dict(a.args[1]) if a.op == "with" else {}
            db = dict(b.args[1]) if b.op == "with" else {}
            out = []
            for n in sorted(set(da) | set(db)):
                x = da.get(n)
                y = db.get(n)
                if x is None:
                    x = fld_raw(ba, n)
                if y is None:
                    y = fld_raw(ba, n)
                out.append((n, _ite(c, x, y, cnt)))
            return mk_with(ba, out)
    return None


def fld_raw(t, n):
    return T("fld", t, n)


def mk_with(base, pairs):
    pairs = tuple(sorted((n, v) for n, v in pairs if v is not fld_raw(base, n)))
    if not pairs:
        return base
    return T("with", base, pairs)


def boolify(t):
    """Turn a boolean leaf term into a decision node."""
    if t.op in ("bool", "dd", "bot"):
        return t
    return mk_dd(t, (FALSE, TRUE))


def neg(c):
    return apply(lambda x: FALSE if x is TRUE else TRUE if x is FALSE else mk_dd(x, (TRUE, FALSE)), c)


def conj(a, b):
    return ite(a, b, FALSE)


def disj(a, b):
    return ite(a, TRUE, b)


def restrict(v, c):
    """v where c holds, don't-care elsewhere"""
    if c is TRUE or v.op != "dd":
        return v if c is not FALSE else BOT
    return ite(c, v, BOT)


def leaves(v):
    seen = set()
    out = []
    st = [v]
    done = set()
    while st:
        x = st.pop()
        if x in done:
            continue
        done.add(x)
        if x.op == "dd":
            st.extend(reversed(x.args[1]))
        elif x is not BOT and x not in seen:
            seen.add(x)
            out.append(x)
    return out


def cases(v, limit=400):
    """[(list of (var,val)), leaf] over all decision paths of a value"""
    out = []

    def rec(x, path):
        if len(out) > limit:
            raise Blowup()
        if x.op == "dd":
            var, kids = x.args
            # group equal kids
            for val, k in zip(dom(var), kids):
                rec(k, path + [(var, val)])
        elif x is not BOT:
            out.append((path, x))
    rec(v, [])
    return out


def when(v, leaf_pred):
    """condition under which the leaf satisfies the predicate"""
    return apply(lambda x: TRUE if leaf_pred(x) else FALSE, v)


# ------------------------------------------------------------------------ polynomials
def num(x):
    return T("num", Fraction(x))


ZERO = num(0)
ONE = num(1)


def fnum(s):
    """float literal text -> term"""
    try:
        f = Fraction(s)
    except Exception:
        try:
            x = float(s)
            if x != x or x in (float("inf"), float("-inf")):
                return T("fconst", s)
            f = Fraction(repr(x))
        except Exception:
            return T("fconst", s)
    return T("num", f)


def to_poly(t):
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return T("num", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return T("poly", tuple(sorted(p.items(), key=lambda mc: [(a.id, e) for a, e in mc[0]])))


def mono_mul(a, b):
    d = {}
    for t, e in a + b:
        d[t] = d.get(t, 0) + e
    coeff = Fraction(1)
    exps = [t for t in d if t.op == "call" and t.args[0] == "exp" and d[t] != 0]
    if len(exps) > 1 or any(d[t] != 1 for t in exps):
        s = {}
        for t in exps:
            for m, c in to_poly(t.args[1][0]).items():
                s[m] = s.get(m, 0) + c * d[t]
            del d[t]
        s = from_poly(s)
        if s is not ZERO:
            e = T("call", "exp", (s,))
            d[e] = d.get(e, 0) + 1
    extra = None
    for t in list(d):
        if t.op == "call" and t.args[0] == "sqrt" and d[t] in (2, -2):
            k = d.pop(t) // 2
            inner = t.args[1][0]
            if inner.op == "num":
                coeff *= inner.args[0] ** k
            elif inner.op == "poly":
                if k == 1:
                    extra = inner if extra is None else mul(extra, inner)
                else:
                    q = T("P", inner)
                    d[q] = d.get(q, 0) - 1
            else:
                d[inner] = d.get(inner, 0) + k
    m = tuple(sorted(((t, e) for t, e in d.items() if e != 0), key=lambda te: te[0].id))
    return m, coeff, extra


def add(a, b):
    p = to_poly(a)
    for m, c in to_poly(b).items():
        p[m] = p.get(m, 0) + c
    return from_poly(p)


def scale(a, k):
    return from_poly({m: c * k for m, c in to_poly(a).items()})


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 150:
        return T("call", "mul", tuple(sorted((a, b))))
    out = {}
    rest = []
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m, k, extra = mono_mul(m1, m2)
            if extra is None:
                out[m] = out.get(m, 0) + c1 * c2 * k
            else:
                rest.append(mul(from_poly({m: c1 * c2 * k}), extra))
    r = from_poly(out)
    for x in rest:
        r = add(r, x)
    return r


def div(a, b):
    pb = to_poly(b)
    if not pb:
        return T("call", "div0", (a,))
    if a is b:
        return ONE
    if len(pb) == 1:
        (m, c), = pb.items()
        inv = {tuple((t, -e) for t, e in m): 1 / c}
        return mul(a, T("poly", tuple(inv.items())) if m else T("num", 1 / c))
    lead = min(pb, key=lambda m: [(t.id, e) for t, e in m])
    k = pb[lead]
    nb = from_poly({m: c / k for m, c in pb.items()})
    # exact multiple?
    pa = to_poly(a)
    if len(pa) == len(pb) and set(pa) == set(pb):
        r = set(pa[m] / pb[m] for m in pa)
        if len(r) == 1:
            return num(r.pop())
    P = T("P", nb)
    return mul(a, T("poly", ((((P, -1),), 1 / k),)))


def cmp_var(a, b):
    """Three-way comparison of leaf terms a and b: (constant 'L'/'E'/'G', None) or
    (var, flipped)."""
    d = sub(a, b)
    if d.op == "num":
        x = d.args[0]
        return ("L" if x < 0 else "G" if x > 0 else "E"), None
    p = to_poly(d)
    inf = [m for m in p if m]
    if len(inf) == 1 and inf[0] == ((INF, 1),):
        return ("G" if p[inf[0]] > 0 else "L"), None
    lead = min(p, key=lambda m: [(t.id, e) for t, e in m] if m else [(1 << 60, 0)])
    k = p[lead]
    if k < 0:
        return T("cmp0", from_poly({m: c / k for m, c in p.items()})), True
    return T("cmp0", from_poly({m: c / k for m, c in p.items()})), False


INF = T("fconst", "inf")
NONNEG = ("len", "ix", "bv", "wit", "trip")


def compare(a, b, table):
    """Value of a three-way comparison mapped through table {'L':..,'E':..,'G':..}"""
    v, fl = cmp_var(a, b)
    if isinstance(v, str):
        return table[v]
    if fl:
        kids = (table["G"], table["E"], table["L"])
    else:
        kids = (table["L"], table["E"], table["G"])
    # lengths are never negative
    d = v.args[0]
    if d.op in NONNEG:
        kids = (BOT, kids[1], kids[2])
    return case(v, kids)


def lt(a, b):
    return compare(a, b, {"L": TRUE, "E": FALSE, "G": FALSE})


def eq(a, b):
    return compare(a, b, {"L": FALSE, "E": TRUE, "G": FALSE})


# -------------------------------------------------------------------------- traversal
def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)


def contains(t, pred):
    for x in subterms(t):
        if pred(x):
            return True
    return False


SYMS = ("mu", "ix", "unk", "bv", "acc", "p")


def syms(t):
    """set of symbolic leaves contained in t (cached)"""
    if t._fv is not None:
        return t._fv
    out = set()
    if t.op in SYMS:
        out.add(t)

    def rec(a):
        for x in a:
            if isinstance(x, T):
                out.update(syms(x))
            elif isinstance(x, tuple):
                rec(x)
    rec(t.args)
    t._fv = frozenset(out)
    return t._fv


REBUILD = {}


def subst(t, m, memo=None):
    """Replace terms by terms, renormalising on the way up."""
    if memo is None:
        memo = {}
    keys = set(m)
    allsym = all(k.op in SYMS for k in keys)

    def rec(x):
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is not None:
            return r
        if allsym and not (syms(x) & keys):
            memo[x] = x
            return x
        r = build(x.op, tuple(reca(a) for a in x.args))
        memo[x] = r
        return r

    def reca(a):
        if isinstance(a, T):
            return rec(a)
        if isinstance(a, tuple):
            return tuple(reca(y) for y in a)
        return a

    def build(op, args):
        if op == "poly":
            r = ZERO
            for mono, c in args[0]:
                x = T("num", c)
                for t_, e in mono:
                    x = lift2(x, t_, e)
                r = apply(add, r, x)
            return r
        if op == "dd":
            var, kids = args
            if var.op in ("discr", "cmp0") or var.op not in ("bool", "dd"):
                if var.op == "bot":
                    return BOT
            if isinstance(var, T) and var.op == "dd":
                # the condition itself became a decision value
                pass
            return rebuild_dd(var, kids)
        if op == "cmp0":
            return T("cmp0", args[0])
        if op == "agg" or op == "with":
            if op == "with":
                return mk_with(args[0], args[1]) if args[0].op != "agg" else _with_agg(args[0], args[1])
            return T(op, *args)
        f = REBUILD.get(op)
        if f is not None:
            return f(*args)
        return T(op, *args)

    def lift2(x, t_, e):
        def g(a, b):
            if b.op == "P" and e < 0:
                r_ = a
                for _ in range(-e):
                    r_ = div(r_, b.args[0])
                return r_
            r_ = a
            for _ in range(abs(e)):
                r_ = mul(r_, b) if e > 0 else div(r_, b)
            return r_
        return apply(g, x, t_)

    def rebuild_dd(var, kids):
        if var.op == "cmp0":
            d = var.args[0]
            return apply_case(d, lambda leaf: compare(leaf, ZERO, dict(zip(CMP, kids))))
        if var.op == "discr":
            x, names = var.args

            def g(leaf):
                if leaf.op == "agg":
                    v = leaf.args[1]
                    return kids[names.index(v)] if v in names else BOT
                return case(T("discr", leaf, names), kids)
            return apply_case(x, g)
        return apply_case(var, lambda leaf: kids[1] if leaf is TRUE else kids[0] if leaf is FALSE else case(leaf, kids))

    def apply_case(v, g):
        return apply(g, v) if v.op == "dd" else g(v)
    return rec(t)


def _with_agg(a, pairs):
    d = dict(pairs)
    return T("agg", a.args[0], a.args[1], tuple((n, d.get(n, v)) for n, v in a.args[2]))


# --------------------------------------------------------------------------- printing
def show(t, depth=9):
    if not isinstance(t, T):
        return str(t)
    if depth == 0:
        return "..."
    o, a = t.op, t.args
    s = lambda x: show(x, depth - 1)
    if o == "num":
        return str(a[0])
    if o == "bool":
        return str(a[0])
    if o == "str":
        return repr(a[0])
    if o == "p":
        return a[0]
    if o == "fld":
        return "%s.%s" % (s(a[0]), a[1])
    if o == "poly":
        out = []
        for m, c in a[0]:
            f = "*".join(s(x) if e == 1 else "%s^%d" % (s(x), e) for x, e in m)
            out.append(str(c) if not f else f if c == 1 else "%s*%s" % (c, f))
        return "(" + " + ".join(out) + ")"
    if o == "call":
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1]))
    if o == "mut":
        return "%s!%s(%s)" % (a[0], a[1], ", ".join(s(x) for x in a[2]))
    if o == "agg":
        nm = a[0].split("::")[-1] + ("::" + a[1] if a[1] else "")
        return "%s{%s}" % (nm, ", ".join("%s: %s" % (n, s(v)) for n, v in a[2]))
    if o == "with":
        return "[%s with %s]" % (s(a[0]), ", ".join("%s=%s" % (n, s(v)) for n, v in a[1]))
    if o == "dd":
        v = a[0]
        vs = s(v.args[0]) if v.op in ("discr", "cmp0") else s(v)
        kids = {}
        for n, k in zip(dom(v), a[1]):
            kids.setdefault(k, []).append(str(n))
        return "{%s%s ? %s}" % (vs, "<=>0" if v.op == "cmp0" else "",
                                " ; ".join("%s: %s" % ("|".join(n), s(k)) for k, n in kids.items() if k is not BOT))
    if o == "ref":
        return "&%s%s" % (a[0][-1] if a[0][0] != "M" else s(a[0][1]), "".join("." + str(x[1]) for x in a[1]))
    return "%s(%s)" % (o, ", ".join(_sa(x, depth - 1) for x in a))


def _sa(x, d):
    if isinstance(x, T):
        return show(x, d)
    if isinstance(x, tuple):
        return "(" + ", ".join(_sa(y, d) for y in x) + ")"
    return str(x)
