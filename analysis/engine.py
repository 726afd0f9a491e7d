"""Gated value numbering over MIR.

For one function the engine computes, by a forward dataflow pass in reverse post order,
the value of every memory location as a hash-consed term (terms.py).  Joins are decision
diagrams over branch conditions, local helpers and closures are inlined, loops are solved
as recurrences over an index (never unrolled), opaque calls are uninterpreted functions of
the values they receive.  Nothing is executed and no formula is given to a solver."""
import sys
from fractions import Fraction

from facts import short, last
from terms import *
import terms

sys.setrecursionlimit(20000)

OPT = ("None", "Some")
RES = ("Ok", "Err")
CF = ("Continue", "Break")
ORD = ("Less", "Equal", "Greater")
SX = T("ix", "seq")
SKIP = T("skip")

OPTP = "std::option::Option"
RESP = "std::result::Result"
CFP = "std::ops::ControlFlow"
ORDP = "std::cmp::Ordering"


def Some(v):
    return T("agg", OPTP, "Some", (("Some.0", v),))


NONE = T("agg", OPTP, "None", ())


def Ok(v):
    return T("agg", RESP, "Ok", (("Ok.0", v),))


def Err(v):
    return T("agg", RESP, "Err", (("Err.0", v),))


def tup(*vs):
    return T("agg", "tuple", "", tuple((str(i), v) for i, v in enumerate(vs)))


def call(name, *args):
    """opaque/pure call lifted over decisions in the arguments"""
    return apply(lambda *a: mkcall(name, a), *args)


def mkcall(name, a):
    if name == "sqrt" and a[0].op == "num" and a[0].args[0] in (0, 1):
        return a[0]
    if name == "exp" and a[0] is ZERO:
        return ONE
    if name == "abs":
        if a[0].op == "num":
            return num(abs(a[0].args[0]))
        p = to_poly(a[0])
        lead = min(p, key=lambda m: [(t.id, e) for t, e in m])
        if p[lead] < 0:
            return T("call", "abs", (scale(a[0], -1),))
    return T("call", name, tuple(a))


# ------------------------------------------------------------------ field/index/map
def fld(v, name):
    if v.op == "dd":
        return apply(lambda x: fld(x, name), v)
    if v.op == "agg":
        for n, x in v.args[2]:
            if n == name:
                return x
        return BOT
    if v.op == "with":
        for n, x in v.args[1]:
            if n == name:
                return x
        return fld(v.args[0], name)
    return T("fld", v, name)


def setfld(v, name, x):
    if v.op == "dd":
        return apply_keep(lambda l: setfld(l, name, x), v)
    if v.op == "agg":
        if any(n == name for n, _ in v.args[2]):
            return T("agg", v.args[0], v.args[1], tuple((n, x if n == name else y) for n, y in v.args[2]))
        return T("unk", ("setfld", name))
    if v.op == "with":
        d = dict(v.args[1])
        d[name] = x
        return mk_with(v.args[0], d.items())
    if v is BOT:
        return T("agg?", name, x)
    return mk_with(v, [(name, x)])


def apply_keep(f, v):
    return apply(f, v)


def length(v):
    return apply(_length, v)


def _length(v):
    if v.op == "vec":
        r = ZERO
        for s in v.args[0]:
            if s[0] == "it":
                r = add(r, ONE)
            elif s[0] == "seg":
                r = apply(add, r, length(s[1]))
            elif s[0] == "map" and not has_skip(s[3]):
                r = apply(add, r, s[1])
            else:
                return T("len", v)
        return r
    if v.op in ("setidx", "mapidx", "col", "setcol"):
        return length(v.args[0])
    if v.op == "str":
        return num(len(v.args[0]))
    if v.op == "rep":
        return v.args[1]
    return T("len", v)


def has_skip(t):
    return contains(t, lambda x: x is SKIP)


def idx(v, i):
    return apply(_idx, v, i)


def _idx(v, i):
    if v.op == "vec":
        pos = ZERO
        for s in v.args[0]:
            if s[0] == "it":
                if i is pos:
                    return s[1]
                pos = add(pos, ONE)
            elif s[0] == "seg":
                if pos is ZERO and len(v.args[0]) == 1:
                    return idx(s[1], i)
                break
            elif s[0] == "map":
                if pos is ZERO and len(v.args[0]) == 1 and not has_skip(s[3]):
                    return subst(s[3], {T("bv", s[2]): i})
                break
    if v.op == "setidx":
        d = sub(i, v.args[1]) if v.args[1].op != "dd" else None
        if d is ZERO:
            return v.args[2]
        if d is not None and d.op == "num":
            return idx(v.args[0], i)
    if v.op == "mapidx":
        b, n, lv, kv = v.args
        if kv.op == "kv" and kv.args[0] is T("bv", lv):
            new = subst(kv.args[1], {T("bv", lv): i})
            if n is length(b):
                return new
            return ite(apply(lt, i, n), new, idx(b, i))
    if v.op == "rep":
        return v.args[0]
    if v.op == "col":
        return col(idx(v.args[0], i), v.args[1] - 1, v.args[2])
    if v.op == "win":
        return idx(v.args[0], add(v.args[1], i))
    return T("idx", v, i)


def setidx(v, i, x):
    def f(v, i):
        if v.op == "setidx" and v.args[1] is i:
            return T("setidx", v.args[0], i, x)
        if v.op == "vec" and i.op == "num":
            k = int(i.args[0])
            segs = list(v.args[0])
            if all(s[0] == "it" for s in segs[:k + 1]) and k < len(segs):
                segs[k] = ("it", x)
                return T("vec", tuple(segs))
        return T("setidx", v, i, x)
    return apply(f, v, i)


def at(m, k):
    return apply(_at, m, k)


def _at(m, k):
    if m.op == "put":
        if m.args[1] is k:
            return m.args[2]
        if distinct(m.args[1], k):
            return at(m.args[0], k)
    if m.op == "unput" and distinct(m.args[1], k):
        return at(m.args[0], k)
    return T("at", m, k)


def distinct(a, b):
    return a.op == "str" and b.op == "str" and a is not b


def has(m, k):
    return apply(_has, m, k)


def _has(m, k):
    if m.op == "put":
        if m.args[1] is k:
            return TRUE
        if distinct(m.args[1], k):
            return has(m.args[0], k)
    if m.op == "map0":
        return FALSE
    if m.op == "unput":
        if m.args[1] is k:
            return FALSE
        if distinct(m.args[1], k):
            return has(m.args[0], k)
    return boolify(T("has", m, k))


def unput(m, k):
    """m without k"""
    return apply(lambda m, k: m if m.op == "map0" else T("unput", m.args[0] if m.op == "put" and m.args[1] is k else m, k), m, k)


def put(m, k, x):
    def f(m, k):
        if m.op == "put" and m.args[1] is k:
            return T("put", m.args[0], k, x)
        return T("put", m, k, x)
    return apply(f, m, k)


def col(v, k, i):
    """slice of a nested-list array at position i of axis k (an integer)"""
    if k == 0:
        return idx(v, i)

    def f(l, j):
        if l.op == "setcol" and l.args[1] == k:
            if l.args[2] is j:
                return l.args[3]
            d = sub(j, l.args[2])
            if d.op == "num" and d is not ZERO:
                return col(l.args[0], k, j)
        if l.op == "rep":
            return T("rep", col(l.args[0], k - 1, j), l.args[1])
        return T("col", l, k, j)
    return apply(f, v, i)


def setcol(v, k, i, x):
    if k == 0:
        return setidx(v, i, x)

    def f(l, j, y):
        if l.op == "setcol" and l.args[1] == k and l.args[2] is j:
            return f(l.args[0], j, y)
        if y.op == "col" and y.args[0] is l and y.args[1] == k and y.args[2] is j:
            return l
        return T("setcol", l, k, j, y)
    return apply(f, v, i, x)


def dimn(v, k):
    """extent of axis k of a nested-list array"""
    if k == 0:
        return length(v)

    def f(l):
        if l.op == "rep":
            return dimn(l.args[0], k - 1)
        if l.op in ("setcol",):
            return dimn(l.args[0], k)
        if l.op == "col":
            return dimn(l.args[0], k + 1 if k >= l.args[1] else k)
        return T("dim", l, k)
    return apply(f, v)


def push(v, x):
    return apply(lambda l: _push(l, x), v)


def _push(v, x):
    if v.op == "vec":
        return T("vec", v.args[0] + (("it", x),))
    return T("vec", (("seg", v), ("it", x)))


def concat(a, b):
    return apply(_concat, a, b)


def _concat(a, b):
    sa = a.args[0] if a.op == "vec" else (("seg", a),)
    sb = b.args[0] if b.op == "vec" else (("seg", b),)
    return T("vec", sa + sb)


def vecof(t):
    """normalise single segment vectors"""
    if t.op == "vec" and len(t.args[0]) == 1 and t.args[0][0][0] == "seg":
        return t.args[0][0][1]
    return t


def bvlevel(t):
    m = 0
    for x in subterms(t):
        if x.op == "bv":
            m = max(m, x.args[0])
    return m


def close(body, ix):
    lv = bvlevel(body) + 1
    return lv, subst(body, {ix: T("bv", lv)})


def mapseg(n, body, ix):
    lv, b = close(body, ix)
    return _mapvec(n, lv, b)


def _mapvec(n, lv, b):
    # identity comprehension: [v[i] for i < len(v)] is v
    if b.op == "idx" and b.args[1] is T("bv", lv) and n is length(b.args[0]) and not contains(b.args[0], lambda x: x is T("bv", lv)):
        return b.args[0]
    return T("vec", (("map", n, lv, b),))


def summ(n, body, ix):
    """sum over ix < n"""
    def f(b):
        return ZERO if b is SKIP else b
    body = apply(f, body)
    if body is ZERO:
        return ZERO
    if n.op == "dd":
        return apply(lambda l: summ(l, body, ix), n)
    if body.op == "dd":
        lv, b = close(body, ix)
        return T("sum", n, lv, b)
    out = ZERO
    for m, c in to_poly(body).items():
        dep = [(t, e) for t, e in m if depends(t, ix)]
        ind = tuple((t, e) for t, e in m if not depends(t, ix))
        coef = from_poly({ind: c})
        if not dep:
            out = add(out, mul(coef, n) if n.op != "bot" else coef)
        else:
            d = from_poly({tuple(dep): Fraction(1)})
            lv, b = close(d, ix)
            out = add(out, mul(coef, T("sum", n, lv, b)))
    return out


def depends(t, ix):
    if ix.op in ("ix", "mu", "unk", "bv"):
        return ix in syms(t)
    return contains(t, lambda x: x is ix)


def mk_any(n, c, ix):
    """exists ix < n with c"""
    if c is FALSE or c is BOT:
        return FALSE
    if c is TRUE:
        return apply(lambda l: lt(ZERO, l), n)
    if not depends(c, ix):
        return conj(c, apply(lambda l: lt(ZERO, l), n))
    lv, b = close(c, ix)
    return boolify(T("any", n, lv, b))


def mk_wit(n, c, ix):
    lv, b = close(c, ix)
    return T("wit", n, lv, b)


def isvar(v, names, which):
    def f(x):
        if x.op == "agg":
            return TRUE if x.args[1] == which else FALSE
        return lit(T("discr", discr_base(x), names), which)
    return apply(f, v)


def discr_base(x):
    while x.op == "with":
        x = x.args[0]
    return x


def _re_fld(v, n):
    return fld(v, n)


def _re_call(name, args):
    return call(name, *args)


def _re_discr(x, names):
    return T("discr", x, names)


def _re_sum(n, lv, b):
    ix = T("ix", "re")
    return summ(n, subst(b, {T("bv", lv): ix}) if isinstance(b, T) else b, ix)


def _re_any(n, lv, b):
    ix = T("ix", "re")
    return mk_any(n, subst(b, {T("bv", lv): ix}), ix)


terms.REBUILD.update({
    "fld": _re_fld, "call": _re_call, "idx": idx, "len": length, "at": at, "has": has,
    "put": put, "unput": unput, "setidx": setidx, "col": col, "setcol": setcol, "dim": dimn,
    "vec": lambda segs: vecof(T("vec", _flat(segs))),
    "iter": lambda s, p: T("iter", s, p),
})


def _flat(segs):
    out = []
    for s in segs:
        if s[0] == "seg" and isinstance(s[1], T) and s[1].op == "vec":
            out.extend(s[1].args[0])
        else:
            out.append(s)
    return tuple(out)


# bound variables count as symbols for substitution shortcuts
_old_syms = terms.syms


def ref(root, projs=(), mut=False):
    return T("ref", root, projs, mut)


# trait functions without a receiver: the implementing type is part of the name
STATIC = ("Deserialize::deserialize", "FromStr::from_str", "DeserializeSeed::deserialize")


class Frame(object):
    __slots__ = ("fid", "path", "b", "body", "subst", "cfg", "depth", "promoted", "alias")


class Cfg(object):
    def __init__(self, body):
        bl = body["blocks"]
        n = len(bl)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(bl):
            if b["c"]:
                continue
            t = b["t"]
            k = t["k"]
            if k in ("goto", "drop", "assert", "call"):
                s = [t["to"]] if t.get("to") is not None else []
            elif k == "switch":
                s = [x for _, x in t["cases"]] + [t["else"]]
            else:
                s = []
            self.succ[i] = s
        # reverse post order
        seen = set()
        post = []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    st.append((v, iter(self.succ[v])))
                    break
            else:
                post.append(u)
                st.pop()
        self.rpo = post[::-1]
        self.num = {b: i for i, b in enumerate(self.rpo)}
        preds = {b: [] for b in self.rpo}
        for u in self.rpo:
            for v in set(self.succ[u]):
                preds[v].append(u)
        self.preds = preds
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while self.num[x] > self.num[y]:
                            x = idom[x]
                        while self.num[y] > self.num[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        self.idom = idom
        self.loops = {}
        for u in self.rpo:
            for v in self.succ[u]:
                if self.dominates(v, u):
                    body_ = self.loops.setdefault(v, set([v]))
                    st = [u]
                    while st:
                        x = st.pop()
                        if x in body_:
                            continue
                        body_.add(x)
                        st.extend(preds[x])

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]


_cfgs = {}


def cfg_of(body):
    c = _cfgs.get(id(body))
    if c is None:
        c = _cfgs[id(body)] = Cfg(body)
    return c


class Summary(object):
    def __init__(self, ret, cond, state, params, events, panics, fid):
        self.ret = ret          # returned value
        self.cond = cond        # condition under which it returns
        self.state = state      # memory at return
        self.params = params    # name -> initial value
        self.events = events
        self.panics = panics
        self.fid = fid

    def final(self, t):
        """final content of the memory behind parameter value t"""
        return self.state.get(("M", t), t)


class Budget(Exception):
    pass


class Ctx(object):
    __slots__ = ("fr", "st", "cond", "args", "f", "dty", "span", "key")


def distinct(k, ix):
    """different iterations give different keys"""
    try:
        p = to_poly(k)
    except Exception:
        return False
    return abs(p.get(((ix, 1),), 0)) > 0 and not depends(from_poly({a: c for a, c in p.items() if a != ((ix, 1),)}), ix)


class Engine(object):
    def __init__(self, facts, opaque=None, inline=None, steps=60000, maxdepth=14, pure=None, contract=None, tracer=None, unwind=None, bounds=False, joint=False):
        self.F = facts
        self.joint = joint     # a loop with one unsolved variable, or with so many variables, is left as a round over all its variables
        self.unwind = unwind   # opaque calls whose failure is followed: name -> bool
        self.unwound = []      # (condition, memory, name of the call, memory at the call): where a panic leaves the function
        self.active = []       # calls in progress: (frame, clean-up block), None at a panic barrier
        self.bounds = bounds   # record every index with the length it must stay below
        self.tracer = tracer   # told of every call: (context, name, body or None, arguments, call site)
        self.pure = pure or (lambda name: False)   # opaque functions assumed to change nothing
        self.contract = contract or (lambda name, j, args: None)   # what an opaque function leaves behind its j-th mutable reference, or returns (j is None)
        self.open = {}         # loop variable that was not solved -> (name, symbol, initial value, value after one round, condition)
        self.opaque = opaque or (lambda name, path: False)
        self.inline = inline or (lambda name, path: True)
        self.fids = {}
        self.dynty = {}
        self.unsized = []      # (trait, concrete type, function) of every conversion to a trait object
        self.where = {}
        self.events = []
        self.nest = []       # loops being analysed, innermost last
        self.nestof = {}     # (result of an opaque call, its place) -> loops around it, type
        self.loopinfo = {}   # loop -> (condition of another round, values at the start of a round, index, last round, left early, values carried on)
        self.panics = []
        self.fnv = {}
        self.stack = []
        self.steps = steps
        self.maxdepth = maxdepth
        self.loopsites = {}
        import models
        self.models = models.MODELS
        self.prefix = models.PREFIX

    # ------------------------------------------------------------------ entry points
    def run(self, path, args=None, subst=None):
        """Summarise a function.  args: list of values for parameters (None = symbolic)."""
        b = self.F.bodies[path]
        body = b["body"]
        fid = self.fid(("root", path))
        st = {}
        params = {}
        names = list(b.get("argnames") or [])
        argv = []
        for i in range(body["nargs"]):
            nm = names[i] if i < len(names) and names[i] else "arg%d" % i
            v = args[i] if args and i < len(args) and args[i] is not None else T("p", nm)
            params[nm] = v
            if v.op == "p" and "ViewRepr<&mut" in self.F.types[body["locals"][i + 1]]["s"]:
                v = ref(("M", v), (), True)     # a view shows its owner's array
            argv.append(v)
        self.left = self.steps
        ret, cond, st = self.body(path, b, body, fid, argv, st, TRUE, subst or {}, 0)
        return Summary(ret, cond, st, params, self.events, self.panics, fid)

    def fid(self, key):
        r = self.fids.get(key)
        if r is None:
            r = self.fids[key] = len(self.fids)
        return r

    def body(self, path, b, body, fid, argv, st, cond, subst, depth):
        fr = Frame()
        fr.fid, fr.path, fr.b, fr.body, fr.subst, fr.depth = fid, path, b, body, subst, depth
        fr.promoted = b.get("promoted") or []
        fr.alias = {}
        fr.cfg = cfg_of(body)
        for i, v in enumerate(argv):
            st[("L", fid, i + 1)] = v
        self.stack.append(path)
        try:
            exits = self.region(fr, set(fr.cfg.rpo), 0, [(cond, st)], None)
        finally:
            self.stack.pop()
        rets = exits.get("ret", [])
        c, s = self.merge(rets)
        if s is None:
            return BOT, FALSE, st
        v = s.get(("L", fid, 0), UNIT)
        keep = self.esc(v)
        for k in [k for k in s if k[0] == "L" and k[1] == fid]:
            if k not in keep:
                del s[k]
        return v, c, s

    def esc(self, v):
        out = set()
        for x in subterms(v):
            if x.op == "ref" and x.args[0][0] == "L":
                out.add(x.args[0])
        return out

    # ------------------------------------------------------------------- merge/region
    def merge(self, ins):
        ins = [(c, s) for c, s in ins if c is not FALSE and s is not None]
        if not ins:
            return FALSE, None
        if len(ins) == 1:
            return ins[0][0], dict(ins[0][1])
        tot = FALSE
        for c, _ in ins:
            tot = disj(tot, c)
        out = {}
        keys = set()
        for _, s in ins:
            keys.update(s)
        for k in keys:
            vs = []
            for c, s in ins:
                v = s.get(k)
                if v is None:
                    v = k[1] if k[0] == "M" else BOT
                vs.append((c, v))
            f = vs[0][1]
            if all(v is f for _, v in vs):
                out[k] = f
                continue
            live = [(c, v) for c, v in vs if v is not BOT]
            if not live:
                continue
            r = live[0][1]
            try:
                for c, v in live[1:]:
                    r = ite(c, v, r)
                if r.op == "dd":
                    r = restrict(r, tot)
            except Blowup:
                r = T("unk", ("merge",) + k[:1])
            out[k] = r
        return tot, out

    def region(self, fr, blocks, entry, ins, header):
        """Process blocks (a set) from entry; returns {target or 'ret': [(cond,state)]}"""
        order = [b for b in fr.cfg.rpo if b in blocks]
        inc = {entry: list(ins)}
        exits = {}
        done = set()

        def deliver(tgt, c, s):
            if c is FALSE:
                return
            if tgt != "ret" and tgt in blocks and tgt != header:
                inc.setdefault(tgt, []).append((c, s))
            else:
                exits.setdefault(tgt, []).append((c, s))
        for b in order:
            if b in done or b not in inc:
                continue
            c, s = self.merge(inc.pop(b))
            if s is None:
                continue
            if b in fr.cfg.loops and b != header:
                lb = fr.cfg.loops[b] & blocks
                done.update(lb)
                lid = self.fid(("loop", fr.fid, b))
                self.loopsites[lid] = (fr.path, b)

                def runpass(c_, s_, b=b, lb=lb):
                    ex = self.region(fr, lb, b, [(c_, s_)], b)
                    lat = ex.pop(b, [])
                    return lat, [(t, cc, ss) for t, l in ex.items() for cc, ss in l]
                for t, cc, ss in self.loop(lid, c, s, runpass):
                    deliver(t, cc, ss)
                continue
            self.left -= 1
            if self.left < 0:
                raise Budget()
            for t, cc, ss in self.block(fr, b, c, s):
                deliver(t, cc, ss)
        return exits

    # -------------------------------------------------------------------------- loops
    def loop(self, lid, cond0, st0, run):
        ix = T("ix", lid)
        mus = {}      # path -> mu
        closed = {}   # path -> closed form
        evm, pam = len(self.events), len(self.panics)
        run = self.nested(lid, run)

        def header():
            s = dict(st0)
            for p, m in mus.items():
                v = closed.get(p, m)
                s[p[0]] = self.setpath(s.get(p[0], p[0][1] if p[0][0] == "M" else BOT), p[1], v)
            return s
        lat = exits = None
        hs = None
        for it in range(14):
            hs = header()
            del self.events[evm:]
            del self.panics[pam:]
            lat, exits = run(cond0, dict(hs))
            if not lat:
                return exits
            cl, sl = self.merge(lat)
            new = False
            for root in sl:
                if root[0] == "L" and root not in hs:
                    continue
                old = hs.get(root)
                if old is None:
                    old = root[1]
                now = sl[root]
                if now.op == "dd" and restrict(now, cl) is old:
                    continue
                for p in self.diff((), old, now):
                    key = (root, p)
                    if key in mus:
                        continue
                    # drop finer paths subsumed by a coarser one
                    for q in [q for q in mus if q[0] == root and q[1][:len(p)] == p]:
                        del mus[q]
                        closed.pop(q, None)
                    if any(q[0] == root and p[:len(q[1])] == q[1] for q in mus):
                        continue
                    mus[key] = T("mu", lid, self.fid(("mu", lid, key)))
                    new = True
            if new:
                continue
            # induction variables
            ind = False
            for key, m in mus.items():
                if key in closed:
                    continue
                lv = self.getpath(sl[key[0]], key[1])
                if lv.op == "dd":
                    continue
                p = to_poly(lv)
                mm = ((m, 1),)
                if p.get(mm) == 1:
                    rest = from_poly({a: c for a, c in p.items() if a != mm})
                    if rest.op == "num" and rest is not ZERO:
                        init = self.getpath(st0.get(key[0], key[0][1]), key[1])
                        if init.op == "dd":
                            continue
                        closed[key] = add(init, mul(rest, ix))
                        ind = True
            if not ind:
                break
        cl, sl = self.merge(lat)
        # natural exit
        nat = None
        N = None
        rex = []
        for e in exits:
            rc = restrict(e[1], cond0)
            rex.append((e[0], rc, e[2]))
        for i, (t, rc, s) in enumerate(rex):
            n = self.tripcount(rc, ix)
            if n is not None and N is None:
                nat, N = i, n
        early = [i for i in range(len(rex)) if i != nat]
        cont = FALSE
        if N is not None:
            cont = neg(rex[nat][1])
        init = {k: self.getpath(st0.get(k[0], k[0][1] if k[0][0] == "M" else BOT), k[1]) for k in mus}
        if N is None:
            N = T("trip", lid)
            # exits depend on the iterated values: represent the result opaquely
        X = FALSE
        for i in early:
            ce = rex[i][1]
            if nat is not None:
                ce = restrict(ce, cont)
            rex[i] = (rex[i][0], ce, rex[i][2])
            X = disj(X, ce)
        # solve recurrences
        todo = {k: m for k, m in mus.items() if k not in closed}
        full = {}
        part = {}
        latv = {}
        lc = restrict(cl, cond0)
        for k, m in todo.items():
            v = self.getpath(sl[k[0]], k[1])
            if v.op == "dd":
                v = restrict(v, cl)
            latv[k] = v
        pend = dict(todo)
        tried = set()
        progress = True
        while pend and progress:
            progress = False
            for k in list(pend):
                m = pend[k]
                v = latv[k]
                others = [x for x in syms(v) if x.op == "mu" and x.args[0] == lid and x is not m]
                if others:
                    if any(o in pend.values() for o in others):
                        continue
                    v = subst(v, {o: part[o] for o in others})
                    latv[k] = v
                s = self.solve(m, v, init[k], N, ix)
                full[m] = s(N)
                part[m] = s(ix)
                del pend[k]
                progress = True
            if pend and not progress:
                # what the loop variables hold may only decide where the loop is being left
                for k in pend:
                    if k in tried:
                        continue
                    tried.add(k)
                    if not any(x.args[0].op == "discr" and x.args[0].args[0].op == "mu" for x in subterms_dd(latv[k])):
                        continue
                    ts = sorted(set(x.args[0] for d in (latv[k], cl) for x in subterms_dd(d)
                                    if x.args[0].op == "discr" and x.args[0].args[0].op == "mu"), key=lambda x: x.id)
                    try:
                        v = forget(latv[k], cl, ts) if 0 < len(ts) < 13 else None
                    except Blowup:
                        v = None
                    if v is not None and v is not BOT and v is not latv[k]:
                        latv[k] = v
                        progress = True
        if self.joint and (pend or len(todo) >= self.joint > 1):
            for k, m in todo.items():
                latv[k] = self.getpath(sl[k[0]], k[1])
                if latv[k].op == "dd":
                    latv[k] = restrict(latv[k], cl)
                full[m] = part[m] = m
                self.open[m] = (k, m, init[k], latv[k], lc)
            pend = {}
        for k, m in pend.items():
            # mutually recursive: joint opaque fold
            tag = tuple(sorted(((init[q], latv[q]) for q in pend), key=lambda x: (x[0].id, x[1].id)))
            full[m] = T("unk", ("loopvar", lid, self.fid(("mu", lid, k))))
            part[m] = m
            self.open[full[m]] = (k, m, init[k], latv[k], lc)
        out = []
        anyx = FALSE
        wit = None
        if early:
            Xs = subst(X, part) if part else X
            anyx = mk_any(N, Xs, ix)
            wit = mk_wit(N, Xs, ix)
        self.loopinfo[lid] = (cl, part, ix, wit, anyx if nat is not None else TRUE, latv)
        for i, (t, rc, s) in enumerate(rex):
            if i == nat:
                sub_ = {ix: N}
                sub_.update(full)
                c = conj(cond0, neg(anyx))
            else:
                w = wit if nat is not None or True else ix
                sub_ = {ix: w}
                for m in full:
                    sub_[m] = subst(part[m], {ix: w})
                c = conj(cond0, anyx) if nat is not None else cond0
                if len(early) > 1:
                    c = conj(c, subst(rc, sub_))
                if nat is None and len(early) == 1:
                    c = cond0
            memo = {}
            s2 = {}
            for r, v in s.items():
                if r[0] == "L" and r not in st0 and self.islooplocal(r, lid):
                    s2[r] = subst(v, sub_, memo)
                else:
                    s2[r] = subst(v, sub_, memo)
            out.append((t, c, s2))
        # events inside the loop are quantified over ix; leave ix in place
        return out

    def nested(self, lid, run):
        """run, with the loop on record as the innermost one"""
        def f(*a):
            self.nest.append(lid)
            try:
                return run(*a)
            finally:
                self.nest.pop()
        return f

    def islooplocal(self, r, lid):
        return True

    def tripcount(self, c, ix):
        """exit condition of the form not (ix < N); N may depend on loop-invariant decisions"""
        if c.op == "dd":
            inv = None
            for x in subterms_dd(c):
                v = x.args[0]
                if not depends(v, ix) and not any(y.op == "mu" and y.args[0] == ix.args[0] for y in syms(v)):
                    if inv is None or v.id < inv.id:
                        inv = v
            if inv is not None:
                kids = []
                for val in dom(inv):
                    k = cofactor(c, inv, val)
                    if k is BOT:
                        kids.append(BOT)
                        continue
                    n = self.tripcount(k, ix)
                    if n is None:
                        return None
                    kids.append(n)
                return case(inv, kids)
        if c.op != "dd" or c.args[0].op != "cmp0":
            return None
        if any(k.op == "dd" for k in c.args[1]):
            return None
        d = c.args[0].args[0]
        p = to_poly(d)
        k = p.get(((ix, 1),))
        if k is None:
            return None
        rest = from_poly({m: x for m, x in p.items() if m != ((ix, 1),)})
        if depends(rest, ix) or any(x.op == "mu" and x.args[0] == ix.args[0] for x in syms(rest)):
            return None
        L, E, G = c.args[1]
        inside = L if k > 0 else G
        if inside is not FALSE or E is not TRUE:
            return None
        return scale(rest, Fraction(-1) / k)

    def solve(self, m, v, init, N, ix):
        """closed form of the recurrence m' = v(m, ix); returns function of the count"""
        ls = leaves(v)
        mm = ((m, 1),)

        def free(t):
            return m not in syms(t)
        # dd conditions must not depend on m (except boolean accumulators)
        if v.op == "dd" or True:
            condfree = all(free(x.args[0]) for x in subterms_dd(v))
        else:
            condfree = True
        try:
            if all(l in (TRUE, FALSE) or l is m for l in ls) and v.op in ("dd", "bool"):
                tv = subst(v, {m: TRUE})
                fv = subst(v, {m: FALSE})
                if tv is TRUE and free(fv):
                    return lambda n: ite(boolify(init) if init.op != "dd" else init, TRUE, mk_any(n, fv, ix))
                if fv is FALSE and free(tv):
                    nt = neg(tv)
                    return lambda n: ite(boolify(init) if init.op != "dd" else init, neg(mk_any(n, nt, ix)), FALSE)
            if free(v):
                # value of the previous iteration
                return lambda n: ite(apply(lambda k: eq(k, ZERO), n), init,
                                     apply(lambda k: subst(v, {ix: sub(k, ONE)}), n))
            if condfree:
                ok = True
                for l in ls:
                    p = to_poly(l)
                    if p.get(mm) != 1 or not free(from_poly({a: c for a, c in p.items() if a != mm})):
                        ok = False
                        break
                if ok:
                    g = apply(lambda l: sub(l, m), v)
                    return lambda n: apply(add, init, summ(n, g, ix))
                ok = True
                for l in ls:
                    if l is m:
                        continue
                    if l.op == "vec" and l.args[0][0] == ("seg", m) and len(l.args[0]) == 2 and free(T("vec", l.args[0][1:])):
                        continue
                    ok = False
                    break
                if ok:
                    def g(l):
                        if l is m:
                            return SKIP
                        s = l.args[0][1]
                        return s[1] if s[0] == "it" else T("flat", T("vec", (s,)))
                    body = apply(g, v)
                    return lambda n: vecof(apply(lambda i: _concat(i, mapseg(n, body, ix)), init))
                ok = all(l is m or (l.op == "put" and l.args[0] is m and free(l.args[1]) and free(l.args[2])) for l in ls)
                if ok:
                    body = apply(lambda l: SKIP if l is m else T("kv", l.args[1], l.args[2]), v)

                    def pa(n):
                        lv, b = close(body, ix)
                        return apply(lambda i: T("putall", i, n, lv, b), init)
                    return pa
                ok = True
                for l in ls:
                    if l is m:
                        continue
                    if l.op == "setidx" and l.args[0] is m and free(l.args[1]):
                        g = subst(l.args[2], {T("idx", m, l.args[1]): idx(init, l.args[1])})
                        if free(g):
                            continue
                    ok = False
                    break
                keys = set(l.args[1] for l in ls if l is not m) if ok else ()
                if ok and not all(distinct(k, ix) for k in keys) and any(depends(l.args[2], m) for l in ls if l is not m):
                    ok = False
                if ok:
                    def gk(l):
                        if l is m:
                            return SKIP
                        return T("kv", l.args[1], subst(l.args[2], {T("idx", m, l.args[1]): idx(init, l.args[1])}))
                    body = apply(gk, v)

                    def mi(n):
                        lv, b = close(body, ix)
                        return apply(lambda i: T("mapidx", i, n, lv, b), init)
                    return mi
                # one element updated over and over: its own recurrence
                keys = set(l.args[1] if l.op == "setidx" and l.args[0] is m else None for l in ls if l is not m)
                k = keys.pop() if len(keys) == 1 else None
                if k is not None and free(k) and not depends(k, ix):
                    r = T("ix", "elem", m)
                    w = apply(lambda l: r if l is m else subst(l.args[2], {T("idx", m, k): r}), v)
                    if free(w):
                        f = self.solve(r, w, idx(init, k), N, ix)
                        return lambda n: setidx(init, k, f(n))
        except Blowup:
            pass

        def gen(n):
            lv = bvlevel(v) + 1
            b = subst(v, {ix: T("bv", lv), m: T("acc", lv)})
            return T("fold", init, n, lv, b)
        return gen

    def diff(self, p, old, new):
        if old is new:
            return []
        if old is BOT:
            return [p]
        if new.op == "iter" and old.op == "iter" and new.args[0] is old.args[0]:
            return [p + (("pos",),)]
        ob = old.args[0] if old.op == "with" else old
        nb = new.args[0] if new.op == "with" else new
        if (new.op == "with" or old.op == "with") and ob is nb:
            out = []
            names = set(n for n, _ in (old.args[1] if old.op == "with" else ())) | \
                set(n for n, _ in (new.args[1] if new.op == "with" else ()))
            for n in sorted(names):
                out += self.diff(p + (("f", n),), fld(old, n), fld(new, n))
            return out
        if old.op == "agg" and new.op == "agg" and old.args[0] == new.args[0] and old.args[1] == new.args[1] \
                and len(old.args[2]) == len(new.args[2]) and old.args[2]:
            out = []
            for (n, a), (_, b) in zip(old.args[2], new.args[2]):
                out += self.diff(p + (("f", n),), a, b)
            return out
        return [p]

    def getpath(self, v, p):
        for x in p:
            if x[0] == "pos":
                v = v.args[1] if v.op == "iter" else T("unk", ("pos",))
            else:
                v = self.project(v, x)
        return v

    def setpath(self, v, p, x):
        if not p:
            return x
        if p[0][0] == "pos":
            return T("iter", v.args[0], x) if v.op == "iter" else v
        return self.setproj(v, p[0], self.setpath(self.project(v, p[0]), p[1:], x))

    # ------------------------------------------------------------------------- memory
    def project(self, v, p):
        k = p[0]
        if k == "f":
            return fld(v, p[1])
        if k == "i":
            return idx(v, p[1])
        if k == "key":
            return at(v, p[1])
        if k == "mi":
            return apply(lambda l: T("mval", l, p[1]), v)
        if k == "ax":
            return col(v, p[1], p[2])
        return T("unk", ("proj", k))

    def setproj(self, v, p, x):
        k = p[0]
        if k == "f":
            return setfld(v, p[1], x)
        if k == "i":
            return setidx(v, p[1], x)
        if k == "key":
            return put(v, p[1], x)
        if k == "mi":
            return apply(lambda l: T("setmval", l, p[1], x), v)
        if k == "ax":
            return setcol(v, p[1], p[2], x)
        return T("unk", ("setproj", k))

    def rootval(self, st, root):
        v = st.get(root)
        if v is None:
            return root[1] if root[0] == "M" else BOT
        return v

    def read(self, st, loc):
        """content behind a ref value (dd of refs or opaque)"""
        def f(l):
            if l.op == "ref":
                v = self.rootval(st, l.args[0])
                for p in l.args[1]:
                    v = self.project(v, p)
                return v
            return st.get(("M", l), l)
        if loc.op != "dd":
            return f(loc)
        return apply(f, loc)

    def write(self, st, loc, x, cond=TRUE):
        if loc.op == "dd":
            for l in leaves(loc):
                c = when(loc, lambda y: y is l)
                old = self.read(st, l)
                self.write(st, l, ite(c, x, old))
            return
        if loc.op != "ref":
            loc = ref(("M", loc))
        root, projs = loc.args[0], loc.args[1]
        if not projs:
            st[root] = x
            return
        st[root] = self.wr(self.rootval(st, root), projs, x)

    def wr(self, v, projs, x):
        if not projs:
            return x
        return self.setproj(v, projs[0], self.wr(self.project(v, projs[0]), projs[1:], x))

    def extend_loc(self, loc, p):
        def f(l):
            if l.op == "ref":
                return ref(l.args[0], l.args[1] + (p,), l.args[2])
            return ref(("M", l), (p,))
        return apply(f, loc) if loc.op == "dd" else f(loc)

    def place(self, fr, st, pl):
        """location (ref value) of a place, and its type id"""
        loc = ref(("L", fr.fid, pl["l"]))
        ty = fr.body["locals"][pl["l"]]
        variant = None
        for p in pl.get("p", []):
            if p == "*":
                t = self.F.types[ty]
                if t["k"] in ("ref", "ptr"):
                    v = self.read(st, loc)
                    loc = apply(lambda l: l if l.op == "ref" else ref(("M", l)), v)
                    ty = t["args"][0] if t.get("args") else ty
                else:  # Box
                    ty = t["args"][0] if t.get("args") else ty
                variant = None
            elif p == "?":
                loc = ref(("U", fr.fid))
            elif "f" in p:
                of = p.get("of")
                if of in self.F.transparent:
                    # pointer inside a smart pointer: its value is a reference to the content
                    pass
                else:
                    n = p["n"] if p.get("n") is not None else str(p["f"])
                    if variant is not None:
                        n = variant + "." + n
                    loc = self.extend_loc(loc, ("f", n))
                ty = p["t"]
                variant = None
            elif "i" in p:
                iv = self.rootval(st, ("L", fr.fid, p["i"]))
                loc = self.extend_loc(loc, ("i", iv))
                t = self.F.types[ty]
                ty = t["args"][0] if t.get("args") else ty
            elif "ci" in p:
                if p["end"]:
                    iv = apply(lambda n: sub(n, num(p["ci"])), length(self.read(st, loc)))
                else:
                    iv = num(p["ci"])
                loc = self.extend_loc(loc, ("i", iv))
                t = self.F.types[ty]
                ty = t["args"][0] if t.get("args") else ty
            elif "v" in p:
                variant = p["v"]
            else:
                loc = ref(("U", fr.fid))
        return loc, ty

    def boxptr(self, pl):
        """index of a smart-pointer field projection that yields the raw pointer"""
        for i, p in enumerate(pl.get("p", [])):
            if isinstance(p, dict) and "f" in p and p.get("of") == "std::boxed::Box":
                if not any(q == "*" for q in pl["p"][i:]):
                    return i
        return None

    # ----------------------------------------------------------------------- operands
    def operand(self, fr, st, o):
        k = o["o"]
        if k in ("copy", "move"):
            pl = o["pl"]
            i = self.boxptr(pl)
            if i is not None:
                if i == 0 and pl["l"] in fr.alias:
                    return fr.alias[pl["l"]]
                loc, _ = self.place(fr, st, {"l": pl["l"], "p": pl["p"][:i]})
                return loc
            if not pl.get("p"):
                return self.rootval(st, ("L", fr.fid, pl["l"]))
            loc, _ = self.place(fr, st, pl)
            return self.read(st, loc)
        if k == "const":
            return self.const(fr, st, o)
        if k == "rtcheck" or "rtcheck" in o:
            return FALSE
        return T("unk", ("operand",))

    def const(self, fr, st, o):
        if "fn" in o:
            f = o["fn"]
            key = (f.get("res") or f["path"], tuple(self.sub_args(fr, f.get("args") or [])))
            self.fnv[key] = (f, fr.subst)
            return T("fnv", key)
        ty = self.F.types[o["t"]] if "t" in o else {"k": "?"}
        if "bool" in o:
            return TRUE if o["bool"] else FALSE
        if "int" in o:
            if ty["k"] in ("int", "uint", "char"):
                return num(int(o["int"]))
            if ty["k"] == "bool":
                return TRUE if int(o["int"]) else FALSE
            return num(int(o["int"])) if ty["k"] in ("ptr",) else T("cbits", ty["s"], o["int"])
        if "f64" in o:
            return fnum(o["f64"])
        if "str" in o:
            return T("str", o["str"])
        if "promoted" in o:
            i = o["promoted"]
            body = fr.promoted[i]
            fid = self.fid(("prom", fr.path, i))
            root = ("L", fid, 0)
            if root not in st:
                sub_ = {"promoted": [], "kind": "const"}
                s2 = dict(st)
                v, c, s3 = self.body("%s::promoted%d" % (fr.path, i), sub_, body, fid, [], s2, TRUE, fr.subst, fr.depth)
                if s3:
                    for k_, x in s3.items():
                        if k_[0] == "L" and k_[1] == fid:
                            st[k_] = x
                st[root] = v
            return st[root]
        if "named" in o and o["named"] in self.F.bodies and self.F.bodies[o["named"]]["kind"] == "const":
            p = o["named"]
            b = self.F.bodies[p]
            fid = self.fid(("const", p))
            root = ("L", fid, 0)
            if root not in st:
                v, c, s3 = self.body(p, b, b["body"], fid, [], dict(st), TRUE, {}, fr.depth)
                if s3:
                    for k_, x in s3.items():
                        if k_[0] == "L" and k_[1] == fid:
                            st[k_] = x
                st[root] = v
            return st[root]
        if "static" in o:
            return ref(("M", T("static", o["static"])))
        if "named" in o:
            n = o["named"]
            if n.endswith("f64::consts::PI"):
                return T("fconst", "PI")
            return T("const", n)
        if "zst" in o:
            if ty["k"] == "closure":
                return T("agg", "closure", ty["path"], ())
            if ty["k"] == "adt":
                STRUCTS.add(ty["path"])
                return T("agg", ty["path"], "", ())
            return UNIT
        if "bits" in o:
            return T("cbits", ty["s"], str(o["bits"]))
        if "ptr" in o:
            return T("const", str(o["ptr"]))
        if "bytes" in o:
            return T("const", "bytes:" + o["bytes"])
        return T("const", ty.get("s", "?") + str(o.get("indirect", "")))

    def sub_ty(self, fr, t):
        ty = self.F.types[t]
        if ty["k"] == "param":
            return fr.subst.get(ty["path"], t)
        return t

    def sub_args(self, fr, args):
        return [self.sub_ty(fr, t) for t in args]

    # ------------------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, r, cond):
        k = r["r"]
        if k == "use":
            return self.operand(fr, st, r["a"])
        if k == "ref":
            pl = r["pl"]
            loc, _ = self.place(fr, st, pl)
            m = bool(r.get("mut"))
            return apply(lambda l: ref(l.args[0], l.args[1], m) if l.op == "ref" else l, loc)
        if k == "bin":
            a = self.operand(fr, st, r["a"])
            b = self.operand(fr, st, r["b"])
            tk = self.F.types[self.sub_ty(fr, r["t"])]["k"] if "t" in r else "?"
            return self.binop(r["op"], a, b, tk, cond)
        if k == "un":
            a = self.operand(fr, st, r["a"])
            if r["op"] == "Not":
                return neg(apply(boolify, a)) if self.isbool(fr, r["a"]) else call("bitnot", a)
            if r["op"] == "Neg":
                return apply(lambda x: scale(x, -1), a)
            if r["op"] == "PtrMetadata":
                return length(self.read(st, a))
            return call(r["op"], a)
        if k == "cast":
            a = self.operand(fr, st, r["a"])
            kind = r["k"]
            if "FloatToInt" in kind:
                return apply(lambda x: x if x.op == "num" and x.args[0].denominator == 1 else T("call", "trunc", (x,)), a)
            if "IntToFloat" in kind or "IntToInt" in kind or "FloatToFloat" in kind:
                if a.op == "dd" or a.op == "bool":
                    return apply(lambda x: ONE if x is TRUE else ZERO if x is FALSE else x, a)
                return a
            if "Unsize" in kind:
                self.note_dyn(fr, st, r, a)
            return a
        if k == "discr":
            loc, _ = self.place(fr, st, r["pl"])
            v = self.read(st, loc)
            vs = r["variants"]
            names = tuple(n for _, n in vs)
            vals = {n: num(x if x < (1 << 63) else x - (1 << 128) if x > (1 << 64) else x) for x, n in vs}

            def f(x):
                if x.op == "agg":
                    return vals.get(x.args[1], BOT)
                return case(T("discr", discr_base(x), names), [vals[n] for n in names])
            return apply(f, v)
        if k == "agg":
            ops = [self.operand(fr, st, o) for o in r["ops"]]
            kk = r["k"]
            if kk == "tuple":
                return T("agg", "tuple", "", tuple((str(i), v) for i, v in enumerate(ops)))
            if kk == "array":
                return T("vec", tuple(("it", v) for v in ops))
            if kk == "closure":
                self.fnv[("clo", r["path"])] = fr.subst
                return T("agg", "closure", r["path"], tuple((str(i), v) for i, v in enumerate(ops)))
            if kk == "adt":
                p = r["path"]
                if p in self.F.transparent and len(ops) == 1:
                    return ops[0]
                v = r.get("v") or ""
                if not v:
                    STRUCTS.add(p)
                ns = r.get("names") or [str(i) for i in range(len(ops))]
                t = T("agg", p, v, tuple(((v + "." if v else "") + n, x) for n, x in zip(ns, ops)))
                self.where.setdefault(t, r.get("sp"))
                return t
            return T("unk", ("agg", kk))
        if k == "repeat":
            a = self.operand(fr, st, r["a"])
            try:
                n = num(int(r["n"]))
            except Exception:
                n = T("const", str(r["n"]))
            return T("rep", a, n)
        if k == "tls":
            return ref(("M", T("static", r["path"])))
        return T("unk", ("rv", k))

    def isbool(self, fr, o):
        if o["o"] == "const":
            return "bool" in o
        pl = o["pl"]
        t = fr.body["locals"][pl["l"]]
        for p in pl.get("p", []):
            if isinstance(p, dict) and "t" in p:
                t = p["t"]
            elif p == "*" or (isinstance(p, dict) and ("i" in p or "ci" in p)):
                a = self.F.types[t].get("args")
                t = a[0] if a else t
        return self.F.types[t]["k"] == "bool"

    def note_dyn(self, fr, st, r, a):
        t = self.F.types[r["t"]]
        f = self.F.types[self.sub_ty(fr, r["from"])]
        while f["k"] in ("ref", "ptr") or f.get("path") in ("std::boxed::Box", "std::sync::Arc", "std::rc::Rc"):
            if not f.get("args"):
                return
            f = self.F.types[self.sub_ty(fr, f["args"][0])]
        if f["k"] != "adt":
            return
        while t["k"] in ("ref", "ptr") or t.get("path") in ("std::boxed::Box", "std::sync::Arc", "std::rc::Rc"):
            if not t.get("args"):
                return
            t = self.F.types[t["args"][0]]
        self.unsized.append((t.get("path") or t["s"], f["path"], fr.path))
        for l in leaves(self.read(st, a)):
            if l.op in ("agg", "unk", "bot"):
                continue
            if l in self.dynty and self.dynty[l] != f["path"]:
                self.dynty[l] = None
            else:
                self.dynty[l] = f["path"]

    CMPS = {"Lt": {"L": TRUE, "E": FALSE, "G": FALSE}, "Le": {"L": TRUE, "E": TRUE, "G": FALSE},
            "Gt": {"L": FALSE, "E": FALSE, "G": TRUE}, "Ge": {"L": FALSE, "E": TRUE, "G": TRUE},
            "Eq": {"L": FALSE, "E": TRUE, "G": FALSE}, "Ne": {"L": TRUE, "E": FALSE, "G": TRUE}}

    def compare(self, op, a, b):
        t = self.CMPS[op]

        def f(x, y):
            # fieldless enum equality is a test of the variant
            for u, w in ((x, y), (y, x)):
                if op in ("Eq", "Ne") and u.op == "agg" and u.args[1] and not u.args[2]:
                    if w.op == "agg":
                        same = w.args[0] == u.args[0] and w.args[1] == u.args[1]
                        return t["E"] if same else t["L"]
                    names = self.variants(u.args[0])
                    if names:
                        return ite(lit(T("discr", discr_base(w), names), u.args[1]), t["E"], t["L"])
            if x.op == "agg" and y.op == "agg" and x.args[0] == y.args[0] and op in ("Eq", "Ne"):
                if x.args[1] != y.args[1]:
                    return t["L"]
                c = TRUE
                for (_, p), (_, q) in zip(x.args[2], y.args[2]):
                    c = conj(c, self.compare("Eq", p, q))
                return c if op == "Eq" else neg(c)
            if x.op in ("bool",) or y.op in ("bool",):
                e = x if y is TRUE else neg(boolify(x)) if y is FALSE else y if x is TRUE else neg(boolify(y))
                e = boolify(e)
                return e if op == "Eq" else neg(e)
            if x.op == "str" and y.op == "str":
                return t["E"] if x is y else t["L"] if x.args[0] < y.args[0] else t["G"]
            return compare(x, y, t)
        return apply(f, a, b)

    def variants(self, path):
        a = self.F.adts.get(path)
        if a:
            return tuple(v["n"] for v in a["variants"])
        return {OPTP: OPT, RESP: RES, CFP: CF, ORDP: ORD}.get(path)

    def binop(self, op, a, b, tk, cond=TRUE):
        if op in self.CMPS:
            if tk == "bool":
                x = apply(lambda p, q: (boolify(q) if p is TRUE else neg(boolify(q)) if p is FALSE else boolify(p) if q is TRUE
                                        else neg(boolify(p)) if q is FALSE else eq(p, q)), a, b)
                if op == "Eq":
                    return x
                if op == "Ne":
                    return neg(x)
            return self.compare(op, a, b)
        ov = op.endswith("WithOverflow")
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            f = {"Add": add, "Sub": sub, "Mul": mul}[base]
            r = apply(f, a, b)
            return tup(r, FALSE) if ov else r
        if base == "Div":
            if tk == "float":
                return apply(div, a, b)
            return apply(lambda x, y: num(int(x.args[0] / y.args[0])) if x.op == "num" and y.op == "num" and y is not ZERO
                         else x if y is ONE else T("call", "idiv", (x, y)), a, b)
        if base == "Rem":
            return call("rem", a, b)
        if base == "BitAnd" and tk == "bool":
            return conj(apply(boolify, a), apply(boolify, b))
        if base == "BitOr" and tk == "bool":
            return disj(apply(boolify, a), apply(boolify, b))
        if base == "BitXor" and tk == "bool":
            return ite(apply(boolify, a), neg(apply(boolify, b)), apply(boolify, b))
        if base == "Cmp":
            return self.ordering(a, b)
        return call("op" + base, a, b)

    def ordering(self, a, b):
        mk = lambda n: T("agg", ORDP, n, ())
        return apply(lambda x, y: compare(x, y, {"L": mk("Less"), "E": mk("Equal"), "G": mk("Greater")}), a, b)

    # ------------------------------------------------------------------------- blocks
    def block(self, fr, bi, cond, st):
        bl = fr.body["blocks"][bi]
        for s in bl["s"]:
            if "setd" in s:
                loc, _ = self.place(fr, st, s["setd"])
                self.write(st, loc, T("unk", ("setd",)))
                continue
            if "rv" not in s:
                continue
            try:
                v = self.rvalue(fr, st, s["rv"], cond)
            except Blowup:
                v = T("unk", ("blowup", s.get("sp")))
            if s["pl"].get("p"):
                loc, _ = self.place(fr, st, s["pl"])
                try:
                    self.write(st, loc, v)
                except Blowup:
                    pass
            else:
                l = s["pl"]["l"]
                st[("L", fr.fid, l)] = v
                # a box is not copyable: copying one is the compiler's temporary for a dereference
                a = s["rv"].get("a") if s["rv"]["r"] == "use" else None
                if a and a["o"] == "copy" and self.F.types[fr.body["locals"][l]].get("path") == "std::boxed::Box":
                    fr.alias[l] = self.place(fr, st, a["pl"])[0]
        t = bl["t"]
        k = t["k"]
        if k == "goto":
            return [(t["to"], cond, st)]
        if k == "return":
            return [("ret", cond, st)]
        if k == "switch":
            v = self.operand(fr, st, t["a"])
            return self.switch(v, t, cond, st)
        if k == "drop":
            self.drop(fr, st, cond, t)
            return [(t["to"], cond, st)]
        if k == "assert":
            m = t.get("msg") or t.get("m") or {}
            if self.bounds and m.get("k") == "bounds":
                self.within(cond, self.operand(fr, st, m["index"]), self.operand(fr, st, m["len"]), fr.path)
            return [(t["to"], cond, st)]
        if k == "call":
            return self.docall(fr, bi, cond, st, t)
        return []

    def within(self, cond, i, n, path):
        self.events.append((cond, "bounds", (i, n), None, None, path))

    def switch(self, v, t, cond, st):
        out = []
        rest = TRUE
        isb = self.F.types[t["t"]]["k"] == "bool"

        def test(val):
            def f(x):
                if x is TRUE or x is FALSE:
                    return TRUE if (1 if x is TRUE else 0) == val else FALSE
                if x.op == "num":
                    xv = x.args[0]
                    return TRUE if xv == val or (xv < 0 and (val == xv + 256 or val == xv + (1 << 64) or val == xv + (1 << 128)
                                                             or val == xv + (1 << 32))) else FALSE
                if isb:
                    b = boolify(x)
                    return b if val == 1 else neg(b)
                return eq(x, num(val))
            return apply(f, v)
        groups = {}
        try:
            v = restrict(v, cond) if v.op == "dd" else v
            for val, tgt in t["cases"]:
                c = test(val)
                c = conj(rest, c) if rest is not TRUE else c
                groups[tgt] = disj(groups.get(tgt, FALSE), c)
                rest = conj(rest, neg(c))
            groups[t["else"]] = disj(groups.get(t["else"], FALSE), rest)
            for tgt, c in groups.items():
                if c is BOT:
                    continue
                cc = conj(cond, c)
                if cc is BOT:
                    continue
                out.append([tgt, cc])
        except Blowup:
            # give up on precision: opaque condition
            raise
        out = [o for o in out if o[1] is not FALSE]
        res = []
        for i, (tgt, c) in enumerate(out):
            res.append((tgt, c, st if i == len(out) - 1 else dict(st)))
        return res

    def drop(self, fr, st, cond, t):
        ty = self.F.types[self.sub_ty(fr, t["t"])]
        p = ty.get("path")
        d = self.F.drop_impl.get(p)
        if d and d in self.F.bodies and d not in self.stack:
            loc, _ = self.place(fr, st, t["pl"])
            loc = apply(lambda l: ref(l.args[0], l.args[1], True) if l.op == "ref" else l, loc)
            b = self.F.bodies[d]
            fid = self.fid(("drop", fr.fid, id(t)))
            v, c, s2 = self.body(d, b, b["body"], fid, [loc], dict(st), cond, {}, fr.depth + 1)
            if s2 is not None:
                st.clear()
                st.update(s2)

    # -------------------------------------------------------------------------- panics
    def unwinding(self, cond, st, name):
        """a call in progress panics: run the clean-up of every caller up to the first barrier"""
        if self.unwind is None or not self.unwind(name):
            return
        ways = [(cond, dict(st))]
        for at in reversed(self.active):
            if at is None:
                return
            fr, b = at
            if b is None:
                continue
            work, out = [(b, c, s) for c, s in ways], []
            while work:
                b, c, s = work.pop()
                self.left -= 1
                if self.left < 0:
                    raise Budget()
                if fr.body["blocks"][b]["t"]["k"] == "resume":
                    out.append((c, s))
                else:
                    work.extend(self.block(fr, b, c, s))
            ways = out
        self.unwound.extend((c, s, name, dict(st)) for c, s in ways)

    # -------------------------------------------------------------------------- calls
    def docall(self, fr, bi, cond, st, t):
        self.active.append((fr, t.get("unw")))
        try:
            return self.docall1(fr, bi, cond, st, t)
        finally:
            self.active.pop()

    def docall1(self, fr, bi, cond, st, t):
        args = [self.operand(fr, st, a) for a in t["args"]]
        fo = t["f"]
        c = Ctx()
        c.fr, c.st, c.cond, c.span = fr, st, cond, t["sp"]
        c.dty = None
        if t.get("d") is not None:
            dp = t["d"]
            c.dty = fr.body["locals"][dp["l"]] if not dp.get("p") else None
        site = self.fid(("site", fr.fid, bi))
        if cond is not TRUE:
            args = [restrict(a, cond) if a.op == "dd" else a for a in args]
        try:
            if fo["o"] == "const" and "fn" in fo:
                v = self.callfn(c, fo["fn"], fr.subst, args, site)
            else:
                fv = self.operand(fr, st, fo)
                v = self.callval(c, fv, args, site)
        except Blowup:
            v = T("unk", ("blowup", t["sp"]))
            for a in args:
                for l in leaves(a):
                    if l.op == "ref" and l.args[2]:
                        self.write(c.st, l, T("unk", ("blowup", t["sp"], 1)))
        st, cond = c.st, c.cond
        if t.get("to") is None:
            self.panics.append((cond, short_callee(fo), t["sp"], fr.path))
            self.unwinding(cond, st, "panic")
            return []
        if cond is FALSE or st is None:
            return []
        if t["d"].get("p"):
            loc, _ = self.place(fr, st, t["d"])
            self.write(st, loc, v)
        else:
            st[("L", fr.fid, t["d"]["l"])] = v
        return [(t["to"], cond, st)]

    def callee(self, f, subst, args, st):
        """(key, body path or None, subst for the body, virtual)"""
        path = f.get("res") or f["path"]
        tr = f.get("trait")
        meth = f.get("method")
        key = "%s::%s" % (last(tr), meth) if tr else short(path)
        targs = [subst.get(self.F.types[a]["path"], a) if self.F.types[a]["k"] == "param" else a for a in (f.get("args") or [])]
        rargs = [subst.get(self.F.types[a]["path"], a) if self.F.types[a]["k"] == "param" else a for a in (f.get("res_args") or [])]
        if key in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once"):
            return key, None, {}, False     # the arguments come as a tuple
        if f.get("res_local") and f["res"] in self.F.bodies and not f.get("virtual"):
            b = self.F.bodies[f["res"]]
            return key, f["res"], dict(zip(b.get("generics") or [], rargs)), False
        if tr and targs:
            sp = None
            t0 = self.F.types[targs[0]]
            while t0["k"] == "ref" and t0.get("args") and f.get("trait_local"):
                t0 = self.F.types[t0["args"][0]]
            if t0["k"] == "adt":
                sp = t0["path"]
            elif t0["k"] in ("float", "int", "uint"):
                sp = t0["s"]
            if sp is None and f.get("trait_local") and args:
                # receiver of unknown type: is its concrete type known?
                try:
                    content = self.read(st, args[0])
                except Blowup:
                    content = None
                if content is not None:
                    ts = set()
                    for l in leaves(content):
                        if l.op == "agg" and l.args[0] in self.F.adts:
                            ts.add(l.args[0])
                        else:
                            while l.op in ("with",):
                                l = l.args[0]
                            ts.add(self.dynty.get(l))
                    if len(ts) == 1:
                        sp = ts.pop()
            if sp is not None:
                p = self.F.impl_method(tr, sp, meth)
                if p and p in self.F.bodies:
                    b = self.F.bodies[p]
                    g = b.get("generics") or []
                    sub_ = {}
                    if g and g[0] == "Self":
                        for i, t in enumerate(self.F.types):
                            pass
                        sub_ = dict(zip(g, targs))
                    return key, p, sub_, False
            p = f["path"]
            if not f.get("virtual") and p in self.F.bodies and self.F.bodies[p].get("in_trait") and t0["k"] != "dyn" \
                    and self.F.types[targs[0]]["k"] != "param":
                b = self.F.bodies[p]
                return key, p, dict(zip(b.get("generics") or [], targs)), False
        return key, None, {}, bool(f.get("virtual"))

    def constructor(self, f, args):
        """the value built by a tuple struct or tuple variant used as a function"""
        p = f["path"]
        if p in self.F.bodies or f.get("res"):
            return None
        if p in (OPTP + "::Some", RESP + "::Ok", RESP + "::Err") and len(args) == 1:
            v = last(p)
            return T("agg", OPTP if v == "Some" else RESP, v, ((v + ".0", args[0]),))
        a, v = self.F.adts.get(p), ""
        if a is None and "::" in p:
            p, v = p.rsplit("::", 1)
            a = self.F.adts.get(p)
        if a is None or (a["kind"] == "struct") != (not v):
            return None
        for x in a["variants"]:
            if (not v or x["n"] == v) and len(x["fields"]) == len(args):
                if p in self.F.transparent and len(args) == 1:
                    return args[0]
                if not v:
                    STRUCTS.add(p)
                return T("agg", p, v, tuple(((v + "." if v else "") + y["n"], z) for y, z in zip(x["fields"], args)))
        return None

    def callfn(self, c, f, subst, args, site):
        built = self.constructor(f, args)
        if built is not None:
            return built
        key, path, sub_, virt = self.callee(f, subst, args, c.st)
        c.f, c.args, c.key = f, args, key
        derived = path is not None and self.F.bodies[path].get("derived")
        if self.tracer is not None:
            self.tracer(self, c, key, path, args, site)
        if self.opaque(key, path or f["path"]):
            return self.opaquecall(c, key, args, f)
        m = self.models.get(key)
        if m is None:
            for pre, mm in self.prefix:
                if (f.get("res") or f["path"]).startswith(pre):
                    m = mm
                    break
        if m is not None and (path is None or derived or getattr(m, "always", False)):
            c.f = f
            v = m(self, c, subst, site)
            if v is not NotImplemented:
                return v
        if path is not None and path not in self.stack and len(self.stack) < self.maxdepth and self.inline(key, path) and not derived:
            return self.inlined(c, path, args, sub_, site)
        if f.get("trait_local") and (f.get("method") or "").startswith("as_") and c.dty is not None and len(args) == 1:
            # view of the same object through another trait
            dt = self.F.types[c.dty]
            if dt["k"] == "ref":
                return args[0]
            if dt.get("path") == OPTP:
                r = apply(lambda a: T("call", key, (a,)), self.snap(c.st, args[0]))
                return ite(isvar(r, OPT, "Some"), apply(Some, args[0]), NONE)
        if f.get("trait") and (not args or key in STATIC):
            targs = self.targs(f, subst)
            if targs:
                key = "%s@%s" % (key, self.F.types[targs[0]]["s"])
        return self.opaquecall(c, key, args, f)

    def targs(self, f, subst):
        return [subst.get(self.F.types[a]["path"], a) if self.F.types[a]["k"] == "param" else a for a in (f.get("args") or [])]

    def inlined(self, c, path, args, sub_, site):
        b = self.F.bodies[path]
        body = b["body"]
        fid = self.fid(("call", site, path))
        n = body["nargs"]
        if len(args) != n:
            if b["kind"] == "closure" or len(args) == 2:
                # closure call through Fn traits: spread tuple
                if len(args) == 2 and args[1].op == "agg" and args[1].args[0] == "tuple":
                    args = [args[0]] + [v for _, v in args[1].args[2]]
            if len(args) != n:
                return T("unk", ("arity", path))
        v, cc, s = self.body(path, b, body, fid, args, dict(c.st), c.cond, sub_, c.fr.depth + 1)
        if s is None or cc is FALSE:
            c.cond = FALSE
            return BOT
        c.st.clear()
        c.st.update(s)
        c.cond = cc
        return v

    def callval(self, c, fv, args, site):
        """call a closure / function value with already untupled args"""
        fv0 = fv
        if fv.op == "ref":
            fv = self.read(c.st, fv)
        if fv.op == "dd":
            ls = leaves(fv)
            if len(ls) == 1:
                fv = ls[0]
            else:
                return T("unk", ("callval",))
        if fv.op == "agg" and fv.args[0] == "closure":
            path = fv.args[1]
            b = self.F.bodies.get(path)
            if b is None or path in self.stack:
                return T("unk", ("closure", path))
            # self argument: by reference or value depending on the body's first local
            t1 = self.F.types[b["body"]["locals"][1]]
            selfarg = fv
            if t1["k"] == "ref":
                if fv0.op == "ref":
                    selfarg = fv0
                else:
                    root = ("L", self.fid(("clo", site)), 0)
                    c.st[root] = fv
                    selfarg = ref(root, (), True)
            sub_ = self.fnv.get(("clo", path), {})
            return self.inlined(c, path, [selfarg] + list(args), sub_, site)
        if fv.op == "fnv":
            f, sub_ = self.fnv[fv.args[0]]
            return self.callfn(c, f, sub_, list(args), site)
        # unknown callable
        if len(args) == 1 and args[0].op == "agg" and args[0].args[0] == "tuple":
            args = [x for _, x in args[0].args[2]]
        return self.opaquecall(c, "callval", [fv] + list(args), None)

    def snap(self, st, v, depth=0):
        """deep copy of a value with references replaced by what they point at"""
        def f(l):
            if l.op == "ref":
                if depth > 4:
                    return T("unk", ("deep",))
                return self.snap(st, self.read(st, l), depth + 1)
            if l.op == "agg" and l.args[2]:
                return T("agg", l.args[0], l.args[1], tuple((n, self.snap(st, x, depth + 1)) for n, x in l.args[2]))
            if l.op == "vec" and any(s[0] == "it" for s in l.args[0]):
                return T("vec", tuple(("it", self.snap(st, s[1], depth + 1)) if s[0] == "it" else s for s in l.args[0]))
            if l.op == "seq" or l.op == "iter":
                return l
            return self.st_get(st, l)
        return apply(f, v)

    def lam(self, c, a):
        """a closure handed to an opaque function counts as what it computes, not as where it is written"""
        v = self.read(c.st, a) if a.op == "ref" else a
        if v.op != "agg" or v.args[0] != "closure":
            return None
        b = self.F.bodies.get(v.args[1])
        if b is None or v.args[1] in self.stack or len(self.stack) > 40:
            return None
        n = b["body"]["nargs"] - 1
        ps = [T("p", "lam%d.%d" % (n, i)) for i in range(n)]
        keep, ne = (c.st, c.cond), len(self.events)
        c.st, c.cond = dict(c.st), TRUE
        try:
            r = self.callval(c, v, ps, ("lam", c.span, v.args[1]))
            r = self.snap(c.st, r)
            if any(x.op in ("unk", "uninit") for x in subterms(r)):
                return None
            return T("lam", n, r)
        finally:
            c.st, c.cond = keep
            del self.events[ne:]

    def st_get(self, st, l):
        return st.get(("M", l), l)

    def mutrefs(self, v, out, cond=TRUE, depth=0):
        if v.op == "dd":
            for l in leaves(v):
                self.mutrefs(l, out, when(v, lambda y: y is l), depth)
        elif v.op == "ref":
            if v.args[2]:
                out.append((cond, v))
        elif v.op == "agg" and depth < 4:
            for _, x in v.args[2]:
                self.mutrefs(x, out, cond, depth + 1)

    def opaquecall(self, c, name, args, f):
        st = c.st
        self.unwinding(c.cond, st, name)
        if self.tracer is not None and name == "callval":
            self.tracer(self, c, name, None, args, None)
        if name == "Priceable::prices" and len(args) == 4 or name == "Priceable::price" and len(args) == 3:
            return self.valuation(c, name, args)
        snaps = [self.lam(c, a) or self.snap(st, a) for a in args]
        # mutable parameters: explicit &mut refs and opaque pointers whose type is &mut
        muts = []
        for a in args:
            self.mutrefs(a, muts)
        # a mutable reference to a view (itself a mutable reference) changes what the view shows
        for mc, m in list(muts):
            x = self.read(st, m)
            if any(l.op == "ref" and l.args[2] for l in leaves(x)):
                muts.remove((mc, m))
                self.mutrefs(x, muts, mc)
        tys = self.sigmut(f, len(args))
        if self.pure(name):
            muts, tys = [], []
        for a, m in zip(args, tys):
            if m:
                for l in leaves(a):
                    if l.op not in ("ref", "agg"):
                        muts.append((when(a, lambda y: y is l), ref(("M", l), (), True)))
        r = apply(lambda *a: self.contract(name, None, a) or mkcall(name, a), *snaps)
        for l in leaves(r):
            self.where.setdefault(l, c.span)
        self.events.append((c.cond, name, tuple(snaps), r, c.span, c.fr.path))
        self.nestof[(r, c.span)] = (tuple(self.nest), c.dty)
        for j, (mc, m) in enumerate(muts):
            new = apply(lambda *a: self.contract(name, j, a) or T("mut", name, j, tuple(a)), *snaps)
            old = self.read(st, m)
            for l in leaves(new):
                self.where.setdefault(l, c.span)
            self.write(st, m, ite(mc, new, old) if mc is not TRUE else new)
        return r

    def valuation(self, c, name, args):
        """a valuation of an unknown instrument: a list of prices, one per date, that depends on the
        instrument, the context and the dates only; one price is a list of length one"""
        snaps = [self.snap(c.st, a) for a in args[:3]]
        if name == "Priceable::price":
            snaps[2] = T("vec", (("it", snaps[2]),))
        r = apply(lambda *a: mkcall("Priceable::prices", a), *snaps)
        new = apply(lambda *a: T("mut", "Priceable::prices", 0, tuple(a)), *snaps)
        for l in list(leaves(r)) + list(leaves(new)):
            self.where.setdefault(l, c.span)
        self.events.append((c.cond, "Priceable::prices", tuple(snaps), r, c.span, c.fr.path))
        if name == "Priceable::price":
            return apply(lambda x: ite(isvar(x, RES, "Ok"), Ok(idx(new, num(0))), Err(fld(x, "Err.0"))), r)
        muts = []
        self.mutrefs(args[3], muts)
        for l in leaves(args[3]):
            if l.op not in ("ref", "agg"):
                muts.append((when(args[3], lambda y: y is l), ref(("M", l), (), True)))
        for mc, m in muts:
            old = self.read(c.st, m)
            ix = T("ix", "val")
            x = vecof(mapseg(length(old), idx(new, ix), ix))
            self.write(c.st, m, ite(mc, x, old) if mc is not TRUE else x)
        return r

    def sigmut(self, f, n):
        out = [False] * n
        if not f:
            return out
        b = self.F.bodies.get(f.get("res") or "") or self.F.bodies.get(f["path"])
        ins = b.get("inputs") if b else None
        if ins is None and f.get("inputs"):
            ins = f["inputs"]
        if ins:
            for i, t in enumerate(ins[:n]):
                ty = self.F.types[t]
                out[i] = ty["k"] == "ref" and bool(ty.get("mut"))
        else:
            ty = None
        return out


def subterms_dd(v):
    """dd nodes of a decision value (not inside leaves)"""
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if x.op == "dd" and x not in seen:
            seen.add(x)
            yield x
            st.extend(x.args[1])


def short_callee(fo):
    if fo["o"] == "const" and "fn" in fo:
        f = fo["fn"]
        return f.get("res") or f["path"]
    return "?"
