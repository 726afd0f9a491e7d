"""Readers of text.  Every function that reads an object, and all local code it can reach, is scanned for
constructs that can panic.  Where there are any, the reader is summarised as a whole: it must complete for
every input, and every index must be below the length it is taken of wherever it is reached."""
from terms import *
from common import *
import c41

FLOOR = 60
PANIC = ("::unwrap", "::expect", "::unwrap_err", "::expect_err", "::index", "::index_mut", "::borrow", "::borrow_mut", "::split_at", "::swap_remove", "::remove", "::copy_from_slice", "::clone_from_slice",
         "::split_at_mut", "::drain", "::insert_str", "::split_off", "::windows", "::chunks", "::step_by", "::swap")
PANICKING = ("core::panicking", "std::panicking", "std::rt::", "std::process::", "std::panic::panic_any")


def reading(p):
    return ("serde::Deserialize<" in p or "serde::de::" in p or "::FromStr>::" in p or p.endswith("::from_serial") or p.startswith("crate::facade::") and p.endswith("_from_json")) and "::tests::" not in p


def run(ck):
    ck.part(readers)
    ck.part(dates)
    ck.part(held)


def calls(ck, p):
    for bl in ck.F.bodies[p]["body"]["blocks"]:
        t = bl["t"]
        if t["k"] == "call" and t["f"]["o"] == "const" and t["f"].get("fn"):
            yield t["f"]["fn"], t


def impls(ck):
    out = {}
    for im in ck.F.impls:
        t = im.get("trait")
        if t in ck.F.traits:
            for m, q in im["items"]:
                out.setdefault(t + "::" + m, []).append(q)
    return out


def reach(ck, p, seen, im):
    """local functions that may run when p does"""
    todo = [p]
    while todo:
        q = todo.pop()
        if q in seen or q not in ck.F.bodies:
            continue
        seen.add(q)
        todo += ck.kids.get(q, [])
        for f, t in calls(ck, q):
            # a reader of another type is a root of its own
            if reading(f["path"]) or f["path"].startswith("crate::serde::") or f["path"].endswith("FromStr::from_str"):
                continue
            todo.append(f["path"])
            if f.get("res"):
                todo.append(f["res"])
            elif f["path"] not in ck.F.bodies:
                todo += im.get(f["path"], [])
    return seen


def sites(ck, p):
    """constructs of one function that can panic"""
    n = 0
    for bl in ck.F.bodies[p]["body"]["blocks"]:
        t = bl["t"]
        if bl.get("c"):
            continue
        if t["k"] == "assert" and (t.get("msg") or {}).get("k") not in ("overflow",):
            n += 1
    for f, t in calls(ck, p):
        q = f["path"]
        if q not in ck.F.bodies and (q.startswith(PANICKING) or q.endswith(PANIC) and not q.startswith("std::cell::RefCell") and not q.startswith("std::collections::HashMap") and not q.startswith("std::mem::")):
            n += 1
    return n


def title(ck, p):
    if p.startswith("<"):
        a = p[1:].split(" as ")[0]
        return a.split("::_::")[-1].split("::")[-1].strip(">") + "::" + p.split("::")[-1]
    if "<impl " in p:
        return p.split(" for ")[1].split(">::")[0].replace("crate::", "").split("dyn ")[-1].split("::")[-1].split(" ")[0] + "::" + p.split("::")[-1]
    return "::".join(p.split("::")[-2:])


def readers(ck):
    ck.kids = {}
    for q in ck.F.bodies:
        if "::{closure" in q:
            ck.kids.setdefault(q[:q.rindex("::{closure")], []).append(q)
    im = impls(ck)
    rs = [p for p in ck.F.bodies if reading(p) and "{" not in p.split("::")[-1]]
    ck.count("readers", len(rs))
    fns = set()
    clean = 0
    for p in sorted(rs):
        seen = reach(ck, p, set(), im)
        fns |= seen
        n = sum(sites(ck, q) for q in seen)
        if n == 0:
            clean += 1
            ck.ok("total", p, ck.where(p))
        else:
            ck.part(one, p)
    # looking up a value on a curve that has been read
    for p in im.get((ck.F.trait_path("Interpolate") or "") + "::interpolate", []):
        if p in fns and p in ck.F.bodies:
            ck.part(one, p)
    ck.count("functions they reach", len(fns))
    ck.count("readers that reach no construct that can panic", clean)


def one(ck, p):
    w = ck.where(p)
    n = title(ck, p)
    s = summ_or_unk(ck, "total", n, p, dict(bounds=True, opaque=opq(*([] if p.endswith("::interpolate") else ["Interpolate::interpolate"]))))
    if s is None:
        return
    # an object that has been read satisfies what its own reader insists on
    own = "math::interpolation" in p and reading(p)
    clean = lambda t: subst(t, dict((x, FALSE if x.op == "panicked" else P("round %s" % x.args[0])) for x in subterms(t) if x.op in ("panicked", "ix")))

    def whole(t):
        """positions are whole numbers"""
        return subst(t, dict((x, length(P("position %d" % x.id))) for x in subterms(t) if x.op == "fld" and x.args[0].op == "call" and x.args[0].args[0].startswith("slice::binary_search")))

    def hyp(t):
        g = TRUE
        if not own:
            for x in subterms(t):
                if x.op == "fld" and x.args[1] == "points":
                    g = conj(g, lt(ZERO, length(x)))
        if not own:
            for x in subterms(t):
                if x.op == "fld" and x.args[1] == "second_deriv":
                    g = conj(g, eq(length(x), length(fld(fld(x.args[0], "inputs"), "points"))))
        for x in subterms(t):
            if x.op == "call" and x.args[0].startswith("slice::binary_search"):
                n_ = length(x.args[1][0])
                g = conj(g, ite(isok(x), conj(neg(lt(fld(x, "Ok.0"), ZERO)), lt(fld(x, "Ok.0"), n_)), conj(neg(lt(fld(x, "Err.0"), ZERO)), neg(lt(n_, fld(x, "Err.0"))))))
            if x.op == "p" and str(x.args[0]).startswith("round "):
                g = conj(g, neg(lt(x, ZERO)))
        return g
    c = clean(s.cond)
    ck.same("total", n, w, c, TRUE, hyp(c), "some text makes it panic")
    k = 0
    for e in s.events:
        if e[1] == "cut" and e[0] is not FALSE:
            if any(x.op == "call" and "is_" in x.args[0] for x in subterms(e[0])):
                ck.unk("cut", "%s in %s" % (n, title(ck, e[5])), ck.where(e[5]), "what the text is made of is not understood")
            else:
                ck.bad("cut", "%s in %s" % (n, title(ck, e[5])), ck.where(e[5]), "text is cut at a fixed byte, which panics inside a character")
        if e[1] != "bounds":
            continue
        k += 1
        i, m = (clean(x) for x in e[2])
        c = clean(e[0])
        out = neg(conj(apply(lambda x: neg(lt(x, ZERO)), i), apply(lt, i, m)))
        b = conj(c, out)
        inst = "%s: index %d in %s" % (n, k, title(ck, e[5]))
        if b is FALSE:
            ck.ok("in range", inst, ck.where(e[5]))
        elif any(x.op in ("mu", "unk", "fold") for x in subterms(b)):
            ck.unk("in range", inst, ck.where(e[5]), "depends on what a loop leaves behind")
        else:
            ck.same("in range", inst, ck.where(e[5]), whole(b), FALSE, whole(hyp(b)), "some text makes the index run past the end")


def unrolled(t):
    """existence over a constant number of elements, written out"""
    for _ in range(4):
        m = {}
        for x in subterms(t):
            if x.op == "any" and x.args[0].op == "num" and x.args[0].args[0] <= 8:
                b = FALSE
                for k in range(int(x.args[0].args[0])):
                    b = disj(b, subst(x.args[2], {T("bv", x.args[1]): num(k)}))
                m[x] = b
        if not m:
            break
        t = subst(t, m)
    return t


def refused(t):
    return all(l.op == "agg" and l.args[1] == "Err" for l in leaves(t))


NEAR = [(y, m, d) for y in range(1966, 2172) for m in range(-1, 15) for d in range(-1, 34)]
BIG = (-2 ** 31, -2 ** 31 + 1, -10 ** 9, -2 * 10 ** 6, -4801, -1, 0, 1, 17, 10000, 2 * 10 ** 6, 10 ** 9, 2 ** 31 - 1)


def dates(ck):
    """a date is accepted when the text has a year, a month and a day of the calendar, in the supported range, and nothing else"""
    p = method(ck, "Date", "std::str::FromStr", "from_str")
    s = summ_or_unk(ck, "date", "text", p, {})
    if s is None:
        return
    w = ck.where(p)
    r = unrolled(s.ret)
    ps = dict()
    for x in subterms(r):
        if x.op == "call" and x.args[0] == "str::parse" and x.args[1][0].op == "idx" and x.args[1][0].args[1].op == "num":
            ps[int(x.args[1][0].args[1].args[0])] = x
    ls = set(x.args[1][0].args[0] for x in ps.values())
    if sorted(ps) != [0, 1, 2] or len(ls) != 1:
        return ck.unk("date", "text", w, "another way of reading")
    l = ls.pop()
    if l.op != "call" or not l.args[0].startswith("str::split"):
        return ck.unk("date", "text", w, "another way of splitting")
    good = dict((x, Ok(P("ymd"[k]))) for k, x in ps.items())
    for n in (1, 2, 4, 5):
        t = subst(r, {length(l): num(n)})
        t = subst(t, good) if n > 3 else t
        if not refused(t) and any(x.op in ("call", "unk") and x not in ps.values() and x is not l and "idiv" not in str(x.args[0]) and "rem" != x.args[0] for x in subterms(t)):
            ck.unk("date", "%d parts" % n, w, "not understood")
        elif n > 3:
            ck.require(refused(t), "date", "%d parts" % n, w, "text with %d parts is taken for a date" % n)
    three = subst(r, {length(l): num(3)})
    for k in range(3):
        t = subst(three, dict(good, **{}))
        bad = dict(good)
        bad[ps[k]] = Err(P("e"))
        ck.require(refused(subst(three, bad)), "date", "part %d is no number" % (k + 1), w, "text whose part %d is not a number is taken for a date" % (k + 1))
    t = apply(lambda x: num(-1) if x.op == "agg" and x.args[1] == "Err" else fld(x, "Ok.0"), subst(three, good))
    try:
        f = c41.function([t])
    except c41.Odd:
        return ck.unk("date", "calendar", w, "not one integer expression")
    import datetime
    n = 0
    for a in NEAR + [(y, m, d) for y in BIG for m in BIG for d in BIG]:
        try:
            day = datetime.date(*a).toordinal() - c41.EPOCH
        except (ValueError, OverflowError):
            day = -1
        want = day if 0 < day < c41.LAST else -1
        n += 1
        try:
            got = f(dict(zip("ymd", a)))[0]
        except c41.Odd:
            return ck.unk("date", "calendar", w, "divides by zero")
        if got != want:
            return ck.bad("date", "calendar", w, "year %d, month %d, day %d is %s" % (a + ("refused" if got == -1 else "taken for day %d" % got if want == -1 else "day %d, not %d" % (got, want),)))
    ck.ok("date", "calendar", w)
    ck.count("dates folded", n)
    overflow(ck, p, w)


def overflow(ck, p, w):
    """no number that has been read overflows the arithmetic it goes into"""
    C = "dates::truncated_julian_from_ymd"
    q = [x for x in ck.F.bodies if x.endswith(C)]
    if len(q) != 1 or not any(bl["t"]["k"] == "assert" and bl["t"]["msg"].get("k") == "overflow" and bl["t"]["msg"].get("op") == "Mul" for bl in ck.F.bodies[q[0]]["body"]["blocks"]):
        return ck.unk("date", "overflow", w, "another conversion")
    at_ = []

    def tracer(E, c, key, path, args, site):
        if path == q[0]:
            at_.append((c.cond, [E.snap(c.st, a) for a in args]))
    s = summ_or_unk(ck, "date", "overflow", p, dict(tracer=tracer, opaque=opq(C)))
    if s is None or not at_:
        return
    for c, a in at_:
        ps = [x.args[0] for x in a if x.op == "fld" and x.args[1] == "Ok.0"]
        if len(ps) != 3:
            return ck.unk("date", "overflow", w, "another way of reading")
        good = dict((x, Ok(P("ymd"[k]))) for k, x in enumerate(ps))
        l = ps[0].args[1][0].args[0]
        t = subst(subst(unrolled(c), {length(l): num(3)}), good)
        try:
            f = c41.function([ite(t, ONE, ZERO)])
        except c41.Odd:
            return ck.unk("date", "overflow", w, "not one integer expression")
        for v in [(y, m, d) for y in BIG for m in BIG for d in BIG]:
            if f(dict(zip("ymd", v)))[0] == 1 and (abs(v[0]) > 10 ** 6 or abs(v[1]) > 10 ** 6 or abs(v[2]) > 10 ** 9):
                return ck.bad("date", "overflow", w, "year %d, month %d, day %d overflows the conversion to a day number" % v)
    ck.ok("date", "overflow", w)


def held(ck):
    """no cell stays borrowed while code runs that may borrow it again"""
    im = impls(ck)
    n = 0
    again = {}

    def reenters(q):
        """q may get to a thread-local cell, or to code of the caller's choice"""
        if q not in again:
            again[q] = False
            r = reach(ck, q, set(), im)
            again[q] = any(f["path"].startswith("std::thread::LocalKey") or f["path"].startswith("crate::serde::") or f["path"].startswith("std::ops::Fn") for x in r for f, _ in calls(ck, x))
        return again[q]
    for p, b in sorted(ck.F.bodies.items()):
        if "::tests::" in p:
            continue
        bl = b["body"]["blocks"]
        gens = [i for i, x in enumerate(bl) if x["t"]["k"] == "call" and x["t"]["f"]["o"] == "const" and x["t"]["f"].get("fn") and x["t"]["f"]["fn"]["path"].startswith("std::cell::RefCell")
                and x["t"]["f"]["fn"]["path"].endswith(("::borrow", "::borrow_mut"))]
        if not gens:
            continue
        n += 1
        bad = None
        for g in gens:
            d = bl[g]["t"]["d"]
            if d["p"]:
                continue
            todo, seen = [(bl[g]["t"].get("to"), d["l"])], set()
            while todo and not bad:
                i, v = todo.pop()
                if i is None or (i, v) in seen:
                    continue
                seen.add((i, v))
                for st in bl[i]["s"]:
                    rv = st.get("rv") or {}
                    if rv.get("r") == "use" and rv["a"].get("o") == "move" and rv["a"]["pl"] == {"l": v, "p": []} and not st["pl"]["p"]:
                        v = st["pl"]["l"]
                t = bl[i]["t"]
                if t["k"] == "drop" and t["pl"]["l"] == v and not t["pl"]["p"]:
                    continue
                if t["k"] == "call":
                    if any(x.get("o") == "move" and x["pl"] == {"l": v, "p": []} for x in t["args"]):
                        continue
                    f = t["f"].get("fn") if t["f"]["o"] == "const" else None
                    q = f["path"] if f else None
                    hot = f is None or q.startswith(("std::ops::Fn", "crate::serde::", "std::thread::LocalKey")) or any(reenters(x) for x in ([q, f.get("res")] + im.get(q, [])) if x in ck.F.bodies)
                    if hot:
                        bad = q or "a function passed in"
                if t["k"] in ("goto", "drop", "assert", "call"):
                    todo.append((t.get("to"), v))
                elif t["k"] == "switch":
                    todo += [(x, v) for _, x in t["cases"]] + [(t["else"], v)]
        (ck.bad if bad else ck.ok)("borrow", title(ck, p), ck.where(p), *(["the cell is still borrowed while %s runs, which may need it again: that panics" % bad.split("::")[-1]] if bad else []))
    ck.count("functions that borrow a cell", n)
