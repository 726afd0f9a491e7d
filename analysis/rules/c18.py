"""Errors and kinds of handle across the C interface.  Accessors, constructors and every exported
function are summarised over any handles; failures must come back as error handles carrying the
failure's own message, successes as the kind promised."""
from terms import *
from common import *
from c16 import exports, name

FLOOR = 20
KIND = {"empty": "Empty", "instrument": "Instrument", "currency": "Currency", "market_data": "MarketData", "fixing_table": "FixingTable", "pricer_factory": "PricerFactory",
        "report_generator": "ReportGenerator", "reports": "Reports"}
# what a function takes, by position, and what it gives
TAKES = {"qm_calculate": ({0: "PricerFactory", 1: "Instrument", 2: "FixingTable", 3: "MarketData"}, "Reports", "facade::calculate"),
         "qm_assert_approx_eq_reports": ({0: "Reports", 1: "Reports"}, "Empty", "facade::assert_approx_eq_reports")}


def run(ck):
    ck.part(accessors)
    ck.part(makers)
    ck.part(clones)
    ck.part(told)
    for p in exports(ck):
        if ck.F.types[ck.F.bodies[p]["output"]]["s"] == "u64" and name(p) != "qm_clone":
            ck.part(export, p)
    ck.count("exported functions", len(exports(ck)))


def is_(ck, h, k):
    return isv(ck, h, "Handle", k)


def accessors(ck):
    for n, k in KIND.items():
        want = lambda h: ite(is_(ck, h, k), Ok(UNIT if k == "Empty" else fld(h, k + ".0")), ite(is_(ck, h, "Err"), Err(fld(h, "Err.0")), ANYERR))
        if k not in variants(ck, "Handle"):
            ck.unk("accessor", n, "", "no such kind")
            continue
        expect(ck, "accessor", "as_" + n, inherent(ck, "Handle", "as_" + n), want, msg="accepts another kind of handle, or loses an error")
        b = "crate::facade::handle::extern_handle::as_" + n
        if b in ck.F.bodies:
            expect(ck, "accessor", "external as_" + n, b, want, msg="accepts another kind of handle, or loses an error")


def makers(ck):
    for n, k in KIND.items():
        if k not in variants(ck, "Handle"):
            continue
        expect(ck, "maker", "from_" + n, inherent(ck, "Handle", "from_" + n),
               lambda r: ite(isvar(r, RES, "Ok"), variant(ck, "Handle", k, *([] if k == "Empty" else [okv(r)])), variant(ck, "Handle", "Err", fld(r, "Err.0"))),
               msg="another kind of handle is made, or an error is lost")
    expect(ck, "maker", "from_error", inherent(ck, "Handle", "from_error"), lambda e: variant(ck, "Handle", "Err", e), msg="an error is lost")
    expect(ck, "maker", "from_handle", "crate::facade::handle::extern_handle::from_handle" if "crate::facade::handle::extern_handle::from_handle" in ck.F.bodies else None,
           lambda r: ite(isvar(r, RES, "Ok"), okv(r), variant(ck, "Handle", "Err", fld(r, "Err.0"))), msg="an error is lost")


def clones(ck):
    """a copy is the same kind of thing; reports have no copy"""
    p = method(ck, "Handle", "std::clone::Clone", "clone")
    s = summ_or_unk(ck, "copy", "Handle", p, {})
    if s is None:
        return
    h = args(s)[0]
    v = s.E.snap(s.state, s.ret)
    for k in variants(ck, "Handle"):
        got = restrict(v, is_(ck, h, k))
        if k == "Reports":
            bad = [l for l in leaves(got) if not (l.op == "agg" and l.args[1] == "Err")]
            ck.require(not bad, "copy", k, ck.where(p), "copying reports does not give an error")
        else:
            w = variant(ck, "Handle", k, *([] if k == "Empty" else [fld(h, k + ".0")]))
            ck.same("copy", k, ck.where(p), v, w, conj(s.cond, is_(ck, h, k)), "the copy is another kind or content")


def told(ck):
    """an error handle says so, and its text is its message"""
    ex = dict((name(p), p) for p in exports(ck))
    expect(ck, "told", "qm_is_error", ex.get("qm_is_error"), lambda h: is_(ck, h, "Err"), msg="an error is not recognised, or something else is")
    for f in ("qm_error_string", "qm_reports_as_json_string"):
        p = ex.get(f)
        s = summ_or_unk(ck, "told", f, p, {})
        if s is None:
            continue
        h = args(s)[0]
        c = conj(conj(s.cond, calm(s.ret)), is_(ck, h, "Err"))
        got = restrict(s.ret, c)
        ls = [l for l in leaves(got)]
        t = [x for l in ls for x in subterms(l) if x is fld(fld(h, "Err.0"), "message")]
        ck.require(len(t) >= len(ls), "told", f, ck.where(p), "the text given for an error is not its message")


def calm(v):
    """nothing panicked"""
    c = TRUE
    for x in subterms(v):
        if x.op == "panicked":
            c = conj(c, neg(boolify(x)))
    return c


def export(ck, p):
    F = ck.F
    n = name(p)
    if n in TAKES:
        takes, kind, fn = TAKES[n]
    elif "_from_json_" in n:
        st = n[len("qm_"):].split("_from_json_")[0]
        kind, fn, takes = KIND.get(st), "facade::%s_from_json" % st, {}
    else:
        return ck.unk("export", n, ck.where(p), "no contract known for this function")
    if kind not in variants(ck, "Handle"):
        return ck.unk("export", n, ck.where(p), "no such kind")
    s = summ_or_unk(ck, "export", n, p, dict(opaque=opq(fn)))
    if s is None:
        return
    a = args(s)
    w = ck.where(p)
    v = restrict(s.ret, calm(s.ret))
    if any(x.op == "unk" for x in subterms(v)):
        return ck.unk("export", n, w, "not modelled")
    isE = lambda l: l.op == "agg" and l.args[1] == "Err"
    quiet = calm(s.ret)
    for mode, m in moods(ck, p, a):
        if not outcomes(ck, p, n, a, restrict(v, m), conj(quiet, m), takes, kind, fn, mode):
            return


def moods(ck, p, a):
    """every combination of the sharing modes it takes"""
    r = [({}, TRUE)]
    for x, t, q in zip(a, ck.F.bodies[p]["inputs"], ck.F.bodies[p]["argnames"]):
        if ck.F.types[t].get("path") == ck.F.adt_path("QmDedupControl"):
            r = [(dict(d, **{q: m}), conj(c, isv(ck, x, "QmDedupControl", m))) for d, c in r for m in variants(ck, "QmDedupControl")]
    return r


def outcomes(ck, p, n, a, v, base, takes, kind, fn, mode):
    F, w = ck.F, ck.where(p)
    isE = lambda l: l.op == "agg" and l.args[1] == "Err"
    # every step that can fail
    steps = [x for x in subterms(v) if x.op == "call" and tested(v, x)]
    main = [x for x in steps if x.args[0] == fn]
    if not main:
        ck.bad("export", n, w, "it does not return the outcome of %s" % fn)
        return False
    good = base
    for x in steps:
        good = conj(good, isvar(x, RES, "Ok"))
    for i, k in takes.items():
        good = conj(good, is_(ck, a[i], k))
    anys = [x for x in subterms(v) if x.op == "any"]
    for x in anys:
        good = conj(good, neg(boolify(x)))
    # success
    got = restrict(v, good)
    ls = leaves(got)
    wrong = [l for l in ls if not (l.op == "agg" and l.args[1] == kind)]
    if wrong:
        ck.bad("export", n, w, "success is returned as %s" % show(wrong[0], 5)[:200])
        return False
    if kind != "Empty":
        pay = leaves(restrict(fld(got, kind + ".0"), good))
        wrong = [l for l in pay if not (l.op == "fld" and l.args[1] == "Ok.0" and l.args[0] in main)]
        ck.require(not wrong, "success", n, w, "what is returned is not what %s made: %s" % (fn, show(wrong[0], 5)[:200] if wrong else ""))
    else:
        ck.ok("success", n, w)
    # failure of one step, all others being fine
    for x in steps:
        inst = "%s/%s" % (n, x.args[0])
        c = conj(base, isvar(x, RES, "Err"))
        for y in steps:
            if y is not x and not any(z is x for z in subterms(y)):
                c = conj(c, isvar(y, RES, "Ok"))
        for i, k in takes.items():
            c = conj(c, is_(ck, a[i], k))
        for y in anys:
            c = conj(c, neg(boolify(y)))
        if c is FALSE:
            continue
        r = restrict(v, c)
        lost = [l for l in leaves(r) if not isE(l)]
        if lost:
            ck.bad("failure", inst, w, "a failure is returned as %s" % show(lost[0], 5)[:200])
            continue
        own = T("fld", x, "Err.0")
        msgs = [l for l in leaves(restrict(fld(r, "Err.0"), c)) if l is not own]
        ck.require(not msgs, "failure", inst, w, "the failure's own message is replaced by %s" % (show(msgs[0], 5)[:200] if msgs else ""))
    # a handle of another kind
    for i, k in takes.items():
        inst = "%s/%s" % (n, F.bodies[p]["argnames"][i])
        for other in variants(ck, "Handle"):
            if other == k:
                continue
            r = restrict(v, is_(ck, a[i], other))
            lost = [l for l in leaves(r) if not isE(l)]
            if lost:
                ck.bad("kind", inst, w, "a handle of kind %s is accepted" % other)
                break
        else:
            ck.ok("kind", inst, w)
    for x in anys:
        r = restrict(v, boolify(x))
        ck.require(not [l for l in leaves(r) if not isE(l)], "kind", "%s/list" % n, w, "a list with a handle of another kind is accepted")
    given(ck, p, a, main, takes, mode, base)
    return True


def tested(v, x):
    """is there a decision on whether x failed?"""
    return any(y.op == "dd" and y.args[0] is discr(x) for y in subterms(v))


def discr(x):
    return isvar(x, RES, "Ok").args[0]


DEDUP = {"QmErrorIfMissing": "ErrorIfMissing", "QmInline": "Inline", "QmWriteOnce": "WriteOnce"}


def given(ck, p, a, main, takes, mode, base):
    """what the library is asked with is what the caller gave"""
    n, w = name(p), ck.where(p)
    argn = ck.F.bodies[p]["argnames"]
    for x in main:
        y = x.args[1]
        for i, k in takes.items():
            if i >= len(y):
                return ck.unk("given", n, w, "another signature")
            want = fld(a[i], k + ".0")
            if y[i] is not want and not (y[i].op == "dd" and all(l is want for l in leaves(y[i]))):
                return ck.bad("given", "%s/%s" % (n, argn[i]), w, "it is not handed over as given")
        if n == "qm_assert_approx_eq_reports" and tuple(y[2:5]) != tuple(a[2:5]):
            return ck.bad("given", n, w, "the tolerances are not handed over as given")
    if "source" in argn:
        src = a[argn.index("source")]
        if not all(any(z is src for z in subterms(x.args[1][0])) for x in main):
            return ck.bad("given", n, w, "it does not read the source given")
    for q, pos in (("dedup_ccy", 1), ("dedup_instr", 3)):
        if q in mode:
            ls = [l for x in main for l in leaves(restrict(x.args[1][pos], base))]
            if any(l.op != "agg" for l in ls) or mode[q] not in DEDUP:
                return ck.unk("given", n, w, "another mode")
            if any(l.args[1] != DEDUP[mode[q]] for l in ls):
                return ck.bad("given", "%s/%s" % (n, q), w, "mode %s is handed over as another" % mode[q])
    for q, cnt, k, pos in (("currencies", "number_of_currencies", "Currency", 2), ("instruments", "number_of_instruments", "Instrument", 4), ("report_generators", "number_of_report_generators", "ReportGenerator", 4)):
        if q not in argn or cnt not in argn:
            continue
        for x in main:
            l = restrict(x.args[1][pos], base)
            if not about(l, a[argn.index(q)]) or length(l) is not a[argn.index(cnt)]:
                return ck.bad("given", "%s/%s" % (n, q), w, "the list handed over is not the one given")
    ck.ok("given", n, w)


def about(v, x):
    return any(y is x for y in subterms(v))
