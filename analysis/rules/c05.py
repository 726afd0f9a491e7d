"""Sharing modes.  Writing and reading of shared objects is value-numbered with the table and its mode
symbolic, and compared mode by mode with what sharing promises."""
from terms import *
from common import *
import c04

FLOOR = 10
IX = T("ix", "i")


def run(ck):
    ck.part(modes)
    ck.part(scope)
    ck.part(families_)
    ck.part(readers)
    ck.part(tables)
    ck.part(table)


def same(ck, t, rule, inst, where, got, want, cond, msg):
    """as ck.same, with the table in force standing for any table"""
    f = lambda x: subst(x, {t: P("table")})
    return ck.same(rule, inst, where, f(got), f(want), f(cond), msg)


def mode(ck, t, name):
    return isv(ck, fld(t, "control"), "DedupControl", name)


def modes(ck):
    p = inherent(ck, "Drc", "serialize_with_dedup")
    s = summ_or_unk(ck, "write", "any", p, {})
    if s is not None:
        me, ser, key, full = args(s)
        t = T("tls", key)
        m = fld(t, "map")
        id = ID(me)
        whole = T("call", "callval", (full, ser))
        short = call("Serializer::serialize_str", ser, id)
        w = ck.where(p)
        for nm, want, after in (("Inline", whole, m),
                                ("ErrorIfMissing", ite(has(m, id), short, ANYERR), m),
                                ("WriteOnce", ite(has(m, id), short, whole), put(m, id, me))):
            c = conj(s.cond, mode(ck, t, nm))
            same(ck, t, "write", nm, w, restrict(s.ret, c), want, c, "an object is written in full or as its id where the mode asks for the other")
            got = restrict(fld(s.final(t), "map"), c)
            # remembering an id again changes nothing that is asked of the table while writing
            same(ck, t, "write", nm + " remembers", w, has(got, P("an id")), has(after, P("an id")), c, "what has been written is not remembered, or something else is")
    p = inherent(ck, "Drc", "deserialize_with_dedup")
    s = summ_or_unk(ck, "read", "any", p, {})
    if s is not None:
        de, key, full = args(s)
        t = T("tls", key)
        m = fld(t, "map")
        whole = T("call", "callval", (full, de))
        w = ck.where(p)
        got = okv(whole)
        for nm, after in (("Inline", m), ("ErrorIfMissing", m), ("WriteOnce", ite(isok(whole), put(m, ID(got), got), m))):
            c = conj(s.cond, mode(ck, t, nm))
            same(ck, t, "read", nm, w, restrict(s.ret, c), whole, c, "what is read is not what is returned")
            same(ck, t, "read", nm + " remembers", w, restrict(fld(s.final(t), "map"), c), after, c, "what has been read is not remembered under its own id, or something else is")


def scope(ck):
    """the work runs under the table it was given"""
    p = inherent(ck, "Dedup", "with")
    at_ = []

    def tracer(E, c, key, path, args, site):
        if key == "callval":
            at_.append((c.cond, dict(c.st)))
    s = summ_or_unk(ck, "in force", "with", p, dict(tracer=tracer))
    if s is None:
        return
    me, key, f = args(s)
    t = T("tls", key)
    if not at_:
        return ck.unk("in force", "with", ck.where(p), "the work is not called")
    for c, st in at_:
        for f in ("control", "map"):
            same(ck, t, "in force", "with/" + f, ck.where(p), fld(st.get(("M", t), t), f), fld(me, f), c, "the work does not run under its own table")


def shared(ck):
    """types shared by id: type of the shared pointer -> functions by trait"""
    out = {}
    for im in ck.F.impls:
        t = im.get("trait") or ""
        n = t.split("::")[-1].split("<")[0]
        ty = ck.F.types[im["self"]]
        if n in ("FromId", "Serialize", "Deserialize") and ty.get("path") == ck.F.adt_path("Drc"):
            for m, q in im["items"]:
                if q in ck.F.bodies and "::tests::" not in q and m in ("from_id", "serialize", "deserialize"):
                    out.setdefault(ty["s"], {})[m] = q
    return dict((k, v) for k, v in out.items() if len(v) == 3)


def label(ty):
    return ty.split("Drc<")[1].split(",")[0].split("::")[-1].split(" ")[0].strip(")")


def families_(ck):
    for ty, fs in sorted(shared(ck).items()):
        n = label(ty)
        p = fs["from_id"]
        s = summ_or_unk(ck, "found", n, p, {})
        if s is None:
            continue
        ks = set(x for x in subterms(s.ret) if x.op == "tls")
        if len(ks) != 1:
            ck.unk("found", n, ck.where(p), "no single table")
            continue
        t = ks.pop()
        m = fld(t, "map")
        id, = args(s)
        same(ck, t, "found", n, ck.where(p), s.ret, opt(has(m, id), at(m, id)), s.cond, "an id does not stand for the object remembered under it")
        init = [q for q in ck.F.bodies if q.endswith("::__rust_std_internal_init_fn") and q[:-len("::__rust_std_internal_init_fn")] in str(show(t, 9))]
        for q in init[:1]:
            expect(ck, "initial", n, q, lambda *_: struct(ck, "Dedup", control=variant(ck, "DedupControl", "Inline"), map=T("map0")), msg="sharing is not off at first")
        p = fs["serialize"]
        S = "Drc::serialize_with_dedup"
        s = summ_or_unk(ck, "family", n + " written", p, dict(opaque=opq(S)))
        if s is not None:
            me, ser = args(s)
            x = s.ret
            if x.op != "call" or x.args[0] != S or x.args[1][3].op != "lam":
                ck.unk("family", n + " written", ck.where(p), "another shape")
            else:
                a = x.args[1]
                f = a[3].args[1]
                v = P("lam%s.0" % a[3].args[0])
                if T("tls", a[2]) is not t or f.op == "call" and f.args[0] == "Serializer::serialize_str":
                    ck.bad("family", n + " written", ck.where(p), "not written in full, or under the table of another family")
                elif a[0] is me and a[1] is ser and f.op == "call" and me in set(subterms(f)) and v in set(subterms(f)):
                    ck.ok("family", n + " written", ck.where(p))
                else:
                    ck.unk("family", n + " written", ck.where(p), "another shape")
        p = fs["deserialize"]
        S = "Drc::deserialize_with_dedup"
        s = summ_or_unk(ck, "family", n + " read", p, dict(opaque=opq(S)))
        if s is not None:
            x = s.ret
            if x.op != "call" or x.args[0] != S or x.args[1][2].op != "lam":
                ck.unk("family", n + " read", ck.where(p), "another shape")
            else:
                a = x.args[1]
                if T("tls", a[1]) is not t:
                    ck.bad("family", n + " read", ck.where(p), "read under the table of another family")
                elif a[0] is args(s)[0]:
                    ck.ok("family", n + " read", ck.where(p))
                else:
                    ck.unk("family", n + " read", ck.where(p), "another shape")


def readers(ck):
    """text is an id to be looked up, anything else an object in full"""
    F = "FromId::from_id"
    for im in ck.F.impls:
        if (im.get("trait") or "").split("<")[0].endswith("de::Visitor"):
            ms = dict(im["items"])
            q, r = ms.get("visit_str"), ms.get("visit_map")
            if not q or not r or q not in ck.F.bodies or "::tests::" in q or "__" in q:
                continue
            n = q.split(" as ")[0].split("::")
            n = n[-2] if len(n) > 1 else n[-1]
            s = summ_or_unk(ck, "by id", n, q, dict(opaque=opq(F)))
            if s is None or not any(x.op == "call" and x.args[0] == F for x in subterms(s.ret)):
                continue
            v = args(s)[1]
            x = call(F, v)
            ck.same("by id", n, ck.where(q), s.ret, ite(isvar(x, OPT, "Some"), Ok(fld(x, "Some.0")), ANYERR), s.cond, "an unknown id is not an error")
            s = summ_or_unk(ck, "in full", n, r, dict(opaque=opq(F)))
            if s is not None:
                bad = [l for l in leaves(s.ret) if l.op == "agg" and l.args[1] == "Ok" and not any(y.op == "call" and "eserialize" in str(y.args[0]) for y in subterms(l))]
                (ck.bad if bad else ck.ok)("in full", n, ck.where(r), *(["an object given in full is not the one read"] if bad else []))


def tables(ck):
    p = ([b for b in ck.F.bodies if b.endswith("dedup::dedup_map_from_slice")] or [None])[0]
    expect(ck, "table", "from a list", p, lambda l: putall(T("map0"), length(l), IX, ID(idx(l, IX)), idx(l, IX)), msg="an object is not remembered under its own id")
    p = ([b for b in ck.F.bodies if b.endswith("facade::instrument_from_json")] or [None])[0]
    s = summ_or_unk(ck, "table", "instrument_from_json", p, dict(opaque=opq("Dedup::with", "dedup::dedup_map_from_slice", "Drc::deserialize_with_dedup")))
    if s is None:
        return
    src, cm, cs, im, is_ = args(s)
    w = ck.where(p)
    got = {}
    for x in subterms(s.ret):
        if x.op == "call" and x.args[0] == "Dedup::with":
            got[x.args[1][1]] = x.args[1][0]
    inner = [x for x in subterms(s.ret) if x.op == "call" and x.args[0] == "Drc::deserialize_with_dedup"]
    if len(got) == 1 and inner and not any(x.op in ("unk", "mu") for x in subterms(s.ret)):
        return ck.bad("table", "instrument_from_json", w, "one family is read without the sharing asked for")
    if len(got) != 2 or not inner:
        return ck.unk("table", "instrument_from_json", w, "another shape")
    D = lambda m, l: struct(ck, "Dedup", control=m, map=call("dedup::dedup_map_from_slice", l))
    for k, v in got.items():
        cur = "CURRENCY" in show(k, 9)
        ck.same("table", "instrument_from_json/%s" % ("currencies" if cur else "instruments"), w, v, D(cm, cs) if cur else D(im, is_), s.cond,
                "the mode or the objects given for one family are used for another")


def table(ck):
    """the table itself: as made, remembering each object under its own id and finding it again"""
    p = inherent(ck, "Dedup", "new")
    expect(ck, "own table", "new", p, lambda c, m: struct(ck, "Dedup", control=c, map=m), msg="the mode or the objects differ from those given")
    p = inherent(ck, "Dedup", "insert")
    effect(ck, "own table", "insert", p, "Dedup", lambda me, v: {"map": put(F_(me, "map"), ID(v), v), "control": F_(me, "control")}, msg="an object is not remembered under its own id")
    p = inherent(ck, "Dedup", "get")
    expect(ck, "own table", "get", p, lambda me, id: opt(has(F_(me, "map"), id), at(F_(me, "map"), id)), msg="an id does not stand for the object remembered under it")
    p = inherent(ck, "Dedup", "contains_key")
    expect(ck, "own table", "contains_key", p, lambda me, id: has(F_(me, "map"), id), msg="an id is known without being in the table, or the other way round")
    p = ([b for b in ck.F.bodies if b.endswith("c_interface::convert_dedup")] or [None])[0]
    s = summ_or_unk(ck, "mode", "C interface", p, {})
    vs = variants(ck, "QmDedupControl") or []
    if s is None:
        return
    for v in vs:
        if not v.startswith("Qm") or v[2:] not in (variants(ck, "DedupControl") or []):
            ck.unk("mode", v, ck.where(p), "another mode")
            continue
        a = args(s)[0]
        c = isv(ck, a, "QmDedupControl", v)
        ck.same("mode", v, ck.where(p), restrict(s.ret, c), variant(ck, "DedupControl", v[2:]), conj(s.cond, c), "the mode asked for is taken for another")
