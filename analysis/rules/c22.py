"""Identity.  Equality, order and hash of everything that has an id are summarised and must be those
of the ids, through the shared wrapper as well."""
from terms import *
from common import *
from c34 import by, o

FLOOR = 4
TRAITS = (("std::cmp::PartialEq", ("eq", "ne")), ("std::cmp::PartialOrd", ("partial_cmp", "lt", "le", "gt", "ge")), ("std::cmp::Ord", ("cmp", "max", "min")))


def run(ck):
    ck.part(ids)
    ck.part(compared)
    ck.part(hashed)


def identified(ck):
    """{type string: (name, id of a value of that type)}"""
    F = ck.F
    out = {}
    t = F.trait_path("InstanceId")
    for im in F.impl_index.get(t, []):
        ty = F.types[im["self"]]
        p = dict(im["items"]).get("id")
        s = ck.summary(p) if p in F.bodies else None
        if s is None or s.cond is not TRUE:
            continue
        me = args(s)[0]
        v = s.E.snap(s.state, s.ret)
        out[ty["s"]] = (ty["s"].split("::")[-1], lambda x, v=v, me=me: subst(v, {me: x}))
    for tr, _ in TRAITS:
        for im in F.impl_index.get(tr, []):
            ty = F.types[im["self"]]
            if ty.get("path", "") and ty["path"].endswith(("::Drc", "::Qrc")) and ty.get("args"):
                d = F.types[ty["args"][0]]
                if d["k"] == "dyn" and F.trait_path("InstanceId"):
                    out[ty["s"]] = ("shared " + d["path"].split("::")[-1], ID)
    return out


def ids(ck):
    """an object's id is the one it was built with"""
    for name, idof in sorted(set((n, f) for n, f in identified(ck).values()), key=lambda x: x[0]):
        p = inherent(ck, name, "new")
        if p is None or "shared" in name:
            continue
        s = summ_or_unk(ck, "id", name, p, {})
        if s is None:
            continue
        first = list(s.params)[0]
        if first != "id":
            ck.unk("id", name, ck.where(p), "built from something else")
            continue
        v = s.E.snap(s.state, s.ret)
        # a constructor may fail
        if any(l.op == "agg" and l.args[0] == "std::result::Result" for l in leaves(v)):
            ck.same("id", name, ck.where(p), idof(okv(v)), args(s)[0], conj(s.cond, isok(v)), "not the id it was built with")
        else:
            ck.same("id", name, ck.where(p), idof(v), args(s)[0], s.cond, "not the id it was built with")


def compared(ck):
    known = identified(ck)
    for tr, ms in TRAITS:
        for im in ck.F.impl_index.get(tr, []):
            ty = ck.F.types[im["self"]]["s"]
            if ty not in known:
                continue
            name, idof = known[ty]
            for m, q in im["items"]:
                if m not in ms or q not in ck.F.bodies:
                    continue
                inst = "%s/%s" % (name, m)
                s = summ_or_unk(ck, "compared", inst, q, dict(opaque=opq("InstanceId::id")) if name.startswith("shared") else {})
                if s is None:
                    continue
                a, b = args(s)
                c = by((idof(a), idof(b)))
                isx = lambda *v: apply(lambda l: TRUE if l.args[1] in v else FALSE, c)
                want = {"cmp": lambda: c, "partial_cmp": lambda: apply(Some, c), "eq": lambda: isx("Equal"), "ne": lambda: isx("Less", "Greater"),
                        "lt": lambda: isx("Less"), "le": lambda: isx("Less", "Equal"), "gt": lambda: isx("Greater"), "ge": lambda: isx("Greater", "Equal"),
                        "max": lambda: ite(isx("Greater"), a, b), "min": lambda: ite(isx("Greater"), b, a)}[m]()
                ck.same("compared", inst, ck.where(q), s.E.snap(s.state, s.ret), want, s.cond, "not the comparison of the ids")
                ck.count("comparisons")


def hashed(ck):
    known = identified(ck)
    for im in ck.F.impl_index.get("std::hash::Hash", []):
        ty = ck.F.types[im["self"]]["s"]
        q = dict(im["items"]).get("hash")
        if ty not in known or q not in ck.F.bodies:
            continue
        name, idof = known[ty]
        s = summ_or_unk(ck, "hashed", name, q, dict(opaque=opq("InstanceId::id")) if name.startswith("shared") else {})
        if s is None:
            continue
        me, st = args(s)
        after = subst(s.final(st), {idof(me): P("the id")})
        if any(x.op == "unk" for x in subterms(after)):
            ck.unk("hashed", name, ck.where(q), "not modelled")
        elif me in subterms(after):
            ck.bad("hashed", name, ck.where(q), "the hash depends on more than the id: %s" % show(after, 8)[:300])
        else:
            ck.ok("hashed", name, ck.where(q))
            ck.count("hashes")
