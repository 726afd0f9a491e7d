"""Type tags and registries: for every family of trait objects the registry initialiser is
summarised to a table tag -> reader; each reader's concrete result type is taken from the
conversion to the trait object, each type's tag from its summary.  Rule: the tag a type
writes is a key of its family's table, the reader stored there builds that same type, tags
are unique, and the shared wrappers write the tag of the object they hold."""
from terms import *
from common import *

FLOOR = 20


def run(ck):
    F = ck.F
    fams = families(ck)
    ck.count("families", len(fams))
    for trait, (depath, reg) in sorted(fams.items()):
        table = registry(ck, reg)
        if table is None:
            ck.unk("registry", trait, ck.where(depath), "initialiser not understood")
            continue
        ck.count("registry entries", len(table))
        readers = {}
        for tag, fn in table.items():
            where = ck.where(fn) if fn in F.bodies else depath
            ts = built_types(ck, fn, trait)
            if ts is None:
                ck.unk("reader-type", "%s/%s" % (last(trait), tag), where, "reader not understood")
                continue
            readers[tag] = ts
            for t in ts:
                tid = type_tag(ck, t)
                if tid is None:
                    ck.bad("reader-type", "%s/%s" % (last(trait), tag), where,
                           "the reader registered for tag '%s' builds %s, which has no tag of its own to write" % (tag, t))
                elif tid is UNKNOWN:
                    ck.unk("reader-type", "%s/%s" % (last(trait), tag), where, "tag of %s not constant" % t)
                else:
                    ck.require(tid == tag, "reader-type", "%s/%s" % (last(trait), tag), where,
                               "the reader registered for tag '%s' builds %s, which writes tag '%s'" % (tag, t, tid))
        seen = {}
        for t, im in F.implementors(trait):
            if t not in F.adts or not F.by_trait_self.get(("crate::core::factories::TypeId", t)):
                continue
            tid = type_tag(ck, t)
            inst = "%s/%s" % (last(trait), last(t))
            if tid is None:
                ck.count("types without a tag (refuse to be written)")
                continue
            if tid is UNKNOWN:
                ck.unk("written-tag", inst, im["span"], "tag not constant")
                continue
            ck.count("tagged types")
            if tid in seen:
                ck.bad("unique-tag", inst, im["span"], "tag '%s' is also written by %s" % (tid, seen[tid]))
            else:
                ck.ok("unique-tag", inst, im["span"])
            seen[tid] = t
            if tid not in table:
                ck.bad("written-tag", inst, im["span"], "%s writes tag '%s', which the reader of %s does not know" % (t, tid, last(trait)))
            elif tid in readers:
                ck.require(readers[tid] == set([t]), "written-tag", inst, im["span"],
                           "tag '%s' written by %s is read back as %s" % (tid, t, sorted(readers[tid])))
    # the wrappers write the tag of the object they hold, and look the tag up as read
    for nm in ("Qrc", "Qbox"):
        p = F.adt_path(nm)
        m = F.impl_method("crate::serde::Serialize", p, "serialize") if p else None
        if not m:
            ck.unk("wrapper-tag", nm, "", "no Serialize impl")
            continue
        s = ck.summary(m)
        me, ser = T("p", "self"), T("p", "serializer")
        calls = [e for e in s.events if e[1] == "external::serialize"]
        ok = len(calls) == 1 and calls[0][0] is TRUE and calls[0][2][1] is T("call", "TypeId::get_type_id", (me,)) \
            and contains(calls[0][2][2], lambda x: x is me) and s.ret is calls[0][3]
        ck.require(ok, "wrapper-tag", nm, ck.where(m), "the wrapper does not write its content under the content's own tag")
    for p in F.find(r"as .*SeedFactory.*::seed$"):
        s = ck.summary(p)
        if s is None:
            ck.unk("lookup", "Registry::seed", ck.where(p))
            continue
        me, tag = T("p", "self"), s.params.get("tag", T("p", "tag"))
        reg = T("fld", me, "registry")
        h = has(reg, tag)
        got = ite(h, restrict(s.ret, h), NONE)
        e = s.E
        want = Ok(at(reg, tag))
        r = apply(lambda l: e.snap(s.state, l), restrict(s.ret, h))
        ck.same("lookup", "Registry::seed/known", ck.where(p), r, want, h)
        ck.same("lookup", "Registry::seed/unknown", ck.where(p), isvar(restrict(s.ret, neg(h)), RES, "Err"), TRUE, neg(h))
