"""Persistence of fields.  Writer and reader of every persistable type - derived or hand-written - are
value-numbered from the compiled program: the writer yields which part of the object goes under which key,
the reader which key fills which part; the two maps are required to be inverse, with no key optional."""
import re
from terms import *
from common import *

FLOOR = 200
W = re.compile(r"^(.*::)?_::<impl crate::serde::Serialize for (.*)>::serialize$")


def stored(ck, x):
    return [f["n"] for f in ck.F.adts[base(x)]["variants"][0]["fields"]]


def base(x):
    return x.split("<")[0]


def run(ck):
    F = ck.F
    readers = {}
    for p in F.bodies:
        m = re.match(r"^(.*::)?_::<impl crate::serde::Deserialize<'de> for (.*)>::deserialize$", p)
        if m and "tests::" not in p and "::deserialize::" not in p:
            readers[m.group(2)] = p
        m = re.match(r"^<(crate::.*) as crate::serde::Deserialize<'de>>::deserialize$", p)
        if m and "tests::" not in p and "::deserialize::" not in p and "__DeserializeWith" not in p:
            readers[m.group(1)] = p
    writers = {}
    for p in F.bodies:
        m = W.match(p)
        if m and "tests::" not in p:
            writers[m.group(2)] = p
        m = re.match(r"^<(crate::.*) as crate::serde::Serialize>::serialize$", p)
        if m and "tests::" not in p and "__SerializeWith" not in p and "SerializeErased" not in p:
            writers[m.group(1)] = p
    ck.count("types written", len(writers))
    ck.count("types read", len(readers))
    both = sorted(x for x in writers if x in readers)
    ck.count("types written and read", len(both))
    for x in both:
        a = F.adts.get(base(x))
        if a is None or base(x).endswith(("::Qrc", "::Qbox", "::Drc")):
            continue
        if base(x) == "crate::dates::Date":
            continue
        if "__Visitor" in "".join(q for q in F.bodies if q.startswith("<" + readers[x] + "::")):
            if a["k"] == "enum" if "k" in a else len(a["variants"]) > 1 or a["variants"][0]["n"] != base(x).split("::")[-1]:
                ck.part(enum, x, writers[x], readers[x])
            else:
                ck.part(record, x, writers[x], readers[x])
        else:
            ck.part(wrapped, x, writers[x], readers[x], readers)
    ck.part(tagged)
    ck.part(through)
    ck.part(pairs)
    ck.part(dates)
    ck.part(smiles)


# --------------------------------------------------------------------------- what is written
class Odd(Exception):
    pass


def chain(t):
    """the alternatives of what has been handed to the serializer when its state is t:
    each a list of (key, value); key None for a flattened part"""
    if t.op == "dd":
        out = []
        for l in leaves(t):
            if l.op == "agg" and l.args[1] == "Err":
                continue
            out += chain(l)
        return out
    if t.op == "mut":
        name, j, a = t.args
        if name.endswith(("::serialize_field", "::serialize_entry")) and j == 0:
            if len(a) == 3:
                if a[1].op != "str":
                    raise Odd("key not constant")
                return [c + [(a[1].args[0], a[2])] for c in chain(a[0])]
            return [c + [(None, a[1])] for c in chain(a[0])]
        if name == "Serialize::serialize" and j in (0, 1) and a[1].op == "agg" and "FlatMapSerializer" in a[1].args[0]:
            return [c + [("*", a[0])] for c in chain(a[1].args[2][0][1])]
        if name.endswith("::skip_field"):
            return chain(a[0])
        raise Odd("serializer passed to %s" % name)
    if t.op == "fld" and t.args[1] == "Ok.0" and t.args[0].op == "call":
        n, a = t.args[0].args[0], t.args[0].args[1]
        if n.startswith("Serializer::serialize_"):
            return [[]]
    raise Odd("serializer state %s" % t.op)


def written(r):
    """alternatives of (kind, variant name or None, [(key, value)])"""
    out = []
    for l in leaves(r):
        if l.op == "agg" and l.args[1] == "Err":
            continue
        if l is BOT:
            continue
        if l.op != "call":
            raise Odd("result %s" % l.op)
        n, a = l.args
        if n.endswith("::end"):
            h = a[0]
            st = [x for x in subterms(h) if x.op == "call" and x.args[0].startswith("Serializer::serialize_")]
            v = None
            if st and st[0].args[0].endswith("_variant"):
                v = st[0].args[1][3].args[0]
            for c in chain(h):
                out.append((n, v, c))
        elif n == "Serializer::serialize_unit_variant":
            out.append((n, a[3].args[0], []))
        elif n == "Serializer::serialize_newtype_variant":
            out.append((n, a[3].args[0], [(None, a[4])]))
        elif n == "Serializer::serialize_newtype_struct":
            out.append((n, None, [(None, a[2])]))
        elif n == "Serializer::serialize_unit_struct":
            out.append((n, None, []))
        else:
            raise Odd("written by %s" % n)
    return out


def part_of(v):
    """the part of the object a written value is: a field of it, or a wrapper applied to just that"""
    if v.op == "agg" and "__SerializeWith" in v.args[0]:
        fs = [x for x in subterms(v) if x.op == "fld" and x.args[0] is P("self")]
        return fs[0] if len(set(fs)) == 1 else v
    return v


# --------------------------------------------------------------------------- what is read
def look(t, key):
    """what the recogniser of keys makes of the given key"""
    while t.op == "dd":
        c = t.args[0]
        strs = [x.args[0] for x in subterms(c) if x.op == "str"]
        if c.op != "cmp0" or len(strs) != 1:
            raise Odd("keys recognised by %s" % c.op)
        t = t.args[1][1 if strs[0] == key else 0]
    if t.op == "agg" and t.args[1] == "Ok":
        t = fld(t, "Ok.0")
        if t.op == "agg":
            return t.args[1]
    return None


def sources(t):
    """where a field of the value read comes from"""
    out = set()
    for l in leaves(t):
        ms = [x for x in subterms(l) if x.op == "call" and x.args[0].endswith("::missing_field")]
        if l.op == "fld" and l.args[0] in ms:
            out.add(("required", ms[0].args[1][0].args[0]))
            continue
        if l.op == "fld" and l.args[0].op == "fld" and l.args[0].args[0] in ms:
            out.add(("required", ms[0].args[1][0].args[0]))
            continue
        x = l
        while x.op == "fld" and x.args[0].op != "fold":
            x = x.args[0]
        if x.op == "fld" and x.args[1] == "Some.0" and x.args[0].args[0] is NONE:
            b = x.args[0].args[3]
            hit = taken(b)
            if len(hit) == 1 and None not in hit:
                out.add(("key", hit.pop()))
                continue
        if x.op == "call" and x.args[0].startswith("Deserialize::deserialize@") and any(
                y.op == "agg" and "FlatMapDeserializer" in y.args[0] for y in subterms(x)):
            out.add(("flat", x.args[0].split("@")[1]))
            continue
        out.add(("other", l))
    return out


def taken(b, name=None):
    """the keys at which one round of reading stores a value"""
    if b.op != "dd":
        return set() if b.op == "acc" or b is BOT else set([name])
    c = b.args[0]
    out = set()
    for n, k in zip(dom(c), b.args[1]):
        known = c.op == "discr" and n.startswith("__")
        out |= taken(k, n if known else name)
    return out


def position(t):
    """which element of the sequence a field of the value read comes from"""
    while t.op == "fld":
        t = t.args[0]
    if t.op == "call" and t.args[0] == "SeqAccess::next_element":
        n = 0
        q = t.args[1][0]
        while q.op == "mut" and q.args[0] == "SeqAccess::next_element":
            n += 1
            q = q.args[2][0]
        if q is P("__seq"):
            return n
    return None


def oks(r):
    return [fld(l, "Ok.0") for l in leaves(r) if l.op == "agg" and l.args[1] == "Ok"]


def keys_of(ck, x, w):
    s = ck.summary(w)
    try:
        return [set(k for k, v in c) for n, vn, c in written(s.ret)] if s is not None else None
    except Odd:
        return None


def visitor(rd, what, sub="", n=""):
    return "<%s::__Visitor<'de>%s as crate::serde::de::Visitor<'de>>::%s%s" % (rd, sub, what, n)


def find(ck, pat):
    hits = [p for p in ck.F.bodies if pat(p)]
    return hits[0] if len(hits) == 1 else None


def member(ck, rd, owner, method, n=""):
    """the body of the visitor `owner` nested directly in rd"""
    pre = "<%s::%s" % (rd, owner)
    suf = ">::%s%s" % (method, n)
    return find(ck, lambda p: p.startswith(pre) and p.endswith(suf) and "::" not in p[len(pre):].split(" as ")[0])


def record(ck, x, w, rd):
    fs = stored(ck, x)
    nm = base(x).split("::")[-1]
    s = summ_or_unk(ck, "field", nm, w, {})
    if s is None:
        return
    try:
        alts = written(s.ret)
    except Odd as e:
        return ck.unk("field", nm, ck.where(w), "writer: %s" % e)
    mp, sq = member(ck, rd, "__Visitor", "visit_map"), member(ck, rd, "__Visitor", "visit_seq")
    ks = member(ck, rd, "__FieldVisitor", "visit_str")
    newtype = member(ck, rd, "__Visitor", "visit_newtype_struct")
    if mp is None:
        if newtype is not None or (alts and alts[0][0].endswith("newtype_struct")):
            return single(ck, nm, x, w, alts, newtype)
        if not fs:
            return ck.ok("field", nm, ck.where(w))
        return ck.unk("field", nm, ck.where(w), "no reader by key")
    sides(ck, nm, "", fs, lambda f: fld(P("self"), f), alts, w, mp, ks, sq)


def single(ck, nm, x, w, alts, newtype):
    good = all(len(c) == 1 and c[0][1].op == "fld" and c[0][1].args[0] is P("self") for k, v, c in alts)
    if good:
        ck.ok("field", nm, ck.where(w))
    else:
        ck.unk("field", nm, ck.where(w), "written otherwise")


def sides(ck, nm, var, fs, part, alts, w, mp, ks, sq):
    """fs: names of the stored fields; part: the term of a field in the object written"""
    where = ck.where(w)
    s = summ_or_unk(ck, "read", nm, mp, {})
    k = summ_or_unk(ck, "read", nm + " keys", ks, {}) if ks else None
    q = ck.summary(sq) if sq else None
    if s is None or k is None:
        return
    vals = oks(s.ret)
    pre = var + "." if var else ""
    if not vals or any(v.op != "agg" for v in vals):
        return ck.unk("read", nm, ck.where(mp), "value read not followed")
    if not alts:
        return ck.unk("field", nm, where, "nothing found written")
    for f in fs:
        inst = "%s.%s" % (nm, f)
        # written
        entries = []
        missing = False
        odd = False
        for kind, vn, c in alts:
            hit = [(i, kk, v) for i, (kk, v) in enumerate(c) if part_of(v) is part(f)]
            if len(hit) != 1:
                rest = [v for kk, v in c if part(f) in set(subterms(v))]
                if hit or rest:
                    odd = True
                else:
                    missing = True
            entries += hit
        if missing:
            ck.bad("written", inst, where, "%s can be written without its field %s, so reading it back cannot restore it"
                   % (nm, f))
            continue
        keys = set(kk for i, kk, v in entries)
        if odd or len(keys) != 1:
            ck.unk("written", inst, where, "written in a form not followed")
            continue
        key = keys.pop()
        ck.ok("written", inst, where)
        # read
        src = set()
        for v in vals:
            src |= sources(fld(v, pre + f))
        oth = [o for o in src if o[0] == "other"]
        inp = set(P(a) for a in ("__map",))
        free = [o for o in oth if not (set(subterms(o[1])) & inp)]
        if free:
            ck.bad("read", inst, ck.where(mp), "%s.%s becomes %s when its key is absent, instead of an error"
                   % (nm, f, show(free[0][1], 4)))
            continue
        if oth:
            ck.unk("read", inst, ck.where(mp), "comes from %s" % show(oth[0][1], 4))
            continue
        if key == "*":
            flats = [o for o in src if o[0] == "flat"]
            if len(src) == 1 and flats:
                ck.ok("read", inst, ck.where(mp))
                own = set(kk for kind, vn, c in alts for kk, v in c)
                wr = find(ck, lambda p: W.match(p) and W.match(p).group(2) == flats[0][1])
                sub = keys_of(ck, flats[0][1], wr) if wr else None
                if sub is None:
                    ck.unk("splice", inst, where, "keys of the spliced part not followed")
                else:
                    clash = set().union(*sub) & own - set(["*"])
                    if clash:
                        ck.bad("splice", inst, where, "key %r belongs to %s and to the part spliced into it"
                               % (sorted(clash)[0], nm))
                    else:
                        ck.ok("splice", inst, where)
            else:
                ck.bad("read", inst, ck.where(mp), "%s.%s is written as keys of %s itself but not read so" % (nm, f, nm))
            continue
        if any(o[0] == "flat" for o in src):
            ck.bad("read", inst, ck.where(mp), "%s.%s is read from the keys of %s itself but is written under %r"
                   % (nm, f, nm, key))
            continue
        fills = [o[1] for o in src if o[0] == "key"]
        try:
            got = look(k.ret, key)
        except Odd as e:
            ck.unk("read", inst, ck.where(ks), str(e))
            continue
        if len(fills) != 1:
            ck.bad("read", inst, ck.where(mp), "%s.%s is never filled from what is read" % (nm, f)) if not fills else \
                ck.unk("read", inst, ck.where(mp), "filled from several keys")
        elif got != fills[0]:
            ck.bad("read", inst, ck.where(ks), "%s.%s is written under %r, which the reader %s" % (
                nm, f, key, "does not know" if got in (None, "__ignore", "__other") else "stores in another field"))
        else:
            ck.ok("read", inst, ck.where(mp))
        # by position
        if q is not None and not any(kk in ("*", None) for kind, vn, c in alts for kk, v in c):
            pos = set(position(fld(v, pre + f)) for v in oks(q.ret))
            idx_ = set(i for i, kk, v in entries)
            if None in pos or not pos or len(idx_) != 1:
                ck.unk("order", inst, ck.where(sq), "position not followed")
            elif pos != idx_:
                ck.bad("order", inst, ck.where(sq), "%s.%s is written in place %d and read from place %d"
                       % (nm, f, min(idx_), min(pos)))
            else:
                ck.ok("order", inst, ck.where(sq))


def enum(ck, x, w, rd):
    a = ck.F.adts[base(x)]
    nm = base(x).split("::")[-1]
    names = tuple(v["n"] for v in a["variants"])
    s = summ_or_unk(ck, "variant", nm, w, {})
    ks = member(ck, rd, "__FieldVisitor", "visit_str")
    k = summ_or_unk(ck, "variant", nm + " keys", ks, {}) if ks else None
    if s is None or k is None:
        return
    me = P("self")
    ve = member(ck, rd, "__Visitor", "visit_enum")
    order = dict((n, "__field%d" % i) for i, n in enumerate(names))
    nested = 0
    for v in a["variants"]:
        n = v["n"]
        inst = "%s::%s" % (nm, n)
        r = pick(s.ret, me, names, n)
        try:
            alts = written(r)
            got = set(look(k.ret, vn) for kind, vn, c in alts)
        except Odd as e:
            ck.unk("variant", inst, ck.where(w), str(e))
            continue
        if not alts:
            ck.bad("variant", inst, ck.where(w), "%s is never written" % inst)
        elif got == set([order[n]]):
            ck.ok("variant", inst, ck.where(w))
        elif len(got) == 1 and (None in got or got & set(order.values())):
            ck.bad("variant", inst, ck.where(ks), "%s is written under a name that the reader %s"
                   % (inst, "refuses" if None in got else "takes for another"))
        else:
            ck.unk("variant", inst, ck.where(ks), "name not followed")
        fs = [f["n"] for f in v["fields"]]
        if not fs:
            continue
        if all(f.isdigit() for f in fs) and len(fs) == 1:
            c = [e for kind, vn, cc in alts for e in cc]
            if not c:
                ck.bad("written", inst, ck.where(w), "what %s holds is not written" % inst)
            elif all(y is fld(me, n + "." + fs[0]) for kk, y in c):
                ck.ok("written", inst, ck.where(w))
            else:
                ck.unk("written", inst, ck.where(w), "written in a form not followed")
            continue
        # the nested visitor that builds this variant
        mp = [p for p in ck.F.bodies if p.startswith("<" + ve + "::__Visitor<'de>") and "::visit_map" in p] if ve else []
        mine = None
        for p in mp:
            t = ck.summary(p)
            vs = oks(t.ret) if t is not None else []
            if vs and all(y.op == "agg" and y.args[0] == base(x) and y.args[1] == n for y in vs):
                mine = p
        if mine is None:
            ck.unk("read", inst, ck.where(rd), "no reader of this variant found")
            continue
        suf = mine.split("::visit_map")[-1]
        fk = find(ck, lambda p: p.startswith("<" + ve + "::__FieldVisitor") and p.endswith(">::visit_str" + suf))
        sq = find(ck, lambda p: p.startswith("<" + ve + "::__Visitor<'de>") and p.endswith(">::visit_seq" + suf))
        sides(ck, inst, n, fs, lambda f: fld(me, n + "." + f), alts, w, mine, fk, sq)


def pick(t, me, names, n):
    """t where me is the variant n"""
    return restrict(t, isvar(me, names, n))


def wrapped(ck, x, w, rd, readers):
    """hand-written reader: it reads another type (its inputs) and builds the value from that"""
    nm = base(x).split("::")[-1]
    s = summ_or_unk(ck, "inputs", nm, w, {})
    r = summ_or_unk(ck, "inputs", nm + " read", rd, {})
    if s is None or r is None:
        return
    me = P("self")
    ins = set(t for t in subterms(r.ret) if t.op == "call" and t.args[0].startswith("Deserialize::deserialize@"))
    if len(ins) != 1:
        return ck.unk("inputs", nm, ck.where(rd), "not read as one other type")
    inner = ins.pop()
    y = inner.args[0].split("@")[1]
    val = fld(inner, "Ok.0")
    whole = s.ret.op == "call" and s.ret.args[0] == "Serialize::serialize"
    if whole:
        part = s.ret.args[1][0]
        vals = [val] if r.ret is inner else oks(r.ret)
        if not vals:
            return ck.unk("inputs", nm, ck.where(rd), "value read not followed")
        path = []
        t = part
        while t is not me and t.op == "fld":
            path.append(t.args[1])
            t = t.args[0]
        if t is not me:
            for v in vals:
                ck.same("inputs", nm, ck.where(w), neutral(subst(part, {me: v}), val), P("read"), TRUE,
                        "what is written of %s is not what its reader has put there" % nm)
            return
        ty = part_type(ck, x, list(reversed(path)))
        if ty is not None and base(y) not in ty:
            return ck.bad("inputs", nm, ck.where(rd), "%s is written as %s but read as %s" % (nm, ty, y))
        bad = None
        for v in vals:
            for f in reversed(path):
                v = fld(v, f)
            if v is not val:
                bad = v
        if bad is not None:
            ck.same("inputs", nm, ck.where(rd), neutral(bad, val), P("read"), TRUE,
                    "what is written of %s is not what its reader puts back" % nm)
        else:
            ck.ok("inputs", nm, ck.where(rd))
        return
    # written field by field; read by way of the inputs' own reader
    try:
        alts = written(s.ret)
    except Odd as e:
        return ck.unk("inputs", nm, ck.where(w), str(e))
    ry = [readers[z] for z in readers if base(z) == base(y)]
    if len(ry) != 1 or base(y) == base(x):
        return ck.unk("inputs", nm, ck.where(rd), "inputs' reader not found")
    mp, ks = member(ck, ry[0], "__Visitor", "visit_map"), member(ck, ry[0], "__FieldVisitor", "visit_str")
    m = ck.summary(mp) if mp else None
    k = ck.summary(ks) if ks else None
    vals = oks(r.ret)
    if m is None or k is None or not vals:
        return ck.unk("inputs", nm, ck.where(rd), "inputs' reader not followed")
    for f in stored(ck, x):
        inst = "%s.%s" % (nm, f)
        ent = [[kk for kk, v in c if part_of(v) is fld(me, f)] for kind, vn, c in alts]
        if not all(ent):
            if any(fld(me, f) in set(subterms(v)) for kind, vn, c in alts for kk, v in c):
                ck.unk("written", inst, ck.where(w), "written in a form not followed")
            else:
                ck.bad("written", inst, ck.where(w), "%s can be written without its field %s, so reading it back cannot "
                       "restore it" % (nm, f))
            continue
        got = set(fld(v, f) for v in vals)
        keys = set(kk for e in ent for kk in e)
        g = got.pop() if len(got) == 1 else None
        if g is None or len(keys) != 1 or not (g.op == "fld" and g.args[0] is val):
            if g is not None and val not in set(subterms(g)):
                ck.bad("read", inst, ck.where(rd), "%s.%s is not taken from what is read" % (nm, f))
            else:
                ck.unk("read", inst, ck.where(rd), "comes from %s" % (show(g, 4) if g else "several places"))
            continue
        src = set()
        for v in oks(m.ret):
            src |= sources(fld(v, g.args[1]))
        key = keys.pop()
        fills = [o[1] for o in src if o[0] == "key"]
        free = [o for o in src if o[0] == "other" and P("__map") not in set(subterms(o[1]))]
        try:
            kk = look(k.ret, key)
        except Odd as e:
            ck.unk("read", inst, ck.where(ks), str(e))
            continue
        if free:
            ck.bad("read", inst, ck.where(mp), "%s.%s becomes %s when its key is absent, instead of an error"
                   % (nm, f, show(free[0][1], 4)))
        elif len(fills) == 1 and kk == fills[0] and not any(o[0] in ("other", "flat") for o in src):
            ck.ok("read", inst, ck.where(rd))
        elif len(fills) == 1 and kk != fills[0]:
            ck.bad("read", inst, ck.where(ks), "%s.%s is written under %r, which the reader %s" % (
                nm, f, key, "does not know" if kk in (None, "__ignore") else "stores in another field"))
        else:
            ck.unk("read", inst, ck.where(rd), "not followed")


def neutral(t, val):
    return subst(t, {val: P("read")})


def part_type(ck, x, path):
    """text of the type of a part of x"""
    a = ck.F.adts.get(base(x))
    ty = None
    for f in path:
        if a is None:
            return None
        fs = [g for g in a["variants"][0]["fields"] if g["n"] == f]
        if not fs:
            return None
        ty = ck.F.types[fs[0]["t"]]
        a = ck.F.adts.get(ty.get("path"))
        ty = ty["s"]
    if not path and a is not None:
        # transparent wrapper: the type of its one field
        fs = a["variants"][0]["fields"]
        return ck.F.types[fs[0]["t"]]["s"] if len(fs) == 1 else None
    return ty


# --------------------------------------------------------------------------- polymorphic objects, maps, dates
def tagged(ck):
    """a polymorphic object is handed whole to the tagged writer"""
    for p in ck.F.bodies:
        m = re.match(r"^<crate::core::factories::(Q\w+)<T> as crate::serde::Serialize>::serialize$", p)
        if not m:
            continue
        s = summ_or_unk(ck, "whole", m.group(1), p, {})
        if s is None:
            continue
        inside = [t for t in subterms(s.ret) if t.op == "agg" and "SerializeErased" in t.args[0]]
        if len(inside) == 1 and s.ret.op == "call":
            v = inside[0].args[2][0][1]
            if v is P("self"):
                ck.ok("whole", m.group(1), ck.where(p))
            else:
                ck.unk("whole", m.group(1), ck.where(p), "writes %s" % show(v, 4))
        else:
            ck.unk("whole", m.group(1), ck.where(p), "written otherwise")


def through(ck):
    """functions a field is written or read through pass its value on unchanged"""
    for p in sorted(ck.F.bodies):
        if "tests::" in p:
            continue
        m = re.search(r" for (\S+)>::(?:de)?serialize::.*__(Des|S)erializeWith<.*>::(?:de)?serialize(#\d+)?$", p)
        if not m:
            continue
        inst = "%s %s%s" % (base(m.group(1)).split("::")[-1], "reading" if m.group(2) == "Des" else "writing", m.group(3) or "")
        s = summ_or_unk(ck, "through", inst, p, {})
        if s is None:
            continue
        me = P("self")
        if m.group(2) == "S":
            v = s.ret.args[1] if s.ret.op == "call" else ()
            if s.ret.op == "call" and s.ret.args[0] == "Serialize::serialize":
                v = v[0]
            elif s.ret.op == "call" and s.ret.args[0].startswith(("Serializer::serialize_", "Serializer::collect_")) and len(v) == 2:
                v = v[1]
            else:
                v = None
            want = fld(fld(me, "values"), "0")
        else:
            ins = set(t for t in subterms(s.ret) if t.op == "call" and t.args[0].startswith(
                ("Deserialize::deserialize@", "Deserializer::deserialize_")))
            vals = oks(s.ret)
            v = want = None
            if len(ins) == 1 and len(vals) == 1:
                v, want = fld(vals[0], "value"), fld(ins.pop(), "Ok.0")
        if v is None or v.op == "iter":
            ck.unk("through", inst, ck.where(p), "not followed")
        elif v is want:
            ck.ok("through", inst, ck.where(p))
        else:
            ck.same("through", inst, ck.where(p), subst(v, {want: P("value")}), P("value"), TRUE,
                    "the value changes on its way")


def pairs(ck):
    """the map written as a sequence of pairs is rebuilt from those pairs"""
    wr = [p for p in ck.F.bodies if p.endswith("map_as_pairs::serialize")]
    rd = [p for p in ck.F.bodies if "map_as_pairs::deserialize::" in p and p.endswith("::visit_seq")]
    if len(wr) != 1 or len(rd) != 1:
        return ck.unk("pairs", "map", "", "no map written as pairs found")
    s = summ_or_unk(ck, "pairs", "writer", wr[0], {})
    if s is not None:
        m, ser = args(s)
        want = call("Serializer::collect_seq", ser, m)
        if s.ret is want:
            ck.ok("pairs", "writer", ck.where(wr[0]))
        elif s.ret.op == "call" and s.ret.args[0] == want.args[0] and s.ret.args[1][0] is ser:
            it = s.ret.args[1][1]
            n, body = it.args[0].args if it.op == "iter" and it.args[1] is ZERO and it.args[0].op == "seq" else (None, None)
            ix = [x for x in subterms(body) if x.op == "ix"] if body is not None else []
            if n is length(m) and len(set(ix)) == 1:
                pair = tup(T("mkey", m, ix[0]), T("mval", m, ix[0]))
                ck.same("pairs", "writer", ck.where(wr[0]), apply(lambda l: T("str", "left out") if l.op == "skip" else l, body), pair, TRUE, "an entry is left out or changed on writing")
                return pairs_read(ck, rd[0])
            ck.unk("pairs", "writer", ck.where(wr[0]), "written otherwise")
        else:
            ck.unk("pairs", "writer", ck.where(wr[0]), "written otherwise")
    pairs_read(ck, rd[0])


def pairs_read(ck, rd):
    r = summ_or_unk(ck, "pairs", "reader", rd, {})
    if r is None:
        return
    vals = oks(r.ret)
    good = bool(vals)
    for v in vals:
        nexts = [t for t in subterms(v) if t.op == "call" and t.args[0] == "SeqAccess::next_element"]
        if v.op != "putall" or not nexts:
            good = False
    if not good:
        return ck.unk("pairs", "reader", ck.where(rd), "value read not followed")
    for v in vals:
        kv = v.args[-1]
        if kv.op != "kv" or not all(t.op == "fld" and t.args[1] in ("0", "1") for t in kv.args) \
                or kv.args[0].args[0] is not kv.args[1].args[0]:
            ck.unk("pairs", "reader", ck.where(rd), "entries not followed")
        elif (kv.args[0].args[1], kv.args[1].args[1]) == ("0", "1"):
            ck.ok("pairs", "reader", ck.where(rd))
        else:
            ck.bad("pairs", "reader", ck.where(rd), "key and value change places on reading")


def template(hexs):
    """pieces of a formatting template: text, or (argument, flags, width)"""
    b = bytes.fromhex(hexs)
    out, i, nxt = [], 0, 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out.append(b[i:i + n].decode())
            i += n
        elif n == 0x80:
            n = b[i] + 256 * b[i + 1]
            out.append(b[i + 2:i + 2 + n].decode())
            i += 2 + n
        else:
            fl, wd, ix = 0x60000020, 0, None
            if n & 1:
                fl = int.from_bytes(b[i:i + 4], "little")
                i += 4
            if n & 2:
                wd = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if n & 4:
                i += 2
            if n & 8:
                ix = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if n & 0x30:
                raise Odd("width given at run time")
            if ix is None:
                ix = nxt
            nxt = ix + 1
            out.append((ix, fl, wd))
    raise Odd("template not understood")


def shown(ck, p):
    """what a formatting function prints: list of pieces with argument values"""
    calls = {}
    tmpl = []

    def tracer(E, c, key, path, a, site):
        if key == "Argument::new_display":
            calls.setdefault("args", []).append(E.read(c.st, a[0]))
        if key == "Arguments::new":
            tmpl.append(a)
    s = ck.summary(p, tracer=tracer)
    return s, calls.get("args", []), tmpl


def dates(ck):
    disp = "<crate::dates::Date as std::fmt::Display>::fmt"
    wr = "<crate::dates::Date as crate::serde::Serialize>::serialize"
    rd = "<crate::dates::Date as crate::serde::Deserialize<'de>>::deserialize"
    s, vals, tm = shown(ck, disp)
    if s is None or len(tm) != 1:
        return ck.unk("date", "text", ck.where(disp), "text of a date not followed")
    hx = [t.args[0] for x in tm[0] for t in (subterms(x) if isinstance(x, T) else []) if t.op == "const" and t.args[0].startswith("bytes:")]
    E = s.E
    ymd = ck.summary("crate::dates::Date::ymd")
    if not hx or ymd is None:
        return ck.unk("date", "text", ck.where(disp), "text of a date not followed")
    pieces = template(hx[0][6:])
    r = ck.summary(rd)
    if r is None:
        return ck.unk("date", "reader", ck.where(rd), "not followed")
    splits = set(t for t in subterms(r.ret) if t.op == "call" and t.args[0] == "str::split")
    if len(splits) != 1:
        return ck.unk("date", "reader", ck.where(rd), "text not split at one mark")
    sp = splits.pop()
    sep = sp.args[1][1]
    sep = sep.args[0] if sep.op == "str" else None
    if not all((isinstance(x, str) and i % 2) or (isinstance(x, tuple) and not i % 2) for i, x in enumerate(pieces)) \
            or len(pieces) != 5 or sep is None:
        return ck.unk("date", "text", ck.where(disp), "not three numbers with marks between")
    for x in pieces[1::2]:
        if x == sep:
            ck.ok("date", "mark", ck.where(disp))
        else:
            ck.bad("date", "mark", ck.where(disp), "dates are written with %r between parts, and read as split at %r" % (x, sep))
    for ix, fl, wd in pieces[0::2]:
        if wd <= 1 or fl & 0x01000000 or chr(fl & 0x1fffff) == "0":
            ck.ok("date", "digits %d" % ix, ck.where(disp))
        else:
            ck.bad("date", "digits %d" % ix, ck.where(disp), "padding in a written date is not a digit, so it cannot be read")
    # order of the parts
    want = [fld(subst(ymd.ret, {}), str(i)) for i in range(3)]
    printed = [vals[ix] if ix < len(vals) else None for ix, fl, wd in pieces[0::2]]
    order = []
    for v in printed:
        hit = [i for i in range(3) if v is want[i]]
        order.append(hit[0] if len(hit) == 1 else None)
    # reader: which piece of text gives year, month, day
    cons = "crate::dates::Date::from_ymd"
    got = {}

    def tracer(E, c, key, path, a, site):
        if key in ("dates::truncated_julian_from_ymd", "Date::from_ymd", "dates::julian_from_ymd"):
            got.setdefault(key, a)
    q = ck.summary(rd, tracer=tracer)
    a = next(iter(got.values())) if got else None
    if a is None or len(a) != 3:
        return ck.unk("date", "parts", ck.where(rd), "how the date is built is not followed")
    read = []
    for x in a:
        ps = set()
        for t in subterms(x):
            if t.op == "idx" and t.args[0] is sp:
                ps.add(t.args[1])
        read.append(ps)
    nums = [next(iter(z)) if len(z) == 1 else None for z in read]
    if None in nums or None in order:
        return ck.unk("date", "parts", ck.where(rd), "parts not followed: %s" % [show(x, 4) for x in a])
    for place, what in enumerate(("year", "month", "day")):
        if nums[place] is num(order.index(place)) if place in order else False:
            ck.ok("date", what, ck.where(rd))
        else:
            ck.bad("date", what, ck.where(rd), "the %s of a date is not read from the place where it is written" % what)


def smiles(ck):
    """readers registered under a tag: they read the type itself, or the part of it that is written"""
    for p in ck.F.bodies:
        m = re.match(r"^(crate::.*)::from_serial$", p)
        if not m or "tests::" in p:
            continue
        x = m.group(1)
        nm = x.split("::")[-1]
        r = summ_or_unk(ck, "from tag", nm, p, dict(opaque=opq("VolSmile::volatility", "VolSmile::volatilities",
                                                               "Interpolate::interpolate")))
        if r is None:
            continue
        ins = set(t for t in subterms(r.ret) if t.op == "call" and t.args[0].startswith("Deserialize::deserialize@"))
        if len(ins) != 1:
            ck.unk("from tag", nm, ck.where(p), "not read as one type")
            continue
        inner = ins.pop()
        if r.ret is inner:
            if base(inner.args[0].split("@")[1]) == base(x):
                ck.ok("from tag", nm, ck.where(p))
            else:
                ck.unk("from tag", nm, ck.where(p), "read as %s" % inner.args[0])
            continue
        val = fld(inner, "Ok.0")
        vals = oks(r.ret)
        part = kept(ck, x)
        if not vals or part is None:
            ck.unk("from tag", nm, ck.where(p), "value read not followed")
            continue
        for v in vals:
            got = subst(part, {P("self"): v})
            ck.same("from tag", nm, ck.where(p), neutral(got, val), P("read"), TRUE,
                    "what is read back into %s is not what it writes" % nm)


def kept(ck, x, d=3):
    """the part of an x that its writer writes, following writers that pass on to one part"""
    me = P("self")
    ws = [p for p in ck.F.bodies if (W.match(p) and base(W.match(p).group(2)) == x) or
          re.match(r"^<%s(<.*>)? as crate::serde::Serialize>::serialize$" % re.escape(x), p)]
    if len(ws) != 1 or d == 0:
        return None
    s = ck.summary(ws[0])
    if s is None or s.ret.op != "call":
        return None
    n, a = s.ret.args
    if n == "Serializer::serialize_newtype_struct":
        t = a[2]
    elif n == "Serialize::serialize":
        t = a[0]
    else:
        return None
    if not (t.op == "fld" and t.args[0] is me):
        return None
    f = [g for g in ck.F.adts[x]["variants"][0]["fields"] if g["n"] == t.args[1]]
    y = ck.F.types[f[0]["t"]].get("path") if f else None
    rest = kept(ck, y, d - 1) if y in ck.F.adts else None
    return subst(rest, {me: t}) if rest is not None else t
