"""The C header against the exported functions.  Both sides are read from their compilers: the
header's declarations from clang's syntax tree, the exports' signatures from the type-checked crate."""
import json
import os
import subprocess
from terms import *
from common import *
from c16 import exports, name

FLOOR = 15
HEADER = os.path.join(os.environ.get("QM_REPO", "/repo"), "quantmath.h")
CTYPE = {"u64": ("unsigned long", "unsigned long long"), "i64": ("long", "long long"), "u32": ("unsigned int",), "i32": ("int",), "u8": ("unsigned char",), "f64": ("double",), "f32": ("float",),
         "bool": ("_Bool", "bool"), "()": ("void",), "i8": ("char", "signed char"), "usize": ("unsigned long",)}


def run(ck):
    ck.part(compare)


def header():
    """{function: (result, [(parameter, type)])}, {enum: [(constant, value)]}"""
    if not os.path.exists(HEADER):
        return None
    r = subprocess.run(["clang", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-x", "c", HEADER], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if r.returncode:
        return r.stderr.decode("utf8", "replace").strip().split("\n")[0]
    d = json.loads(r.stdout)
    fns, enums = {}, {}
    canon = lambda t: (t.get("desugaredQualType") or t["qualType"]).replace("enum ", "")

    def types(x):
        return canon(x["type"])
    for x in d["inner"]:
        if x["kind"] == "FunctionDecl" and x["name"].startswith("qm"):
            q = x["type"]["qualType"]
            res = q[:q.index("(")].strip()
            fns[x["name"]] = (alias(res, d), [(y.get("name", ""), alias(types(y), d)) for y in x.get("inner", []) if y["kind"] == "ParmVarDecl"])
        elif x["kind"] == "EnumDecl" and x.get("name"):
            n, vs = 0, []
            for y in x.get("inner", []):
                if y["kind"] != "EnumConstantDecl":
                    continue
                e = [z for z in y.get("inner", []) if z["kind"] == "ConstantExpr"]
                if e:
                    n = int(e[0]["value"])
                vs.append((y["name"], n))
                n += 1
            enums[x["name"]] = vs
    return fns, enums


_alias = {}


def alias(t, d):
    """type with typedef names replaced"""
    if not _alias:
        for x in d["inner"]:
            if x["kind"] == "TypedefDecl":
                _alias[x["name"]] = x["type"].get("desugaredQualType") or x["type"]["qualType"]
    words = t.replace("*", " * ").split()
    return " ".join(_alias.get(w, w) for w in words if w != "enum")


def agrees(F, ty, c):
    """Rust type index against a C type"""
    t = F.types[ty]
    s = t["s"]
    if s.startswith("*const ") or s.startswith("*mut "):
        inner = [k for k, v in enumerate(F.types) if v["s"] == s.split(" ", 1)[1]]
        if not inner or not c.endswith("*"):
            return False
        c = c[:-1].strip()
        const = c.startswith("const ")
        return const == s.startswith("*const") and agrees(F, inner[0], c[6:] if const else c)
    if s in CTYPE:
        return c in CTYPE[s]
    if t.get("path") in F.adts:
        return c == t["path"].split("::")[-1]
    return None


def compare(ck):
    F = ck.F
    h = header()
    if h is None:
        return ck.unk("header", "quantmath.h", "quantmath.h", "no header")
    if isinstance(h, str):
        return ck.bad("header", "quantmath.h", "quantmath.h", "a C compiler rejects it: " + h)
    fns, enums = h
    ex = dict((name(p), p) for p in exports(ck))
    ck.count("declarations", len(fns))
    for n in sorted(set(fns) | set(ex)):
        if n not in ex:
            ck.bad("declared", n, "quantmath.h", "declared but not exported")
            continue
        b, w = F.bodies[ex[n]], ck.where(ex[n])
        if n not in fns:
            ck.bad("declared", n, w, "exported but not declared")
            continue
        ck.ok("declared", n, w)
        res, ps = fns[n]
        if len(ps) != len(b["inputs"]):
            ck.bad("signature", n, w, "%d parameters, %d declared" % (len(b["inputs"]), len(ps)))
            continue
        bad, unk = [], []
        for t, (q, c), rn in list(zip(b["inputs"], ps, b["argnames"])) + [(b["output"], ("result", res), "result")]:
            r = agrees(F, t, c)
            if r is None:
                unk.append(rn)
            elif not r:
                bad.append("%s is %s, declared %s" % (rn, F.types[t]["s"], c))
        names = [q for q, _ in ps]
        if sorted(names) == sorted(b["argnames"]) and names != b["argnames"]:
            bad.append("parameters are declared in another order")
        if bad:
            ck.bad("signature", n, w, "; ".join(bad))
        elif unk:
            ck.unk("signature", n, w, "type of %s not known" % ", ".join(unk))
        else:
            ck.ok("signature", n, w)
    used = set(F.types[t].get("path") for p in ex.values() for t in F.bodies[p]["inputs"] + [F.bodies[p]["output"]])
    for p in sorted(x for x in used if x in F.adts):
        a = F.adts[p]
        n, w = p.split("::")[-1], a["span"]
        if a["kind"] != "enum" or n not in enums:
            ck.unk("layout", n, w, "not an enumeration of the header")
            continue
        mine = sorted((v["n"], d) for v, d in zip(a["variants"], a["discrs"]))
        ck.require(mine == sorted(enums[n]) and a.get("repr_c"), "layout", n, w,
                   "constants differ or the layout is not C's: %s, declared %s" % (mine, sorted(enums[n])))
