"""Pretty-print MIR facts for a function (development aid)."""
import json, sys


def place(p):
    s = "_%d" % p["l"]
    for x in p.get("p", []):
        if x == "*":
            s = "(*%s)" % s
        elif x == "?":
            s += ".?"
        elif "f" in x:
            s += ".%s" % (x.get("n") or x["f"])
        elif "i" in x:
            s += "[_%s]" % x["i"]
        elif "ci" in x:
            s += "[%s%s]" % ("-" if x["end"] else "", x["ci"])
        elif "v" in x:
            s += " as %s" % x["v"]
        else:
            s += str(x)
    return s


def opnd(o):
    if o["o"] in ("copy", "move"):
        return ("" if o["o"] == "copy" else "move ") + place(o["pl"])
    if o["o"] == "const":
        if "fn" in o:
            f = o["fn"]
            return "fn<%s%s>" % (f.get("res") or f["path"], " VIRT" if f.get("virtual") else "" if f.get("res") else " UNRES")
        for k in ("promoted", "named", "bool", "int", "f64", "bits", "static", "fnptr", "str"):
            if k in o:
                return "%s:%r" % (k, o[k])
        return "const(%s)" % {k: v for k, v in o.items() if k not in ("o",)}
    return str(o)


def rv(r):
    k = r["r"]
    if k == "use":
        return opnd(r["a"])
    if k == "ref":
        return "&%s%s" % ("mut " if r.get("mut") else "", place(r["pl"]))
    if k == "bin":
        return "%s(%s, %s)" % (r["op"], opnd(r["a"]), opnd(r["b"]))
    if k == "un":
        return "%s(%s)" % (r["op"], opnd(r["a"]))
    if k == "cast":
        return "cast[%s](%s)" % (r["k"], opnd(r["a"]))
    if k == "discr":
        return "discr(%s)" % place(r["pl"])
    if k == "agg":
        return "agg[%s %s %s](%s)" % (r["k"], r.get("path", ""), r.get("v", ""), ", ".join(opnd(o) for o in r["ops"]))
    return str(r)


def body(b, T):
    out = []
    for i, t in enumerate(b["locals"]):
        nm = [n for n, p in b["names"] if isinstance(p, dict) and p.get("l") == i and not p.get("p")]
        out.append("  let _%d: %s  %s" % (i, T[t]["s"], ",".join(nm)))
    for i, bl in enumerate(b["blocks"]):
        if bl["c"]:
            continue
        out.append(" bb%d:" % i)
        for s in bl["s"]:
            if "setd" in s:
                out.append("    setd %s" % s)
            else:
                out.append("    %s = %s" % (place(s["pl"]), rv(s["rv"])))
        t = bl["t"]
        if t["k"] == "call":
            out.append("    %s = %s(%s) -> %s   [%s]" % (place(t["d"]), opnd(t["f"]), ", ".join(opnd(a) for a in t["args"]), t["to"], t["sp"]))
        elif t["k"] == "switch":
            out.append("    switch %s %s else %s" % (opnd(t["a"]), t["cases"], t["else"]))
        elif t["k"] == "drop":
            out.append("    drop %s -> %s" % (place(t["pl"]), t["to"]))
        elif t["k"] == "assert":
            out.append("    assert %s==%s %s -> %s" % (opnd(t["a"]), t["exp"], t["msg"]["k"], t["to"]))
        else:
            out.append("    %s" % {k: v for k, v in t.items() if k != "sp"})
    return "\n".join(out)


if __name__ == "__main__":
    F = json.load(open(sys.argv[1]))
    for p, b in F["bodies"].items():
        if sys.argv[2] in p:
            print("fn", p, b.get("generics"), b["span"])
            if len(sys.argv) < 4:
                print(body(b["body"], F["types"]))
                for i, q in enumerate(b["promoted"]):
                    print(" promoted", i)
                    print(body(q, F["types"]))
