"""Panics and the C interface.  Effect analysis over the call graph of every exported function: what
runs outside a panic barrier must be total.  Conditions of panics in local code come from the
function's summary, so an unwrap that cannot fail is not one."""
from terms import *
from common import *

FLOOR = 10
BARRIER = ("std::panic::catch_unwind", "std::panicking::catch_unwind", "std::panicking::try")
# functions of the standard library that return for every argument; those taking closures are as total as the closures
TOTAL = ("std::boxed::Box::", "std::ffi::CString::", "std::ffi::CStr::", "std::fmt::Arguments::", "std::fmt::rt::", "std::option::Option::", "std::result::Result::", "std::mem::",
         "std::ptr::", "std::convert::", "std::string::", "std::borrow::", "std::str::from_utf8", "std::str::<impl", "std::io::stderr", "std::sync::Arc::", "std::any::", "std::num::",
         "std::vec::Vec::<T>::new", "std::cmp::", "std::hint::", "std::fs::File::open", "std::error::Error::", "std::panic::AssertUnwindSafe")
TOTAL_AS = ("std::string::ToString", "std::clone::Clone", "std::convert::", "std::ops::Deref", "std::ops::Drop", "std::ops::Try", "std::ops::FromResidual", "std::default::Default", "std::cmp::", "std::borrow::",
            "std::io::Write", "std::error::Error", "std::fmt::")
# those that panic: how they depend on their arguments is in the summary
VALUE = ("::unwrap", "::expect", "::unwrap_err", "::expect_err")
PANICS = ("std::io::_print", "std::io::_eprint", "std::process::", "std::cell::RefCell", "std::rt::", "std::panic::resume_unwind", "std::panic::panic_any", "std::thread::", "core::panicking", "std::panicking")


def exports(ck):
    return [p for p, b in ck.F.bodies.items() if b.get("no_mangle") and (b.get("abi") or "").startswith("C ")]


def run(ck):
    n = 0
    for p in exports(ck):
        ck.part(one, p)
        n += 1
    ck.count("exported functions", n)


def name(p):
    return p.split("::")[-1]


def one(ck, p):
    w = ck.where(p)
    s = ck.summary(p)
    if s is None:
        ck.unk("total", name(p), w, "not summarised")
    else:
        ck.same("total", name(p), w, s.cond, TRUE, TRUE, "it can panic outside the barrier")
        caught(ck, p, s)
    bad, unk = [], []
    outside(ck, p, set(), bad, unk, s is not None and s.cond is TRUE)
    if bad:
        ck.bad("barrier", name(p), w, "outside the panic barrier: " + "; ".join(sorted(set(bad))[:4]))
    elif unk:
        ck.unk("barrier", name(p), w, "not known to be total: " + ", ".join(sorted(set(unk))[:4]))
    else:
        ck.ok("barrier", name(p), w)


def caught(ck, p, s):
    """a caught panic gives an error"""
    ps = [x for x in subterms(s.ret) if x.op == "panicked"]
    if not ps or ck.F.types[ck.F.bodies[p]["output"]]["s"] != "u64":
        return
    v = s.ret
    for x in ps:
        v = restrict(v, boolify(x))
    wrong = [l for l in leaves(v) if not (l.op == "agg" and l.args[1] == "Err")]
    if any(l.op == "unk" for l in wrong):
        return ck.unk("caught", name(p), ck.where(p), "not modelled")
    ck.require(not wrong, "caught", name(p), ck.where(p), "a caught panic is returned as %s" % (show(wrong[0], 6)[:200] if wrong else ""))


def fragile(ck, t, seen):
    """dropping a value of this type runs code that is not known to be total"""
    if t in seen:
        return False
    seen.add(t)
    ty = ck.F.types[t]
    if ty["k"] == "dyn":
        return ty.get("path") != "std::any::Any"
    if ty["k"] in ("ref", "ptr", "fn", "fnptr"):
        return False
    if ty.get("path") in ck.F.adts:
        if ck.F.impl_method("std::ops::Drop", ty["path"], "drop"):
            return True
        for v in ck.F.adts[ty["path"]]["variants"]:
            for f in v["fields"]:
                if f.get("t") is not None and fragile(ck, f["t"], seen):
                    return True
    return any(fragile(ck, a, seen) for a in ty.get("args") or [] if isinstance(a, int))


def outside(ck, p, seen, bad, unk, total):
    """what runs outside the barrier, from p on"""
    if p in seen:
        return
    seen.add(p)
    ck.functions.add(p)
    F = ck.F
    body = F.bodies[p]["body"]
    for bl in body["blocks"]:
        if bl["c"]:
            continue
        t = bl["t"]
        if t["k"] == "drop":
            if caughtdrop(F, t["t"]):
                continue
            if fragile(ck, t["t"], set()):
                bad.append("%s drops a %s" % (name(p), F.types[t["t"]]["s"].split("::")[-1]))
        elif t["k"] == "assert":
            if not total and (t.get("msg") or {}).get("k") != "other":
                bad.append("%s can fail an arithmetic or bounds check" % name(p))
        elif t["k"] == "call":
            fn = t["f"].get("fn") if t["f"]["o"] == "const" else None
            if fn is None:
                bad.append("%s calls through a pointer" % name(p))
                continue
            r = fn.get("res") or fn["path"]
            ck.count("calls outside a barrier")
            if r in BARRIER:
                continue
            clos = [F.types[a]["path"] for a in (fn.get("args") or []) if F.types[a]["k"] == "closure" and F.types[a].get("path") in F.bodies]
            if r in F.bodies and not fn.get("virtual"):
                outside(ck, r, seen, bad, unk, total)
                continue
            for c in clos:
                outside(ck, c, seen, bad, unk, total)
            if fn.get("virtual") or fn.get("trait_local"):
                bad.append("%s calls %s" % (name(p), short(r)))
            elif r.endswith(VALUE):
                if not total:
                    bad.append("%s may %s a failure" % (name(p), r.split("::")[-1]))
            elif r.startswith(PANICS):
                bad.append("%s calls %s, which can panic" % (name(p), short(r)))
            elif r.startswith(TOTAL) or " as " in r and r.split(" as ")[1].startswith(TOTAL_AS) or fn.get("trait", "").startswith(TOTAL_AS):
                pass
            elif not r.startswith(("std::", "core::", "alloc::", "<")):
                bad.append("%s calls %s" % (name(p), short(r)))
            else:
                unk.append(short(r))


def caughtdrop(F, t):
    """the outcome of a barrier: only the panic's own payload is left in it"""
    ty = F.types[t]
    if ty["s"].startswith("std::boxed::Box<dyn std::any::Any"):
        return True
    a = ty.get("args") or []
    return ty.get("path") == "std::result::Result" and len(a) == 2 and F.types[a[1]]["s"].startswith("std::boxed::Box<dyn std::any::Any")
