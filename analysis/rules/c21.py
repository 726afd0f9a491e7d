"""Repeatability and sharing.  Effect analysis of the resolved program: every mention of a library function
that answers from outside the arguments (clock, environment, files, threads, random numbers, memory not
written) is listed with its function and its chain of callers; every static is classified; every type that is
handed around shared is searched, through its fields, for cells that can be altered through a shared
reference."""
import re
from common import *

FLOOR = 25

OUTSIDE = re.compile(r"^(?:std|core|alloc)::(?:time::(?:SystemTime|Instant)|env|process|os|net)::|::std::time::|^(?:crate::)?(?:time|chrono|getrandom)::|"
                     r"thread::(?:current|Thread|ThreadId|available_parallelism)|io::(?:stdin|Stdin)|hash::(?:RandomState|random)|hash_map::RandomState|RandomState as|"
                     r"std::panic::Location|backtrace")
FILES = re.compile(r"^std::fs::|<std::fs::File as")
RANDOM = re.compile(r"^(?:crate::)?(?:rand|rand_core|rand_distr)::(?!distributions|Normal)|<(?:crate::)?rand::(?:StdRng|ThreadRng|OsRng)[^>]*>? as")
UNSET = re.compile(r"mem::(?:uninitialized|zeroed)|MaybeUninit.*::(?:assume_init|uninit)|::set_len$|get_unchecked")
CELLS = re.compile(r"^(?:std|core|alloc)::(?:cell|sync::(?!Arc$|Weak$))|^(?:crate::)?(?:parking_lot|once_cell|arc_swap)::")
ONCE = re.compile(r"lazy_static::|sync::(?:LazyLock|OnceLock|Once|lazy|once)")
SHARED = ("Calendar", "DateRule", "RateCurve", "VolSurface", "VolSmile", "Instrument", "PricerFactory", "MonteCarloModelFactory", "ReportGenerator")
HELD = ("FixingTable", "Fixings", "MarketData", "DividendStream", "Currency", "CreditEntity", "Date", "DateTime", "DateDayFraction")
MODEL = ("MonteCarloModel", "MonteCarloModelFactory")


def run(ck):
    ck.part(effects)
    ck.part(statics)
    ck.part(shared)


def mentions(x):
    """functions named anywhere in a body"""
    if isinstance(x, dict):
        if isinstance(x.get("fn"), dict):
            yield x["fn"], x
        for v in x.values():
            for y in mentions(v):
                yield y
    elif isinstance(x, list):
        for v in x:
            for y in mentions(v):
                yield y


def graph(ck):
    """(function -> local functions that mention it, function -> library functions it mentions)"""
    up, out = {}, {}
    for p, b in ck.F.bodies.items():
        if "::{closure" in p:
            up.setdefault(p, set()).add(p.split("::{closure")[0])
        for f, _ in mentions([b.get("body"), b.get("promoted")]):
            q = f.get("res") or f["path"]
            if q in ck.F.bodies:
                up.setdefault(q, set()).add(p)
            else:
                out.setdefault(p, set()).add(q)
                if f["path"] != q:
                    out[p].add(f["path"])
    return up, out


def roots(up, p):
    """functions at the top of the chains of callers of p, and all on the way"""
    seen, todo, tops = set(), [p], set()
    while todo:
        q = todo.pop()
        if q in seen:
            continue
        seen.add(q)
        us = [u for u in up.get(q, ()) if u != q]
        if not us:
            tops.add(q)
        todo += us
    return tops


def owner(ck, p):
    """path of the type a method belongs to"""
    b = ck.F.bodies.get(p) or {}
    t = b.get("self_ty")
    if t is None:
        return None
    t = ck.F.types[t] if isinstance(t, int) else t
    return t.get("path") if isinstance(t, dict) else None


def implementors(ck, traits):
    out = {}
    for im in ck.F.impls:
        t = im.get("trait")
        if t in ck.F.traits and t.split("::")[-1] in traits:
            ty = ck.F.types[im["self"]]
            if ty["k"] == "adt" and ty.get("path") in ck.F.adts:
                out.setdefault(ty["path"], set()).add(t.split("::")[-1])
    return out


def effects(ck):
    up, out = graph(ck)
    models = set(implementors(ck, MODEL))
    n, odd = 0, set()
    for p in sorted(ck.F.bodies):
        b = ck.F.bodies[p]
        for q in sorted(out.get(p, ())):
            n += 1
            if OUTSIDE.search(q):
                ck.bad("effect", "%s: %s" % (p, q), ck.where(p), "its answer is not determined by its arguments")
            elif UNSET.search(q):
                ck.unk("effect", "%s: %s" % (p, q), ck.where(p), "memory may be read before it is written")
            elif RANDOM.search(q) and not b["derived"]:
                tops = roots(up, p)
                off = sorted(t for t in tops if owner(ck, t) not in models)
                if off:
                    ck.bad("effect", "%s: %s" % (p, q), ck.where(p), "random numbers outside a simulation, by way of %s" % off[0])
                else:
                    ck.ok("effect", "%s: %s" % (p, q), ck.where(p))
            elif FILES.search(q):
                tops = roots(up, p)
                off = sorted(t for t in tops if not (ck.F.bodies[t].get("no_mangle") or "::facade::" in t))
                if off:
                    ck.bad("effect", "%s: %s" % (p, q), ck.where(p), "a file is read or written by way of %s" % off[0])
                else:
                    ck.ok("effect", "%s: %s" % (p, q), ck.where(p))
            else:
                continue
            odd.add(p)
    ck.count("functions", len(ck.F.bodies))
    ck.count("mentions of library functions", n)
    by = {}
    for p in ck.F.bodies:
        m = re.search(r"crate::(\w+)::", p)
        by.setdefault(m.group(1) if m else "other", []).append(p)
    for m in sorted(by):
        # one obligation for all functions without any such mention
        ck.ok("no effect", m, "%d functions" % len([p for p in by[m] if p not in odd]))


def statics(ck):
    for s, d in sorted(ck.F.statics.items()):
        t = ck.F.types[d["t"]]["s"]
        if d["mut"]:
            ck.bad("static", s, d["span"], "state that any call can alter")
        elif d["freeze"] or ONCE.search(t) and not re.search(r"Mutex|RwLock|Atomic|RefCell|[^y]Cell<", t.split("<", 1)[-1]):
            ck.ok("static", s, d["span"])
        elif d["tls"] and "::dedup::Dedup<" in t:
            ck.ok("static", s, d["span"])       # the sharing tables: in force for the length of one scope only
        else:
            ck.bad("static", s, d["span"], "state that outlives a call: %s" % t[:120])
    ck.count("statics", len(ck.F.statics))


def cells(ck, t, seen, path=""):
    """a cell inside type number t, not looking through trait objects (their types are searched on their own)"""
    if t in seen:
        return None
    seen.add(t)
    ty = ck.F.types[t]
    p = ty.get("path") or ""
    if CELLS.search(p):
        return path or ty["s"]
    if ty["k"] == "adt" and p in ck.F.adts:
        for v in ck.F.adts[p]["variants"]:
            for f in v["fields"]:
                r = cells(ck, f["t"], seen, (path + "." if path else "") + f["n"])
                if r:
                    return r
    for a in ty.get("args") or ():
        if isinstance(a, int):
            r = cells(ck, a, seen, path)
            if r:
                return r
    return None


def shared(ck):
    ims = implementors(ck, SHARED)
    for nm in HELD:
        p = ck.F.adt_path(nm)
        if p:
            ims.setdefault(p, set())
    for p in sorted(ims):
        d = ck.F.adts[p]
        inst = p.split("::")[-1]
        generic = any(ck.F.types[a]["k"] == "param" for a in ck.F.types[d["ty"]].get("args") or () if isinstance(a, int))
        r = cells(ck, d["ty"], set())
        ck.require(r is None, "immutable", inst, d["span"], "%s can be altered through a shared reference" % r)
        if generic:
            continue
        ck.require(d["send"] and d["sync"], "threads", inst, d["span"], "cannot be sent to or shared with another thread")
    ck.count("shared types", len(ims))
