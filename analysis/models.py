"""Meaning of the standard library functions the crate uses, as operations on values."""
from fractions import Fraction

from terms import *
import engine as en
from engine import (Some, NONE, Ok, Err, tup, call, fld, length, idx, at, has, put, unput, push, concat, vecof, isvar, ref,
                    mapseg, summ, mk_any, mk_wit, OPT, RES, CF, ORD, OPTP, RESP, CFP, ORDP, SX, SKIP, close, discr_base)

MODELS = {}
PREFIX = []


def model(*keys, **kw):
    def d(f):
        f.always = kw.get("always", False)
        for k in keys:
            MODELS[k] = f
        return f
    return d


def sub_site(E, site, n):
    return E.fid(("sub", site, n))


def content(E, c, i):
    return E.read(c.st, c.args[i])


def deep(E, c, v):
    return E.snap(c.st, v)


def tyof(E, c, sb, i=0):
    a = c.f.get("args") or []
    if i >= len(a):
        return None
    t = E.F.types[a[i]]
    if t["k"] == "param":
        t = E.F.types[sb.get(t["path"], a[i])]
    return t


def under(E, c, cond, fn):
    """run fn only where cond holds; merges the state"""
    c0, st0 = c.cond, c.st
    cc = conj(c0, cond)
    if cc is FALSE or cc is BOT:
        return BOT
    c.st, c.cond = dict(st0), cc
    v = fn()
    s1, c1 = c.st, c.cond
    rest = conj(c0, neg(cond))
    cm, sm = E.merge([(c1, s1), (rest, st0)])
    c.st, c.cond = (sm if sm is not None else dict(st0)), cm
    return v


def panic_unless(E, c, cond, what):
    bad = conj(c.cond, neg(cond))
    if bad is not FALSE and bad is not BOT:
        E.panics.append((bad, what, c.span, c.fr.path))
    c.cond = conj(c.cond, cond)


# ------------------------------------------------------------------------- identities
@model("Deref::deref", "DerefMut::deref_mut", always=True)
def m_deref(E, c, sb, site):
    t = tyof(E, c, sb, 0)
    if t and t.get("path") in ("std::cell::Ref", "std::cell::RefMut"):
        v = content(E, c, 0)
        if all(l.op == "ref" for l in leaves(v)):
            return v
    return c.args[0]


@model("RefCell::borrow_mut", always=True)
def m_borrowmut(E, c, sb, site):
    return withmut(c.args[0], True)


@model("AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut",
       "String::as_str", "Vec::as_slice", "Vec::as_mut_slice", "RefCell::borrow", "Box::as_ref",
       "Box::as_mut", "Arc::make_mut", "String::as_bytes", "str::as_bytes", always=True)
def m_same(E, c, sb, site):
    return c.args[0]


@model("Box::new", "Arc::new", "Rc::new", "RefCell::new", "Cell::new", "hint::must_use", "hint::black_box", "Box::from",
       "slice::into_vec", "boxed::box_assume_init_into_vec_unsafe", "Vec::into_boxed_slice", "Box::into_raw", "Box::from_raw",
       "mem::forget", "String::into_boxed_str", "panic::AssertUnwindSafe", "Iterator::by_ref", "ManuallyDrop::new",
       "NonNull::as_ptr", "intrinsics::transmute", "mem::transmute", "ops::identity", "convert::identity")
def m_id(E, c, sb, site):
    return c.args[0]


@model("Box::new_uninit", "MaybeUninit::uninit")
def m_uninit(E, c, sb, site):
    return T("uninit")


@model("Clone::clone", "ToOwned::to_owned", "slice::to_vec", "str::to_string", "str::to_owned", "Clone::clone_from", "slice::into_vec",
       "String::clone", always=True)
def m_clone(E, c, sb, site):
    return content(E, c, 0)


@model("Into::into", "From::from", "TryInto::try_into")
def m_into(E, c, sb, site):
    k = c.key
    if k == "Into::into":
        src, dst = tyof(E, c, sb, 0), tyof(E, c, sb, 1)
        if dst and dst.get("path"):
            for im in E.F.by_trait_self.get(("std::convert::From", dst["path"]), []):
                ta = im.get("trait_args") or []
                if ta and src and E.F.types[ta[-1]]["s"] == src["s"]:
                    for n, p in im["items"]:
                        if n == "from" and p in E.F.bodies:
                            return E.inlined(c, p, c.args, {}, site)
    if k == "TryInto::try_into":
        return NotImplemented
    v = c.args[0]
    return apply(lambda l: l, E.snap(c.st, v)) if _isref(v) else v


def _isref(v):
    return any(l.op == "ref" for l in leaves(v))


@model("ToString::to_string", "String::from", "SpecToString::spec_to_string")
def m_tostring(E, c, sb, site):
    t = tyof(E, c, sb, 0)
    while t and t["k"] == "ref" and t.get("args"):
        t = E.F.types[t["args"][0]]
    if t is None or t["k"] == "str" or t.get("path") == "std::string::String" or c.key == "String::from":
        return E.snap(c.st, c.args[0])
    return call("to_string", E.snap(c.st, c.args[0]))


@model("mem::drop")
def m_drop(E, c, sb, site):
    return UNIT


@model("mem::swap")
def m_swap(E, c, sb, site):
    a, b = content(E, c, 0), content(E, c, 1)
    E.write(c.st, c.args[0], b)
    E.write(c.st, c.args[1], a)
    return UNIT


@model("mem::replace", "RefCell::replace", "Cell::replace")
def m_replace(E, c, sb, site):
    a = content(E, c, 0)
    E.write(c.st, c.args[0], c.args[1])
    return a


@model("Cell::set")
def m_cellset(E, c, sb, site):
    E.write(c.st, c.args[0], c.args[1])
    return UNIT


@model("Cell::get")
def m_cellget(E, c, sb, site):
    return content(E, c, 0)


def default_of(t):
    if t is None:
        return None
    if t["k"] in ("float", "int", "uint"):
        return ZERO
    if t["k"] == "bool":
        return FALSE
    p = t.get("path")
    if p == "std::vec::Vec":
        return T("vec", ())
    if p in ("std::collections::HashMap", "std::collections::HashSet", "std::collections::BTreeMap"):
        return T("map0")
    if p == "std::string::String":
        return T("str", "")
    if p == OPTP:
        return NONE
    return None


@model("mem::take")
def m_take(E, c, sb, site):
    a = content(E, c, 0)
    d = default_of(tyof(E, c, sb, 0))
    E.write(c.st, c.args[0], d if d is not None else T("call", "Default::default", ()))
    return a


@model("Default::default")
def m_default(E, c, sb, site):
    t = tyof(E, c, sb, 0)
    d = default_of(t)
    return d if d is not None else T("call", "Default::default@" + (t["s"] if t else "?"), ())


# ----------------------------------------------------------------------------- option
def names_for(key):
    return OPT if key.startswith("Option") else RES


def good(E, v, key):
    return isvar(v, OPT, "Some") if key.startswith("Option") else isvar(v, RES, "Ok")


def payload(v, key):
    return fld(v, "Some.0") if key.startswith("Option") else fld(v, "Ok.0")


def wrapg(x, key):
    return Some(x) if key.startswith("Option") else Ok(x)


def bad(v, key):
    return NONE if key.startswith("Option") else Err(fld(v, "Err.0"))


def lift(f, *vs):
    """wrap decision values leafwise into an aggregate"""
    return apply(f, *vs)


def mkGood(x, key):
    return lift(lambda l: wrapg(l, key), x)


def mkErr(x):
    return lift(Err, x)


@model("Option::map", "Result::map")
def m_map(E, c, sb, site):
    v, k = c.args[0], c.key
    g = good(E, v, k)
    r = under(E, c, g, lambda: E.callval(c, c.args[1], [restrict2(payload(v, k), g)], sub_site(E, site, 1)))
    return ite(g, mkGood(r, k), bad_(v, k))


def restrict2(x, g):
    return restrict(x, g) if x.op == "dd" else x


def bad_(v, k):
    if k.startswith("Option"):
        return NONE
    return mkErr(fld(v, "Err.0"))


@model("Result::map_err")
def m_map_err(E, c, sb, site):
    v = c.args[0]
    g = good(E, v, "Result")
    ng = neg(g)
    r = under(E, c, ng, lambda: E.callval(c, c.args[1], [restrict2(fld(v, "Err.0"), ng)], sub_site(E, site, 1)))
    return ite(g, mkGood(fld(v, "Ok.0"), "Result"), mkErr(r))


@model("Option::and_then", "Result::and_then")
def m_and_then(E, c, sb, site):
    v, k = c.args[0], c.key
    g = good(E, v, k)
    r = under(E, c, g, lambda: E.callval(c, c.args[1], [restrict2(payload(v, k), g)], sub_site(E, site, 1)))
    return ite(g, r, bad_(v, k))


@model("Option::map_or", "Result::map_or")
def m_map_or(E, c, sb, site):
    v, k = c.args[0], c.key
    g = good(E, v, k)
    r = under(E, c, g, lambda: E.callval(c, c.args[2], [restrict2(payload(v, k), g)], sub_site(E, site, 1)))
    return ite(g, r, c.args[1])


@model("Option::map_or_else", "Result::map_or_else")
def m_map_or_else(E, c, sb, site):
    v, k = c.args[0], c.key
    g = good(E, v, k)
    d = under(E, c, neg(g), lambda: E.callval(c, c.args[1], [] if k.startswith("Option") else [fld(v, "Err.0")], sub_site(E, site, 2)))
    r = under(E, c, g, lambda: E.callval(c, c.args[2], [restrict2(payload(v, k), g)], sub_site(E, site, 1)))
    return ite(g, r, d)


@model("Option::unwrap", "Result::unwrap", "Option::expect", "Result::expect", "Option::unwrap_unchecked")
def m_unwrap(E, c, sb, site):
    v, k = c.args[0], c.key
    g = good(E, v, k)
    panic_unless(E, c, g, k)
    r = payload(v, k)
    return restrict2(r, g)


@model("Result::unwrap_err", "Result::expect_err")
def m_unwrap_err(E, c, sb, site):
    v = c.args[0]
    g = neg(good(E, v, "Result"))
    panic_unless(E, c, g, c.key)
    return restrict2(fld(v, "Err.0"), g)


@model("Option::unwrap_or", "Result::unwrap_or")
def m_unwrap_or(E, c, sb, site):
    v, k = c.args[0], c.key
    return ite(good(E, v, k), payload(v, k), c.args[1])


@model("Option::unwrap_or_else", "Result::unwrap_or_else")
def m_unwrap_or_else(E, c, sb, site):
    v, k = c.args[0], c.key
    g = good(E, v, k)
    d = under(E, c, neg(g), lambda: E.callval(c, c.args[1], [] if k.startswith("Option") else [restrict2(fld(v, "Err.0"), neg(g))],
                                             sub_site(E, site, 1)))
    return ite(g, payload(v, k), d)


@model("Option::unwrap_or_default", "Result::unwrap_or_default")
def m_unwrap_or_default(E, c, sb, site):
    v, k = c.args[0], c.key
    d = default_of(tyof(E, c, sb, 0))
    return ite(good(E, v, k), payload(v, k), d if d is not None else T("call", "Default::default", ()))


@model("Option::ok_or")
def m_ok_or(E, c, sb, site):
    v = c.args[0]
    return ite(good(E, v, "Option"), mkGood(fld(v, "Some.0"), "Result"), mkErr(c.args[1]))


@model("Option::ok_or_else")
def m_ok_or_else(E, c, sb, site):
    v = c.args[0]
    g = good(E, v, "Option")
    e = under(E, c, neg(g), lambda: E.callval(c, c.args[1], [], sub_site(E, site, 1)))
    return ite(g, mkGood(fld(v, "Some.0"), "Result"), mkErr(e))


@model("Result::ok")
def m_ok(E, c, sb, site):
    v = c.args[0]
    return ite(good(E, v, "Result"), mkGood(fld(v, "Ok.0"), "Option"), NONE)


@model("Result::err")
def m_err(E, c, sb, site):
    v = c.args[0]
    return ite(good(E, v, "Result"), NONE, mkGood(fld(v, "Err.0"), "Option"))


@model("Option::or", "Result::or")
def m_or(E, c, sb, site):
    v, k = c.args[0], c.key
    g = good(E, v, k)
    return ite(g, mkGood(payload(v, k), k), c.args[1])


@model("Option::xor")
def m_xor(E, c, sb, site):
    a, b = c.args[0], c.args[1]
    ga, gb = good(E, a, "Option"), good(E, b, "Option")
    return ite(ga, ite(gb, NONE, a), b)


@model("Option::or_else", "Result::or_else")
def m_or_else(E, c, sb, site):
    v, k = c.args[0], c.key
    g = good(E, v, k)
    d = under(E, c, neg(g), lambda: E.callval(c, c.args[1], [] if k.startswith("Option") else [fld(v, "Err.0")], sub_site(E, site, 1)))
    return ite(g, mkGood(payload(v, k), k), d)


@model("Option::filter")
def m_ofilter(E, c, sb, site):
    v = c.args[0]
    g = good(E, v, "Option")
    root = ("L", E.fid(("tmp", site)), 0)
    c.st[root] = fld(v, "Some.0")
    r = under(E, c, g, lambda: E.callval(c, c.args[1], [ref(root)], sub_site(E, site, 1)))
    return ite(conj(g, apply(boolify, r)), mkGood(fld(v, "Some.0"), "Option"), NONE)


@model("Option::is_some", "Result::is_ok")
def m_is_some(E, c, sb, site):
    return good(E, content(E, c, 0), c.key)


@model("Option::is_none", "Result::is_err")
def m_is_none(E, c, sb, site):
    return neg(good(E, content(E, c, 0), c.key))


@model("Option::as_ref", "Option::as_mut", "Result::as_ref", "Result::as_mut", "Option::as_deref", "Option::as_deref_mut", always=True)
def m_as_ref(E, c, sb, site):
    k = c.key
    v = content(E, c, 0)
    g = good(E, v, k)
    loc = E.extend_loc(c.args[0], ("f", "Some.0" if k.startswith("Option") else "Ok.0"))
    m = "mut" in k
    loc = apply(lambda l: ref(l.args[0], l.args[1], m or l.args[2]), loc)
    b = NONE if k.startswith("Option") else lift(Err, E.extend_loc(c.args[0], ("f", "Err.0")))
    return ite(g, mkGood(loc, k), b)


@model("Option::cloned", "Option::copied")
def m_cloned(E, c, sb, site):
    v = c.args[0]
    return ite(good(E, v, "Option"), mkGood(E.read(c.st, fld(v, "Some.0")), "Option"), NONE)


@model("Option::take")
def m_otake(E, c, sb, site):
    v = content(E, c, 0)
    E.write(c.st, c.args[0], NONE)
    return v


@model("Option::replace", "Option::insert")
def m_oreplace(E, c, sb, site):
    v = content(E, c, 0)
    E.write(c.st, c.args[0], mkGood(c.args[1], "Option"))
    return v


@model("Try::branch")
def m_branch(E, c, sb, site):
    v = c.args[0]
    t = tyof(E, c, sb, 0)
    opt = t is not None and t.get("path") == OPTP
    k = "Option" if opt else "Result"
    g = good(E, v, k)
    cont = lift(lambda l: T("agg", CFP, "Continue", (("Continue.0", l),)), payload(v, k))
    brk = lift(lambda l: T("agg", CFP, "Break", (("Break.0", l),)), NONE if opt else mkErr(fld(v, "Err.0")))
    return ite(g, cont, brk)


@model("FromResidual::from_residual")
def m_residual(E, c, sb, site):
    v = c.args[0]
    t = E.F.types[c.dty] if c.dty is not None else None
    if t is not None and t.get("path") == OPTP:
        return NONE
    return mkErr(fld(v, "Err.0"))


@model("Try::from_output")
def m_from_output(E, c, sb, site):
    t = E.F.types[c.dty] if c.dty is not None else None
    return mkGood(c.args[0], "Option" if t is not None and t.get("path") == OPTP else "Result")


# ---------------------------------------------------------------------------- callables
def untuple(E, c, v):
    if v.op == "agg" and v.args[0] == "tuple":
        return [x for _, x in v.args[2]]
    return None


@model("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def m_call(E, c, sb, site):
    a = untuple(E, c, c.args[1])
    if a is None:
        return NotImplemented
    f = c.args[0]
    # &F / &mut F / Box<F>
    n = 0
    while f.op == "ref" and n < 3:
        inner = E.read(c.st, f)
        if inner.op == "ref":
            f = inner
            n += 1
        else:
            break
    return E.callval(c, f, a, site)


@model("panic::catch_unwind", "panicking::catch_unwind", "panicking::try")
def m_catch(E, c, sb, site):
    before = c.cond
    E.active.append(None)
    r = E.callval(c, c.args[0], [], site)
    E.active.pop()
    if c.cond is FALSE:
        c.cond = before
        return lift(Err, T("call", "panic", ()))
    c.cond = before
    p = boolify(T("panicked", site))
    return ite(p, lift(Err, T("call", "panic", ())), mkGood(r, "Result"))


@model("CString::new")
def m_cstring(E, c, sb, site):
    v = E.snap(c.st, c.args[0])
    if v.op != "str" or "\0" in v.args[0]:
        return NotImplemented
    return lift(Ok, T("call", "CString::new", (v,)))


@model("LocalKey::with")
def m_tlswith(E, c, sb, site):
    key = E.read(c.st, c.args[0])
    return E.callval(c, c.args[1], [ref(("M", T("tls", key)))], site)


@model("Any::downcast_ref", "Any::downcast_mut", "any::downcast_ref", "any::downcast_mut")
def m_downcast(E, c, sb, site):
    t = tyof(E, c, sb, 0)
    v = content(E, c, 0)
    name = t["s"] if t else "?"

    def isa(l):
        l = discr_base(l)
        ty = l.args[0] if l.op == "agg" and l.args[0] in E.F.adts else E.dynty.get(l)
        if ty is not None and t and t.get("path"):
            return TRUE if ty == t["path"] else FALSE
        return boolify(T("isa", l, name))
    g = apply(isa, v)
    return ite(g, mkGood(c.args[0], "Option"), NONE)


# -------------------------------------------------------------------------- containers
@model("Vec::new", "Vec::with_capacity", "VecDeque::new")
def m_vecnew(E, c, sb, site):
    return T("vec", ())


@model("HashMap::new", "HashSet::new", "HashMap::with_capacity", "BTreeMap::new", "HashSet::with_capacity", "BTreeSet::new")
def m_mapnew(E, c, sb, site):
    return T("map0")


@model("String::new", "String::with_capacity")
def m_strnew(E, c, sb, site):
    return T("str", "")


@model("Vec::len", "slice::len", "HashMap::len", "HashSet::len", "String::len", "str::len", "BTreeMap::len")
def m_len(E, c, sb, site):
    return length(content(E, c, 0))


@model("Vec::is_empty", "slice::is_empty", "HashMap::is_empty", "HashSet::is_empty", "String::is_empty", "str::is_empty", "BTreeMap::is_empty")
def m_empty(E, c, sb, site):
    return apply(lambda l: eq(l, ZERO), length(content(E, c, 0)))


@model("Vec::push")
def m_push(E, c, sb, site):
    E.write(c.st, c.args[0], push(content(E, c, 0), c.args[1]))
    return UNIT


@model("Vec::shrink_to_fit", "Vec::reserve", "Vec::reserve_exact", "String::reserve", "String::shrink_to_fit", "HashMap::shrink_to_fit", "HashMap::reserve")
def m_capacity(E, c, sb, site):
    return UNIT


@model("Vec::clear", "String::clear")
def m_clear(E, c, sb, site):
    E.write(c.st, c.args[0], T("vec", ()) if c.key == "Vec::clear" else T("str", ""))
    return UNIT


@model("HashMap::clear", "HashSet::clear", "BTreeMap::clear")
def m_mclear(E, c, sb, site):
    E.write(c.st, c.args[0], T("map0"))
    return UNIT


@model("Vec::append")
def m_append(E, c, sb, site):
    E.write(c.st, c.args[0], concat(content(E, c, 0), content(E, c, 1)))
    E.write(c.st, c.args[1], T("vec", ()))
    return UNIT


@model("Vec::extend_from_slice")
def m_extslice(E, c, sb, site):
    E.write(c.st, c.args[0], concat(content(E, c, 0), E.snap(c.st, c.args[1])))
    return UNIT


@model("vec::from_elem")
def m_from_elem(E, c, sb, site):
    return apply(lambda n: T("rep", c.args[0], n), c.args[1])


@model("Vec::resize")
def m_resize(E, c, sb, site):
    v = content(E, c, 0)
    if v.op == "vec" and not v.args[0]:
        E.write(c.st, c.args[0], apply(lambda n: T("rep", c.args[2], n), c.args[1]))
        return UNIT
    return NotImplemented


@model("Vec::insert", "Vec::remove", "Vec::pop", "Vec::truncate", "slice::reverse")
def m_rearrange(E, c, sb, site):
    v = content(E, c, 0)
    n = length(v)
    f, k = c.key.split("::")[1], (c.args[1] if len(c.args) > 1 else None)
    if f == "insert":
        panic_unless(E, c, apply(lambda i, m: neg(lt(m, i)), k, n), c.key)
        if k is ZERO:
            r = concat(T("vec", (("it", c.args[2]),)), v)
        elif k is n:
            r = push(v, c.args[2])
        else:
            at = lambda l, i: ite(lt(SX, i), idx(l, SX), ite(eq(SX, i), c.args[2], idx(l, sub(SX, ONE))))
            r = apply(lambda l, i: vecof(mapseg(add(length(l), ONE), at(l, i), SX)), v, k)
        out = UNIT
    elif f == "remove":
        panic_unless(E, c, apply(lt, k, n), c.key)
        r = apply(lambda l, i: vecof(mapseg(sub(length(l), ONE), ite(lt(SX, i), idx(l, SX), idx(l, add(SX, ONE))), SX)), v, k)
        out = apply(idx, v, k)
    elif f == "pop":
        none = apply(lambda m: eq(m, ZERO), n)
        r = ite(none, v, apply(lambda l: vecof(mapseg(sub(length(l), ONE), idx(l, SX), SX)), v))
        out = ite(none, NONE, mkGood(apply(lambda l: idx(l, sub(length(l), ONE)), v), "Option"))
    elif f == "truncate":
        r = apply(lambda l, i: ite(lt(i, length(l)), vecof(mapseg(i, idx(l, SX), SX)), l), v, k)
        out = UNIT
    else:
        r = apply(lambda l: vecof(mapseg(length(l), idx(l, sub(sub(length(l), ONE), SX)), SX)), v)
        out = UNIT
    E.write(c.st, c.args[0], r)
    return out


@model("Vec::retain")
def m_retain(E, c, sb, site):
    v = content(E, c, 0)
    b = apply(lambda l: idx(l, SX), v)
    root = ("L", E.fid(("tmp", site)), 0)
    c.st[root] = b
    keep = apply(boolify, pure(E, c, c.args[1], [ref(root)], site))
    E.write(c.st, c.args[0], vecof(mapseg(length(v), ite(keep, b, SKIP), SX)))
    return UNIT


@model("slice::fill")
def m_fill(E, c, sb, site):
    v = content(E, c, 0)
    E.write(c.st, c.args[0], apply(lambda n: T("rep", c.args[1], n), length(v)))
    return UNIT


def withmut(loc, m):
    return apply(lambda l: ref(l.args[0], l.args[1], m), loc)


@model("Index::index", "IndexMut::index_mut")
def m_index(E, c, sb, site):
    t = tyof(E, c, sb, 0)
    k = E.snap(c.st, c.args[1])
    m = c.key.startswith("IndexMut")
    p = t.get("path") if t else None
    if p and p.endswith("::ArrayBase"):
        r = arr(E, c)
        if r is None:
            return NotImplemented
        for ki in ([x for _, x in k.args[2]] if k.op == "agg" else [k]):
            r = E.extend_loc(r, ("i", ki))
        return withmut(r, m)
    if p in ("std::collections::HashMap", "std::collections::BTreeMap"):
        v = content(E, c, 0)
        panic_unless(E, c, has(v, k), "HashMap::index")
        return withmut(E.extend_loc(c.args[0], ("key", k)), m)
    if E.bounds:
        v0 = content(E, c, 0)
        n = length(v0)
        if any(l.op == "agg" for l in leaves(k)):
            for f in ("start", "end"):
                if all(l.op == "agg" and f in dict(l.args[2]) for l in leaves(k)):
                    E.within(c.cond, fld(k, f), add(n, ONE), c.fr.path)
                    if t and (t.get("k") == "str" or p == "std::string::String") and fld(k, f) is not ZERO and fld(k, f) is not n:
                        E.events.append((c.cond, "cut", (v0,), None, None, c.fr.path))
        else:
            E.within(c.cond, k, n, c.fr.path)
    if any(l.op == "agg" for l in leaves(k)):
        if m:
            return NotImplemented
        v = content(E, c, 0)
        r = apply(lambda a, b: T("call", "slice", (a, b)), v, k)
        return r
    loc = E.extend_loc(c.args[0], ("i", k))
    return withmut(loc, m)


@model("slice::get", "Vec::get", "slice::get_mut")
def m_get(E, c, sb, site):
    k = c.args[1]
    if any(l.op == "agg" for l in leaves(k)):
        return NotImplemented
    v = content(E, c, 0)
    g = apply(lambda i, n: lt(i, n), k, length(v))
    return ite(g, mkGood(withmut(E.extend_loc(c.args[0], ("i", k)), "mut" in c.key), "Option"), NONE)


@model("slice::get_unchecked")
def m_getu(E, c, sb, site):
    return E.extend_loc(c.args[0], ("i", c.args[1]))


@model("slice::first", "slice::last", "slice::first_mut", "slice::last_mut")
def m_first(E, c, sb, site):
    v = content(E, c, 0)
    n = length(v)
    i = ZERO if "first" in c.key else apply(lambda x: sub(x, ONE), n)
    g = apply(lambda x: lt(ZERO, x), n)
    return ite(g, mkGood(withmut(E.extend_loc(c.args[0], ("i", i)), "mut" in c.key), "Option"), NONE)


@model("HashMap::get", "HashMap::get_mut", "BTreeMap::get", "BTreeMap::get_mut")
def m_hget(E, c, sb, site):
    v = content(E, c, 0)
    k = E.snap(c.st, c.args[1])
    return ite(has(v, k), mkGood(withmut(E.extend_loc(c.args[0], ("key", k)), "mut" in c.key), "Option"), NONE)


@model("HashMap::contains_key", "HashSet::contains", "BTreeMap::contains_key", "BTreeSet::contains")
def m_hcontains(E, c, sb, site):
    return has(content(E, c, 0), E.snap(c.st, c.args[1]))


@model("slice::contains")
def m_scontains(E, c, sb, site):
    v = content(E, c, 0)
    x = E.snap(c.st, c.args[1])
    ix = T("ix", "sc")
    return apply(lambda n: mk_any(n, E.compare("Eq", idx(v, ix), x), ix), length(v))


@model("HashMap::insert", "BTreeMap::insert")
def m_hinsert(E, c, sb, site):
    m = content(E, c, 0)
    k = E.snap(c.st, c.args[1])
    old = ite(has(m, k), mkGood(at(m, k), "Option"), NONE)
    E.write(c.st, c.args[0], put(m, k, c.args[2]))
    return old


@model("HashMap::remove", "BTreeMap::remove", "HashSet::remove", "BTreeSet::remove")
def m_hremove(E, c, sb, site):
    m = content(E, c, 0)
    k = E.snap(c.st, c.args[1])
    h = has(m, k)
    old = h if "Set" in c.key else ite(h, mkGood(at(m, k), "Option"), NONE)
    E.write(c.st, c.args[0], ite(h, unput(m, k), m))
    return old


@model("HashSet::insert", "BTreeSet::insert")
def m_sinsert(E, c, sb, site):
    m = content(E, c, 0)
    k = E.snap(c.st, c.args[1])
    h = has(m, k)
    E.write(c.st, c.args[0], ite(h, m, put(m, k, UNIT)))
    return neg(h)


@model("HashMap::entry", "BTreeMap::entry")
def m_entry(E, c, sb, site):
    m = content(E, c, 0)
    k = E.snap(c.st, c.args[1])
    h = has(m, k)
    e = apply(lambda l, kk: T("entry", l, kk), c.args[0], k)
    P = "std::collections::hash_map::Entry"
    return ite(h, lift(lambda x: T("agg", P, "Occupied", (("Occupied.0", x),)), e),
               lift(lambda x: T("agg", P, "Vacant", (("Vacant.0", x),)), e))


def entry_of(v):
    def f(l):
        if l.op == "agg" and l.args[2]:
            return l.args[2][0][1]
        return l
    return apply(f, v)


@model("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default")
def m_or_insert(E, c, sb, site):
    e = entry_of(c.args[0])
    ls = leaves(e)
    if len(ls) != 1 or ls[0].op != "entry":
        return NotImplemented
    loc, k = ls[0].args
    m = E.read(c.st, loc)
    h = has(m, k)
    if c.key == "Entry::or_insert":
        x = c.args[1]
    elif c.key == "Entry::or_default":
        x = default_of(tyof(E, c, sb, 1)) or T("call", "Default::default", ())
    else:
        x = under(E, c, neg(h), lambda: E.callval(c, c.args[1], [], sub_site(E, site, 1)))
    m = E.read(c.st, loc)
    E.write(c.st, loc, ite(h, m, put(m, k, x)))
    return withmut(E.extend_loc(loc, ("key", k)), True)


@model("Entry::and_modify")
def m_and_modify(E, c, sb, site):
    e = entry_of(c.args[0])
    ls = leaves(e)
    if len(ls) != 1 or ls[0].op != "entry":
        return NotImplemented
    loc, k = ls[0].args
    h = has(E.read(c.st, loc), k)
    under(E, c, h, lambda: E.callval(c, c.args[1], [withmut(E.extend_loc(loc, ("key", k)), True)], sub_site(E, site, 1)))
    return c.args[0]


@model("OccupiedEntry::get", "OccupiedEntry::get_mut", "OccupiedEntry::into_mut", "OccupiedEntry::insert", "VacantEntry::insert",
       "OccupiedEntry::key", "VacantEntry::key", "Entry::key")
def m_occ(E, c, sb, site):
    e = c.args[0]
    if _isref(e):
        e = E.read(c.st, e)
    e = entry_of(e)
    ls = leaves(e)
    if len(ls) != 1 or ls[0].op != "entry":
        return NotImplemented
    loc, k = ls[0].args
    if c.key.endswith("::key"):
        return k
    m = E.read(c.st, loc)
    if c.key == "OccupiedEntry::insert":
        E.write(c.st, loc, put(m, k, c.args[1]))
        return at(m, k)
    if c.key == "VacantEntry::insert":
        E.write(c.st, loc, put(m, k, c.args[1]))
    return withmut(E.extend_loc(loc, ("key", k)), c.key != "OccupiedEntry::get")


# ------------------------------------------------------------------ n-dimensional arrays
def arr(E, c, i=0):
    """location of an array, looking through views (which are references)"""
    def f(l, n=0):
        if l.op != "ref":
            return ref(("M", l))
        x = E.read(c.st, l)
        if n < 4 and all(y.op == "ref" for y in leaves(x)):
            return apply(lambda y: f(y, n + 1), x)
        return l
    return apply(f, c.args[i])


def ndim(E, c, sb):
    for i in range(len(c.f.get("args") or [])):
        t = tyof(E, c, sb, i)
        if t and "Dim<[usize;" in t["s"]:
            return int(t["s"].split("usize;")[1].split("]")[0])
    return None


def axis_no(v):
    if v.op == "agg" and v.args[0].endswith("Axis"):
        v = v.args[2][0][1]
        if v.op == "num" and v.args[0].denominator == 1:
            return int(v.args[0])
    return None


@model("ArrayBase::subview", "ArrayBase::subview_mut", "ArrayBase::index_axis", "ArrayBase::index_axis_mut", "ArrayBase::into_subview")
def m_subview(E, c, sb, site):
    r, k = arr(E, c), axis_no(c.args[1])
    if r is None or k is None:
        return NotImplemented
    i = c.args[2]
    if "mut" in c.key:
        return withmut(E.extend_loc(r, ("ax", k, i) if k else ("i", i)), True)
    return en.col(E.read(c.st, r), k, i)


@model("ArrayBase::to_owned", "ArrayBase::view", "ArrayBase::view_mut", "ArrayBase::to_vec")
def m_aview(E, c, sb, site):
    r = arr(E, c)
    if r is None:
        return NotImplemented
    return withmut(r, True) if "mut" in c.key else E.read(c.st, r)


@model("ArrayBase::assign")
def m_assign(E, c, sb, site):
    r, x = arr(E, c), arr(E, c, 1)
    if r is None or x is None:
        return NotImplemented
    E.write(c.st, r, E.read(c.st, x))
    return UNIT


@model("ArrayBase::fill")
def m_afill(E, c, sb, site):
    return NotImplemented


@model("ArrayBase::iter", "ArrayBase::iter_mut", "ArrayBase::outer_iter", "ArrayBase::outer_iter_mut", "ArrayBase::axis_iter",
       "ArrayBase::axis_iter_mut")
def m_aiter(E, c, sb, site):
    r = arr(E, c)
    if r is None:
        return NotImplemented
    mu = "mut" in c.key
    a = E.read(c.st, r)
    if "axis" in c.key:
        k = axis_no(c.args[1])
        if k is None:
            return NotImplemented
        if k:
            return mkiter(seq(en.dimn(a, k), withmut(E.extend_loc(r, ("ax", k, SX)), mu)))
    elif "outer" not in c.key:
        # elements: only of a one-dimensional array
        if ndim(E, c, sb) != 1:
            return NotImplemented
    return mkiter(seq(length(a), withmut(E.extend_loc(r, ("i", SX)), mu)))


@model("ArrayBase::shape")
def m_shape(E, c, sb, site):
    r = arr(E, c)
    n = ndim(E, c, sb)
    if r is None or n is None:
        return NotImplemented
    a = E.read(c.st, r)
    return apply(lambda *x: T("vec", tuple(("it", y) for y in x)), *[en.dimn(a, k) for k in range(n)])


@model("ArrayBase::zeros")
def m_zeros(E, c, sb, site):
    d = c.args[0]
    ls = leaves(d)
    if len(ls) != 1:
        return NotImplemented
    ns = [x for _, x in ls[0].args[2]] if ls[0].op == "agg" else [ls[0]]
    v = ZERO
    for n in reversed(ns):
        v = apply(lambda a, b: T("rep", a, b), v, n)
    return v


@model("ArrayBase::scalar_sum", "ArrayBase::sum")
def m_ssum(E, c, sb, site):
    r = arr(E, c)
    if r is None or ndim(E, c, sb) != 1:
        return NotImplemented
    a = E.read(c.st, r)
    ix = T("ix", ("ssum", site))
    return apply(lambda l: summ(length(l), idx(l, ix), ix), a)


# --------------------------------------------------------------------------- iterators
def is_map(t):
    return t is not None and t.get("path") in ("std::collections::HashMap", "std::collections::BTreeMap")


def is_set(t):
    return t is not None and t.get("path") in ("std::collections::HashSet", "std::collections::BTreeSet")


def seq(n, body):
    return T("seq", n, body)


def lesser(v):
    """the lesser of two numbers, written as a decision"""
    ls = set(leaves(v))
    if len(ls) == 2:
        x, y = sorted(ls)
        if v is compare(x, y, {"L": x, "E": x, "G": y}) or v is compare(x, y, {"L": x, "E": y, "G": y}):
            return T("min", x, y)
    return v


def seqof(E, c, v, t):
    """sequence of values delivered by iterating v (type t)"""
    if v.op == "dd":
        ls = leaves(v)
        if len(ls) != 1:
            return apply(lambda l: seqof(E, c, l, t) or T("unk", ("seq",)), v)
        v = ls[0]
    if v.op == "seq":
        return v
    if v.op == "iter":
        if v.args[1] is ZERO:
            return v.args[0]
        n, b = v.args[0].args
        return seq(sub(n, v.args[1]), subst(b, {SX: add(SX, v.args[1])}))
    if v.op == "agg" and v.args[0].endswith("ops::Range"):
        d = dict(v.args[2])
        if d["end"].op == "dd":
            d["end"] = lesser(d["end"])
        if d["start"].op == "dd" or d["end"].op == "dd":
            return T("unk", ("range",))
        return seq(sub(d["end"], d["start"]), add(d["start"], SX))
    if v.op == "agg" and v.args[0].endswith("RangeInclusive"):
        d = dict(v.args[2])
        return seq(add(ONE, sub(d["end"], d["start"])), add(d["start"], SX))
    tt = t
    byref = False
    while tt is not None and tt["k"] == "ref" and tt.get("args"):
        byref = True
        m = bool(tt.get("mut"))
        tt = E.F.types[tt["args"][0]]
        break
    if v.op == "ref" or byref:
        r = v if v.op == "ref" else ref(("M", v))
        cont = E.read(c.st, r)
        if cont.op in ("iter", "seq"):
            return seqof(E, c, cont, tt)
        mu = byref and m
        return refseq(E, cont, r, tt, mu)
    if is_map(tt):
        return seq(length(v), tup(T("mkey", v, SX), T("mval", v, SX)))
    if is_set(tt):
        return seq(length(v), T("mkey", v, SX))
    if tt is not None and (tt.get("path") in ("std::vec::Vec",) or tt["k"] in ("array", "slice")):
        return seq(length(v), idx(v, SX))
    if tt is not None and tt["k"] == "param":
        # whatever it is, it yields some list of items
        v = apply(lambda l: T("items", l), v)
        return seq(length(v), idx(v, SX))
    return None


def refseq(E, cont, r, tt, mu):
    if any(l.op == "dd" for l in (cont,)):
        pass
    n = length(cont)
    if is_map(tt):
        return seq(n, tup(apply(lambda l: T("mkey", l, SX), cont), withmut(E.extend_loc(r, ("mi", SX)), mu) if mu
                          else apply(lambda l: T("mval", l, SX), cont)))
    if is_set(tt):
        return seq(n, apply(lambda l: T("mkey", l, SX), cont))
    return seq(n, withmut(E.extend_loc(r, ("i", SX)), mu))


def mkiter(s):
    if s is None:
        return NotImplemented
    return apply(lambda l: T("iter", l, ZERO) if l.op == "seq" else l, s)


@model("IntoIterator::into_iter")
def m_into_iter(E, c, sb, site):
    v = c.args[0]
    if any(l.op in ("iter", "unk") for l in leaves(v)):
        return v
    return mkiter(seqof(E, c, v, tyof(E, c, sb, 0)))


@model("slice::iter", "slice::iter_mut", "Vec::iter", "Vec::iter_mut")
def m_iter(E, c, sb, site):
    v = c.args[0]
    mu = "mut" in c.key
    ls = leaves(v)
    if len(ls) != 1:
        if mu:
            return T("unk", ("iter",))
        # one of several lists, only read
        cont = apply(lambda l: E.read(c.st, l if l.op == "ref" else ref(("M", l))), v)
        return mkiter(seq(length(cont), idx(cont, SX)))
    r = ls[0] if ls[0].op == "ref" else ref(("M", ls[0]))
    return mkiter(refseq(E, E.read(c.st, r), r, None, mu))


@model("HashMap::iter", "HashMap::iter_mut", "HashMap::keys", "HashMap::values", "HashMap::values_mut", "BTreeMap::iter", "HashSet::iter",
       "BTreeMap::keys", "BTreeMap::values", "HashMap::into_iter", "HashMap::drain", "HashMap::into_keys", "HashMap::into_values")
def m_hiter(E, c, sb, site):
    v = c.args[0]
    ls = leaves(v)
    if len(ls) != 1:
        return T("unk", ("iter",))
    meth = c.key.split("::")[1]
    r = ls[0] if ls[0].op == "ref" else ref(("M", ls[0]))
    cont = E.read(c.st, r)
    n = length(cont)
    key = apply(lambda l: T("mkey", l, SX), cont)
    val = apply(lambda l: T("mval", l, SX), cont)
    if "mut" in meth:
        val = withmut(E.extend_loc(r, ("mi", SX)), True)
    if c.key.startswith("HashSet") or "keys" in meth:
        b = key
    elif "values" in meth:
        b = val
    else:
        b = tup(key, val)
    if meth == "drain":
        E.write(c.st, r, T("map0"))
    return mkiter(seq(n, b))


@model("Vec::drain")
def m_drain(E, c, sb, site):
    if c.args[1].op == "agg" and c.args[1].args[0].endswith("RangeFull"):
        v = content(E, c, 0)
        E.write(c.st, c.args[0], T("vec", ()))
        return mkiter(apply(lambda l: seq(length(l), idx(l, SX)), v))
    return NotImplemented


@model("str::chars", "str::bytes", "str::char_indices", "str::split", "str::lines", "str::split_whitespace")
def m_chars(E, c, sb, site):
    r = apply(lambda *a: T("call", c.key, a), *[E.snap(c.st, a) for a in c.args])
    return mkiter(apply(lambda l: seq(T("len", l), T("idx", l, SX)), r))


@model("Range::contains", "RangeInclusive::contains", "RangeFrom::contains", "RangeTo::contains", "RangeToInclusive::contains")
def m_contains_range(E, c, sb, site):
    r, x = E.snap(c.st, c.args[0]), E.snap(c.st, c.args[1])
    k = c.key.split("::")[0]
    if r.op != "agg":
        return NotImplemented
    f = dict(r.args[2])
    t = TRUE
    if "start" in f:
        t = apply(lambda a, b: neg(lt(b, a)), f["start"], x)
    if "end" in f:
        t = conj(t, apply(lambda a, b: neg(lt(b, a)) if "Inclusive" in k else lt(a, b), x, f["end"]))
    return t


@model("RangeInclusive::new")
def m_rangeinc(E, c, sb, site):
    return apply(lambda a, b: T("agg", "std::ops::RangeInclusive", "", (("start", a), ("end", b))), c.args[0], c.args[1])


def getseq(E, c, sb, i=0, t=None):
    v = c.args[i]
    s = seqof(E, c, v, t if t is not None else (tyof(E, c, sb, i)))
    if s is None:
        return None
    ls = leaves(s)
    if len(ls) != 1 or ls[0].op != "seq":
        return None
    return ls[0]


def pure(E, c, f, args, site):
    """call a closure on a symbolic element; None when it has side effects on older state"""
    before = dict(c.st)
    c0 = c.cond
    v = E.callval(c, f, args, site)
    c.cond = c0
    if v is BOT or c.st is None:
        c.st = before
        return v
    for r in before:
        if c.st.get(r) is not before[r]:
            if r[0] == "L" and r[1] in getattr(E, "scratch", ()):
                continue
            c.st[r] = T("unk", ("impure", site, E.fid(("ir", r))))
    for r in list(c.st):
        if r not in before and r[0] == "M" and c.st[r] is not r[1]:
            c.st[r] = T("unk", ("impure", site, E.fid(("ir", r))))
    return v


def unwrap_skip(body, f):
    """apply f to non-skipped elements"""
    return apply(lambda l: SKIP if l is SKIP else f(l), body)


@model("Iterator::map")
def m_imap(E, c, sb, site):
    s = getseq(E, c, sb)
    if s is None:
        return NotImplemented
    n, b = s.args
    c2 = dict(c.st)
    skip = when(b, lambda l: l is SKIP)
    arg = apply(lambda l: BOT if l is SKIP else l, b)
    v = pure(E, c, c.args[1], [arg], site)
    return mkiter(seq(n, ite(skip, SKIP, v)))


@model("Iterator::filter")
def m_ifilter(E, c, sb, site):
    s = getseq(E, c, sb)
    if s is None:
        return NotImplemented
    n, b = s.args
    root = ("L", E.fid(("tmp", site)), 0)
    c.st[root] = apply(lambda l: BOT if l is SKIP else l, b)
    v = pure(E, c, c.args[1], [ref(root)], site)
    return mkiter(seq(n, ite(apply(boolify, v), b, SKIP)))


@model("Iterator::filter_map")
def m_ifiltermap(E, c, sb, site):
    s = getseq(E, c, sb)
    if s is None:
        return NotImplemented
    n, b = s.args
    v = pure(E, c, c.args[1], [b], site)
    return mkiter(seq(n, ite(isvar(v, OPT, "Some"), fld(v, "Some.0"), SKIP)))


@model("Iterator::zip", "iter::zip")
def m_zip(E, c, sb, site):
    s = getseq(E, c, sb)
    t1 = tyof(E, c, sb, 1)
    u = getseq(E, c, sb, 1, t1)
    if s is None or u is None or en.has_skip(s) or en.has_skip(u):
        return NotImplemented
    n1, b1 = s.args
    n2, b2 = u.args
    n = n1 if n1 is n2 else T("min", *sorted((n1, n2)))
    return mkiter(seq(n, tup(b1, b2)))


@model("Iterator::enumerate")
def m_enum(E, c, sb, site):
    s = getseq(E, c, sb)
    if s is None or en.has_skip(s):
        return NotImplemented
    return mkiter(seq(s.args[0], tup(SX, s.args[1])))


@model("Iterator::rev")
def m_rev(E, c, sb, site):
    s = getseq(E, c, sb)
    if s is None:
        return NotImplemented
    n, b = s.args
    return mkiter(seq(n, subst_(b, {SX: sub(sub(n, ONE), SX)})))


def subst_(b, m):
    return subst(b, m)


@model("Iterator::take")
def m_itake(E, c, sb, site):
    s = getseq(E, c, sb)
    if s is None or en.has_skip(s) or c.args[1].op == "dd":
        return NotImplemented
    n, b = s.args
    k = c.args[1]
    return mkiter(seq(k if k is n else T("min", *sorted((n, k))), b))


@model("Iterator::skip")
def m_iskip(E, c, sb, site):
    s = getseq(E, c, sb)
    if s is None or en.has_skip(s) or c.args[1].op == "dd":
        return NotImplemented
    n, b = s.args
    return mkiter(seq(sub(n, c.args[1]), subst_(b, {SX: add(SX, c.args[1])})))


@model("Iterator::cloned", "Iterator::copied")
def m_icloned(E, c, sb, site):
    s = getseq(E, c, sb)
    if s is None:
        return NotImplemented
    n, b = s.args
    return mkiter(seq(n, unwrap_skip(b, lambda l: E.read(c.st, l))))


@model("slice::windows")
def m_windows(E, c, sb, site):
    ls = leaves(content(E, c, 0))
    if len(ls) != 1:
        return NotImplemented
    v = ls[0]
    return mkiter(seq(add(sub(length(v), c.args[1]), ONE), T("win", v, SX, c.args[1])))


@model("Iterator::next")
def m_next(E, c, sb, site):
    v = content(E, c, 0)
    ls = leaves(v)
    if len(ls) != 1 or ls[0].op != "iter":
        if ls and ls[0].op == "agg" and ls[0].args[0].endswith("ops::Range"):
            s = seqof(E, c, ls[0], None)
            v = mkiter(s)
            ls = [v]
        if len(ls) != 1 or ls[0].op != "iter":
            return NotImplemented
    it = ls[0]
    s, pos = it.args
    n, b = s.args
    if en.has_skip(b):
        # filtered iterator: the loop sees only the kept elements
        if pos.op == "num" and pos is ZERO and False:
            pass
    more = apply(lambda x, y: lt(x, y), pos, n)
    elem = subst(b, {SX: pos})
    E.write(c.st, c.args[0], apply(lambda p: T("iter", s, add(p, ONE)), pos))
    if any(l is SKIP for l in leaves(elem)):
        elem = apply(lambda l: T("unk", ("filtered",)) if l is SKIP else l, elem)
    return ite(more, mkGood(elem, "Option"), NONE)


def elems(E, c, s):
    """closed elements (references replaced by content)"""
    n, b = s.args
    return n, unwrap_skip(b, lambda l: E.snap(c.st, l))


@model("Iterator::sum")
def m_sum(E, c, sb, site):
    s = getseq(E, c, sb)
    if s is None:
        return NotImplemented
    n, b = elems(E, c, s)
    return summ(n, b, SX)


@model("Iterator::count", "ExactSizeIterator::len")
def m_count(E, c, sb, site):
    s = getseq(E, c, sb) if c.key == "Iterator::count" else None
    if s is None:
        return NotImplemented
    n, b = s.args
    return summ(n, unwrap_skip(apply(lambda l: l, b), lambda l: ONE), SX) if en.has_skip(b) else n


@model("Iterator::collect", "FromIterator::from_iter")
def m_collect(E, c, sb, site):
    s = getseq(E, c, sb)
    if s is None or c.dty is None:
        return NotImplemented
    n, b = elems(E, c, s)
    t = E.F.types[c.dty]
    p = t.get("path")
    if p in ("std::vec::Vec", "std::boxed::Box"):
        return mapseg(n, b, SX)
    if p in ("std::collections::HashMap", "std::collections::BTreeMap"):
        lv, bb = close(unwrap_skip(b, lambda l: T("kv", fld(l, "0"), fld(l, "1"))), SX)
        return T("putall", T("map0"), n, lv, bb)
    if p in ("std::collections::HashSet", "std::collections::BTreeSet"):
        lv, bb = close(unwrap_skip(b, lambda l: T("kv", l, UNIT)), SX)
        return T("putall", T("map0"), n, lv, bb)
    if p in (RESP, OPTP) and not en.has_skip(b):
        k = "Result" if p == RESP else "Option"
        inner = E.F.types[t["args"][0]] if t.get("args") else {}
        if inner.get("path") != "std::vec::Vec":
            return NotImplemented
        g = good(E, b, k)
        bad_any = mk_any(n, neg(g), SX)
        w = mk_wit(n, neg(g), SX)
        okv = mapseg(n, restrict2(payload(b, k), g), SX)
        e = NONE if k == "Option" else mkErr(subst_(restrict2(fld(b, "Err.0"), neg(g)), {SX: w}))
        return ite(bad_any, e, mkGood(okv, k))
    return NotImplemented


@model("Iterator::any", "Iterator::all")
def m_any(E, c, sb, site):
    v = c.args[0]
    if _isref(v):
        v = content(E, c, 0)
    s = seqof(E, c, v, None)
    if s is None or s.op != "seq":
        return NotImplemented
    n, b = s.args
    arg = apply(lambda l: BOT if l is SKIP else l, b)
    r = apply(boolify, pure(E, c, c.args[1], [arg], site))
    sk = when(b, lambda l: l is SKIP)
    if c.key.endswith("any"):
        return mk_any(n, conj(neg(sk), r), SX)
    return neg(mk_any(n, conj(neg(sk), neg(r)), SX))


@model("Iterator::find", "Iterator::position")
def m_find(E, c, sb, site):
    v = c.args[0]
    if _isref(v):
        v = content(E, c, 0)
    s = seqof(E, c, v, None)
    if s is None or s.op != "seq" or en.has_skip(s):
        return NotImplemented
    n, b = s.args
    if c.key.endswith("find"):
        root = ("L", E.fid(("tmp", site)), 0)
        c.st[root] = b
        r = pure(E, c, c.args[1], [ref(root)], site)
    else:
        r = pure(E, c, c.args[1], [b], site)
    r = apply(boolify, r)
    g = mk_any(n, r, SX)
    w = mk_wit(n, r, SX)
    return ite(g, mkGood(subst_(b, {SX: w}) if c.key.endswith("find") else w, "Option"), NONE)


def foreach(E, c, s, fn, site):
    """fn(elem) for each element in order, with side effects"""
    n, b = s.args
    root = ("L", E.fid(("it", site)), 0)
    c.st[root] = T("iter", s, ZERO)
    lid = E.fid(("loop", "it", site))
    E.loopsites[lid] = (c.fr.path, c.span)

    def run(cond, st):
        it = st[root]
        pos = it.args[1]
        more = apply(lambda x, y: lt(x, y), pos, n)
        out = [("out", conj(cond, neg(more)), dict(st))]
        c.st, c.cond = st, conj(cond, more)
        elem = subst(b, {SX: pos})
        sk = when(elem, lambda l: l is SKIP)
        if sk is FALSE:
            stop = fn(elem)
        else:
            e2 = apply(lambda l: BOT if l is SKIP else l, elem)
            stop = under(E, c, neg(sk), lambda: fn(e2) or UNIT)
        c.st[root] = apply(lambda p: T("iter", s, add(p, ONE)), pos)
        return ([(c.cond, c.st)] if c.cond is not FALSE else []), [o for o in out if o[1] is not FALSE]
    ex = E.loop(lid, c.cond, c.st, run)
    cc, ss = E.merge([(x[1], x[2]) for x in ex])
    c.cond = cc
    c.st = ss if ss is not None else {}


@model("Iterator::for_each")
def m_foreach(E, c, sb, site):
    s = getseq(E, c, sb)
    if s is None:
        return NotImplemented
    f = c.args[1]
    root = ("L", E.fid(("fn", site)), 0)
    c.st[root] = f
    foreach(E, c, s, lambda e: E.callval(c, ref(root, (), True), [e], sub_site(E, site, 1)), site)
    return UNIT


@model("Iterator::fold")
def m_fold(E, c, sb, site):
    s = getseq(E, c, sb)
    if s is None:
        return NotImplemented
    f = c.args[2]
    root = ("L", E.fid(("fn", site)), 0)
    acc = ("L", E.fid(("acc", site)), 0)
    c.st[root] = f
    c.st[acc] = c.args[1]

    def step(e):
        a = c.st[acc]
        v = E.callval(c, ref(root, (), True), [a, e], sub_site(E, site, 1))
        c.st[acc] = v
    foreach(E, c, s, step, site)
    return c.st.get(acc, BOT)


@model("Iterator::last")
def m_last(E, c, sb, site):
    s = getseq(E, c, sb)
    if s is None:
        return NotImplemented
    acc = ("L", E.fid(("acc", site)), 0)
    c.st[acc] = NONE

    def step(e):
        c.st[acc] = mkGood(e, "Option")
    foreach(E, c, s, step, site)
    return c.st.get(acc, BOT)


@model("Extend::extend")
def m_extend(E, c, sb, site):
    t = tyof(E, c, sb, 0)
    s = seqof(E, c, c.args[1], tyof(E, c, sb, 2))
    if s is None or s.op != "seq" or t is None:
        return NotImplemented
    n, b = elems(E, c, s)
    v = content(E, c, 0)
    if t.get("path") == "std::vec::Vec":
        E.write(c.st, c.args[0], vecof(concat(v, mapseg(n, b, SX))))
        return UNIT
    if is_map(t):
        lv, bb = close(unwrap_skip(b, lambda l: T("kv", fld(l, "0"), fld(l, "1"))), SX)
        E.write(c.st, c.args[0], apply(lambda m: T("putall", m, n, lv, bb), v))
        return UNIT
    return NotImplemented


# ------------------------------------------------------------------------------ numbers
for nm in ("exp", "ln", "sqrt", "floor", "ceil", "round", "signum", "sin", "cos", "tan", "atan", "log10", "exp_m1", "ln_1p", "cbrt", "trunc",
           "tanh"):
    def _mk(nm):
        @model("f64::" + nm)
        def m(E, c, sb, site, nm=nm):
            return call(nm, c.args[0])
    _mk(nm)


@model("f64::abs", "i32::abs", "i64::abs")
def m_abs(E, c, sb, site):
    return apply(lambda x: compare(x, ZERO, {"L": scale(x, -1), "E": x, "G": x}), c.args[0])


@model("f64::max", "Ord::max", "cmp::max", "f64::min", "Ord::min", "cmp::min", "usize::max", "usize::min", "i32::max", "i32::min")
def m_max(E, c, sb, site):
    if c.key.endswith("max"):
        return apply(lambda x, y: compare(x, y, {"L": y, "E": x, "G": x}), c.args[0], c.args[1])
    return apply(lambda x, y: compare(x, y, {"L": x, "E": x, "G": y}), c.args[0], c.args[1])


@model("f64::clamp", "Ord::clamp")
def m_clamp(E, c, sb, site):
    x, lo, hi = c.args
    r = apply(lambda x, y: compare(x, y, {"L": y, "E": x, "G": x}), x, lo)
    return apply(lambda x, y: compare(x, y, {"L": x, "E": x, "G": y}), r, hi)


@model("f64::powi", "i32::pow", "usize::pow", "i64::pow", "u64::pow")
def m_powi(E, c, sb, site):
    n = c.args[1]
    if n.op == "num" and abs(n.args[0]) <= 6:
        def f(x):
            r = ONE
            for _ in range(int(abs(n.args[0]))):
                r = mul(r, x)
            return r if n.args[0] >= 0 else div(ONE, r)
        return apply(f, c.args[0])
    return call("powi", c.args[0], n)


@model("f64::powf")
def m_powf(E, c, sb, site):
    n = c.args[1]
    if n.op == "num" and n.args[0].denominator == 1 and 0 <= n.args[0] <= 4:
        return m_powi(E, c, sb, site)
    if n.op == "num" and n.args[0] == Fraction(1, 2):
        return call("sqrt", c.args[0])
    return call("powf", c.args[0], n)


@model("f64::mul_add")
def m_muladd(E, c, sb, site):
    return apply(lambda a, b, d: add(mul(a, b), d), *c.args)


@model("f64::recip")
def m_recip(E, c, sb, site):
    return apply(lambda a: div(ONE, a), c.args[0])


@model("f64::is_nan")
def m_isnan(E, c, sb, site):
    return apply(lambda a: boolify(T("call", "is_nan", (a,))), c.args[0])


@model("f64::is_sign_negative")
def m_isneg(E, c, sb, site):
    return apply(lambda a: lt(a, ZERO), c.args[0])


@model("f64::is_sign_positive")
def m_ispos(E, c, sb, site):
    return apply(lambda a: neg(lt(a, ZERO)), c.args[0])


@model("f64::from", "i32::from", "i64::from", "u32::from", "usize::from")
def m_numfrom(E, c, sb, site):
    return c.args[0]


def numeric(t):
    while t is not None and t["k"] == "ref":
        return True
    return t is not None and t["k"] in ("float", "int", "uint")


def _arith(name, f):
    @model("%s::%s" % (name, name.lower()))
    def m(E, c, sb, site):
        a, b = E.snap(c.st, c.args[0]), E.snap(c.st, c.args[1])
        t = tyof(E, c, sb, 0)
        u = t
        while u is not None and u["k"] == "ref" and u.get("args"):
            u = E.F.types[u["args"][0]]
        if u is None or u["k"] not in ("float", "int", "uint"):
            return NotImplemented
        return apply(f, a, b)

    @model("%sAssign::%s_assign" % (name, name.lower()))
    def m2(E, c, sb, site):
        a, b = content(E, c, 0), E.snap(c.st, c.args[1])
        u = tyof(E, c, sb, 0)
        if u is None or u["k"] not in ("float", "int", "uint"):
            return NotImplemented
        E.write(c.st, c.args[0], apply(f, a, b))
        return UNIT


_arith("Add", add)
_arith("Sub", sub)
_arith("Mul", mul)


@model("Div::div")
def m_div(E, c, sb, site):
    u = tyof(E, c, sb, 0)
    while u is not None and u["k"] == "ref" and u.get("args"):
        u = E.F.types[u["args"][0]]
    if u is None or u["k"] != "float":
        return NotImplemented
    return apply(div, E.snap(c.st, c.args[0]), E.snap(c.st, c.args[1]))


@model("Neg::neg")
def m_neg(E, c, sb, site):
    u = tyof(E, c, sb, 0)
    while u is not None and u["k"] == "ref" and u.get("args"):
        u = E.F.types[u["args"][0]]
    if u is None or u["k"] not in ("float", "int"):
        return NotImplemented
    return apply(lambda x: scale(x, -1), E.snap(c.st, c.args[0]))


@model("Not::not")
def m_not(E, c, sb, site):
    return neg(apply(boolify, E.snap(c.st, c.args[0])))


@model("i32::wrapping_add", "usize::wrapping_add", "usize::saturating_add", "i32::saturating_add")
def m_wadd(E, c, sb, site):
    return apply(add, c.args[0], c.args[1])


@model("i32::wrapping_sub", "usize::wrapping_sub")
def m_wsub(E, c, sb, site):
    return apply(sub, c.args[0], c.args[1])


# -------------------------------------------------------------------------- comparisons
def _cmp(meth, op):
    @model(meth)
    def m(E, c, sb, site):
        return E.compare(op, E.snap(c.st, c.args[0]), E.snap(c.st, c.args[1]))


for _m, _o in (("PartialOrd::lt", "Lt"), ("PartialOrd::le", "Le"), ("PartialOrd::gt", "Gt"), ("PartialOrd::ge", "Ge"),
               ("PartialEq::eq", "Eq"), ("PartialEq::ne", "Ne")):
    _cmp(_m, _o)


@model("Ord::cmp", "f64::total_cmp")
def m_cmp(E, c, sb, site):
    return E.ordering(E.snap(c.st, c.args[0]), E.snap(c.st, c.args[1]))


@model("PartialOrd::partial_cmp")
def m_pcmp(E, c, sb, site):
    return mkGood(E.ordering(E.snap(c.st, c.args[0]), E.snap(c.st, c.args[1])), "Option")


@model("Ordering::reverse")
def m_ordrev(E, c, sb, site):
    fl = {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}
    return apply(lambda l: T("agg", ORDP, fl[l.args[1]], ()) if l.op == "agg" else T("call", "reverse", (l,)), c.args[0])


def _ordis(name, yes):
    @model("Ordering::" + name)
    def m(E, c, sb, site):
        v = c.args[0]
        r = FALSE
        for y in yes:
            r = disj(r, isvar(v, ORD, y))
        return r


_ordis("is_lt", ["Less"])
_ordis("is_gt", ["Greater"])
_ordis("is_eq", ["Equal"])
_ordis("is_le", ["Less", "Equal"])
_ordis("is_ge", ["Greater", "Equal"])
_ordis("is_ne", ["Less", "Greater"])


# --------------------------------------------------------------------------- formatting
def m_fmt(E, c, sb, site):
    return T("call", "format", ())


MODELS["fmt::format"] = m_fmt
m_fmt.always = False
PREFIX.append(("std::fmt::Arguments", m_fmt))
PREFIX.append(("core::fmt::Arguments", m_fmt))
PREFIX.append(("std::fmt::rt::", m_fmt))
PREFIX.append(("core::fmt::rt::", m_fmt))
PREFIX.append(("std::fmt::format", m_fmt))
PREFIX.append(("alloc::fmt::format", m_fmt))
