"""Access to the fact dump produced by tools/qmfacts."""
import json
import re


class Facts(object):
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.types = d["types"]
        self.adts = d["adts"]
        self.traits = d["traits"]
        self.impls = d["impls"]
        self.statics = d["statics"]
        self.bodies = {p: b for p, b in d["bodies"].items()}
        self.impl_index = {}
        for im in self.impls:
            if im.get("trait"):
                self.impl_index.setdefault(im["trait"], []).append(im)
        self.by_trait_self = {}
        for im in self.impls:
            if im.get("trait"):
                t = self.types[im["self"]]
                self.by_trait_self.setdefault((im["trait"], t.get("path") or t["s"]), []).append(im)
        self.drop_impl = {}
        for im in self.impl_index.get("std::ops::Drop", []):
            p = self.types[im["self"]].get("path")
            for n, q in im["items"]:
                if n == "drop" and p:
                    self.drop_impl[p] = q
        typeid = set()
        for im in self.impl_index.get("crate::core::factories::TypeId", []):
            typeid.add(self.types[im["self"]].get("path"))
        self.transparent = set(["std::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull", "std::sync::Arc",
                                "std::rc::Rc", "std::mem::ManuallyDrop", "std::mem::MaybeUninit",
                                "std::mem::MaybeDangling", "std::panic::AssertUnwindSafe"])
        for p, a in self.adts.items():
            if a["kind"] == "struct" and len(a["variants"][0]["fields"]) == 1 \
                    and a["variants"][0]["fields"][0]["n"] == "0" and (p not in typeid or p.endswith("Qrc") or p.endswith("Qbox")) \
                    and not p.endswith("::REG"):
                self.transparent.add(p)
        self.structs = set(p for p, a in self.adts.items() if a["kind"] == "struct")

    def ty(self, i):
        return self.types[i]

    def find(self, pat, kind=None):
        r = re.compile(pat)
        return [p for p, b in self.bodies.items() if r.search(p) and (kind is None or b["kind"] == kind)]

    def impl_method(self, trait, selfpath, method):
        """path of the body implementing trait::method for the type, or the trait's default"""
        for im in self.by_trait_self.get((trait, selfpath), []):
            for n, p in im["items"]:
                if n == method:
                    return p
        t = self.traits.get(trait)
        if t and self.by_trait_self.get((trait, selfpath)):
            for n, p, has in t["items"]:
                if n == method and has:
                    return p
        return None

    def implementors(self, trait):
        """[(self type path or string, impl)]"""
        out = []
        for im in self.impl_index.get(trait, []):
            t = self.types[im["self"]]
            out.append((t.get("path") or t["s"], im))
        return out

    def trait_path(self, name):
        """full path of a local trait from its last segment"""
        r = [p for p in self.traits if p.split("::")[-1] == name]
        return r[0] if len(r) == 1 else None

    def adt_path(self, name):
        r = [p for p in self.adts if p.split("::")[-1] == name]
        return r[0] if len(r) == 1 else None


_GEN = re.compile(r"::<[^<>]*(?:<[^<>]*(?:<[^<>]*>)?[^<>]*>)*[^<>]*>")


def short(path):
    """Type::method key of a callee path"""
    m = re.match(r"^<(.*) as (.*)>::([A-Za-z0-9_]+)$", path)
    if m:
        return "%s::%s" % (last(m.group(2)), m.group(3))
    m = re.search(r"<impl (.*?)>::([A-Za-z0-9_]+)$", path)
    if m:
        inner = m.group(1)
        if " for " in inner:
            inner = inner.split(" for ")[0]
        if inner.startswith("["):
            inner = "slice"
        return "%s::%s" % (last(inner), m.group(2))
    p = path
    for _ in range(4):
        q = _GEN.sub("", p)
        if q == p:
            break
        p = q
    m = re.match(r"^<(.*)>::([A-Za-z0-9_]+)$", p)
    if m:
        return "%s::%s" % (last(m.group(1)), m.group(2))
    seg = p.split("::")
    return "::".join(seg[-2:])


def last(p):
    p = p.strip()
    d = 0
    q = ""
    for ch in p:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            q += ch
    q = q.replace("(dyn ", "").replace("dyn ", "").split(" + ")[0].strip("()& ")
    return q.split("::")[-1] or q
