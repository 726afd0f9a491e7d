"""check.py <property id>: decide one property on /repo's current source."""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "rules"))
import extract
import facts
import terms
import engine
import ident

VERIF = extract.VERIF
DEBUG = os.environ.get("QM_DEBUG")


class Check(object):
    def __init__(self, pid, F, tier, seed):
        self.pid, self.F, self.tier, self.seed = pid, F, tier, seed
        self.obs = []          # (status, rule, instance, where, message)
        self.counts = {}
        self.functions = set()
        self.assumptions = []
        self._names = None

    # ---- recording ------------------------------------------------------------
    def ok(self, rule, inst, where=""):
        self.obs.append(("ok", rule, inst, where, ""))

    def bad(self, rule, inst, where="", msg=""):
        self.obs.append(("bad", rule, inst, where, msg))

    def unk(self, rule, inst, where="", msg=""):
        self.obs.append(("unk", rule, inst, where, msg))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def require(self, cond, rule, inst, where="", msg=""):
        if cond:
            self.ok(rule, inst, where)
        else:
            self.bad(rule, inst, where, msg)

    # ---- analysis helpers -----------------------------------------------------
    def engine(self, **kw):
        return engine.Engine(self.F, **kw)

    def summary(self, path, **kw):
        args = kw.pop("args", None)
        E = self.engine(**kw)
        try:
            s = E.run(path, args)
        except (engine.Budget, terms.Blowup, RecursionError):
            return None
        except Exception:
            if DEBUG:
                raise
            return None
        s.E = E
        self.functions.update([path])
        return s

    def part(self, f, *a):
        """run one group of obligations; code it cannot follow leaves the group undecided"""
        try:
            f(self, *a)
        except Exception as e:
            if DEBUG:
                raise
            self.unk("part", "%s%s" % (f.__name__, "".join(" %s" % x for x in a if isinstance(x, str))), "",
                     "not modelled (%s)" % type(e).__name__)

    def where(self, path):
        b = self.F.bodies.get(path)
        return b["span"] if b else path

    def anchored(self, want):
        """every field, type and function a required value mentions exists in the program; returns the
        name of a missing one (code was renamed or re-shaped: the rule does not apply as written)"""
        if self._names is None:
            fl, ty, fn = set(), set(["tuple", "closure", "std::option::Option", "std::result::Result"]), {}
            for p, a in self.F.adts.items():
                ty.add(p)
                ty.add(p.split("::")[-1])
                for v in a["variants"]:
                    for f in v["fields"]:
                        fl.add(f["n"])
                        fl.add(v["n"] + "." + f["n"])
            for p, b in self.F.bodies.items():
                fn.setdefault(facts.short(p), set()).add(b["body"]["nargs"])
            for t in self.F.traits.values():
                for n, p, _ in t["items"]:
                    fn.setdefault(facts.short(p), set()).add(None)
            self._names = (fl, ty, fn)
        fl, ty, fn = self._names
        for x in terms.subterms(want):
            if x.op == "fld" and x.args[1] not in fl and not x.args[1].isdigit() and x.args[1] not in ("Ok.0", "Err.0", "Some.0"):
                return x.args[1]
            if x.op == "with":
                for n, _ in x.args[1]:
                    if n not in fl and not n.isdigit():
                        return n
            if x.op == "agg" and x.args[0].startswith("crate::") and x.args[0] not in ty:
                return x.args[0]
            if x.op in ("call", "mut") and "::" in x.args[0] and x.args[0].split("@")[0] not in fn and x.args[0] not in FOREIGN:
                return x.args[0]
            if x.op in ("call", "mut"):
                # a local function that now takes other parameters
                ns = fn.get(x.args[0], (None,))
                if None not in ns and len(x.args[-1]) not in ns:
                    return x.args[0]
        return None

    def same(self, rule, inst, where, got, want, cond=terms.TRUE, msg=None):
        """obligation: two value numbers agree wherever cond holds"""
        miss = self.anchored(want)
        if miss is not None:
            self.unk(rule, inst, where, "%s no longer exists" % miss)
            return "unk"
        r, n = ident.identical(got, want, cond, 400 if self.tier == "thorough" else 160, self.seed)
        if r == "eq":
            self.ok(rule, inst, where)
        elif r == "unk":
            self.unk(rule, inst, where, "not modelled")
        elif unmodelled(got, want) or unmodelled(cond, want):
            self.unk(rule, inst, where, "%s is not modelled" % (unmodelled(got, want) or unmodelled(cond, want)))
            return "unk"
        else:
            self.bad(rule, inst, where, "%s: computed %s; required %s" % (msg or "value differs", clip(got), clip(want)))
        return r


# functions of other crates a required value may name
FOREIGN = set(["Univariate::cdf", "slice::binary_search_by", "Serializer::serialize_str", "SeqAccess::next_element"])


CONTAINERS = ("Iterator::", "DoubleEndedIterator::", "ExactSizeIterator::", "slice::", "Vec::", "Option::", "Result::", "HashMap::", "BTreeMap::", "HashSet::", "BTreeSet::",
              "VecDeque::", "Range::", "RangeInclusive::", "Extend::", "Entry::", "array::", "f64::", "i32::", "i64::", "u32::", "u64::", "usize::", "iter::", "cmp::", "ops::")


def unmodelled(got, want):
    """a function of the standard containers or numbers that only the computed value names: its meaning is not known"""
    known = set(x.args[0] for x in terms.subterms(want) if x.op in ("call", "mut"))
    for x in terms.subterms(got):
        if x.op in ("call", "mut") and x.args[0].startswith(CONTAINERS) and x.args[0] not in known and x.args[0] not in FOREIGN:
            return x.args[0]
    return None


def clip(t, n=700):
    s = terms.show(t, 14)
    return s if len(s) <= n else s[:n] + "..."


def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                # finding: property=C07 rule=<rule> instance=<instance> :: text
                head, _, text = l[len("finding:"):].partition(" :: ")
                d = {}
                for part in head.strip().split(" ", 2):
                    k, _, v = part.partition("=")
                    d[k] = v
                out.append((d.get("property"), d.get("rule"), d.get("instance", "").strip(), text))
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    fj = os.environ.get("QM_FACTS")
    tmp = None
    if not fj:
        fj = tmp = extract.extract()
    F = facts.Facts(fj)
    if tmp:
        os.remove(tmp)
    terms.STRUCTS.update(F.structs)
    mod = importlib.import_module(pid.lower())
    ck = Check(pid, F, tier, seed)
    mod.run(ck)
    nob = len(ck.obs)
    floor = getattr(mod, "FLOOR", 1)
    known = load_known()
    viol, kf = [], []
    for st, rule, inst, where, msg in ck.obs:
        if st == "bad":
            k = [x for x in known if x[0] == pid and x[1] == rule and x[2] == inst]
            if k:
                kf.append((rule, inst, where, k[0][3]))
            else:
                viol.append((rule, inst, where, msg))
    nok = sum(1 for o in ck.obs if o[0] == "ok")
    unk = [o for o in ck.obs if o[0] == "unk"]
    print("%s: %d obligations, %d discharged, %d undecided, %d violated, %d known; %d function summaries; %s" % (
        pid, nob, nok, len(unk), len(viol), len(kf), len(ck.functions),
        ", ".join("%s=%d" % kv for kv in sorted(ck.counts.items()))))
    for o in unk:
        print("undecided: %s %s at %s (%s)" % (o[1], o[2], o[3], o[4]))
    for rule, inst, where, text in kf:
        print("KNOWN-FINDING: property=%s %s [%s %s at %s]" % (pid, text, rule, inst, where))
    evd = os.environ.get("QM_EVID") or os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    rep = os.path.join(evd, "%s.violation.txt" % pid)
    if os.path.exists(rep):
        os.remove(rep)
    rules = {}
    for st, rule, inst, where, msg in ck.obs:
        rules.setdefault(rule, {"ok": 0, "bad": 0, "unk": 0})[st] += 1
    cov = {"explanation": "Static analysis of the compiler's MIR for /repo's library crate. " + (mod.__doc__ or "").strip().replace("\n", " "),
           "obligations": nob, "discharged": nok, "undecided": len(unk),
           "violated": len(viol), "known_findings": len(kf), "functions_in_crate": len(F.bodies),
           "functions_summarised": sorted(ck.functions), "rules": rules, "counts": ck.counts,
           "samples": [{"rule": o[1], "instance": o[2], "where": o[3], "status": o[0]} for o in ck.obs[:200]]}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"), "coverage": cov,
          "wall_s": round(time.time() - t0, 3),
          "assumptions": getattr(mod, "ASSUMPTIONS", []) + ck.assumptions,
          "violations": [{"rule": v[0], "instance": v[1], "where": v[2], "message": v[3]} for v in viol]}
    with open(os.path.join(evd, "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        with open(rep, "w") as f:
            for rule, inst, where, msg in viol:
                f.write("rule: %s\ninstance: %s\nat: %s\n%s\n\n" % (rule, inst, where, msg))
        for rule, inst, where, msg in viol:
            print("violated: %s %s at %s: %s" % (rule, inst, where, msg))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    if nok < floor:
        print("only %d obligations discharged (expected at least %d): the analysis lost its anchors" % (nok, floor))
        return 3
    return 0


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        # the same order of sets, hence the same normal forms, on every run
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    try:
        rc = main()
    except SystemExit:
        raise
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
