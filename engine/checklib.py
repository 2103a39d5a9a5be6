"""Obligation bookkeeping shared by every check."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known-findings.json")


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.ok_list = []
        self.viol = {}
        self.und = []
        self.analysed = set()
        self._sum = {}
        self._prog = None
        self.rule = ""
        self.assumptions = []

    # -- facts -------------------------------------------------------------
    @property
    def prog(self):
        if self._prog is None:
            import facts
            self._prog = facts.Program()
            self.byname = {}
            for f in self._prog.fns.values():
                if f.closure or "::tests::" in f.path or "test_utils" in f.path:
                    continue
                self.byname.setdefault(self._prog.fname(f), []).append(f)
        return self._prog

    def fn(self, name, crate=None):
        self.prog
        fs = self.byname.get(name, [])
        if crate:
            fs = [f for f in fs if f.crate.name == crate]
        return fs[0] if len(fs) >= 1 else None

    def summary(self, f, layer):
        """summary of fn (object or canonical name) under an abstraction layer, or None"""
        import interp
        if isinstance(f, str):
            g = self.fn(f)
            if g is None:
                return None
            f = g
        k = (f.crate.name, f.key, layer.__name__)
        if k not in self._sum:
            it = interp.Interp(self.prog, layer())
            try:
                self._sum[k] = it.summarize(f)
            except RecursionError:
                self._sum[k] = None
            except Exception as e:
                if os.environ.get("VP_DEBUG"):
                    raise
                self.undecided(self.prog.fname(f), "analysis gave up: %r" % (e,))
                self._sum[k] = None
            s = self._sum[k]
            if s is not None and s.ret is None and not self.never(f):
                # every path through the function ends in a panic: nothing it is judged for can hold
                self.violation("never returns:" + self.prog.fname(f), "%s never returns: every path through it panics (%s)" % (
                    self.prog.fname(f), "; ".join(e.kind + " " + str(e.span) for e in s.effects if e.kind == "assert")[:400]), self.where(f))
        self.analysed.add(self.prog.fname(f))
        return self._sum[k]

    def never(self, f):
        return f.crate.types[f.locals[0]]["k"] == "never"

    # -- verdicts ----------------------------------------------------------
    def ok(self, key):
        self.ok_list.append(key)

    def violation(self, key, detail, where=""):
        self.viol.setdefault(key, {"key": key, "detail": detail, "where": where})

    def undecided(self, key, why):
        self.und.append([key, why])

    def require(self, cond, key, detail, where=""):
        if cond:
            self.ok(key)
        else:
            self.violation(key, detail, where)
        return cond

    def floor(self, name, n, least):
        """anti-vacuity: the analysis must have found at least this many instances"""
        self.require(n >= least, "count:" + name, "only %d %s found, at least %d expected" % (n, name, least))

    def where(self, f):
        if isinstance(f, str):
            f = self.fn(f)
        return str(f.span) if f else ""

    # -- finish ------------------------------------------------------------
    def finish(self):
        known = {}
        if os.path.exists(KNOWN):
            for e in json.load(open(KNOWN)).get("findings", []):
                if e["property"] == self.pid:
                    known[e["key"]] = e
        bad = []
        for k, v in sorted(self.viol.items()):
            if k in known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k]["what"]))
            else:
                bad.append(v)
        rdir = os.path.join(HERE, "build", "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, self.pid + ".json")
        if bad:
            with open(rp, "w") as f:
                json.dump(bad, f, indent=1)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": "other",
            "coverage": {
                "explanation": self.rule,
                "obligations_discharged": len(self.ok_list),
                "obligations_violated": len(self.viol),
                "obligations_undecided": len(self.und),
                "functions_analysed": len(self.analysed),
                "functions": sorted(self.analysed)[:400],
                "sample_obligations": self.ok_list[:60],
                "undecided": self.und[:80],
                "violated": [{"key": v["key"], "detail": v["detail"][:2000], "where": v["where"]} for v in self.viol.values()],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(bad),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for v in bad:
            print("violation: %s at %s\n    %s" % (v["key"], v["where"], v["detail"][:1500]))
        if bad:
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("%s: %d obligations discharged, %d undecided, %d functions, %.1fs" % (
            self.pid, len(self.ok_list), len(self.und), len(self.analysed), time.time() - self.t0))
        return 0
