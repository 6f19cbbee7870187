"""collects what a check analysed and what it found"""
import json
import os
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, tier, seed, root):
        self.prop, self.tier, self.seed, self.root = prop, tier, seed, root
        self.t0 = time.time()
        self.violations = []      # dicts: rule, construct, message, detail
        self.counts = {}
        self.samples = []
        self.undecided = []
        self.rules = {}
        self.assumptions = []
        self.decided = 0          # obligations with a verdict
        self.total = 0
        self.known = []

    def rule(self, name, text):
        self.rules[name] = text

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ok(self, rule, construct, how=None):
        """an obligation discharged"""
        self.total += 1
        self.decided += 1
        self.count(f"{rule}: discharged")
        if self.counts[f"{rule}: discharged"] <= 4:
            self.samples.append({"rule": rule, "construct": construct,
                                 "verdict": "holds", **({"how": how} if how else {})})

    def unsure(self, rule, construct, why):
        self.total += 1
        self.count(f"{rule}: undecided")
        self.undecided.append({"rule": rule, "construct": construct, "why": str(why)[:300]})

    def violation(self, rule, construct, message, detail=None):
        """construct: stable name (function, call site role) -- no line numbers"""
        self.total += 1
        self.decided += 1
        for v in self.violations:
            if v["rule"] == rule and v["construct"] == construct:
                return
        self.violations.append({"rule": rule, "construct": construct,
                                "message": message, "detail": detail})

    def need(self, what, got, least):
        """an analysis that matched fewer instances than the code is known to
        have is blind: no verdict"""
        self.count(f"instances {what}", got)
        if got < least:
            self.unsure("instances", what, f"{got} found, at least {least} expected")
            self.blind = True

    blind = False

    # ------------------------------------------------------------ finishing --
    def finish(self):
        known = []
        p = os.path.join(HERE, "KNOWN_FINDINGS.json")
        if os.path.exists(p):
            with open(p) as f:
                known = [k for k in json.load(f)["findings"] if k["property"] == self.prop
                         and k.get("status") == "known"]
        out, listed = [], []
        for v in self.violations:
            for k in known:
                if k["rule"] == v["rule"] and k["construct"] == v["construct"]:
                    listed.append((k, v))
                    break
            else:
                out.append(v)
        for k, v in listed:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        replay = os.path.join("evidence", f"{self.prop}.replay.json")
        rp = os.path.join(HERE, replay)
        if os.path.exists(rp):
            os.unlink(rp)
        if out:
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "violations": out}, f, indent=1, default=str)
        for v in out:
            print(f"{v['rule']}: {v['construct']}: {v['message']}")
        lines = {v["rule"] for v in out}
        if out:
            print(f"VIOLATION property={self.prop} replay={replay}")
        cov = {"explanation": "; ".join(f"{k}: {t}" for k, t in self.rules.items()),
               "obligations": self.total, "discharged": self.decided - len(self.violations),
               "undecided": self.undecided[:60], "undecided_total": len(self.undecided),
               "counts": self.counts, "samples": self.samples[:40],
               "known_findings": [k["what"] for k, _ in listed],
               "violations": out}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": "other", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 3), "violations": len(out)}
        with open(os.path.join(HERE, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print(f"{self.prop}: {self.total} obligations, {self.decided} decided, "
              f"{len(self.undecided)} undecided, {len(out)} violations, "
              f"{len(listed)} known, {time.time() - self.t0:.1f}s")
        if out:
            return 1
        if self.decided == 0:
            print(f"{self.prop}: nothing could be decided")
            return 2
        return 0
