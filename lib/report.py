"""One check run: what it covered, what it found, how it ends."""
import json, os, sys, time
from core import VERIF, CheckError, workdir

KNOWN = os.path.join(VERIF, "known_findings.json")

class Check:
    def __init__(self, pid, tier, seed, level, assumptions=()):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.assumptions = list(assumptions)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.events = 0
        self.extra = {}
        self.models = []
        self.viol, self.known = [], []
        self.dir = workdir(pid)
        try:
            self.kf = [k for k in json.load(open(KNOWN))["findings"] if k["property"] == pid]
        except (OSError, KeyError):
            self.kf = []

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def model(self, r):
        self.models.append(r)
        self.cov["states"] += r["states"]
        self.cov["transitions"] += r["transitions"]

    def traces(self, n, events, stats=None):
        self.cov["traces_validated_against_impl"] += n
        self.events += events
        if stats:
            self.extra["trace_states"] = self.extra.get("trace_states", 0) + stats["states"]

    def sample(self, x, n=4):
        if len(self.cov["samples"]) < n:
            self.cov["samples"].append(json.loads(json.dumps(x)) if len(json.dumps(x)) < 4000 else json.dumps(x)[:4000])

    def note(self, k, v):
        self.extra[k] = self.extra.get(k, 0) + v if isinstance(v, (int, float)) else v

    def violation(self, key, what, data):
        """key: string that identifies the failing input or call site."""
        for k in self.kf:
            if k["key"] == key or (k.get("prefix") and key.startswith(k["key"])):
                if k not in self.known:
                    self.known.append(k)
                return
        n = len(self.viol) + 1
        f = os.path.join(self.dir, "%03d.json" % n)
        if n <= 25:
            json.dump({"property": self.pid, "key": key, "what": what, **data}, open(f, "w"), indent=1)
        self.viol.append({"key": key, "what": what, "replay": f})

    def finish(self):
        wall = time.time() - self.t0
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {**self.cov, "events_checked": self.events, "models": self.models, **self.extra},
              "wall_s": round(wall, 2), "assumptions": self.assumptions, "violations": len(self.viol),
              "known_findings": [k["what"] for k in self.known]}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.pid + ".json"), "w"), indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for v in self.viol[:5]:
            print("  %s: %s" % (v["key"][:500], v["what"][:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, v["replay"]))
        if len(self.viol) > 5:
            print("  and %d more" % (len(self.viol) - 5))
        print("%s %s seed=%d: %d model states, %d traces, %d events, %d violations, %.1f s" %
              (self.pid, self.tier, self.seed, self.cov["states"], self.cov["traces_validated_against_impl"],
               self.events, len(self.viol), wall))
        return 1 if self.viol else 0
