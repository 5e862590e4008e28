"""What a check run found: evidence file, known findings, VIOLATION lines."""
import json, os, re, sys, time
from core import VERIF

KNOWN = os.path.join(VERIF, "known-findings.txt")

def known_findings():
    """property -> {key: text}; only `KNOWN-FINDING:` lines suppress, `fixed:` lines do not"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"KNOWN-FINDING: property=(C\d+) key=(\S+) (.*)", l.strip())
            if m: out.setdefault(m[1], {})[m[2]] = m[3]
    return out

class Report:
    def __init__(self, prop, rule, assumptions=()):
        self.prop, self.rule, self.assumptions = prop, rule, list(assumptions)
        self.t0 = time.time()
        self.evals = 0
        self.distinct = 0
        self.samples, self.extra, self.viol = [], {}, []
        try: self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError: self.seed = 1
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.known = known_findings().get(prop, {})
        self.hit = {}

    @property
    def thorough(self): return self.tier == "thorough"
    def elapsed(self): return time.time() - self.t0

    def violation(self, key, what, **replay):
        """key identifies the failing input or call site"""
        if key in self.known:
            self.hit.setdefault(key, what)
            return
        if len(self.viol) < 100:
            self.viol.append({"key": key, "what": str(what), **replay})

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def add(self, evals, distinct):
        self.evals += evals; self.distinct += distinct

    def sample(self, x):
        if len(self.samples) < 6: self.samples.append(x)

    def finish(self):
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        for f in os.listdir(ev):
            if f.startswith("replay-%s-" % self.prop): os.unlink(os.path.join(ev, f))
        for k, w in sorted(self.hit.items()):
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.prop, self.known[k], k))
        paths = []
        for i, v in enumerate(self.viol[:20]):
            p = os.path.join(ev, "replay-%s-%d.json" % (self.prop, i))
            json.dump(v, open(p, "w"), indent=1)
            paths.append(p)
        d = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
             "coverage": {"evaluations": self.evals, "distinct_nontrivial": self.distinct, "rule": self.rule,
                          "samples": self.samples, "observed": self.extra,
                          "known_findings_seen": sorted(self.hit)},
             "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        json.dump(d, open(os.path.join(ev, "%s.json" % self.prop), "w"), indent=1)
        print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.1f s" %
              (self.prop, self.tier, self.seed, self.evals, self.distinct, len(self.viol), d["wall_s"]))
        print("   observed: " + json.dumps(self.extra)[:1500])
        for v, p in zip(self.viol, paths):
            print("   %s: %s" % (v["key"], v["what"][:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        if self.evals == 0 and not self.viol:
            print("nothing was evaluated", file=sys.stderr)
            return 2
        return 1 if self.viol else 0
