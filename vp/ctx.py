"""What every check shares: tier, seed, scratch files, counting, violations, evidence."""
import os, sys, json, time, random, hashlib, traceback
from . import build, runner

KNOWN = os.path.join(build.VERIF, "known-findings.json")
# replays are kept outside git; a violation always names one
REPLAY = os.path.join(build.VERIF, "_work", "replay")


class Ctx:
    def __init__(self, prop, level):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rnd = random.Random("%s-%d" % (prop, self.seed))
        self.scratch = runner.Scratch()
        self.t0 = time.time()
        self.violations = []
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.rules = []
        self.extra = {}
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.assumptions = []
        self.known_hit = []
        self.known = [k for k in load_known() if k["property"] == prop and k.get("status") != "fixed"]

    def n(self, quick, thorough=None):
        if self.tier == "thorough":
            return thorough if thorough is not None else quick * 12
        return quick

    def left(self, limit):
        """seconds left of a self-imposed limit"""
        return limit - (time.time() - self.t0)

    def sub(self, *a):
        return random.Random("%s-%d-%s" % (self.prop, self.seed, "-".join(map(str, a))))

    def seen(self, *key, nontrivial=True):
        self.evaluations += 1
        if nontrivial:
            self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def add_sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def count(self, name, k=1):
        self.extra[name] = self.extra.get(name, 0) + k

    def fail(self, what, replay):
        """A violation. replay: json-able description that reproduces it."""
        fp = replay.get("fingerprint")
        for k in self.known:
            if fp is not None and k.get("fingerprint") == fp:
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return
        self.violations.append((what, replay))

    def write_evidence(self):
        cov = dict(self.extra)
        cov["samples"] = self.samples or ["(no sample)"]
        cov["evaluations"] = self.evaluations
        cov["distinct_nontrivial"] = len(self.keys)
        cov["rule"] = " ".join(self.rules) or "see DESIGN.md"
        if self.level == "model_checking":
            cov["states"] = self.states
            cov["transitions"] = self.transitions
            cov["traces_validated_against_impl"] = self.traces
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        d = os.path.join(build.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

    def finish(self):
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        self.write_evidence()
        self.scratch.close()
        if not self.violations:
            print("%s: held on %d evaluations (%d distinct), %.1fs" % (self.prop, self.evaluations, len(self.keys), time.time() - self.t0))
            return 0
        os.makedirs(REPLAY, exist_ok=True)
        for i, (what, rep) in enumerate(self.violations[:int(os.environ.get('VP_SHOW', 5))]):
            p = os.path.join(REPLAY, "%s-%d.json" % (self.prop, i + 1))
            rep = dict(rep, property=self.prop, what=what)
            with open(p, "w") as f:
                json.dump(rep, f, indent=1, default=str)
            print("  " + what[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        if len(self.violations) > 5 and not os.environ.get('VP_SHOW'):
            print("  (%d further violations)" % (len(self.violations) - 5))
        return 1


def load_known():
    try:
        return json.load(open(KNOWN))["findings"]
    except FileNotFoundError:
        return []
