#!/opt/venv/bin/python
"""check.py <property>: decides one property of /repo's current tree with the TLA+ specification in spec/.

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken."""
import hashlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent"            # never read stale byte code either
sys.path[:0] = [os.path.join(HERE, "harness"), os.path.join(REPO, "src")]

import reparsec  # noqa: E402

import isolated  # noqa: E402
import models  # noqa: E402
import profiles  # noqa: E402
import tlc  # noqa: E402
from record import Limit, Rec  # noqa: E402

assert os.path.realpath(reparsec.__file__).startswith(os.path.realpath(REPO) + "/"), reparsec.__file__

TRACES = {"quick": 1500, "thorough": 12000}
BATCH = 1500
JOBS = 8


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.states = self.transitions = self.traces = 0
        self.parts, self.samples, self.bad, self.unjudged = [], [], [], []
        self.known = self.read_known()

    # ------------------------------------------------------------------ findings
    def read_known(self):
        out = {}
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                w = line.split()
                if len(w) > 2 and w[0] == "known:" and w[1] == "property=" + self.pid and w[2].startswith("key="):
                    out[w[2][4:]] = line.strip()
        return out

    def violation(self, what, clauses, data):
        """data: what is needed to see it again"""
        key = hashlib.sha1(json.dumps([data.get("nodes"), data.get("inputs"), data.get("text"), data.get("spec"),
                                       sorted(clauses)], sort_keys=True).encode()).hexdigest()[:12]
        if key in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[key]))
            return
        d = os.path.join(HERE, "out", self.pid)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % key)
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, what=what, clauses=sorted(clauses), key=key, **data), f, indent=1)
        self.bad.append((what, sorted(clauses), path))

    # --------------------------------------------------------------- code under test
    def spread(self, fn, items, what, timeout=400):
        """fn over items in child processes -> list of (item, result); what a child dies of is a violation."""
        import concurrent.futures as cf
        parts = [items[j::JOBS] for j in range(JOBS) if items[j::JOBS]]

        def guard(it):
            try:
                return dict(r=fn(it))
            except Exception as e:
                return dict(x="%s: %s" % (type(e).__name__, e), tb=traceback.format_exc())
        got = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for part, (res, how) in zip(parts, ex.map(lambda p: isolated.run(guard, p, timeout), parts)):
                if how:
                    self.violation("%s: the process ended with %s" % (what, how), {"process"},
                                   dict(item=part[len(res)] if len(res) < len(part) else None))
                for it, r in zip(part, res):
                    if "x" in r:
                        self.violation("%s: the public API raised %s" % (what, r["x"]), {"api"}, dict(item=it, tb=r["tb"]))
                    else:
                        got.append((it, r["r"]))
        return got

    # ------------------------------------------------------------------------- parts
    def validate(self, sessions, clauses, what):
        for j in range(0, len(sessions), BATCH):
            part = sessions[j:j + BATCH]
            part, vs = self.judged(part)
            for s, v in zip(part, vs):
                bad = [(l, c) for l, c in v["bad"] if c in clauses]
                if bad and self.confirm(s, bad):
                    self.violation("%s %s, events %s" % (what, s["tag"], sorted(set(l for l, _ in bad))[:5]),
                                   {c for _, c in bad}, s)
            yield part, vs

    def judged(self, part):
        """Validates sessions; one on which TLC fails does not keep the others from being judged."""
        try:
            vs, res = tlc.validate(part)
        except tlc.TLCError as e:
            print(str(e)[-600:])
            if len(part) == 1 or len(self.unjudged) >= 8:
                self.unjudged += part
                return [], []
            mid = len(part) // 2
            (p1, v1), (p2, v2) = self.judged(part[:mid]), self.judged(part[mid:])
            return p1 + p2, v1 + v2
        self.states += res["distinct"]
        self.transitions += res["states"]
        self.traces += len(part)
        return part, vs

    def confirm(self, s, bad):
        """C13 is about history: the outcome has to differ from that of the same parse done alone."""
        if self.pid != "C13":
            return True
        from alone import alone
        return any(alone(s, l) for l, _ in bad)

    def do_models(self):
        for n, m in enumerate(models.MODELS.get(self.pid, ((), ()))[self.tier == "thorough"]):
            res = tlc.run("MC.tla", models.cfg(m), timeout=850)
            if res["violated"]:
                raise tlc.TLCError("the specification itself violates %s\n%s" % (res["violated"], res["out"][-3000:]))
            cases = tlc.printed(res["out"], "CASE")
            self.states += res["distinct"]
            self.transitions += res["states"]
            self.traces += len(cases)
            styles = m["styles"] or [0]
            items = [(c, (j + self.seed + st) % 12) for j, c in enumerate(cases) for st in styles]
            got = self.spread(models.differs, items, "replay of specification behaviours")
            wrong = sorted((it for it, d in got if d), key=lambda it: (len(it[0]["g"]), len(it[0]["i"])))
            self.parts.append(dict(part="MC.tla exhaustive", config=m, states=res["distinct"], behaviours_replayed=len(cases),
                                   replays_that_differ=len(wrong)))
            if not self.samples:
                self.samples.append(cases[len(cases) // 2])
            if wrong:
                clauses = profiles.PROFILES[self.pid][1]
                pick = wrong[:150] + wrong[150::max(1, len(wrong) // 150)][:150]
                ss = [s for _, s in self.spread(models.session, pick, "case")]
                for _ in self.validate(ss, clauses, "case of MC.tla"):
                    pass

    def do_traces(self):
        n = TRACES[self.tier]
        clauses = profiles.PROFILES[self.pid][1]
        got = self.spread(profiles.make, [(self.pid, self.seed, it) for it in range(n)], "recorded session")
        ss = [s for _, s in sorted(got, key=lambda g: g[0][2]) if s]
        fuel = events = 0
        for part, vs in self.validate(ss, clauses, "session"):
            fuel += sum(v["fuel"] < 0 for v in vs)
            events += sum(len(s["ev"]) for s in part)
        kinds = {}
        for s in ss:
            for x in s["nodes"]:
                kinds[x["k"]] = kinds.get(x["k"], 0) + 1
        self.parts.append(dict(part="recorded sessions validated by Trace.tla", sessions=len(ss), events=events,
                               judged_in_part_only=fuel, combinators=kinds, clauses=sorted(clauses)))
        self.samples.append(ss[len(ss) // 2])

    def run(self):
        t0 = time.time()
        if self.pid in models.MODELS:
            self.do_models()
        if self.pid in profiles.PROFILES:
            self.do_traces()
        if self.pid == "C12":
            import lexcheck
            lexcheck.run(self)
        if self.pid == "C13":
            import histories
            histories.run(self)
        if self.pid == "C19":
            import conc
            conc.run(self)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
                           coverage=dict(states=self.states, transitions=self.transitions,
                                         traces_validated_against_impl=self.traces,
                                         samples=self.samples, parts=self.parts),
                           assumptions=["grammars are built from the public combinators, without left recursion",
                                        "user callbacks are deterministic"],
                           wall_s=round(time.time() - t0, 2), violations=len(self.bad)), f, indent=1)
        for what, clauses, path in self.bad[:20]:
            print("  %s: %s" % (what, ", ".join(clauses)))
        if self.bad:
            print("VIOLATION property=%s replay=%s" % (self.pid, self.bad[0][2]))
            return 1
        if self.unjudged:
            print("%s: no answer, %d sessions could not be judged" % (self.pid, len(self.unjudged)))
            return 2
        print("%s held: %d states, %d behaviours and sessions bound to the code, %.0f s" %
              (self.pid, self.states, self.traces, time.time() - t0))
        return 0


if __name__ == "__main__":
    sys.setrecursionlimit(10000)
    sys.exit(Check(sys.argv[1], os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1"))).run())
