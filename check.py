#!/usr/bin/env python3
"""Decides one property:   check.py <ID> [quick|thorough]
Re-examines a counterexample:  check.py replay FILE

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Exit 2: no answer (tool failure)."""
import json, os, re, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True
import engine
from props import PROPS, SUITES

TROUBLE = ("crash", "died", "uneval", "stuck")
BUDGET = float(os.environ.get("VERIF_BUDGET", "600"))


def known():
    """Listed findings: (property, id regex, clause regex, text)."""
    out = []
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) input=(\S+) clause=(\S+) (.*)", line)
            if m:
                out.append(m.groups())
    return out


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.p = PROPS[pid]
        self.clause = re.compile(self.p["clauses"])
        self.states = self.trans = self.traces = self.frames = self.done = self.scen = 0
        self.models, self.samples, self.viol, self.beh = {}, [], [], {}
        self.per = {}

    def behaviours(self, work, module, cfg=None):
        key = (module, cfg or module)
        if key not in self.beh:
            g, d, b = engine.model(work, module, cfg)
            self.models["/".join(key)] = dict(generated=g, distinct=d, behaviours=len(b))
            self.states += d
            self.trans += g
            self.beh[key] = b
        return self.beh[key]

    def round(self, work, seed):
        byMod = {}
        for name in self.p["suites"]:
            mod, fn = SUITES[name]
            sc = fn(seed, self.tier, lambda m, c=None: self.behaviours(work, m, c))
            self.per[name] = self.per.get(name, 0) + len(sc)
            byMod.setdefault(mod, []).extend(sc)
        for mod, sc in byMod.items():
            ids = [s["id"] for s in sc]
            assert len(set(ids)) == len(ids), "duplicate scenario ids"
            recs, probs = engine.record(work, sc)
            bad, st = engine.validate(work, mod, recs)
            self.scen += len(sc)
            self.states += st["distinct"]
            self.trans += st["gen"]
            self.traces += st["runs"]
            self.frames += st["frames"]
            self.done += st["done"]
            if not recs and not probs:
                raise engine.NoAnswer("nothing recorded for " + mod)
            if len(self.samples) < 3:
                self.samples += [{k: (v if len(str(v)) < 300 else str(v)[:300] + "...") for k, v in s.items()} for s in sc[:: max(1, len(sc) // 2)][:2]]
            byid = {s["id"]: s for s in sc}
            for i, c, t in probs:
                bad.append((i, c, t))
            for i, c, t in bad:
                if c in TROUBLE or self.clause.search(c):
                    self.viol.append((mod, byid[i], c, t))

    def go(self):
        t0 = time.time()
        with engine.Work() as work:
            for m, c in self.p.get("models", ()):
                if self.tier == "quick" and c and c.endswith("!"):
                    continue
                self.behaviours(work, m, c.rstrip("!") if c else None)
            n = 0
            while True:
                t1 = time.time()
                self.round(work, self.seed + 1000003 * n)
                n += 1
                if self.viol or self.tier == "quick":
                    break
                if time.time() - t0 + (time.time() - t1) > BUDGET:
                    break
        self.rounds = n
        self.wall = time.time() - t0

    def report(self):
        kn = known()
        real, seen = [], set()
        for v in self.viol:
            hit = [k for k in kn if k[0] == self.pid and re.fullmatch(k[1], v[1]["id"]) and re.fullmatch(k[2], v[2])]
            if hit:
                seen.add(hit[0])
            else:
                real.append(v)
        for k in sorted(seen):
            print(f"KNOWN-FINDING: property={self.pid} {k[3]}")
        cov = dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces, samples=self.samples,
                   scenarios=self.scen, frames=self.frames, messages_accepted=self.done, models=self.models, rounds=self.rounds,
                   suites={k: v for k, v in self.per.items()}, deciding_clauses=self.p["clauses"])
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov, wall_s=round(self.wall, 2),
                  assumptions=self.p.get("assume", []) + ["TLC and the CommunityModules operators are correct",
                                                          "the recorder reports faithfully what the public interface returned and what lies on disk"],
                  violations=len(real))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if not real:
            print(f"OK property={self.pid} tier={self.tier} scenarios={self.scen} traces={self.traces} states={self.states} wall={self.wall:.1f}s")
            return 0
        # shortest counterexample first
        real.sort(key=lambda v: len(json.dumps(v[1])))
        clauses = {}
        for v in real:
            clauses[v[2]] = clauses.get(v[2], 0) + 1
        mod, sc, c, t = real[0]
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        path = os.path.join(HERE, "replay", f"{self.pid}-{self.tier}-{self.seed}.json")
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, module=mod, clause=c, detail=t, scenario=sc, all_clauses=clauses), f)
        print(f"first: {sc['id']} clause={c} {t[:300]}")
        print("clauses: " + ", ".join(f"{k}x{n}" for k, n in sorted(clauses.items())))
        print(f"VIOLATION property={self.pid} replay={path}")
        return 1


def replay(path):
    with open(path) as f:
        d = json.load(f)
    with engine.Work() as work:
        recs, probs = engine.record(work, [d["scenario"]])
        bad, _ = engine.validate(work, d["module"], recs)
    for b in bad + probs:
        print("BAD", b)
    clause = re.compile(PROPS[d["property"]]["clauses"])
    if any(b[1] in TROUBLE or clause.search(b[1]) for b in bad + probs):
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    return 0


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    run = Run(pid, tier, seed)
    run.go()
    return run.report()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except engine.NoAnswer as e:
        print("NO-ANSWER", e)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
