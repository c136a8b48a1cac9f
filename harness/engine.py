"""Runs TLC and the recorder, collects verdicts."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
CORES = max(1, os.cpu_count() or 1)


class NoAnswer(Exception):
    pass


class Work:
    """Scratch directory of one check run."""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="vchk-")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def sub(self, name):
        return tempfile.mkdtemp(prefix=name + "-", dir=self.dir)


def tlc(work, module, cfg=None, env=None, workers=None, extra=(), timeout=800, heap="12g"):
    meta = work.sub("tlc")
    # TLC resolves modules relative to the main module: run on a private copy
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers or CORES), "-deadlock", "-noGenerateSpecTE", "-metadir", meta, "-config", (cfg or module) + ".cfg", *extra, module + ".tla"]
    e = dict(os.environ, **(env or {}))
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise NoAnswer(f"TLC on {module} timed out")
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


_STATES = re.compile(r"^(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", re.M)


def states(out):
    m = _STATES.findall(out)
    if not m:
        return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


def model(work, module, cfg=None, timeout=800):
    """Model-check a design module; returns (generated, distinct, behaviours)."""
    rc, out = tlc(work, module, cfg, timeout=timeout)
    if rc != 0:
        tail = "\n".join(l for l in out.split("\n") if "GEN" not in l)[-3000:]
        raise NoAnswer(f"model {module}/{cfg} does not check (rc={rc}):\n{tail}")
    gen = []
    for line in out.split("\n"):
        if line.startswith('"GEN|'):
            gen.append(json.loads(line)[4:])
    gen = [json.loads(g) for g in sorted(gen)]
    g, d = states(out)
    return g, d, gen


def record(work, scenarios):
    """Run the recorder over the scenarios; returns (records, problems)."""
    if not scenarios:
        return [], []
    n = min(CORES, len(scenarios))
    weights = [len(s.get("s", "")) + 2000 for s in scenarios]
    shards = [[] for _ in range(n)]
    load = [0] * n
    for s, w in sorted(zip(scenarios, weights), key=lambda t: -t[1]):
        k = load.index(min(load))
        shards[k].append(s)
        load[k] += w

    def one(shard):
        recs, probs = [], []
        todo = shard
        while todo:
            d = work.sub("rec")
            src, dst = os.path.join(d, "in.ndjson"), os.path.join(d, "out.ndjson")
            with open(src, "w") as f:
                for s in todo:
                    f.write(json.dumps(s) + "\n")
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH="")
            try:
                subprocess.run([PY, os.path.join(HERE, "rec.py"), REPO, src, dst], cwd=d, env=env, stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, "err"), "w"), timeout=120 + 5 * len(todo))
            except subprocess.TimeoutExpired:
                pass
            got = []
            if os.path.exists(dst):
                with open(dst) as f:
                    for line in f:
                        try:
                            got.append(json.loads(line))
                        except ValueError:
                            break
            for g in got:
                if "crash" in g:
                    probs.append((g["id"], "crash", g["crash"]))
                else:
                    recs.append(g)
            if len(got) < len(todo):
                if not got and not os.path.exists(dst):
                    raise NoAnswer("recorder did not start: " + open(os.path.join(d, "err")).read()[-1500:])
                probs.append((todo[len(got)]["id"], "died", "recorder process ended"))
                todo = todo[len(got) + 1:]
                if len(probs) > 20:
                    break
            else:
                todo = []
            shutil.rmtree(d, ignore_errors=True)
        return recs, probs

    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(one, shards))
    recs = [r for a, _ in res for r in a]
    order = {s["id"]: i for i, s in enumerate(scenarios)}
    recs.sort(key=lambda r: order[r["id"]])
    return recs, [p for _, b in res for p in b]


_VERD = re.compile(r'^"VERDICT\|([^|]*)\|(-?\d+)\|(-?\d+)\|(-?\d+)\|(-?\d+)\|(-?\d+)"$')
_BAD = re.compile(r'^"BAD\|([^|]*)\|([^|]*)\|(.*)"$')


def validate(work, module, recs, timeout=800):
    """Trace validation by TLC.  Returns (bad, stats)."""
    bad, st = [], dict(runs=0, frames=0, done=0, gen=0, distinct=0)
    left = list(recs)
    for attempt in range(6):
        if not left:
            break
        path = os.path.join(work.sub("trace"), "t.ndjson")
        with open(path, "w") as f:
            for r in left:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        rc, out = tlc(work, module, env={"TRACE": path}, timeout=timeout)
        os.remove(path)
        seen, said = {}, {}
        for line in out.split("\n"):
            m = _VERD.match(line)
            if m:
                seen[m.group(1)] = [int(x) for x in m.groups()[1:]]
                continue
            m = _BAD.match(line)
            if m:
                bad.append((m.group(1), m.group(2), m.group(3)))
                said[m.group(1)] = said.get(m.group(1), 0) + 1
        for k, v in seen.items():
            if v[4] != said.get(k, 0):
                raise NoAnswer(f"{module}: {k} has {v[4]} deviations, {said.get(k, 0)} were reported")
        g, d = states(out)
        st["gen"] += g
        st["distinct"] += d
        for v in seen.values():
            st["runs"] += 1
            st["frames"] += v[0]
            st["done"] += v[1]
        if rc == 0:
            miss = [r["id"] for r in left if r["id"] not in seen]
            if miss:
                # the specification has no transition for what was recorded
                bad += [(m, "stuck", "") for m in miss]
            return bad, st
        # an observation the specification cannot even evaluate
        m = re.findall(r"^/?\\?/?\s*r = (\d+)", out, re.M) or re.findall(r"\br = (\d+)", out)
        if not ("evaluat" in out or "Attempted" in out or "exception" in out.lower()):
            raise NoAnswer(f"TLC on {module} failed (rc={rc}):\n" + out[-3000:])
        if not m:
            # no state named: find one by halving
            part = [r for r in left if r["id"] not in seen]
            while len(part) > 1:
                half = part[: len(part) // 2]
                with open(path, "w") as f:
                    for r in half:
                        f.write(json.dumps(r, separators=(",", ":")) + "\n")
                rc2, out2 = tlc(work, module, env={"TRACE": path}, timeout=timeout)
                os.remove(path)
                part = half if rc2 else part[len(half):]
            if not part:
                raise NoAnswer(f"TLC on {module} failed (rc={rc}):\n" + out[-3000:])
            m = [str(left.index(part[0]) + 1)]
        rid = left[int(m[-1]) - 1]["id"]
        bad.append((rid, "uneval", out[out.find("Error:"):][:300]))
        left = [r for r in left if r["id"] not in seen and r["id"] != rid]
    return bad, st
