"""Builds /verif/seeded/<id>/ from tools/seedlib/bugs.py and confirms each entry in a
scratch copy: applies, stable tests pass, demo passes before and fails after.
usage: mkseed.py [ids...]   (default: entries that have no folder yet)"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(HERE, "seedlib"))
from bugs import BUGS

base = set(x for x in json.load(open("/opt/vp/BASELINE.json")).get("stable", []) ) if os.path.exists("/opt/vp/BASELINE.json") else set()


def sh(cmd, cwd, t=300):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)


def tests(r):
    w = tempfile.mkdtemp(prefix="seedt")
    try:
        pre = ("export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONHASHSEED=0 LANG=C.UTF-8 PYTHONPATH=/opt/vp/plugin; "
               f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p bool_results --rootdir={r} --timeout=120 --continue-on-collection-errors -o junit_family=xunit2 --junitxml={w}/")
        sh(pre + "main.xml .", r)
        sh(pre + "extra.xml tests/base_data_test_samples.py::test_compare_method", r)
        x = sh(f"/opt/venv/bin/python /opt/vp/results.py {w}/out.json 'junit:{w}/*.xml'", r)
        if not os.path.exists(w + "/out.json"):
            return "tests gave no result: " + x.stdout + x.stderr
        res = json.load(open(w + "/out.json"))
        bad = sorted(base - set(res["passed"]))
        return f"tests fail: {bad[:3]} ({len(bad)})" if bad else None
    finally:
        shutil.rmtree(w)


def build(b):
    d = os.path.join(VERIF, "seeded", b["id"])
    tmp = tempfile.mkdtemp(prefix="seed")
    r = os.path.join(tmp, "repo")
    sh(f"git -C /repo worktree prune; cp -a /repo {r}", "/")
    try:
        for f, o, n in b["edits"]:
            p = os.path.join(r, f)
            s = open(p, encoding="utf-8", newline="").read()
            crlf = "\r\n" in s
            if crlf:
                o, n = o.replace("\n", "\r\n"), n.replace("\n", "\r\n")
            if s.count(o) != 1:
                return f"edit matches {s.count(o)} times in {f}: {o[:60]!r}"
            open(p, "w", encoding="utf-8", newline="").write(s.replace(o, n))
        diff = subprocess.run(["git", "diff", "--no-color"], cwd=r, capture_output=True).stdout
        # every removed line must be an original one
        blame_bad = []
        for f in {e[0] for e in b["edits"]}:
            rem = sh(f"git diff -U0 --no-color {f}", r).stdout
            import re
            for m in re.finditer(r"@@ -(\d+)(?:,(\d+))? ", rem):
                a, c = int(m[1]), int(m[2] or 1)
                if c:
                    bl = sh(f"git blame -s -L {a},+{c} HEAD -- {f}", r).stdout
                    blame_bad += [l for l in bl.splitlines() if not (l.startswith("^ad503a3") or l.startswith("ad503a3"))]
        if blame_bad:
            return "touches lines of a fix: " + blame_bad[0]
        os.makedirs(d, exist_ok=True)
        for x in os.listdir(d):
            os.unlink(os.path.join(d, x))
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        shutil.copy(os.path.join(HERE, "seedlib", "rt.py"), d)
        open(os.path.join(d, "demo.py"), "w").write("from rt import *\n\n" + b["demo"].strip("\n") + "\nprint('ok')\n")
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        err = None
        x = sh(f"bash {d}/demo.sh", "/repo")
        if x.returncode:
            err = "demo fails on the unchanged tree: " + x.stdout + x.stderr
        else:
            x = sh(f"bash {d}/demo.sh", r)
            if not x.returncode:
                err = "demo passes with the change"
            elif "FAIL:" not in x.stdout:
                print("   note:", (x.stdout + x.stderr).strip().splitlines()[-1:])
            if not err:
                err = tests(r)
        if err:
            shutil.rmtree(d)
        return err
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    ids = sys.argv[1:] or [b["id"] for b in BUGS if not os.path.isdir(os.path.join(VERIF, "seeded", b["id"]))]
    assert len({b["id"] for b in BUGS}) == len(BUGS)
    for b in BUGS:
        if b["id"] in ids:
            print(b["id"], b["prop"], build(b) or "ok", flush=True)
