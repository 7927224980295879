"""Plant, test and keep seeded bugs.  plant.py SPECFILE [ID ...]

SPECFILE defines bugs with bug(id, property, [(file, old, new), ...], demo, needs, breaks).
Each is applied to a scratch copy of /repo, the repository's tests and the demo are run there
with and without it, then the property's check; it is kept in seeded/ID when it qualifies."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = {}
DEMO = """#!/bin/bash
cd "${REPO_DIR:-$PWD}" || exit 2
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$here/demo.py"
"""


def bug(id, prop, edits, demo, needs, breaks):
    BUGS[id] = (prop, edits, demo, needs, breaks)


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def run(id, notests=False):
    prop, edits, demo, needs, breaks = BUGS[id]
    d = tempfile.mkdtemp(prefix=f"plant-{id}-", dir="/tmp")
    w = d + "/repo"
    try:
        sh(["cp", "-a", "/repo", w])
        for f, old, new in edits:
            s = open(f"{w}/{f}").read()
            if s.count(old) != 1:
                return id, f"EDIT matches {s.count(old)} times in {f}: {old[:60]!r}"
            open(f"{w}/{f}", "w").write(s.replace(old, new))
        patch = sh(["git", "-C", w, "diff"]).stdout
        out = f"{V}/seeded/{id}"
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(patch)
        open(out + "/demo.sh", "w").write(DEMO)
        open(out + "/demo.py", "w").write(demo.strip() + "\n")
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
        e = dict(os.environ)
        e.pop("REPO_DIR", None)
        a = sh(["bash", out + "/demo.sh"], cwd="/repo", env=e)
        b = sh(["bash", out + "/demo.sh"], cwd=w, env=e)
        res = []
        if a.returncode:
            res.append("DEMO FAILS ON CLEAN TREE: " + (a.stderr or a.stdout)[-300:])
        if not b.returncode:
            res.append("DEMO PASSES WITH BUG")
        if not notests:
            env = dict(e, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", TZ="UTC",
                       OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
            t = sh(f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --basetemp={d}/tmp -n 4 --dist loadfile "
                   f"-m 'not internet' --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 "
                   f"--junitxml={d}/junit.xml; /usr/bin/python3 /opt/vp/results.py {d}/out.json junit:{d}/junit.xml", cwd=w, env=env)
            try:
                r = json.load(open(d + "/out.json"))
                failed = set(r.get("failed", []))
                bad = sorted(failed & stable())
                if bad:
                    res.append(f"TESTS CATCH IT: {len(bad)} {bad[:2]}")
            except Exception as ex:
                res.append(f"tests: {ex} {t.stdout[-300:]}")
        c = sh([sys.executable, V + "/check.py", prop, "quick"], env=dict(e, PYVC_REPO=w, PYVC_EVIDENCE=d + "/ev", VERIF_SEED="1"))
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        nf = v and all("no-failing-input-found" in l for l in v)
        res.append(f"{'CAUGHT' if c.returncode == 1 and v else 'MISSED'} rc={c.returncode}{' (no input)' if nf else ''} n={len(v)}")
        lines = [l for l in c.stdout.splitlines() if l.strip()]
        if c.returncode not in (0, 1):
            res.append(c.stdout[-300:] + c.stderr[-300:])
        return id, "; ".join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    spec = sys.argv[1]
    args = sys.argv[2:]
    nt = "--notests" in args
    args = [a for a in args if not a.startswith("--")]
    sys.modules["plant"] = sys.modules["__main__"]
    exec(compile(open(spec).read(), spec, "exec"), {"bug": bug})
    ids = args or list(BUGS)
    with ThreadPoolExecutor(2) as ex:
        for id, r in ex.map(lambda i: run(i, nt), ids):
            print(f"{id}: {r}", flush=True)
