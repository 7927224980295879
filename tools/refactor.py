"""Apply behaviour-preserving edits and run the checks: refactor.py SPECFILE [ID ...] [--tests]

SPECFILE defines ref(id, [properties], [(file, old, new), ...]).  Every check named must exit 0;
what it lost (obligations no longer decided) is printed."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REFS = {}
M = "mt_metadata/"


def ref(id, props, edits):
    REFS[id] = (props, edits)


def one(id, tests):
    props, edits = REFS[id]
    d = tempfile.mkdtemp(prefix="rf")
    out = []
    try:
        r = d + "/repo"
        shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns(".git", "tests", "examples", "docs"))
        for f, a, b in edits:
            s = open(r + "/" + f).read()
            if s.count(a) != 1:
                return f"{id}: pattern occurs {s.count(a)} times in {f}: {a[:60]!r}"
            open(r + "/" + f, "w").write(s.replace(a, b))
        v = d + "/verif"
        shutil.copytree(V, v, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        for p in props:
            q = subprocess.run(["python3", "check.py", p, "quick"], cwd=v, capture_output=True, text=True,
                               env=dict(os.environ, PYVC_REPO=r, VERIF_SEED="1", VERIF_TIER="quick"))
            lines = q.stdout.strip().splitlines()
            last = lines[-1] if lines else q.stderr[-300:]
            out.append(f"{id} {p}: {'quiet' if q.returncode == 0 else 'ALARM rc=%d' % q.returncode}  {last}")
            if q.returncode:
                out += ["    " + x[:400] for x in lines if "VIOLATION" in x or "counter" in x or "failed" in x][:4]
            und = [x for x in lines if "undecided" in x.lower()][:-1]
            out += ["    " + x[:240] for x in und[:6]]
    finally:
        shutil.rmtree(d)
    return "\n".join(out)


if __name__ == "__main__":
    a = sys.argv[1:]
    exec(open(a[0]).read())
    ids = [x for x in a[1:] if not x.startswith("--")] or list(REFS)
    with ThreadPoolExecutor(3) as ex:
        for o in ex.map(lambda i: one(i, "--tests" in a), ids):
            print(o, flush=True)
