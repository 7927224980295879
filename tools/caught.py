"""Which planted bug its check catches, and how: tools/caught.json.
   python3 tools/caught.py [IDs]   (scratch copies of /repo under /tmp, three at a time)"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = f"{HERE}/tools/caught.json"


def one(i):
    pid = json.load(open(f"{HERE}/seeded/{i}/meta.json"))["property"]
    d = tempfile.mkdtemp(prefix="caught")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/r"], check=True)
        p = subprocess.run(["git", "-C", d + "/r", "apply", f"{HERE}/seeded/{i}/patch.diff"], capture_output=True)
        if p.returncode:
            return i, "patch does not apply"
        env = dict(os.environ, PYVC_REPO=d + "/r", PYVC_EVIDENCE=d, VERIF_SEED="1", VERIF_TIER="quick")
        p = subprocess.run([sys.executable, f"{HERE}/check.py", pid, "quick"], cwd=HERE, env=env, capture_output=True, text=True, timeout=900)
        v = [x for x in p.stdout.splitlines() if re.match("VIOLATION ", x)]
        r = "no" if p.returncode != 1 or not v else "no input" if all(x.endswith("no-failing-input-found") for x in v) else "input"
        return i, r
    finally:
        shutil.rmtree(d, ignore_errors=True)


ids = sys.argv[1:] or sorted(os.path.basename(d) for d in glob.glob(f"{HERE}/seeded/*"))
res = json.load(open(OUT)) if os.path.exists(OUT) else {}
with ThreadPoolExecutor(3) as ex:
    for i, r in ex.map(one, ids):
        print(i, r, flush=True)
        res[i] = r
have = {os.path.basename(d) for d in glob.glob(f"{HERE}/seeded/*")}
json.dump({k: res[k] for k in sorted(res) if k in have}, open(OUT, "w"), indent=1)
