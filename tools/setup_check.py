"""setup_cmd: nothing to build; check that the tools the checks need are present."""
import os
import subprocess
import sys

PY = "/opt/venv/bin/python"
code = ("import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3; print(z3.get_version_string()); "
        "import numpy, pydantic")
r = subprocess.run([PY, "-c", code], capture_output=True, text=True)
print(r.stdout, r.stderr)
r2 = subprocess.run(["cvc5", "--version"], capture_output=True, text=True)
print(r2.stdout.splitlines()[:1])
sys.exit(r.returncode or r2.returncode)
