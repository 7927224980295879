"""`pytest -p pyvc.pytest_plugin`: run the repository's tests on the
instrumented package (cross-check that the rewriting preserves behaviour)."""
import sys

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from pyvc import instrument

instrument.install("/repo")
