"""Interpreter set-up shared by every check: where /repo, hypothesis and the
property modules are imported from, and the silencing of logging."""
import logging
import os
import sys
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True
for p in (VERIF, os.path.join(VERIF, "lib")):
    if p not in sys.path:
        sys.path.insert(0, p)
sys.path.insert(0, REPO)
if VT_SITE not in sys.path:
    sys.path.append(VT_SITE)  # last: only hypothesis and its dependency come from it

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", "/nonexistent-hypothesis")
sys.setrecursionlimit(3000)
