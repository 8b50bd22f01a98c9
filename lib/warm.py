"""Compiles every explorer once (build cache only)."""
import importlib.util, importlib.machinery, os, shutil, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
loader = importlib.machinery.SourceFileLoader("vfcheck", os.path.join(V, "check"))
spec = importlib.util.spec_from_loader("vfcheck", loader)
chk = importlib.util.module_from_spec(spec)
loader.exec_module(chk)
from props import PROPS
for p in ("C01", "C23"):
    w = tempfile.mkdtemp(prefix="vf-warm-")
    try:
        chk.build(p, PROPS[p], w, chk.go_env(w))
    finally:
        shutil.rmtree(w, ignore_errors=True)
print("ready")
