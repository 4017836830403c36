"""setup_cmd: every check builds what it needs itself; this only verifies the tools it will use."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vp import CLANG, run
bad = [t for t in ("gcc", "g++", "objdump", "nm", "make", CLANG) if not shutil.which(t)]
if bad: sys.exit("missing tools: %s" % bad)
print("ok:", run(["gcc", "--version"]).out.splitlines()[0])
