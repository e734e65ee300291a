"""setup: nothing to build ahead of time; verify that the tool chain the checks use is present."""
import sys, os, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
missing = [t for t in ('gcc', 'objdump', 'as', 'ld', 'pkg-config') if not shutil.which(t)]
from vlib import core
core.cspc(); core.native_runner()
print('z3', z3.get_version_string(), 'missing:', missing)
sys.exit(1 if missing else 0)
