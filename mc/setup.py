"""Builds the parts that do not depend on /repo (the model core) and checks that the toolchain is there."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402
os.makedirs(common.BUILD, exist_ok=True)
common.build_core()
rc, out, err = common.sh(["rustc", "--version"])
print(out.strip())
sys.exit(rc)
