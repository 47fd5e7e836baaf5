"""Checks that the tools the framework needs are present (nothing is built in advance: every check rebuilds from /repo)."""
import shutil, sys
import numpy, scipy, torch  # noqa: F401
missing = [t for t in ("cmake", "ninja", "gcc") if not shutil.which(t)]
if missing:
    sys.exit(f"missing {missing}")
print("ok")
