"""Nothing to prepare: every check builds what it needs.  This only makes sure
that the tools are there."""
import shutil
import sys

missing = [t for t in ("g++", "python3") if shutil.which(t) is None]
if missing:
    print("missing: %s" % missing)
    sys.exit(1)
print("ok")
