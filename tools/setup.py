"""nothing to install; tells early what a check would miss"""
import os
import shutil
import sys

missing = [x for x in ("cargo", "node", "python3") if not shutil.which(x)]
if not os.path.isdir("/opt/veriftools/node/node_modules/zod"):
    missing.append("zod (npm)")
if missing:
    print("missing:", missing)
    sys.exit(1)
print("ok")
