#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree (VERIF_TIER, VERIF_SEED)."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib

if __name__ == "__main__":
    pid = sys.argv[1]
    if pid == "--setup":
        import shutil
        missing = [x for x in ("g++", "java") if not shutil.which(x)] + ([] if os.path.exists(vlib.JARS) else [vlib.JARS])
        print("missing: %s" % missing if missing else "setup ok")
        sys.exit(1 if missing else 0)
    import registry
    sys.exit(vlib.main(pid, registry.CHECKS[pid]))
