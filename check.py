#!/usr/bin/env python3
"""check.py <property> [--thorough]: run one check. Exit 0: held. Exit 1 and a
VIOLATION line: broken. Exit 2: the check could not give an answer."""
import os, sys, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, checks

def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = vf.Check(prop, tier, seed)
    try:
        return getattr(checks, prop.lower())(c)
    except Exception as e:
        # A violation that was already observed stands.
        c.errors = getattr(c, "errors", []) + ([str(e)] if isinstance(e, vf.CheckError) else [traceback.format_exc()])
        return c.finish("(incomplete run)")
    finally:
        if not os.environ.get("VERIF_KEEP"): c.cleanup()

sys.exit(main())
