#!/usr/bin/env python3
"""check.py PID [--thorough]: decides one property on the current /repo tree (see DESIGN.md)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import run, checks
if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    th = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    sys.exit(run.main(args[0], th, checks.CHECKS))
