#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on the current tree of /repo."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
sys.dont_write_bytecode = True
import report
sys.exit(report.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
