#!/usr/bin/env python3
"""replay.py FILE  -- re-runs the counterexample of a VIOLATION line on the native build of /repo's current tree."""
import sys, json, os, subprocess, tempfile
f = json.load(open(sys.argv[1])); V = os.path.dirname(os.path.abspath(__file__))
os.environ["VSX_REPLAY"] = os.path.abspath(sys.argv[1]); os.environ["VERIF_TIER"] = "thorough"
os.execv(sys.executable, [sys.executable, V + "/check.py", f["property"], "thorough"])
