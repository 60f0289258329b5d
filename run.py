#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough]: decide one property on /repo's working tree."""
import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vf
pid = sys.argv[1]
table = importlib.import_module("table")
sys.exit(vf.main(pid, table.CHECKS[pid]))
