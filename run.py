#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough] [obligation-regex]"""
import importlib.util, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import vlib
pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else None
only = sys.argv[3] if len(sys.argv) > 3 else None
sp = importlib.util.spec_from_file_location("check_" + pid, os.path.join(V, "checks", pid + ".py"))
m = importlib.util.module_from_spec(sp)
sp.loader.exec_module(m)
sys.exit(vlib.main(m.P, tier, only))
