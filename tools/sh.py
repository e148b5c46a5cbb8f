"""python3 tools/sh.py FILE: run FILE against a fresh tree of /repo (development aid)"""
import os, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import buildtree
with tempfile.TemporaryDirectory() as d:
    t = buildtree.make_tree("plain", d)
    sys.exit(subprocess.call([buildtree.PY, "-W", "ignore"] + sys.argv[1:], env=buildtree.run_env(t, "plain", {}), cwd=d))
