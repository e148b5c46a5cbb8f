"""python3 tools/sha.py FILE: as sh.py, on the sanitizer build"""
import os, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import buildtree
with tempfile.TemporaryDirectory() as d:
    t = buildtree.make_tree("asan", d)
    ex = dict(ASAN_OPTIONS="detect_leaks=0:detect_odr_violation=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
    sys.exit(subprocess.call([buildtree.PY, "-W", "ignore"] + sys.argv[1:], env=buildtree.run_env(t, "asan", ex), cwd=d))
