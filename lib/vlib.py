"""Worker side: runs the cases of one property and records what its monitors saw.

A property module (checks/pXX.py) defines

    PROPERTY, KIND ('plain' or 'asan'), RULE (what counts as a distinct state)
    N = {'quick': n, 'thorough': n}         number of cases
    def case(i, rng, mon): ...              one generated workload + its monitors

Verdicts are three-valued.  A monitor that sees the property broken calls
mon.violation(); an exception that escapes from the code under test on a legal
workload is a violation too; an exception raised by the harness itself is not:
it makes the run inconclusive (exit 2), never an alarm and never a pass.
"""
import argparse
import collections
import contextlib
import hashlib
import importlib
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Monitor(object):
    def __init__(self):
        self.events = collections.Counter()
        self.states = set()
        self.cstates = set()
        self.sigs = set()
        self.samples = []
        self.violations = []
        self.notes = collections.Counter()
        self.case = None
        self.ctx = {}

    def event(self, kind, n=1):
        self.events[kind] += int(n)

    def state(self, *key):
        """a distinct situation in which some monitor gave a verdict"""
        k = "|".join(str(k) for k in key)
        self.cstates.add(k)
        if len(self.states) < 200000:
            self.states.add(k)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(str(s)[:300])

    def violation(self, mech, detail):
        """mech: stable name of the mechanism (what went wrong, where)"""
        if len(self.violations) < 200:
            self.violations.append(dict(case=self.case, mech=mech, detail=str(detail)[:1500],
                                        ctx={k: str(v)[:600] for k, v in self.ctx.items()}))

    def check(self, ok, mech, detail=""):
        self.events["verdicts"] += 1
        if not ok:
            self.violation(mech, detail() if callable(detail) else detail)
        return bool(ok)

    # ---- common numeric verdicts
    def close(self, a, b, mech, rtol=1e-9, atol=0.0, what=""):
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        ok = a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))
        return self.check(ok, mech, lambda: "%s: got %s, expected %s" % (what, _short(a), _short(b)))

    def equal(self, a, b, mech, what=""):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a_, b_ = np.asarray(a), np.asarray(b)
            ok = a_.shape == b_.shape and bool(np.all((a_ == b_) | ((a_ != a_) & (b_ != b_))))
        else:
            ok = bool(a == b)
        return self.check(ok, mech, lambda: "%s: got %s, expected %s" % (what, _short(a), _short(b)))


def _short(x):
    s = np.array2string(x, threshold=12, edgeitems=4, precision=12) if isinstance(x, np.ndarray) else repr(x)
    return s[:400]


class Inconclusive(Exception):
    pass


def in_tree(filename):
    return (os.sep + "gnome" + os.sep) in filename and "gnome-tree-" in filename


def blame(exc):
    """'code' when the exception was raised inside the package under test (or in
    something it called), 'harness' when our own frame is the innermost one that
    is not a library"""
    tb = traceback.extract_tb(exc.__traceback__)
    for fr in reversed(tb):
        if fr.filename.startswith(VERIF):
            if os.sep + "stubs" + os.sep in fr.filename:
                continue
            return "harness"
        if in_tree(fr.filename) or fr.filename.startswith("gnome/") or fr.filename.endswith(".pyx"):
            return "code"
    return "harness"


def where(exc):
    tb = [fr for fr in traceback.extract_tb(exc.__traceback__)
          if in_tree(fr.filename) or fr.filename.endswith(".pyx")]
    if not tb:
        return "?"
    fr = tb[-1]
    f = fr.filename.split("gnome-tree-")[-1].split(os.sep, 1)[-1]
    return "%s:%s" % (f, fr.name)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vcase-")
    cwd = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def seed_all(*key):
    ss = np.random.SeedSequence([int(k) for k in key])
    n = int(ss.generate_state(1)[0])
    random.seed(n)
    np.random.seed(n % (2 ** 32))
    return np.random.default_rng(ss)


def worker_main():
    ap = argparse.ArgumentParser()
    ap.add_argument("module")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--shards", type=int, default=1)
    ap.add_argument("--only", type=int, default=None)
    ap.add_argument("--out", required=True)
    ap.add_argument("--soft", type=float, default=1e9)
    a = ap.parse_args()
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    os.environ["VERIF_TIER"] = a.tier
    mod = importlib.import_module(a.module)
    mon = Monitor()
    t0 = time.time()
    errors = []
    done = 0
    skipped = 0
    slowest = 0.
    idxs = [a.only] if a.only is not None else list(range(a.shard, mod.N[a.tier], a.shards))
    prog = open(a.out + ".progress", "w")
    # development aid: end all workers at the first violation
    STOP = os.environ.get("VERIF_STOP")
    stop = os.path.join(os.path.dirname(a.out), "stop")
    kn = [k["mech"] for k in json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")))["findings"]] if STOP else []
    for i in idxs:
        if time.time() - t0 > a.soft or (STOP and os.path.exists(stop)):
            skipped += 1
            continue
        mon.case = i
        mon.ctx = {}
        mon.cstates = set()
        v0 = mon.events["verdicts"]
        prog.write("%d\n" % i)
        prog.flush()
        rng = seed_all(a.seed, i)
        t1 = time.time()
        try:
            with scratch(), np.errstate(all="ignore"):
                mod.case(i, rng, mon)
            done += 1
        except Inconclusive as e:
            mon.notes["inconclusive: " + str(e)[:100]] += 1
            done += 1
        except Exception as e:          # noqa
            if blame(e) == "code":
                mon.violation("exception:%s@%s" % (type(e).__name__, where(e)),
                              "legal workload raised: %s" %
                              "".join(traceback.format_exception(e))[-1200:])
                done += 1
            else:
                errors.append("case %d: %s" % (i, "".join(traceback.format_exception(e))[-2500:]))
        slowest = max(slowest, time.time() - t1)
        if os.environ.get("VERIF_SLOW") and time.time() - t1 > float(os.environ["VERIF_SLOW"]):
            with open("/tmp/slow.txt", "a") as fs:
                fs.write("%s %d %.1f %s\n" % (a.module, i, time.time() - t1, {k: str(v)[:200] for k, v in mon.ctx.items()}))
        if STOP and any(v["mech"] not in kn for v in mon.violations):
            open(stop, "w").close()
        if mon.events["verdicts"] > v0 and mon.cstates:
            mon.sigs.add(hashlib.md5("\n".join(sorted(mon.cstates)).encode()).hexdigest()[:16])
            if len(mon.samples) < 3:
                mon.sample("case %d: %d verdicts; %s" % (i, mon.events["verdicts"] - v0,
                                                         "; ".join(sorted(mon.cstates)[:4])))
    prog.write("%d\n" % (idxs[-1] if idxs else 0))
    prog.flush()
    if hasattr(mod, "finish"):
        mod.finish(mon)
    res = dict(events=dict(mon.events), states=sorted(mon.states), sigs=sorted(mon.sigs), samples=mon.samples,
               violations=mon.violations, notes=dict(mon.notes), errors=errors,
               done=done, skipped=skipped, slowest=slowest, wall=time.time() - t0)
    with open(a.out, "w") as fd:
        json.dump(res, fd)
    # native destructors of a broken tree must not turn the verdict into a crash
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


if __name__ == "__main__":
    worker_main()
