#!/usr/bin/env python3
"""check.py PXX [--tier quick|thorough] [--seed N] [--replay FILE]

exit 0: the property held on everything that was explored
exit 1: it did not; a line VIOLATION property=PXX replay=<path> per mechanism
exit 2: no verdict (build failed, harness error, or a monitor that saw nothing)
"""
import argparse
import importlib.util
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import buildtree  # noqa

EVID = os.path.join(HERE, "evidence")


def meta(prop):
    """constants of a check module, read without importing it"""
    import ast
    path = os.path.join(HERE, "checks", prop.lower() + ".py")
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k.get("status") == "known"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4)
    a = ap.parse_args()
    prop = a.property.upper()
    t0 = time.time()
    m = meta(prop)
    only = a.case
    if a.replay:
        r = json.load(open(a.replay))
        a.seed, a.tier, only = r["seed"], r["tier"], r["case"]
    os.makedirs(EVID, exist_ok=True)
    kind = m.get("KIND", "plain")
    budget = m.get("BUDGET", {}).get(a.tier, {"quick": 240, "thorough": 2400}[a.tier])
    work = tempfile.mkdtemp(prefix="vchk-")
    try:
        try:
            tree = buildtree.make_tree(kind, work)
        except buildtree.BuildFailure as e:
            print("INCONCLUSIVE property=%s build failed: %s" % (prop, e))
            return 2
        build_s = time.time() - t0
        extra = dict(m.get("ENV", {}))
        extra["TMPDIR"] = work
        if kind == "asan":
            extra["ASAN_OPTIONS"] = ("detect_leaks=0:halt_on_error=1:exitcode=97:abort_on_error=0:"
                                     "allocator_may_return_null=1:detect_odr_violation=0:"
                                     "log_path=%s/asan" % work)
            extra["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=0:log_path=%s/ubsan" % work
        env = buildtree.run_env(tree, kind, extra)
        n = m["N"][a.tier]
        jobs = 1 if only is not None else min(a.jobs, n)
        procs = []
        for k in range(jobs):
            out = os.path.join(work, "r%d.json" % k)
            cmd = [buildtree.PY, os.path.join(HERE, "lib", "vlib.py"), prop.lower(),
                   "--seed", str(a.seed), "--tier", a.tier, "--shard", str(k),
                   "--shards", str(jobs), "--out", out, "--soft", str(budget)]
            if only is not None:
                cmd += ["--only", str(only)]
            log = open(out + ".log", "w")
            procs.append((subprocess.Popen(cmd, env=env, cwd=work, stdout=log, stderr=subprocess.STDOUT,
                                           start_new_session=True), out))
        deadline = time.time() + budget * 1.5 + 120
        # one case that runs on and on is a verdict about the code, a slow machine is not: the limit is
        # far above what any case needs (see slowest_case_s in the evidence)
        limit = m.get("HANG", 200)
        res, hard = [], []
        live = list(procs)
        while live:
            for p, out in list(live):
                if p.poll() is not None:
                    live.remove((p, out))
                    if os.path.exists(out):
                        res.append(json.load(open(out)))
                    else:
                        hard.append(("exit %s" % p.returncode, out))
                    continue
                try:
                    stuck = time.time() - os.stat(out + ".progress").st_mtime > limit
                except OSError:
                    stuck = False
                if stuck or time.time() > deadline:
                    live.remove((p, out))
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    hard.append(("stuck" if stuck else "timeout", out))
            time.sleep(.05)
        return report(prop, a, m, res, hard, work, build_s, t0, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def report(prop, a, m, res, hard, work, build_s, t0, only):
    sigs = set()
    events, states, samples, viol, errors, notes = {}, set(), [], [], [], {}
    done = skipped = 0
    slow = 0.
    for r in res:
        slow = max(slow, r.get("slowest", 0))
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        states.update(r["states"])
        sigs.update(r["sigs"])
        samples += r["samples"][:3]
        viol += r["violations"]
        errors += r["errors"]
        done += r["done"]
        skipped += r["skipped"]
        for k, v in r["notes"].items():
            notes[k] = notes.get(k, 0) + v
    # a worker that died: the code under test took the interpreter down
    for why, out in hard:
        case = None
        try:
            case = int(open(out + ".progress").read().split()[-1])
        except Exception:
            pass
        log = open(out + ".log").read()[-1500:]
        for f in sorted(os.listdir(work)):
            if f.startswith(("asan.", "ubsan.")):
                log += "\n" + open(os.path.join(work, f), errors="replace").read()[:2500]
        if why == "timeout" or case is None:
            errors.append("worker %s (case %s): %s" % (why, case, log[-800:]))
        else:
            mech = "does not end" if why == "stuck" else "process died"
            viol.append(dict(case=case, mech=mech, detail="case %s: %s%s\n%s" % (case, why, " for more than %d s" % m.get("HANG", 200) if why == "stuck" else "", log), ctx={}))
    # undefined behaviour reports are recoverable: collect them
    if m.get("KIND") == "asan":
        ub = {}
        for f in sorted(os.listdir(work)):
            if f.startswith(("ubsan.", "asan.")):
                for line in open(os.path.join(work, f), errors="replace"):
                    if "runtime error:" in line:
                        loc, msg = line.split("runtime error:", 1)
                        loc = loc.strip().rstrip(":")
                        loc = "/".join(loc.split("/")[-2:])
                        ub.setdefault((loc.split(":")[0], _ubkind(msg)), (loc, msg.strip()))
        for (f, k), (loc, msg) in sorted(ub.items()):
            viol.append(dict(case=None, mech="ub:%s:%s" % (f, k), detail="%s %s" % (loc, msg), ctx={}))
        events["ubsan_reports"] = len(ub)
    kn = [k for k in known() if k["property"] == prop]
    by_mech = {}
    for v in viol:
        by_mech.setdefault(v["mech"], []).append(v)
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    lines, new, seen_known = [], 0, []
    for mech, vs in sorted(by_mech.items()):
        hit = [k for k in kn if k["mech"] == mech]
        if hit:
            seen_known.append((hit[0], len(vs)))
            continue
        new += 1
        v = vs[0]
        path = os.path.join(rdir, "%s-%s.json" % (prop, "".join(c if c.isalnum() else "_" for c in mech)[:80]))
        with open(path, "w") as fd:
            json.dump(dict(property=prop, seed=a.seed, tier=a.tier, case=v["case"], mech=mech,
                           count=len(vs), detail=v["detail"], ctx=v["ctx"],
                           how="python3 /verif/check.py %s --replay %s" % (prop, path)), fd, indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        print("-- %s x%d: %s" % (mech, len(vs), v["detail"][:700]))
        if v["ctx"]:
            print("   ctx: %s" % json.dumps(v["ctx"])[:500])
    for k, c in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for l in lines[:10]:
        print(l)
    need = m.get("NEED", [])
    blind = [e for e in need if not events.get(e)]
    code = 0
    if new:
        code = 1
    elif errors or done == 0 or (only is None and (blind or not events.get("verdicts"))):
        code = 2
        if errors:
            print("INCONCLUSIVE property=%s harness: %s" % (prop, errors[0][-1800:]))
        if blind:
            print("INCONCLUSIVE property=%s monitors that saw nothing: %s" % (prop, blind))
    if only is None:
        ev = dict(property=prop, tier=a.tier, seed=a.seed, level="exploration",
                  wall_s=round(time.time() - t0, 2),
                  coverage=dict(evaluations=done,
                                distinct_nontrivial=len(sigs),
                                rule=("a case is one generated workload run on the real code; it is non-trivial when "
                                      "the monitors gave verdicts in it, and distinct from another when the set of "
                                      "situations they judged differs. Situation: " + m.get("RULE", "")),
                                monitor_situations=len(states),
                                samples=(samples or sorted(states)[:5])[:10],
                                cases_skipped=skipped, slowest_case_s=round(slow, 2), monitor_events=events, notes=notes,
                                build_s=round(build_s, 1)),
                  assumptions=m.get("ASSUMES", []),
                  violations=new,
                  findings=[dict(mech=k, count=len(v), detail=v[0]["detail"][:400]) for k, v in sorted(by_mech.items())])
        with open(os.path.join(EVID, prop + ".json"), "w") as fd:
            json.dump(ev, fd, indent=1)
    print("%s %s seed=%d: cases=%d verdicts=%d states=%d skipped=%d wall=%.1fs (build %.1fs) -> %s" % (
        prop, a.tier, a.seed, done, events.get("verdicts", 0), len(states), skipped,
        time.time() - t0, build_s, ("held", "VIOLATED", "no verdict")[code]))
    return code


def _ubkind(msg):
    msg = msg.strip()
    for k in ("signed integer overflow", "division by zero", "shift", "outside the range of representable",
              "index", "null pointer", "misaligned", "load of value", "pointer"):
        if k in msg:
            return k
    return " ".join(msg.split()[:3])


if __name__ == "__main__":
    sys.exit(main())
