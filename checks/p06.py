"""The same model run again gives the same run."""
PROPERTY = "P06"
KIND = "plain"
N = {"quick": 400, "thorough": 9000}
BUDGET = {"quick": 100, "thorough": 2000}
RULE = "(kind of repetition, substance class, map kind, set, backward, random movers, which weatherers)"
NEED = ["rewind_rerun", "midrun_rewind", "fresh_build", "toggled", "iterated", "full_run", "with_output", "with_cache", "alternating", "after_other", "other_process",
        "bitwise_compared_arrays", "random_draws_in_run"]
ASSUMES = ["the random streams are global to the process: models that draw from them are compared run after run, only models without draws are run alternately"]

import hashlib
import json
import os
import pickle
import subprocess
import sys
import numpy as np
import gn
from gn import sec


def trace(model, steps=None, how="step"):
    """list of snapshots, one per step"""
    out = []
    if how == "step":
        model.rewind()
        while steps is None or len(out) < steps:
            try:
                model.step()
            except StopIteration:
                break
            out.append(gn.snapshot(model))
    elif how == "iter":
        for _ in model:
            out.append(gn.snapshot(model))
    elif how == "full":
        from gnome.model import Model
        o = Model.output_step

        def hook(self, v):
            r = o(self, v)
            if self is model:
                out.append(gn.snapshot(model))
            return r
        Model.output_step = hook
        try:
            model.full_run()
        finally:
            Model.output_step = o
    return out


def compare(A, B, mon, what):
    if not mon.check(len(A) == len(B), "repeated run has another number of steps", "%s: %d and %d" % (what, len(A), len(B))):
        return
    for k, (a, b) in enumerate(zip(A, B)):
        if not mon.check(len(a) == len(b), "repeated run has other sets", what):
            return
        for (u, x, mb, t), (u2, y, mb2, t2) in zip(a, b):
            mon.check(u == u2 and t == t2, "repeated run: time or set differs", lambda: "%s step %d: %s %s" % (what, k, t, t2))
            if not mon.check(set(x) == set(y), "repeated run has other arrays", lambda: "%s: %s" % (what, set(x) ^ set(y))):
                return
            for n in sorted(x):
                same = x[n].shape == y[n].shape and x[n].dtype == y[n].dtype and x[n].tobytes() == y[n].tobytes()
                if not same and x[n].shape == y[n].shape:
                    same = bool(np.all((x[n] == y[n]) | ((x[n] != x[n]) & (y[n] != y[n]))))
                mon.event("bitwise_compared_arrays")
                if not mon.check(same, "repeated run differs", lambda: "%s: step %d, %s set, array %s:\n%s\n%s" % (what, k, "uncertain" if u else "forecast", n, x[n][:4], y[n][:4])):
                    return
            if not mon.check(set(mb) == set(mb2) and all(mb[q] == mb2[q] or (mb[q] != mb[q] and mb2[q] != mb2[q]) for q in mb), "repeated run: mass balance differs",
                             lambda: "%s: step %d: %s" % (what, k, [(q, mb.get(q), mb2.get(q)) for q in set(mb) | set(mb2) if mb.get(q) != mb2.get(q)])):
                return


def deterministic(S):
    S["uncertain"] = False
    S["windage"] = (S["windage"][0],) * 2
    S["persist"] = -1
    S["halflife"] = -1
    S["movers"] = [m for m in S["movers"] if m[0] not in ("random", "rand3d")]
    for sp in S["spills"]:
        if sp["kind"] in ("polygon", "contpoly", "subsurf", "custom"):
            sp["kind"] = "point"
    return S


def digest(tr):
    h = hashlib.sha256()
    for st in tr:
        for u, x, mb, t in st:
            h.update(repr((u, str(t), sorted((k, float(v)) for k, v in mb.items()))).encode())
            for n in sorted(x):
                h.update(n.encode() + x[n].tobytes())
    return h.hexdigest()


def case(i, rng, mon):
    back = bool(rng.random() < .12)
    S = gn.random_spec(rng, back=back, oil=False if back else None, nsteps=int(rng.integers(3, 9)), nmax=25)
    for nm in ("cur", "cats"):
        if rng.random() < .3:
            S["movers"].append((nm, (float(rng.normal(0, .5)), float(rng.normal(0, .5)), 0.), 0., None))
            mon.event("with_current")
    if i % 40 == 39:
        return processes(S, rng, mon)
    if i % 5 == 4:
        return alternate(S, rng, mon)
    mon.ctx["spec"] = gn.brief(S)
    model = gn.build(S)
    A = trace(model)
    drawn(S, mon)
    for what in [str(w) for w in rng.choice(["rewind_rerun", "midrun_rewind", "fresh_build", "toggled", "iterated", "full_run", "with_output", "with_cache", "after_other"], 3, replace=False)]:
        mon.ctx["repetition"] = what
        m = model
        how = "step"
        if what == "rewind_rerun":
            pass
        elif what == "midrun_rewind":
            k = int(rng.integers(1, len(A)))
            P = trace(m, steps=k)
            compare(A[:k], P, mon, "first part of a run")
        elif what == "fresh_build":
            np.random.random(3)
            m = gn.build(S)
        elif what == "toggled":
            toggle(m, rng, mon)
        elif what == "iterated":
            how = "iter"
        elif what == "full_run":
            how = "full"
        elif what in ("with_output", "with_cache"):
            m = gn.build(S, cache=True, outputters=outs() if what == "with_output" else ())
        elif what == "after_other":
            o = gn.build(gn.random_spec(rng, nsteps=3, nmax=10))
            trace(o)
        B = trace(m, how=how)
        compare(A, B, mon, what)
        mon.event(what)
        mon.state(what, S["oil"] is not None, S["map"], S["uncertain"], back, any(q[0] in ("random", "rand3d") for q in S["movers"]), "+".join(sorted(w[0] for w in S["weatherers"])))


def drawn(S, mon):
    if S["uncertain"] or any(q[0] in ("random", "rand3d") for q in S["movers"]) or S["windage"][1] > S["windage"][0]:
        mon.event("random_draws_in_run")


def outs():
    from gnome.outputters import NetCDFOutput, TrajectoryGeoJsonOutput, WeatheringOutput
    return [NetCDFOutput("out.nc"), TrajectoryGeoJsonOutput(output_dir="gj"), WeatheringOutput()]


def toggle(m, rng, mon):
    """change a setting, sometimes run a little, and put the old value back"""
    from gnome.movers import SimpleMover
    k = str(rng.choice(["uncertain", "time_step", "duration", "mover", "start", "windage", "mover_off", "amount", "weatherer_off", "mover_setting", "weatherer_setting", "weatherer_setting"]))
    mon.ctx["toggle"] = k
    run = bool(rng.random() < .6)
    undo = []

    def some():
        if run:
            try:
                trace(m, steps=3)
            except Exception as e:
                from vlib import blame
                if "invalid" not in str(e):
                    raise
    if k == "uncertain":
        m.uncertain = not m.uncertain
        some()
        m.uncertain = not m.uncertain
    elif k == "time_step":
        ts = m.time_step
        m.time_step = ts * 2
        some()
        m.time_step = ts
    elif k == "duration":
        d = m.duration
        m.duration = d * 2
        some()
        m.duration = d
    elif k == "mover":
        x = SimpleMover((1., -1., 0.))
        m.movers += x
        some()
        del m.movers[x.id]
    elif k == "start":
        s = m.start_time
        m.start_time = s - sec(m.time_step)
        m.start_time = s
    elif k == "windage":
        sp = list(m.spills)[0]
        w = sp.substance.windage_range
        sp.substance.windage_range = (.3, .3)
        some()
        sp.substance.windage_range = w
    elif k == "mover_off" and len(m.movers):
        x = list(m.movers)[0]
        x.on = False
        some()
        x.on = True
    elif k == "weatherer_off" and len(m.weatherers):
        x = [w for w in m.weatherers if type(w).__name__ not in ("FayGravityViscous", "Langmuir")][0]
        x.on = False
        some()
        x.on = True
    elif k in ("mover_setting", "weatherer_setting"):
        n = 0
        for x in m.movers if k == "mover_setting" else m.weatherers:
            for a, f in (("diffusion_coef", 3.), ("uncertain_factor", 2.), ("uncertain_duration", .1), ("uncertain_speed_scale", 2.), ("uncertain_along", .3), ("up_cur_uncertain", 2.), ("vertical_diffusion_coef_above_ml", 2.),
                         ("amount", 3.), ("efficiency", .5), ("area", 2.), ("thickness", .5), ("fraction_sprayed", .5)):
                v = getattr(x, a, None)
                if isinstance(v, (int, float)) and v and rng.random() < .7:
                    undo.append((x, a, v))
                    setattr(x, a, v * f)
        some()
        for x, a, v in undo:
            setattr(x, a, v)
        if undo:
            mon.event("settings_changed_and_back", len(undo))
    elif k == "amount":
        sp = list(m.spills)[0]
        a = sp.amount
        sp.amount = a * 3
        some()
        sp.amount = a


def alternate(S, rng, mon):
    S = deterministic(S)
    S2 = deterministic(gn.random_spec(rng, nsteps=S["n"], nmax=20))
    mon.ctx["spec"] = gn.brief(S)
    mon.ctx["other"] = gn.brief(S2)
    A, A2 = trace(gn.build(S)), trace(gn.build(S2))
    m, m2 = gn.build(S), gn.build(S2)
    m.rewind()
    m2.rewind()
    tr = {0: [], 1: []}
    live = {0: m, 1: m2}
    while live:
        k = int(rng.choice(list(live)))
        try:
            live[k].step()
            tr[k].append(gn.snapshot(live[k]))
        except StopIteration:
            del live[k]
    compare(A, tr[0], mon, "alternating with another model")
    compare(A2, tr[1], mon, "alternating with another model")
    mon.event("alternating")
    mon.state("alternating", S["oil"] is not None, S2["oil"] is not None, S["map"], S2["map"])


def processes(S, rng, mon):
    mon.ctx["spec"] = gn.brief(S)
    with open("spec.pkl", "wb") as fd:
        pickle.dump(S, fd)
    D = []
    for hs in ("0", str(int(rng.integers(1, 9999)))):
        env = dict(os.environ, PYTHONHASHSEED=hs, P06_CHILD=os.path.abspath("spec.pkl"))
        p = subprocess.run([sys.executable, os.path.abspath(__file__)], env=env, capture_output=True, text=True, timeout=120)
        if p.returncode:
            raise RuntimeError("harness: child failed: " + p.stderr[-800:])
        D.append(p.stdout.split()[-1])
    mon.check(D[0] == D[1], "the same model in another process gives another run", "%s" % D)
    here = digest(trace(gn.build(S)))
    mon.check(here == D[0], "the same model in a fresh process gives another run", "")
    mon.event("other_process")
    mon.state("process", S["oil"] is not None, S["map"], S["uncertain"])


if __name__ == "__main__" and os.environ.get("P06_CHILD"):
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    print(digest(trace(gn.build(pickle.load(open(os.environ["P06_CHILD"], "rb"))))))
    sys.stdout.flush()
    os._exit(0)
