"""Release schedule, element numbers, masses and array consistency after every step."""
PROPERTY = "P02"
KIND = "plain"
N = {"quick": 1600, "thorough": 20000}
BUDGET = {"quick": 75, "thorough": 1800}
RULE = "(release kind, alignment of start and duration with the step, set, before/during/after release)"
NEED = ["before", "during", "after", "instant", "continuous", "per_timestep", "uncertain_steps", "several_spills", "off_spills", "reruns", "removed", "backward"]
ASSUMES = ["the schedule promised: an instantaneous release comes out whole; a continuous one in equal shares for each (possibly shortened last) "
           "time step of the release, linearly inside a step, to within one element"]

import numpy as np
import gn
from gn import sec


def due(sp, ts, N, t):
    """elements out t seconds after the start of the model, real-valued"""
    d = t - sp["start"]
    if d < 0:
        return 0.
    if sp["dur"] == 0 or d >= sp["dur"]:
        return float(N)
    nst = max(1, int(np.ceil(sp["dur"] / ts)))
    full = int(d // ts)
    length = min(ts, sp["dur"] - full * ts)
    return N * (full + (d - full * ts) / length) / nst


def case(i, rng, mon):
    back = i % 16 == 5
    leaving = i % 8 == 3
    S = gn.random_spec(rng, oil=bool(rng.random() < .3), land=False, weather=False, nmax=60, back=back,
                       movers=["simple"] if leaving else [], nsteps=int(rng.integers(3, 16)),
                       kinds=["point", "line", "polygon", "custom", "grid"] if back else None)
    if leaving:
        S["map"] = "bounds"
        S["bounds"] = .3
        for sp in S["spills"]:
            sp["c"] = (S["lon0"], S["lat0"])
    if not back:
        for sp in S["spills"]:
            # arbitrary alignments, to the second
            if rng.random() < .5:
                sp["start"] = float(rng.integers(0, 4 * S["ts"]))
            if sp["dur"] and rng.random() < .5:
                sp["dur"] = float(rng.integers(1, 6 * S["ts"]))
                sp["n"] = max(sp["n"], int(np.ceil(sp["dur"] / S["ts"])))
    mon.ctx["spec"] = gn.brief(S)
    mon.ctx["spills"] = [(p["kind"], p["start"], p["dur"], p["n"], p["per"], p["amount"], p["units"]) for p in S["spills"]]
    model = gn.build(S)
    spills = list(model.spills)
    tot, amount = [], []
    for j, sp in enumerate(S["spills"]):
        nst = max(1, int(np.ceil(sp["dur"] / S["ts"])))
        tot.append(sp["per"] * nst if sp["kind"] == "pertimestep" else sp["res"][0] * sp["res"][1] if sp["kind"] == "grid" else sp["n"])
        a = spills[j].get_mass()
        # amount in kg, by hand
        f = dict(kg=1., ton=907.18474)
        v = {"m^3": 1., "bbl": .158987294928, "gal": .003785411784}
        want = sp["amount"] * (f[sp["units"]] if sp["units"] in f else v[sp["units"]] * spills[j].substance.standard_density)
        mon.close(a, want, "spill amount in kilograms", rtol=1e-4, what=sp["units"])
        amount.append(a)
        if not sp["on"]:
            mon.event("off_spills")
    if len(spills) > 1:
        mon.event("several_spills")
    for run in range(2 if rng.random() < .3 else 1):
        if run:
            if rng.random() < .5 and not back:       # rewound, with another step length
                mon.event("rerun_other_step")
                k = int(rng.choice([2, 3]))
                if S["ts"] % k == 0 and not any(p["kind"] == "pertimestep" for p in S["spills"]) and \
                        all(p["n"] >= np.ceil(p["dur"] / (S["ts"] // k)) for p in S["spills"]):
                    S["ts"] //= k
                    model.time_step = S["ts"]
            model.rewind()
            mon.event("reruns")
        known = {}
        prev = {}
        for step in range(S["n"] + 1):
            model.step()
            t = step * S["ts"]
            counts = {}
            for sc in model.spills.items():
                u = sc.uncertain
                n = len(sc["id"])
                bad = [k for k, v in sc.data_arrays.items() if len(v) != n]
                mon.check(not bad, "element arrays of different length", lambda: "%s are not %d long" % (bad, n))
                ids = sc["id"].tolist()
                kn = known.setdefault(u, {})
                mon.check(len(set(ids)) == n, "element number not unique", "")
                for q, a in enumerate(ids):
                    s = int(sc["spill_num"][q])
                    if a in kn:
                        mon.check(kn[a] == s, "element changed its spill or number", "")
                    kn[a] = s
                if not leaving:
                    mon.check(ids == sorted(ids), "elements out of order", "")
                got = np.bincount([s for s in kn.values()], minlength=len(spills)) if kn else np.zeros(len(spills), int)
                counts[u] = got
                rel = 0.
                for j, sp in enumerate(S["spills"]):
                    g = int(got[j])
                    want = due(sp, S["ts"], tot[j], -t if False else t) if sp["on"] else 0.
                    end = sp["start"] + sp["dur"]
                    ph = "before" if t < sp["start"] else "after" if t >= end else "during"
                    if leaving and ph != "before":
                        # released and carried off within the step: not visible here
                        ok = g <= tot[j] and g <= want + 1.0000001
                    elif ph == "during":
                        ok = abs(g - want) < 1 + 1e-6
                    else:
                        ok = g == round(want)
                    mon.check(ok, "number of elements out is not the scheduled number",
                              lambda: "spill %d (%s) %s at %g s: %d out, schedule %.6g (start %g duration %g total %d step %d)" % (
                                  j, sp["kind"], ph, t, g, want, sp["start"], sp["dur"], tot[j], S["ts"]))
                    mon.check(g >= prev.get((u, j), 0), "released elements disappeared", "")
                    prev[(u, j)] = g
                    mine = sc["spill_num"] == j
                    if mine.any() and not S["weatherers"]:
                        mon.close(sc["mass"][mine], np.full(mine.sum(), amount[j] / tot[j]), "element does not carry its share of the amount", rtol=1e-9,
                                  what="spill %d %s" % (j, sp["kind"]))
                        if "init_mass" in sc.data_arrays:
                            mon.close(sc["init_mass"][mine], np.full(mine.sum(), amount[j] / tot[j]), "initial mass is not the share of the amount", rtol=1e-9)
                    rel += g * amount[j] / tot[j]
                    if sp["on"]:
                        mon.event(ph)
                        mon.state(sp["kind"], sp["start"] % S["ts"] == 0, sp["dur"] % S["ts"] == 0, sp["dur"] < S["ts"], u, ph, leaving, back, run)
                    mon.event("per_timestep" if sp["kind"] == "pertimestep" else "continuous" if sp["dur"] else "instant")
                if not leaving:
                    mon.close(sc.mass_balance["amount_released"], rel, "amount released is not that of the elements out", rtol=1e-9, atol=1e-12)
                    mon.equal(n, int(got.sum()), "number of elements in the container")
                else:
                    mon.event("removed", got.sum() - n)
                if u:
                    mon.event("uncertain_steps")
            if len(counts) == 2 and not leaving:
                mon.equal(counts[True], counts[False], "forecast and uncertainty sets release differently")
            if back:
                mon.event("backward")
