"""Every weathered quantity stays physically possible, after every process and every step."""
PROPERTY = "P14"
KIND = "plain"
N = {"quick": 900, "thorough": 12000}
BUDGET = {"quick": 120, "thorough": 2400}
RULE = "(oil, set of processes, step length, emulsified, sinking limit reached, mass gone, temperature band)"
NEED = ["elements_judged", "after_each_process", "emulsified", "density_at_water", "nearly_all_gone", "mass_zero", "huge_spill", "tiny_spill", "waves_judged", "fresh_water", "storm", "calm",
        "bullwinkle_time", "averages_judged"]
ASSUMES = ["HalfLifeWeatherer (for testing) and weathering_substeps > 1 (documented as untested) are not used"]

import numpy as np
import gn
from vlib import blame
from gn import T0, sec, oil_status


def water_density(S, model):
    for e in model.environment:
        if type(e).__name__ == "Water":
            return e.get("density", "kg/m^3")


def judge(sc, S, rho_w, mon, when, sub):
    # the component fractions in an oil record add up to one only to the digits given
    rt = 1e-9 + 1.01 * abs(1 - float(np.sum(sub.mass_fraction)))
    n = len(sc["mass"])
    if not n:
        return
    A = {k: np.asarray(sc[k]) for k in sc.data_arrays}

    def need(k, ok, what):
        if k in A:
            x = A[k]
            m = ok(x)
            mon.check(bool(np.all(m)), "%s %s" % (k, what), lambda: "%s: %s" % (when, x[~np.atleast_1d(m)][:4] if x.ndim == 1 else x[~m.all(axis=1)][:1]))
    for k, x in A.items():
        if x.dtype.kind == "f" and k not in ("release_rate", "evap_decay_constant"):     # (none for an instantaneous release; no limit for an empty element)
            mon.check(bool(np.all(np.isfinite(x))), "%s not finite" % k, lambda: "%s: %s" % (when, x[~np.isfinite(x)][:3]))
    need("mass", lambda x: x >= 0, "negative")
    need("mass_components", lambda x: x >= 0, "negative")
    need("init_mass", lambda x: x > 0, "not positive")
    if "init_mass" in A:
        need("mass", lambda x: x <= A["init_mass"] * (1 + rt), "above what was released")
    ymax = float(sub.emulsion_water_fraction_max or 0)
    need("frac_water", lambda x: (x >= 0) & (x <= max(ymax, 0) + 1e-9), "outside zero to the oil's limit")
    need("density", lambda x: (x > 0) & (x <= rho_w * (1 + 1e-12)), "not between zero and the water's")
    need("viscosity", lambda x: x > 0, "not positive")
    need("oil_viscosity", lambda x: x >= 0, "negative")
    need("area", lambda x: x >= 0, "negative")
    need("fay_area", lambda x: x >= 0, "negative")
    need("frac_coverage", lambda x: (x >= .1 - 1e-12) & (x <= 1), "outside its limits")
    need("frac_lost", lambda x: (x >= -rt) & (x <= 1), "outside zero to one")
    need("frac_evap", lambda x: (x >= 0) & (x <= 1 + rt), "outside zero to one")
    need("evap_decay_constant", lambda x: x <= 0, "positive")
    need("droplet_avg_size", lambda x: x >= 0, "negative")
    need("interfacial_area", lambda x: x >= 0, "negative")
    mon.event("elements_judged", n)
    mon.event("mass_zero", int((A["mass"] == 0).any()))
    if "frac_water" in A and (A["frac_water"] > 0).any():
        mon.event("emulsified")
    if (A.get("density", np.zeros(1)) == rho_w).any():
        mon.event("density_at_water")
    if "init_mass" in A and (A["mass"] < 1e-3 * A["init_mass"]).any():
        mon.event("nearly_all_gone")


def spec(i, rng):
    long = i % 20 == 7         # long enough for light oils to vanish altogether
    S = gn.random_spec(rng, nsteps=60 if long else None, oil=True, weather=None if i % 5 == 0 else ["evaporation", "dispersion", "emulsification"], uncertain=bool(rng.random() < .1),
                       ts=int(rng.choice([3600, 21600] if long else [60, 300, 900, 3600, 3600, 7200, 21600])), land=None if i % 4 == 0 else False,
                       cleanup=None if i % 3 else False, nmax=12)
    if long:
        S["oil"] = str(rng.choice(["oil_benzene", "oil_gas", "oil_jetfuels"]))
    S["temp"] = float(rng.choice([-1., 2., 10., 15., 22., 30., 38.]))
    S["salinity"] = float(rng.choice([0., 5., 35., 40.]))
    S["sediment"] = float(rng.choice([0., .5, 50., 1000.]))
    S["waveheight"] = None if rng.random() < .6 else float(rng.choice([0.01, .2, 1.5, 6., 12.]))
    top = float(rng.choice([0., .3, 5., 15., 30., 60.]))
    S["wind"] = [(t, s * top / 16, d) for t, s, d in S["wind"]]
    for sp in S["spills"]:
        sp["amount"] = float(rng.choice([1e-3, 1., 1e3, 1e6, 1e9]))
    S["bull"] = None if rng.random() < .6 else (str(rng.choice(["time", "frac"])), float(rng.choice([0., 1., 12.])), float(rng.choice([0., .05, .4])))
    S["ymax"] = None if rng.random() < .6 else float(rng.choice([0., .3, .9]))
    return S


def build(S):
    model = gn.build(S)
    for sp in model.spills:
        sub = sp.substance
        if S["bull"]:
            if S["bull"][0] == "time":
                sub.bullwinkle_time = S["bull"][1]
            sub.bullwinkle_fraction = S["bull"][2]
        if S["ymax"] is not None:
            sub.emulsion_water_fraction_max = S["ymax"]
        break
    return model


def run_case(i, rng, mon):
    S = spec(i, rng)
    mon.ctx["spec"] = gn.brief(S)
    mon.ctx["env"] = {k: S[k] for k in ("salinity", "waveheight", "wind", "sediment", "bull", "ymax", "temp")}
    mon.ctx["amounts"] = [(p["amount"], p["units"]) for p in S["spills"]]
    model = build(S)
    gn.seed_model(S["seed"])
    rho_w = water_density(S, model)
    model.step()
    names = []
    for w in model.weatherers:
        def hook(sc, time_step, model_time, w=w, orig=w.weather_elements):
            orig(sc, time_step, model_time)
            A = sc.data_arrays
            for k in ("mass", "mass_components"):
                x = A[k]
                mon.check(bool(np.all(np.isfinite(x) & (x >= 0))), "%s not finite or negative after a process" % k, lambda: "%s: %s" % (type(w).__name__, x[~(np.isfinite(x) & (x >= 0))][:3]))
            mon.check(all(np.isfinite(v) for v in sc.mass_balance.values()), "mass balance not finite after a process", lambda: "%s: %s" % (type(w).__name__, sc.mass_balance))
            mon.event("after_each_process")
        w.weather_elements = hook
        names.append(type(w).__name__)
    for s in range(S["n"]):
        model.step()
        for sc in model.spills.items():
            # elements put out after the step have no masses of their components lost yet
            judge(sc, S, rho_w, mon, "step %d" % s, sc.substance)
            mb = sc.mass_balance
            mon.check(all(np.isfinite(v) for v in mb.values()), "mass balance not finite", lambda: str(mb))
            if len(sc["mass"]) and sc["mass"].sum() > 0:
                # the averages were taken before the second half of the release
                old = sc["age"] > 0
                if old.all():
                    for k, a in (("avg_density", "density"), ("avg_viscosity", "viscosity")):
                        if mb.get("off_maps", 0) == 0 and k in mb:
                            x = sc[a]
                            mon.check(x.min() * (1 - 1e-9) <= mb[k] <= x.max() * (1 + 1e-9), "%s outside the elements' values" % k, lambda: "%s not in %s..%s" % (mb[k], x.min(), x.max()))
                            mon.event("averages_judged")
            if "water_content" in mb:
                mon.check(0 <= mb["water_content"] <= max(float(sc.substance.emulsion_water_fraction_max or 0), 0) + 1e-9, "water_content outside zero to the oil's limit", lambda: str(mb["water_content"]))
            mon.state(S["oil"], sorted(names), S["ts"], bool("frac_water" in sc and (sc["frac_water"] > 0).any()), bool((sc["density"] >= rho_w).any()) if len(sc["mass"]) else None,
                      S["temp"] > 20)
    mon.event("huge_spill", int(any(p["amount"] >= 1e9 for p in S["spills"])))
    mon.event("tiny_spill", int(any(p["amount"] <= 1e-3 for p in S["spills"])))
    mon.event("fresh_water", int(S["salinity"] == 0))
    mx = max(w[1] for w in S["wind"])
    mon.event("storm", int(mx > 25))
    mon.event("calm", int(mx == 0))
    mon.event("bullwinkle_time", int(bool(S["bull"] and S["bull"][0] == "time")))
    # the sea state the processes ask for
    wv = [e for e in model.environment if type(e).__name__ == "Waves"][0]
    for _ in range(3):
        H, T, Wf, De = wv.get_value(np.zeros((3, 3)), T0 + sec(rng.uniform(0, S["n"] * S["ts"])))
        for k, x, hi in (("height", H, 60), ("breaking fraction", Wf, 1), ("energy", De, 1e12)):
            x = np.asarray(x, float)
            mon.check(bool(np.all(np.isfinite(x) & (x >= 0) & (x <= hi))), "waves: %s impossible" % k, lambda: "%s for wind %s height %s" % (x, S["wind"], S["waveheight"]))
        mon.event("waves_judged")


def unfinished_case(i, rng, mon):
    """the two processes that cannot run with the oil class"""
    S = gn.random_spec(rng, oil=True, weather=[], land=False, cleanup=False, nspills=1, kinds=["point"], nsteps=4, movers=[])
    S["weatherers"] = [("evaporation", None, "")] + [(("dissolution", "biodegradation")[i // 100 % 2], None, "")]
    mon.ctx["spec"] = gn.brief(S)
    model = gn.build(S)
    try:
        model.full_run()
    except Exception as e:
        if blame(e) != "code":
            raise
        mon.violation("%s cannot run with the oil class of the package" % S["weatherers"][1][0].capitalize(), "%s: %s" % (type(e).__name__, e))
        return
    for sc in model.spills.items():
        judge(sc, S, water_density(S, model), mon, "end", sc.substance)


def case(i, rng, mon):
    if i % 100 == 99:
        unfinished_case(i, rng, mon)
    else:
        run_case(i, rng, mon)
