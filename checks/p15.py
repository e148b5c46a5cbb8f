"""Weathering runs one way: histories of each element and of each total."""
PROPERTY = "P15"
KIND = "plain"
N = {"quick": 700, "thorough": 10000}
BUDGET = {"quick": 120, "thorough": 2400}
RULE = "(oil, processes, which of them active, element at the surface, below, on land, set)"
NEED = ["pairs_judged", "totals_judged", "volatile_pairs", "on_land_unchanged", "below_unchanged", "uncertain_unchanged", "inactive_no_loss", "switched_off", "spreading_judged", "evaporation_rate",
        "water_uptake_judged", "density_of_what_is_left", "thicker", "step_alone", "warmer_more", "windier_more"]
ASSUMES = ["HalfLifeWeatherer (for testing) and weathering_substeps > 1 (documented as untested) are not used",
           "the uncertainty set is not weathered, as in the code (only the forecast set is)"]

import numpy as np
import gn
import p14
from gn import T0, sec, oil_status

LOSSES = ["evaporated", "natural_dispersion", "sedimentation", "skimmed", "burned", "chem_dispersed", "observed_beached", "dissolution", "bio_degradation"]
KEYS = {"Evaporation": ["evaporated"], "NaturalDispersion": ["natural_dispersion", "sedimentation"], "Skimmer": ["skimmed"], "Burn": ["burned"], "ChemicalDispersion": ["chem_dispersed"],
        "Beaching": ["observed_beached"], "Emulsification": [], "FayGravityViscous": [], "Langmuir": []}


def grab(sc):
    A = {k: np.array(sc[k]) for k in ("mass", "mass_components", "frac_lost", "frac_evap", "fay_area", "frac_water", "density", "oil_density", "viscosity", "positions", "status_codes", "age", "fate_status",
                                      "max_area_le", "init_mass", "interfacial_area") if k in sc}
    return {int(k): j for j, k in enumerate(sc["id"])}, A, dict(sc.mass_balance)


def run_case(i, rng, mon):
    S = p14.spec(i, rng)
    off = None
    if S["weatherers"] and rng.random() < .25:
        off = int(rng.integers(len(S["weatherers"])))
    mon.ctx["spec"] = gn.brief(S)
    mon.ctx["env"] = {k: S[k] for k in ("salinity", "waveheight", "wind", "sediment", "bull", "ymax", "temp")}
    model = p14.build(S)
    if off is not None:
        list(model.weatherers)[off].on = False
        mon.ctx["off"] = type(list(model.weatherers)[off]).__name__
    gn.seed_model(S["seed"])
    model.step()
    sub = list(model.spills.items())[0].substance
    rt = 1e-9 + 1.01 * abs(1 - float(np.sum(sub.mass_fraction)))
    wtr = [e for e in model.environment if type(e).__name__ == "Water"][0]
    rho_w = wtr.get("density", "kg/m^3")
    order = np.argsort(sub.boiling_point)           # most volatile first
    ws = list(model.weatherers)
    calls = {}
    for w in ws:
        def hook(sc, time_step, model_time, w=w, orig=w.weather_elements):
            m0, mb0, c0 = sc["mass"].copy(), dict(sc.mass_balance), sc["mass_components"].copy()
            f0 = sc["fate_status"].copy()
            t = (model_time - T0).total_seconds()
            orig(sc, time_step, model_time)
            name = type(w).__name__
            m1, mb1, c1 = sc["mass"], sc.mass_balance, sc["mass_components"]
            tot = max(mb1.get("amount_released", 0), 1e-9)
            if name not in KEYS:
                return
            mon.check(bool(np.all(c1 <= c0 * (1 + rt) + 1e-300)), "a process added oil to an element", lambda: "%s: %s" % (name, (c1 - c0).max()))
            for k in LOSSES:
                if k in KEYS[name]:
                    continue
                mon.check(mb1.get(k, 0) == mb0.get(k, 0), "a process booked another's loss", lambda: "%s changed %s" % (name, k))
            d = sum(mb1.get(k, 0) - mb0.get(k, 0) for k in KEYS[name])
            mon.check(abs(d - (m0.sum() - m1.sum())) <= 10 * rt * tot, "loss booked by a process differs from what left the elements", lambda: "%s booked %r, left %r" % (name, d, m0.sum() - m1.sum()))
            mon.event("step_alone")
            active = w.on and w.active_range[0] <= model_time + sec(time_step / 2) <= w.active_range[1]
            if not active and name in ("Evaporation", "NaturalDispersion", "Emulsification"):
                mon.check(np.array_equal(m0, m1) and d == 0, "a process that is off took oil", lambda: "%s at %s, active %s" % (name, model_time, w.active_range))
                mon.event("switched_off" if not w.on else "inactive_no_loss")
            calls[name] = calls.get(name, 0) + 1
            from gnome.basic_types import fate
            if name in ("Evaporation", "NaturalDispersion"):
                rest = (f0 & fate.surface_weather) == 0
                mon.check(np.array_equal(c0[rest], c1[rest]), "elements that do not weather lost oil", lambda: "%s: fate %s" % (name, f0[rest][:3]))
            if name == "Evaporation" and active:
                evaporation(sub, w, sc, c0, c1, time_step, f0, mon, order)
        w.weather_elements = hook
    prev = {}
    for s in range(S["n"]):
        for sc in model.spills.items():
            prev[sc.uncertain] = grab(sc)
        model.step()
        for sc in model.spills.items():
            u = sc.uncertain
            i0, A0, mb0 = prev[u]
            i1, A1, mb1 = grab(sc)
            both = [(i0[k], j) for k, j in i1.items() if k in i0]
            for k in LOSSES:
                if k in mb1:
                    mon.check(mb1[k] >= mb0.get(k, 0), "a total went down", lambda: "%s %r -> %r" % (k, mb0.get(k), mb1[k]))
                    mon.event("totals_judged")
            mon.check(mb1["amount_released"] >= mb0.get("amount_released", 0) * (1 - 1e-12), "a total went down", "amount_released")
            if not both:
                continue
            a, b = np.array(both).T
            m0, m1 = A0["mass"][a], A1["mass"][b]
            mon.check(bool(np.all(m1 <= m0 * (1 + rt))), "an element gained oil", lambda: "%s" % ((m1 - m0).max()))
            mon.event("pairs_judged", len(a))
            if "mass_components" in A0 and A0["mass_components"].shape[1] > 1:
                c0, c1 = A0["mass_components"][a], A1["mass_components"][b]
                mon.check(bool(np.all(c1 <= c0 * (1 + rt))), "a component gained oil")
            if u:
                mon.check(bool(np.all(np.abs(m1 - m0) <= rt * m0)), "oil weathered that should not", "uncertainty set")
                mon.event("uncertain_unchanged", int(u))
            for k in ("frac_evap", "frac_lost", "fay_area"):
                if k in A0 and k in A1:
                    mon.check(bool(np.all(A1[k][b] >= A0[k][a] * (1 - 1e-12) - 1e-12)), "%s went down" % k, lambda: "%s" % ((A1[k][b] - A0[k][a]).min()))
                    if k == "fay_area":
                        mon.event("spreading_judged")
            land = (A0["status_codes"][a] == oil_status.on_land) & (A1["status_codes"][b] == oil_status.on_land)
            # manual beaching is a cleanup by figures, not by element: P16
            if land.any():
                mon.check(bool(np.all(np.abs(m1[land] - m0[land]) <= rt * m0[land])), "oil on land weathered", lambda: "%s" % ((m1 - m0)[land]))
                mon.event("on_land_unchanged", int(land.sum()))
            below = (A0["status_codes"][a] == oil_status.in_water) & (A0["positions"][a, 2] > 0) & (A1["positions"][b, 2] > 0)
            if below.any() and "Beaching" not in calls and "ChemicalDispersion" not in calls and "Skimmer" not in calls and "Burn" not in calls:
                mon.check(bool(np.all(np.abs(m1[below] - m0[below]) <= rt * m0[below])), "oil below the surface weathered",
                          lambda: str([(A0["status_codes"][a][x], A1["status_codes"][b][x], A0["positions"][a][x], A1["positions"][b][x], m0[x], m1[x], A0["fate_status"][a][x], A1["fate_status"][b][x]) for x in np.where(below & (m1 < m0 * (1 - rt)))[0]]))
                mon.event("below_unchanged", int(below.sum()))
            if u:
                continue
            # what is left after evaporation is never lighter or thinner; only the floating, weathering elements are brought up to date
            surf = (A0["positions"][a, 2] == 0) & (A1["positions"][b, 2] == 0) & (A0["status_codes"][a] == oil_status.in_water) & (A1["status_codes"][b] == oil_status.in_water) & (A0["age"][a] > 0) & (m1 > 0)
            if surf.any() and "frac_water" in A0:
                w0, w1 = A0["frac_water"][a][surf], A1["frac_water"][b][surf]
                if not (S["bull"] and S["bull"][0] == "frac"):
                    pass
                mon.check(bool(np.all(w1 >= w0 - 1e-9)), "water content went down", lambda: "%s -> %s" % (w0[w1 < w0 - 1e-9][:2], w1[w1 < w0 - 1e-9][:2]))
                mon.event("water_uptake_judged", int(surf.sum()))
                r0, r1 = A0["viscosity"][a][surf], A1["viscosity"][b][surf]
                mon.check(bool(np.all(r1 >= r0 * (1 - 1e-9))), "oil became thinner", lambda: "%s -> %s" % (r0, r1))
                mon.event("thicker", int((r1 > r0).sum()))
                # density: that of the components left, mixed with the water taken up, never above the water's
                fr = A1["mass_components"][b][surf] / m1[surf][:, None]
                # tiny elements: components below the smallest number
                ok = m1[surf] > 1e-250
                T = wtr.get("temperature", "K")
                q = sub.density_at_temp(T) / (sub.component_density * sub.mass_fraction).sum() * (fr * sub.component_density).sum(1)
                ex = np.minimum(w1 * rho_w + (1 - w1) * q, rho_w)
                d1 = A1["density"][b][surf]
                fresh = (A1["fate_status"][b][surf] & 2) == 2
                ok &= fresh
                mon.check(bool(np.all(np.abs(d1[ok] - ex[ok]) <= 1e-8 * ex[ok])), "density is not that of the oil that is left and its water", lambda: "%s, expected %s" % (d1[ok], ex[ok]))
                mon.event("density_of_what_is_left", int(ok.sum()))
            mon.state(S["oil"], sorted(calls), bool(land.any()), bool(below.any()), bool(surf.any()), off is not None)


def evaporation(sub, w, sc, c0, c1, ts, f0, mon, order):
    """the losses of the components go as their vapour pressures and molecular weights say, at one common rate per element"""
    live = (c0 > 1e-250).all(axis=1) & (c1 > 1e-290).all(axis=1)
    ch = live & (np.abs(c1.sum(1) - c0.sum(1)) > 1e-6 * c0.sum(1))
    if not ch.any() or c0.shape[1] < 2:
        return
    lam = -np.log(c1[ch] / c0[ch])
    lo = c0[ch][:, order]
    hi = c1[ch][:, order]
    # more volatile never evaporates slower (vapour pressure goes down with boiling point)
    f = lam[:, order]
    vp = sub.vapor_pressure(w.water.get("temperature", "K")) * sub.molecular_weight ** (-1. / 3)
    vp = vp[order]
    for a in range(len(order) - 1):
        if vp[a] >= vp[a + 1]:
            mon.check(bool(np.all(f[:, a] >= f[:, a + 1] * (1 - 1e-6) - 1e-9)), "a less volatile component evaporated faster", lambda: "%s" % f[0])
    mon.event("volatile_pairs", len(order))
    k = np.argmax(vp)
    big = f[:, k] > 1e-4
    if big.any():
        r = f[big] / f[big][:, [k]]
        ex = vp / vp[k]
        ok = np.abs(r - ex) <= 1e-6 * ex + 1e-9 / f[big][:, [k]] * 10
        mon.check(bool(np.all(ok)), "losses of components are not in proportion to their vapour pressures", lambda: "%s, expected %s" % (r[0], ex))
        mon.event("evaporation_rate", int(big.sum()))


def pair_case(i, rng, mon):
    """one step of the same spill in warmer or windier conditions loses more"""
    S = gn.random_spec(rng, oil=True, weather=["evaporation"] if i % 2 else ["evaporation", "dispersion"], land=False, cleanup=False, nspills=1, kinds=["point", "line"], movers=[], uncertain=False)
    S["weatherers"] = [(n, None, o) for n, ar, o in S["weatherers"]]
    S["spills"][0].update(on=True, start=0, z=0., kind="point")
    S["waveheight"] = None
    S["wind"] = [(0., float(rng.uniform(2, 12)), 0.)]
    warm = bool(rng.random() < .5)
    S["temp"] = float(rng.uniform(0, 25))
    import copy
    R = copy.deepcopy(S)
    if warm:
        R["temp"] += float(rng.uniform(1, 10))
    else:
        R["wind"] = [(0., S["wind"][0][1] + float(rng.uniform(1, 10)), 0.)]
    mon.ctx["spec"] = gn.brief(S)
    out = []
    for X in (S, R):
        model = gn.build(X)
        gn.seed_model(1)
        model.step()
        model.step()
        sc = list(model.spills.items())[0]
        out.append(dict(sc.mass_balance))
    tot = out[0]["amount_released"]
    mon.check(out[1]["evaporated"] >= out[0]["evaporated"] - 1e-9 * tot, "warmer or windier conditions evaporate less", lambda: "%s < %s (%s)" % (out[1]["evaporated"], out[0]["evaporated"], "warmer" if warm else "windier"))
    if not warm and i % 2 == 0:
        lost = [sum(o.get(k, 0) for k in ("evaporated", "natural_dispersion", "sedimentation")) for o in out]
        mon.check(lost[1] >= lost[0] - 1e-9 * tot, "windier conditions remove less oil", lambda: str(lost))
    mon.event("warmer_more" if warm else "windier_more")
    mon.state("pair", S["oil"], warm, i % 2)


def case(i, rng, mon):
    if i % 6 == 5:
        pair_case(i, rng, mon)
    else:
        run_case(i, rng, mon)
