"""Conservation of oil mass at every step of generated runs."""
PROPERTY = "P01"
KIND = "plain"
N = {"quick": 1200, "thorough": 16000}
BUDGET = {"quick": 90, "thorough": 2400}
RULE = "(oil or none, map kind, active loss terms, set, beached or off map seen)"
NEED = ["balance_forecast", "balance_uncertain", "with_evaporated", "with_natural_dispersion", "with_skimmed", "with_burned",
        "with_chem_dispersed", "with_observed_beached", "with_beached", "with_off_maps", "components_checked", "subsurface_mass", "off_maps_straight_shore", "beached_straight_shore", "roc_balance", "roc_rewound", "roc_took_skim", "roc_took_burn", "roc_took_disperse"]
ASSUMES = ["HalfLifeWeatherer (documented as for testing) and weathering_substeps > 1 (documented as untested) are not used",
           "Dissolution and Biodegradation cannot run with the oil class of this tree (see P14)"]

import numpy as np
import gn
from gn import oil_status

LOSSES = ["evaporated", "natural_dispersion", "sedimentation", "skimmed", "burned", "chem_dispersed", "observed_beached",
          "dissolution", "bio_degradation"]


PLANES = ["Test Platform", "Air Tractor AT-502 B 170 gal", "C-130 H with MASS", "Cessna C208 Grand Caravan", "Douglas DC-3"]


def roc_case(i, rng, mon):
    """the systems of the response options calculator: what they take is what is missing, and only while they are on scene"""
    import datetime as dt
    from gnome.weatherers import ROC_Skim, ROC_Burn, ROC_Disperse
    from gnome.weatherers import Evaporation, Emulsification
    S = gn.random_spec(rng, oil=True, land=False, back=False, ts=int(rng.choice([600, 900, 1800, 3600])))
    S["weatherers"] = []
    S["n"] = int(rng.integers(10, 30))
    S["uncertain"] = bool(rng.random() < .3)
    mon.ctx["spec"] = gn.brief(S)
    model = gn.build(S)
    wind, water, waves = [o for o in model.environment]
    ev = rng.random() < .5
    if ev:
        model.weatherers += [Evaporation(water, wind), Emulsification(waves)]
    span = S["n"] * S["ts"]
    syst = []
    for j in range(int(rng.integers(1, 4))):
        a = float(rng.uniform(0, .5)) * span
        b = a + float(rng.uniform(.1, .3)) * span
        ivs = [(gn.T0 + gn.sec(a), gn.T0 + gn.sec(b))]
        if rng.random() < .5:
            ivs.append((gn.T0 + gn.sec(b + .05 * span), gn.T0 + gn.sec(b + float(rng.uniform(.1, .4)) * span)))
        what = str(rng.choice(["skim", "burn", "disperse"]))
        if what == "disperse":          # a spraying system starts only at the beginning of a step
            r = lambda t: gn.T0 + gn.sec(S["ts"] * round((t - gn.T0).total_seconds() / S["ts"]))
            ivs = [(r(a), max(r(b), r(a) + gn.sec(3 * 3600 // S["ts"] * S["ts"]))) for a, b in ivs[:1]]
        if what == "skim":
            w = ROC_Skim(speed=float(rng.uniform(.5, 3)), storage=float(rng.choice([50., 2000.])), swath_width=float(rng.uniform(50, 300)), group="A", throughput=float(rng.uniform(.3, 1)),
                         nameplate_pump=float(rng.choice([50., 300.])), skim_efficiency_type="meh", recovery=.75, recovery_ef=float(rng.uniform(.3, 1)), decant=float(rng.choice([0., .5, 1.])), decant_pump=150.,
                         discharge_pump=1000., rig_time=float(rng.choice([5., 30.])), transit_time=float(rng.choice([10., 45.])), timeseries=ivs)
        elif what == "burn":
            w = ROC_Burn(offset=int(rng.choice([500, 6000])), boom_length=int(rng.choice([50, 100, 500])), boom_draft=int(rng.choice([10, 24])), speed=float(rng.uniform(.3, 1.2)), throughput=float(rng.uniform(.4, 1)),
                         burn_efficiency_type=1, timeseries=ivs)
        else:
            w = ROC_Disperse(transit=float(rng.choice([5., 20.])), pass_length=4, dosage=float(rng.choice([1., 5.])), dosage_type=str(rng.choice(["auto", "custom"])), cascade_on=False, cascade_distance=0, timeseries=ivs,
                             loading_type=str(rng.choice(["simultaneous", "separate"])), pass_type=str(rng.choice(["bidirectional", "unidirectional"])), platform=str(rng.choice(PLANES)), wind=wind)
        syst.append((what, w))
        model.weatherers += w
    keys = {"skim": "skimmed", "burn": "boomed", "disperse": "chem_dispersed"}
    last = {}
    for rnd in range(2 if rng.random() < .3 else 1):
        prev = {}
        for step in range(S["n"] + 1):
            t = model.model_time
            model.step()
            sc = model.spills.items()[0]
            mb = sc.mass_balance
            rel = mb["amount_released"]
            terms = {k: mb[k] for k in ("evaporated", "skimmed", "burned", "boomed", "chem_dispersed") if k in mb}
            rt = 1e-9 + 1.01 * abs(1 - float(np.sum(sc.substance.mass_fraction)))
            acc = sc["mass"].sum() + mb["off_maps"] + sum(terms.values())
            mon.check(abs(acc - rel) <= 10 * rt * max(rel, 1e-6), "mass balance does not close with response systems",
                      lambda: "step %d: released %.12g, accounted %.12g = elements %.12g + %s (%s)" % (step, rel, acc, sc["mass"].sum(), terms, [x[0] for x in syst]))
            mon.check(all(np.isfinite(v) and v >= -1e-9 * max(rel, 1e-6) for v in terms.values()) and bool((sc["mass"] >= 0).all()), "what a response system took is negative or not finite", lambda: str(terms))
            fl = sc["mass"][(sc["status_codes"] == oil_status.in_water) & (sc["positions"][:, 2] == 0)].sum()
            mon.check(abs(mb["floating"] - fl) <= 1e-9 * max(rel, 1e-6), "floating figure differs with response systems", lambda: "%r / %r" % (mb["floating"], fl))
            for what, key in (("skim", "skimmed"), ("burn", "burned"), ("burn", "boomed"), ("disperse", "chem_dispersed")):
                ws = [w for x, w in syst if x == what]
                if not ws:
                    continue
                sub = {"boomed": "boomed", "chem_dispersed": "dispersed"}.get(key, key)
                got = [mb["systems"][w.id][sub] for w in ws]
                tot = mb[key] + (mb["burned"] if key == "boomed" else 0.)
                mon.check(abs(sum(got) - tot) <= 1e-9 * max(rel, 1e-6), "the systems did not take what the balance says", lambda: "step %d %s: %s / %r" % (step, key, got, tot))
                for w, g in zip(ws, got):
                    g0 = prev.get((w.id, key), 0.)
                    mon.check(g >= g0 - 10 * rt * max(rel, 1e-6), "the total of a system went down", lambda: "step %d %s: %r, then %r" % (step, key, g0, g))
                    on = any(a <= t and t + dt.timedelta(seconds=S["ts"] / 2) <= b for a, b in w.timeseries)
                    if key != "burned" and step and g > g0 + 10 * rt * max(rel, 1e-6):
                        mon.check(on, "a system took oil while it was not on scene", lambda: "step %d %s: %r at %s, on scene %s" % (step, key, g - g0, t, w.timeseries))
                        mon.event("roc_took_" + what)
                    prev[w.id, key] = g
            mon.event("roc_balance")
            if rnd == 0:
                last[step] = dict(terms)
            else:
                mon.check(all(abs(last[step][k] - v) <= 1e-6 * max(rel, 1e-6) for k, v in terms.items()), "a rewound run with response systems is another run", lambda: "step %d: %s / %s" % (step, last[step], terms))
                mon.event("roc_rewound")
        mon.state("roc", tuple(sorted(x[0] for x in syst)), ev, tuple(sorted(k for k, v in terms.items() if v > 0)))
        model.rewind()


def case(i, rng, mon):
    if i % 12 == 11:
        return roc_case(i, rng, mon)
    k = i % 4
    S = gn.random_spec(rng, oil=None if k == 0 else True, land=None if k < 2 else bool(k == 2),
                       cleanup=None if k < 3 else [str(x) for x in rng.choice(["skim", "burn", "chem", "beach"], 2, replace=False)])
    if S["map"] == "open" and i % 12 < 4:
        # a straight shore so close that elements reach it and leave the map; the spills start in the water
        for p in S["spills"]:
            p["s"], p["d"] = 2e-5, (float(rng.uniform(-2e-5, 2e-5)), float(rng.uniform(-2e-5, 2e-5)))
            p["c"] = (S["lon0"], S["lat0"]) + tuple(p["c"][2:])
        S.update(map="param", shore=float(rng.choice([40., 150., 1000.])), bearing=float(rng.choice([0., 37., 90., 225.])))
    mon.ctx["spec"] = gn.brief(S)
    model = gn.build(S)
    gn.seed_model(S["seed"])
    per = {}
    for j, sp in enumerate(model.spills):
        rel = sp.release
        nst = max(1, int(np.ceil(S["spills"][j]["dur"] / S["ts"])))
        tot = S["spills"][j]["per"] * nst if S["spills"][j]["kind"] == "pertimestep" else rel.num_elements
        per[j] = sp.get_mass() / tot
    out = {}
    seen = {}
    for step in range(S["n"] + 1):
        if rng.random() < .02 and step > 2:
            model.rewind()
            gn.seed_model(S["seed"])
            out, seen = {}, {}
            mon.event("rewound")
            model.step()
        else:
            model.step()
        for sc in model.spills.items():
            mb = sc.mass_balance
            mass, st, num, ids = sc["mass"], sc["status_codes"], sc["spill_num"], sc["id"]
            u = sc.uncertain
            # the component fractions in an oil record add up to one only to the digits given
            rt = 1e-9
            if S["oil"]:
                rt += 1.01 * abs(1 - float(np.sum(sc.substance.mass_fraction)))
                if rt > 1e-5:
                    raise RuntimeError("harness: oil record of %s" % S["oil"])
            # released so far, from the elements that appeared and the amounts of their spills
            new = ~np.isin(ids, list(seen.get(u, ())))
            out[u] = out.get(u, 0.) + sum(per[int(j)] for j in num[new])
            seen.setdefault(u, set()).update(int(a) for a in ids)
            rel = mb["amount_released"]
            tol = 1e-9 * max(rel, 1e-6)
            # elements released and removed within one step are only seen by the container
            if abs(rel - out[u]) > tol:
                d = (rel - out[u]) / max(min(per.values()), 1e-300)
                mon.check(mb["off_maps"] > 0 and d > 0, "amount released differs from the elements put out",
                          lambda: "%r booked, elements weigh %r" % (rel, out[u]))
                out[u] = rel
            else:
                mon.check(True, "")
            losses = {k: mb[k] for k in LOSSES if k in mb}
            mon.check(all(np.isfinite(v) and v >= -tol for v in losses.values()), "loss negative or not finite", lambda: str(losses))
            acc = mass.sum() + mb["off_maps"] + sum(losses.values())
            mon.check(abs(acc - rel) <= 10 * rt * max(rel, 1e-6), "mass balance does not close",
                      lambda: "step %d %s: released %.12g, accounted %.12g = elements %.12g + off map %.12g + %s" % (
                          step, "uncertain" if u else "forecast", rel, acc, mass.sum(), mb["off_maps"], losses))
            fl = mass[(st == oil_status.in_water) & (sc["positions"][:, 2] == 0)].sum()
            mon.check(abs(mb["floating"] - fl) <= tol, "floating figure differs from the floating elements",
                      lambda: "%r vs %r" % (mb["floating"], fl))
            # elements released since the last beaching pass are not in the beached figure yet
            be = mass[(st == oil_status.on_land) & (sc["age"] > 0)].sum()
            mon.check(abs(mb["beached"] - be) <= tol, "beached figure differs from the elements on land",
                      lambda: "%r vs %r" % (mb["beached"], be))
            if "mass_components" in sc and sc.substance.is_weatherable and len(mass):
                cs = sc["mass_components"].sum(axis=1)
                mon.check(bool(np.all(np.abs(cs - mass) <= rt * np.maximum(mass, 1e-12))), "component masses do not add up to the mass", lambda: "%s vs %s (difference, mass)" % ((cs - mass)[np.abs(cs - mass) > rt * np.maximum(mass, 1e-12)][:3], mass[np.abs(cs - mass) > rt * np.maximum(mass, 1e-12)][:3]))
                mon.event("components_checked", len(mass))
            if S["map"] == "param" and mb["off_maps"] > 0:
                mon.event("off_maps_straight_shore")
            if S["map"] == "param" and mb["beached"] > 0:
                mon.event("beached_straight_shore")
            mon.event("balance_uncertain" if u else "balance_forecast")
            for k_, v in list(losses.items()) + [("beached", mb["beached"]), ("off_maps", mb["off_maps"])]:
                if v > 0:
                    mon.event("with_" + k_)
            if (sc["positions"][:, 2] > 0).any():
                mon.event("subsurface_mass")
            mon.state(bool(S["oil"]), S["map"], sorted(k_ for k_, v in losses.items() if v > 0), u, mb["beached"] > 0, mb["off_maps"] > 0)
