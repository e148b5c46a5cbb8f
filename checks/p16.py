"""Skimming, burning, dispersants and recorded beaching remove what they say, when they say, and report exactly that."""
PROPERTY = "P16"
KIND = "plain"
N = {"quick": 500, "thorough": 8000}
BUDGET = {"quick": 120, "thorough": 2400}
RULE = "(kinds of operation, how each window falls on the steps, step length, wet oil, enough oil, operation switched off)"
NEED = ["operations_changed_between_runs", "calls_judged", "inside_window", "outside_window", "partial_step", "wet_oil", "not_enough_oil", "totals_judged", "two_of_a_kind", "operation_off", "beached_elements_left_alone",
        "skim_removed", "burn_removed", "chem_removed", "beach_removed", "window_before_start", "window_past_end", "window_within_a_step", "thin_slick", "zero_efficiency", "bad_efficiency",
        "all_removed", "second_run_judged"]
ASSUMES = ["volumes convert to mass at the oil's density at 15 C, as the package documents for cleanup operations"]

import numpy as np
import gn
from vlib import blame
from gn import T0, sec, oil_status

KEY = dict(skim="skimmed", burn="burned", chem="chem_dispersed", beach="observed_beached")
VOL = {"m^3": 1., "bbl": 0.158987294928, "gal": 0.003785411784, "liter": 1e-3}
MASS = {"kg": 1., "ton": 907.18474, "tonne": 1000., "lb": 0.45359237}


def kg(o, rho):
    u = o["units"]
    return o["amount"] * (MASS[u] if u in MASS else VOL[u] * rho)


def overlap(a, b, lo, hi):
    return max(0., min(b, hi) - max(a, lo))


def make_op(rng, kind, S, total_kg, rho, enough):
    ts, n = S["ts"], S["n"]
    a = float(rng.choice([0, ts, .3 * ts, 1.5 * ts, -1.3 * ts, 2 * ts, (n - 1.5) * ts]))
    a = float(round(a))
    ln = float(rng.choice([ts, .4 * ts, 2.7 * ts, 3 * ts, 5.5 * ts, (n + 3) * ts, 61.]))
    ln = float(max(2, round(ln)))
    fr = float(rng.uniform(.02, .12)) if enough else float(rng.choice([.3, 1., 4.]))
    o = dict(kind=kind, a=a, b=a + ln, on=bool(rng.random() > .12), eff=float(rng.choice([1., 1., .5, .3, .05, 0.])))
    o["units"] = str(rng.choice(list(VOL) + list(MASS)))
    want = total_kg * fr
    o["amount"] = want / kg(dict(units=o["units"], amount=1.), rho)
    if kind == "burn":
        o["thick"] = float(rng.choice([.01, .05, .3, .003, .001]))
        o["tu"], f = [("m", 1.), ("mm", 1e-3), ("cm", 1e-2)][int(rng.integers(3))]
        o["area"] = want / rho / o["thick"]
        o["au"], g = [("m^2", 1.), ("km^2", 1e6), ("ha", 1e4)][int(rng.integers(3))]
        o["thick_u"], o["area_u"] = o["thick"] / f, o["area"] / g
        o["b"] = o["a"] + max(0., (o["thick"] - .002) / .000058)       # for oil without water
    elif kind == "chem":
        o["frac"] = min(1., fr)
        o["eff"] = o["eff"] or .4
    elif kind == "beach":
        k = int(rng.integers(1, 4))
        cut = np.unique(np.round(np.r_[rng.uniform(a + 1, a + ln, k - 1), a + ln]))
        w = rng.random(len(cut))
        w = w / w.sum()
        o["series"] = [(float(c), float(x * o["amount"])) for c, x in zip(cut, w)]
        o["eff"] = 1.
    return o


def make(o, W, wind, water, waves):
    ar = (T0 + sec(o["a"]), T0 + sec(o["b"] if o["kind"] != "burn" else o["a"] + 1e6))
    k = o["kind"]
    if k == "skim":
        return W.Skimmer(amount=o["amount"], units=o["units"], efficiency=o["eff"], water=water, active_range=ar, on=o["on"])
    if k == "burn":
        return W.Burn(area=o["area_u"], thickness=o["thick_u"], area_units=o["au"], thickness_units=o["tu"], efficiency=o["eff"], wind=wind, water=water, active_range=ar, on=o["on"])
    if k == "chem":
        return W.ChemicalDispersion(o["frac"], waves=waves, efficiency=o["eff"], active_range=ar, on=o["on"])
    return W.Beaching(active_range=ar, units=o["units"], timeseries=[(T0 + sec(t), v) for t, v in o["series"]], water=water, on=o["on"])


def rate_integral(o, t0, t1, rho, released):
    """kg the operation may take between two times, of oil without water"""
    k = o["kind"]
    if not o["on"]:
        return 0.
    if k == "skim":
        return kg(o, rho) * o["eff"] / (o["b"] - o["a"]) * overlap(t0, t1, o["a"], o["b"])
    if k == "burn":
        if o["thick"] <= .002:
            return 0.
        return .000058 * o["area"] * o["eff"] * rho * overlap(t0, t1, o["a"], o["b"])
    if k == "chem":
        return released * o["frac"] * o["eff"] / (o["b"] - o["a"]) * overlap(t0, t1, o["a"], o["b"])
    tot, last = 0., o["a"]
    for t, v in o["series"]:
        tot += kg(dict(units=o["units"], amount=v), rho) / (t - last) * overlap(t0, t1, last, t)
        last = t
    return tot


def case(i, rng, mon):
    if i % 60 == 59:
        return no_efficiency_case(i, rng, mon)
    if i % 60 == 58:
        return bad_efficiency_case(i, rng, mon)
    if i % 60 == 57:
        return two_skimmers_case(i, rng, mon)
    W = __import__("gnome.weatherers", fromlist=["x"])
    enough = i % 3 != 0                     # more oil than all operations ask for, and nothing else takes any
    wet = i % 3 == 0 and rng.random() < .6
    S = gn.random_spec(rng, oil=True, weather=["evaporation", "emulsification"] if wet else [] if enough or rng.random() < .5 else None, cleanup=False,
                       land=False if enough else None, kinds=["point", "line", "custom", "polygon"] if enough else ["point", "contin", "moving", "line", "polygon", "pertimestep"],
                       movers=[] if enough else None, nspills=int(rng.choice([1, 2])), ts=int(rng.choice([60, 300, 900, 977, 3600, 7200])), nmax=int(rng.choice([4, 30, 200])),
                       uncertain=bool(rng.random() < .15))
    if wet:
        S["oil"] = str(rng.choice(["oil_crude", "oil_ans_mp", "oil_bahia"]))
        S["wind"] = [(t, 12., d) for t, s, d in S["wind"]]
    for m in list(S["movers"]):
        if m[0] in ("rand3d", "rise"):
            S["movers"].remove(m)
    for k, m in enumerate(S["movers"]):
        S["movers"][k] = (m[0], (m[1][0], m[1][1], 0.), m[2], m[3])
    for sp in S["spills"]:
        sp["z"] = 0.
        if enough:
            sp["start"] = 0.
            sp["n"] = int(rng.integers(120, 300))        # (whole elements are set aside for an operation)
            sp["nco"] = 5
    model = gn.build(S)
    sub = [sp for sp in model.spills][0].substance
    rho = float(sub.standard_density)
    rt0 = 1e-9 + 2 * abs(1 - float(np.sum(sub.mass_fraction)))      # the fractions of an oil record add up to one only to the digits given
    released = sum(kg(dict(amount=p["amount"], units=p["units"]), rho) for p in S["spills"] if p["on"])
    env = {type(e).__name__: e for e in model.environment}
    kinds = list(rng.permutation(["skim", "burn", "chem", "beach"]))[:int(rng.integers(1, 5))]
    if enough:
        # (recorded beaching takes from all floating oil, also from what was set aside for a skimmer in that step)
        # and a burn may be given elements that were set aside for a skimmer in that step
        kinds = [["beach"], ["skim"], ["burn", "chem"], ["burn"], ["chem", "burn"], ["chem"]][int(rng.integers(6))]
    if rng.random() < .25:
        kinds.append(kinds[0])
        mon.event("two_of_a_kind")
    ops = []
    for k in kinds:
        o = make_op(rng, str(k), S, released, rho, enough)
        if i % 9 == 4:
            o["amount"] = o.get("amount", 0) * 1
        w = make(o, W, env["Wind"], env["Water"], env["Waves"])
        model.weatherers += w
        ops.append((o, w))
    mon.ctx["spec"] = gn.brief(S)
    mon.ctx["ops"] = [{k: v for k, v in o.items()} for o, w in ops]
    npk = {k: kinds.count(k) for k in kinds}
    sk = [o for o, w in ops if o["kind"] == "skim" and o["on"]]
    sharing = len(sk) > 1 and max(o["a"] for o in sk) // S["ts"] <= min(o["b"] for o in sk) // S["ts"]
    log = []
    burnavg = {}

    def hook(o, w):
        orig = w.weather_elements

        def h(sc, time_step, model_time):
            k, key = o["kind"], KEY[o["kind"]]
            A = sc.data_arrays
            m0, c0 = np.array(A["mass"]), np.array(A["mass_components"])
            st, z = np.array(A["status_codes"]), np.array(A["positions"][:, 2])
            fs = np.array(A["fate_status"])
            fw = np.array(A["frac_water"]) if "frac_water" in A else np.zeros(len(m0))
            b0 = sc.mass_balance.get(key, 0.)
            orig(sc, time_step, model_time)
            m1, c1 = np.array(sc["mass"]), np.array(sc["mass_components"])
            b1 = sc.mass_balance.get(key, 0.)
            tot = max(m0.sum(), 1e-300)
            rt = max(rt0, 2 * abs(m0 - c0.sum(1)).sum() / tot)
            lost = m0 - m1
            rep = float(np.sum(b1 - b0))
            mon.event("calls_judged")
            mon.close(rep, lost.sum(), "%s reports another amount than left the elements" % k, rtol=1e-9, atol=rt * tot + 1e-12 * released)
            mon.check(bool(np.all(lost >= -rt * m0)), "%s added mass to an element" % k, lambda: str(lost.min()))
            hit = lost > rt * m0
            if hit.any():
                ok = (st == oil_status.in_water) & (z == 0)
                mon.check(bool(np.all(ok[hit])), "%s took oil that is not floating" % k, lambda: "status %s depth %s" % (st[hit & ~ok][:3], z[hit & ~ok][:3]))
                f0 = c0[hit] / m0[hit][:, None]
                f1 = c1[hit] / np.where(m1[hit] > 0, m1[hit], 1)[:, None]
                alive = m1[hit] > 1e-9 * m0[hit]
                mon.check(bool(np.allclose(f0[alive], f1[alive], rtol=1e-6, atol=1e-9)), "%s changed the make-up of the oil" % k, lambda: "")
                if len(m0) > 1 and (st != oil_status.in_water).any():
                    mon.event("beached_elements_left_alone")
                mon.event(k + "_removed")
            t = (model_time - T0).total_seconds()
            hi = rate_integral(o, t, t + time_step, rho, released)
            if k == "burn" and o["thick"] > .002 and o["on"]:         # (oil with water in it burns longer, slower)
                hi = .000058 * o["area"] * o["eff"] * rho * overlap(t, t + time_step, o["a"], 1e12)
            mon.check(lost.sum() <= hi * (1 + 1e-6) + rt * tot, "%s removed more than rate, efficiency and time allow" % k, lambda: "%r > %r" % (lost.sum(), hi))
            b_end = o["b"] if k != "burn" or enough else 1e12
            if not o["on"] or not overlap(t, t + time_step, o["a"], b_end) or (k == "burn" and o["thick"] <= .002):
                mon.check(rep == 0 and abs(lost).max(initial=0) == 0, "%s outside its window, or switched off, removed oil" % k, lambda: "%r at %s s" % (rep, t))
                mon.event("outside_window")
                mon.event("operation_off", int(not o["on"]))
            else:
                mon.event("inside_window")
                mon.event("partial_step", int(overlap(t, t + time_step, o["a"], b_end) < time_step))
                # exactly the amount, of what is marked for it
                if sc.substance.is_weatherable:
                    if k == "beach":
                        mk = (fs & 2 == 2) & (m0 > 0)
                        want = hi
                    else:
                        import gnome.basic_types as bt
                        bit = int(getattr(bt.fate, dict(skim="skim", burn="burn", chem="disperse")[k]))
                        mk = (fs & bit == bit) & (m0 > 0)
                        want = hi
                        if mk.any():
                            avg = 1 - (m0 * fw)[mk].sum() / m0[mk].sum()
                            if k == "skim":
                                want = hi * avg
                            if k == "burn":
                                a = burnavg.setdefault(id(o), avg)
                                end = o["a"] + (o["thick"] - .002) / (.000058 * a)
                                want = .000058 * a * a * o["area"] * o["eff"] * rho * overlap(t, t + time_step, o["a"], end)
                            if avg < .999:
                                mon.event("wet_oil")
                    want = min(want, m0[mk].sum())
                    if want == m0[mk].sum() and want > 0:
                        mon.event("all_removed")
                    if k != "burn" or npk["burn"] == 1:
                        # a window set in microseconds: the burn ends at a whole microsecond
                        mon.close(lost.sum(), want, "%s removed another amount than rate, efficiency and oil at hand give" % k, rtol=1e-5, atol=rt * tot + 2e-6 * hi / time_step)
            log.append((k, rep))
        return h

    def run(tag):
        log.clear()
        burnavg.clear()
        for s in range(S["n"] + 1):
            model.step()
        sc = list(model.spills.items())[0]
        T = S["n"] * S["ts"]
        short = False
        for k in set(kinds):
            got = float(np.sum(sc.mass_balance.get(KEY[k], 0.)))
            exp = sum(rate_integral(o, 0, T, rho, released) for o, w in ops if o["kind"] == k)
            mon.close(got, sum(r for kk, r in log if kk == k), "%s: balance is not the sum of what was taken" % k, rtol=1e-9, atol=1e-9 * released)
            if enough and k == "skim" and sharing and got < exp * (1 - 1e-6):
                mon.violation("skimmers at work in the same step get only what is set aside for the largest", "%r of %r" % (got, exp))
            elif enough:
                mon.close(got, exp, "%s: total is not rate x time x efficiency" % k, rtol=1e-6, atol=1e-9 * released)
                mon.event("totals_judged")
                if tag:
                    mon.event("second_run_judged")
            elif exp > 0 and got < exp * .999:
                short = True
            mon.check(got <= exp * (1 + 1e-6) + 1e-9 * released, "%s: total is more than rate x time x efficiency" % k, lambda: "%r > %r" % (got, exp))
        mon.event("not_enough_oil", int(short))

    for o, w in ops:
        w.weather_elements = hook(o, w)
        T = S["n"] * S["ts"]
        mon.event("window_before_start", int(o["a"] < 0))
        mon.event("window_past_end", int(o["b"] > T))
        mon.event("window_within_a_step", int(o["a"] // S["ts"] == o["b"] // S["ts"]))
        mon.event("thin_slick", int(o["kind"] == "burn" and o["thick"] <= .002))
        mon.event("zero_efficiency", int(o["eff"] == 0))
    gn.seed_model(S["seed"])
    run(0)
    mon.state(sorted(kinds), [(round(o["a"] / S["ts"] % 1, 1), round(o["b"] / S["ts"] % 1, 1), o["a"] < 0, o["on"]) for o, w in ops][:2], S["ts"], wet, enough)
    if i % 4 == 1:
        model.rewind()
        if rng.random() < .6:                   # the operations are changed between the runs
            for o, w in ops:
                if o["kind"] == "beach":
                    continue
                if rng.random() < .5 and o["eff"]:
                    o["eff"] = float(o["eff"] * rng.uniform(.3, .9))
                    w.efficiency = o["eff"]
                if rng.random() < .5 and o["kind"] == "skim":
                    o["amount"] = o["amount"] * float(rng.uniform(.3, .9))
                    w.amount = o["amount"]
                if rng.random() < .5 and o["kind"] == "chem":
                    o["frac"] = o["frac"] * float(rng.uniform(.3, .9))
                    w.fraction_sprayed = o["frac"]
                if rng.random() < .5 and o["kind"] != "burn":
                    o["b"] = o["b"] + float(rng.choice([60., 1000., 3.5 * S["ts"]]))
                    w.active_range = (T0 + sec(o["a"]), T0 + sec(o["b"]))
            if any(o["kind"] != "beach" for o, w in ops):
                mon.event("operations_changed_between_runs")
            sk = [o for o, w in ops if o["kind"] == "skim" and o["on"]]
            sharing = len(sk) > 1 and max(o["a"] for o in sk) // S["ts"] <= min(o["b"] for o in sk) // S["ts"]
        run(1)


def small(rng):
    S = gn.random_spec(rng, oil=True, weather=[], land=False, cleanup=False, nspills=1, kinds=["point"], nsteps=5, movers=[], uncertain=False, ts=900)
    S["spills"][0].update(start=0., on=True, z=0., amount=100., units="m^3")
    S["wind"] = [(0., 5., 90.)]
    return S


def no_efficiency_case(i, rng, mon):
    """efficiency None: to be taken from the wind (burn) or the waves (dispersants)"""
    from gnome import weatherers as W
    S = small(rng)
    model = gn.build(S)
    env = {type(e).__name__: e for e in model.environment}
    which = ("burn", "chem")[i // 60 % 2]
    ar = (T0 + sec(900), T0 + sec(2700))
    if which == "burn":
        w = W.Burn(area=10., thickness=.02, efficiency=None, wind=env["Wind"], water=env["Water"], active_range=ar)
    else:
        w = W.ChemicalDispersion(.2, waves=env["Waves"], efficiency=None, active_range=ar)
    model.weatherers += w
    mon.ctx["op"] = which
    try:
        model.full_run()
    except Exception as e:
        if blame(e) != "code":
            raise
        mon.violation("%s without a given efficiency cannot run" % which, "%s: %s" % (type(e).__name__, e))
        return
    sc = list(model.spills.items())[0]
    got = float(np.sum(sc.mass_balance[KEY[which]]))
    cap = .2 * sc.mass_balance["amount_released"] if which == "chem" else 10 * .018 * sc.substance.standard_density
    mon.check(0 <= got <= cap, "%s without a given efficiency removes an impossible amount" % which, lambda: "%r of %r" % (got, cap))


def bad_efficiency_case(i, rng, mon):
    """an efficiency that is no fraction is refused, or leaves the last good one"""
    from gnome import weatherers as W
    S = small(rng)
    for bad in (-.1, 1.2, float(rng.uniform(1.01, 100)), float("nan")):
        for mk in (lambda e: W.Skimmer(amount=3., units="m^3", efficiency=e, active_range=(T0, T0 + sec(1800))),
                   lambda e: W.Burn(area=10., thickness=.02, efficiency=e, active_range=(T0, T0 + sec(1800)))):
            try:
                w = mk(bad)
            except (ValueError, TypeError):
                mon.event("bad_efficiency")
            else:
                e = w.efficiency
                mon.check(e is not None and bool(np.all((e >= 0) & (e <= 1))), "an impossible efficiency is taken", lambda: "%r -> %r" % (bad, e))
            w = mk(.4)
            try:
                w.efficiency = bad
            except (ValueError, TypeError):
                pass
            mon.check(float(w.efficiency) == .4, "an impossible efficiency changes the one in use", lambda: "%r -> %r" % (bad, w.efficiency))
            mon.event("bad_efficiency")


def two_skimmers_case(i, rng, mon):
    from gnome import weatherers as W
    S = small(rng)
    S["spills"][0]["n"] = 200
    model = gn.build(S)
    ar = (T0 + sec(900), T0 + sec(1800))
    for a in (4., 5.):
        model.weatherers += W.Skimmer(amount=a, units="m^3", active_range=ar)
    model.full_run()
    sc = list(model.spills.items())[0]
    got = float(sc.mass_balance["skimmed"]) / sc.substance.standard_density
    if got < 9 * (1 - 1e-6):
        mon.violation("skimmers at work in the same step get only what is set aside for the largest", "%r of 9 m^3" % got)
    mon.check(got <= 9 * (1 + 1e-6), "skim: total is more than rate x time x efficiency", lambda: "%r of 9 m^3" % got)
