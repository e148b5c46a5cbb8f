"""Oil and water properties against the records they come from, and the same question asked in many units."""
PROPERTY = "P28"
KIND = "plain"
N = {"quick": 2400, "thorough": 40000}
BUDGET = {"quick": 120, "thorough": 2400}
RULE = "(kind of case, oil or number of points, unit, below/between/above the measured points)"
NEED = ["density_points", "density_pairs", "density_scalar_array", "viscosity_points", "viscosity_fit", "viscosity_pairs", "vapour_judged", "water_units", "water_refused", "water_at", "water_density",
        "amounts", "amount_refused", "mass_volume", "runs_in_other_units", "data_changed", "released_density", "below_pour_point", "below_the_points", "one_point", "many_points", "weathered_points"]
ASSUMES = ["unit names that nucos counts both as a mass and as a volume ('oz') are not used for amounts",
           "between measured points the curve may rise by the small jump its two one-sided formulas leave at a point (the square of the density difference over the density)"]

import datetime as dt
import warnings
import numpy as np
import nucos
import gn
from vlib import blame, where
from gn import T0, sec

# factors written down here, not taken from the package: value in SI = a * x + b
T = {"K": (1, 0), "C": (1, 273.15), "F": (5 / 9., 273.15 - 32 * 5 / 9.), "Kelvin": (1, 0), "Celsius": (1, 273.15), "Fahrenheit": (5 / 9., 273.15 - 32 * 5 / 9.), "deg c": (1, 273.15)}
L = {"m": (1, 0), "meter": (1, 0), "cm": (.01, 0), "km": (1000, 0), "ft": (.3048, 0), "feet": (.3048, 0), "yard": (.9144, 0), "mi": (1609.344, 0), "nm": (1852., 0)}
V = {"m^2/s": (1, 0), "cSt": (1e-6, 0), "St": (1e-4, 0), "cm^2/s": (1e-4, 0), "mm^2/s": (1e-6, 0)}
D = {"kg/m^3": (1, 0), "g/cm^3": (1000., 0), "g/L": (1., 0), "kg/L": (1000., 0), "lb/ft^3": (16.018463, 0)}
C = {"kg/m^3": (1, 0), "g/m^3": (1e-3, 0), "mg/l": (1e-3, 0), "g/l": (1., 0), "kg/l": (1000., 0)}
VOL = {"m^3": 1., "bbl": .158987294928, "gal": .003785411784, "liter": 1e-3, "ft^3": .028316846592, "cubic meters": 1., "barrels": .158987294928}
MASS = {"kg": 1., "lb": .45359237, "g": 1e-3, "tonne": 1000., "ton": 907.18474, "metric ton": 1000., "kilograms": 1.}
UNITS = {"temperature": T, "wave_height": L, "fetch": L, "kinematic_viscosity": V, "density": D, "sediment": C}
RT = 2e-6       # the conversion tables of nucos carry six or seven digits


def random_oil(rng):
    """a valid record of our own: measured points in any number and order, with points of weathered oil among them"""
    from gnome.spills.gnome_oil import GnomeOil
    nd = int(rng.choice([1, 2, 2, 3, 4]))
    nv = int(rng.choice([1, 2, 2, 3, 5]))
    td = np.sort(rng.choice(np.arange(268., 330.), nd, replace=False)) + rng.choice([0, .15])
    d0 = rng.uniform(720, 990)
    dens = d0 * np.exp(-rng.uniform(6e-4, 9e-4) * (td - td[0]))
    tv = np.sort(rng.choice(np.arange(268., 340.), nv, replace=False)) + rng.choice([0, .15])
    k = rng.uniform(1200, 7000)
    kv = 10 ** rng.uniform(-6.3, -2) * np.exp(k * (1 / tv - 1 / tv[0])) * np.exp(rng.normal(0, .05 if nv > 2 else 0, nv))
    wd, wv = np.zeros(nd), np.zeros(nv)
    weathered = rng.random() < .35
    dens_, td_, kv_, tv_ = dens, td, kv, tv
    if weathered:
        w = float(rng.choice([.1, .22]))
        dens_, td_, wd = np.r_[dens, dens + rng.uniform(10, 40)], np.r_[td, td], np.r_[wd, wd + w]
        kv_, tv_, wv = np.r_[kv, kv * rng.uniform(2, 20)], np.r_[tv, tv], np.r_[wv, wv + w]
    p, q = rng.permutation(len(td_)), rng.permutation(len(tv_))
    nc = int(rng.integers(2, 12))
    mf = rng.dirichlet(np.ones(nc))
    bp = np.sort(rng.uniform(300, 1000, nc))
    rec = dict(api=float(141.5 / (d0 / 1000) - 131.5), pour_point=float(rng.choice([td.min() - 20, td.min() + 3, 250., 300.])), solubility=0., bullwinkle_fraction=.2, bullwinkle_time=None, emulsion_water_fraction_max=.8,
               densities=list(map(float, dens_[p])), density_ref_temps=list(map(float, td_[p])), density_weathering=list(map(float, wd[p])),
               kvis=list(map(float, kv_[q])), kvis_ref_temps=list(map(float, tv_[q])), kvis_weathering=list(map(float, wv[q])),
               mass_fraction=list(map(float, mf)), boiling_point=list(map(float, bp)), molecular_weight=list(map(float, 50 + bp / 4)), component_density=list(map(float, 500 + bp / 2)),
               sara_type=["Saturates"] * nc, num_components=nc)
    return GnomeOil(name="made up", **rec), weathered


def oil_points(o):
    a = [(t, d) for d, t, w in zip(o.densities, o.density_ref_temps, o.density_weathering) if w == 0]
    b = [(t, v) for v, t, w in zip(o.kvis, o.kvis_ref_temps, o.kvis_weathering) if w == 0]
    return sorted(a), sorted(b)


def oil_case(i, rng, mon):
    from gnome.spills.gnome_oil import GnomeOil
    if rng.random() < .4:
        name = str(rng.choice(gn.OILS))
        o, weathered = GnomeOil(name), False
        mon.ctx["oil"] = name
    else:
        name = "made"
        o, weathered = random_oil(rng)
        mon.ctx["oil"] = dict(d=list(zip(o.density_ref_temps, o.densities, o.density_weathering)), v=list(zip(o.kvis_ref_temps, o.kvis, o.kvis_weathering)), pour=o.pour_point)
    for again in range(2):
        dp, vp = oil_points(o)
        td, dd = np.array([t for t, _ in dp]), np.array([d for _, d in dp])
        tv, vv = np.array([t for t, _ in vp]), np.array([v for _, v in vp])
        mon.event("one_point", int(len(dp) == 1))
        mon.event("many_points", int(len(dp) > 2))
        mon.event("weathered_points", int(weathered))
        # density: the points themselves
        for t, d in dp:
            mon.close(o.density_at_temp(t), d, "density at a measured temperature", 1e-9)
            mon.event("density_points")
        tmin = min(td.min(), o.pour_point)
        probe = np.unique(np.r_[rng.uniform(tmin - 15, td.max() + 40, 24), td, td + 1e-3, td - 1e-3, (td[1:] + td[:-1]) / 2, tmin])
        arr = np.asarray(o.density_at_temp(probe))
        mon.equal(arr.shape, probe.shape, "density of an array has its shape")
        one = np.array([float(o.density_at_temp(float(t))) for t in probe])
        bad = np.abs(one - arr) > 1e-9 * arr
        mon.check(not bad.any(), "density of a single temperature differs from that in an array", lambda: "%s" % list(zip(probe[bad], one[bad], arr[bad]))[:2])
        mon.event("density_scalar_array", len(probe))
        if rng.random() < .3:
            sq = probe[:len(probe) // 2 * 2].reshape(-1, 2)
            mon.equal(np.asarray(o.density_at_temp(sq)).tolist(), arr[:sq.size].reshape(sq.shape).tolist(), "density of a grid of temperatures")
        decreasing = bool((np.diff(dd) <= 0).all())
        # jump of the formula just under a point: (rho0-rho1)^2/rho1
        jump = (np.diff(dd) ** 2 / dd[1:]).max() if len(dd) > 1 else 0.
        if decreasing:
            up = np.diff(arr)
            mon.check(bool((up <= 1e-9 * arr[1:] + jump).all()), "density rises with temperature", lambda: "%s" % list(zip(probe, arr)))
            mon.event("density_pairs", len(up))
        below = probe <= tmin
        if below.any():
            mon.check(np.allclose(arr[below], o.density_at_temp(tmin), rtol=1e-12), "density below the lowest temperature of the record moves", lambda: str(arr[below]))
            mon.event("below_pour_point")
        inner = (probe >= td.min()) & (probe <= td.max())
        for t, d in zip(probe[inner], arr[inner]):
            j = min(max(np.searchsorted(td, t, "right"), 1), len(td) - 1) if len(td) > 1 else 0
            lo, hi = (sorted((dd[j - 1], dd[j]))) if len(td) > 1 else (dd[0], dd[0])
            mon.check(lo - jump - 1e-9 <= d <= hi + jump + 1e-9, "density between two measured points is not between them", lambda: "%s: %s not in %s..%s" % (t, d, lo, hi))
            if len(td) > 1 and td[j] > td[j - 1]:
                f = (t - td[j - 1]) / (td[j] - td[j - 1])
                mon.check(abs(d - (dd[j - 1] + f * (dd[j] - dd[j - 1]))) <= jump + 1e-9, "density between two measured points is not proportional", lambda: "%s: %s" % (t, d))
            mon.state("oil", name, "between")
        for t, d in zip(probe[probe > td.max() + .5], arr[probe > td.max() + .5]):
            k = (dd[-1] / d - 1) / (t - td[-1])
            mon.check(5e-4 <= k <= 1.2e-3, "expansion above the highest measured point is not an oil's", lambda: "%s at %s K" % (k, t))
            mon.close(k, .0009 if o.api > 30 else .0008, "expansion outside the measured points", 1e-5)
            mon.state("oil", name, "above")
        cold = (probe < td.min() - .5) & (probe >= tmin)
        for t, d in zip(probe[cold], arr[cold]):
            k = (dd[0] / d - 1) / (t - td[0])
            mon.close(k, .0009 if o.api > 30 else .0008, "expansion outside the measured points", 1e-5)
            mon.event("below_the_points")
            mon.state("oil", name, "below")
        mon.close(o.standard_density, float(o.density_at_temp(288.15)), "standard density is the one at 15 C", 1e-12)
        # viscosity
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if len(vp) <= 2:
                for t, v in vp:
                    mon.close(float(o.kvis_at_temp(t)), v, "viscosity at a measured temperature", 1e-9)
                    mon.event("viscosity_points")
            else:
                x, y = 1 / tv, np.log(vv)
                kk = ((x - x.mean()) * (y - y.mean())).sum() / ((x - x.mean()) ** 2).sum()
                fit = np.exp(y.mean() + kk * (x - x.mean()))
                got = np.asarray(o.kvis_at_temp(tv))
                mon.check(np.allclose(got, fit, rtol=1e-6), "viscosity is not the least squares fit of the measured points", lambda: "%s / %s" % (got, fit))
                mon.event("viscosity_fit")
            pv = np.sort(np.r_[rng.uniform(265, 345, 12), tv])
            va = np.asarray(o.kvis_at_temp(pv))
            mon.check(np.allclose(va, [float(o.kvis_at_temp(float(t))) for t in pv], rtol=1e-12), "viscosity of a single temperature differs from that in an array", lambda: str(va))
            mon.check(bool((va > 0).all()), "viscosity not positive", lambda: str(va))
            if len(vv) == 1 or (np.diff(vv) < 0).all():
                mon.check(bool((np.diff(va) <= 0).all()), "viscosity rises with temperature", lambda: str(list(zip(pv, va))))
                mon.event("viscosity_pairs", len(pv))
            # ln v is a straight line in 1/T
            f = np.log(va)
            a = (f[-1] - f[0]) / (1 / pv[-1] - 1 / pv[0])
            mon.check(np.allclose(f, f[0] + a * (1 / pv - 1 / pv[0]), atol=1e-8 * (1 + abs(f[0]))), "viscosity does not follow exp(k/T)", lambda: str(f))
        # vapour pressure
        bp = np.asarray(o.boiling_point)
        T1, T2 = np.sort(rng.uniform(265, 320, 2))
        p1, p2 = np.array(o.vapor_pressure(float(T1))), np.array(o.vapor_pressure(float(T2)))
        mon.check(bool(np.all(np.isfinite(p1) & (p1 >= 0) & np.isfinite(p2) & (p2 >= 0))), "vapour pressure not possible", lambda: str((p1, p2)))
        # 0.19*Tb - 18 is where the formula ends
        okc = (T1 > .19 * bp - 18 + 1)
        mon.check(bool(np.all(p2[okc] >= p1[okc])), "vapour pressure falls with temperature", lambda: str((T1, p1, T2, p2)))
        order = np.argsort(bp)
        mon.check(bool(np.all(np.diff(p1[order]) <= 1e-12 * p1[order][1:] + 1e-300)), "a component that boils later has a higher vapour pressure", lambda: str((bp, p1)))
        j = int(rng.integers(len(bp)))
        patm = float(rng.choice([101325., 90000.]))
        mon.close(float(np.asarray(o.vapor_pressure(float(bp[j]), patm))[j]), patm, "vapour pressure at the boiling point is the atmosphere's", 1e-9)
        mon.event("vapour_judged")
        if again:
            break
        # what is handed out is the caller's to keep
        keep = np.array(o.vapor_pressure(float(T1)))
        try:
            o.vapor_pressure(float(T1))[:] = -1.
        except ValueError:
            pass            # (read only is fine)
        mon.check(np.array_equal(np.asarray(o.vapor_pressure(float(T1))), keep), "a caller that changes the array it got changes the next answer", lambda: "")
        # change the data, as an update from the client does
        f = float(rng.uniform(1.5, 3))
        o.kvis = np.array([v * f for v in o.kvis])
        o.densities = np.array([d * .97 for d in o.densities])
        o.boiling_point = np.asarray(o.boiling_point) * 1.02
        mon.event("data_changed")


def water_case(i, rng, mon):
    from gnome.environment import Water
    temp = float(rng.uniform(272, 308)) if rng.random() < .85 else 273.15
    si = dict(temperature=temp, wave_height=float(rng.uniform(.01, 9)), fetch=float(rng.uniform(100, 2e5)), sediment=float(rng.uniform(0, .5)))
    us = {k: str(rng.choice(sorted(UNITS[k]))) for k in UNITS if rng.random() < .8}
    val = {}
    for k in si:
        a, b = UNITS[k][us.get(k, {"temperature": "K", "wave_height": "m", "fetch": "m", "sediment": "kg/m^3"}[k])]
        val[k] = (si[k] - b) / a
    mon.ctx["water"] = dict(si=si, units=us)
    sal = float(rng.choice([0., 12., 35.]))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        w = Water(salinity=sal, units=dict(us), **val)
        for _ in range(int(rng.integers(0, 3))):        # reset some of them afterwards
            k = str(rng.choice(sorted(si)))
            u = str(rng.choice(sorted(UNITS[k])))
            a, b = UNITS[k][u]
            si[k] = float(rng.uniform(272, 308)) if k == "temperature" else float(rng.uniform(.01, 9))
            w.set(k, (si[k] - b) / a, u)
    for k in si:
        mon.check(abs(w.get(k) - si[k]) <= RT * abs(si[k]) + (1e-3 if k == "temperature" else 1e-12), "water %s is not what was given" % k, lambda: "%s / %s" % (w.get(k), si[k]))
        for u, (a, b) in UNITS[k].items():
            want = (si[k] - b) / a
            mon.check(abs(w.get(k, u) - want) <= 3e-6 * abs(want) + (2e-3 if k == "temperature" else 1e-12), "water %s in another unit" % k, lambda: "%s %s: %s / %s" % (k, u, w.get(k, u), want))
            mon.event("water_units")
            mon.state("water", k, u, us.get(k))
    mon.close(w.get("kinematic_viscosity", "m^2/s"), w.get("kinematic_viscosity"), "water viscosity in SI", 1e-12)
    mon.close(w.get("kinematic_viscosity", "cSt"), w.get("kinematic_viscosity") * 1e6, "water viscosity in cSt", RT)
    rho = w.get("density")
    # UNESCO-like: within the range of sea water, and the value of a Water set in SI
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ref = Water(temperature=si["temperature"], salinity=sal)
    mon.close(rho, ref.get("density"), "water density depends on the unit of the temperature", 1e-6)
    mon.close(rho, w.density, "density asked both ways", 1e-12)
    mon.check(990 < rho < 1035, "water density is not water's", lambda: str(rho))
    for u, (a, b) in D.items():
        mon.close(w.get("density", u), rho / a, "water density in another unit", RT)
    saltier = Water(temperature=si["temperature"], salinity=sal + 2.)
    mon.check(saltier.density > rho, "saltier water is not denser", lambda: "%s %s" % (saltier.density, rho))
    mon.event("water_density")
    pts = np.zeros((int(rng.integers(1, 6)), 3))
    tm = T0 + sec(int(rng.integers(-1e6, 1e6)))
    for e, k in (("Temperature", "temperature"), ("Sediment", "sediment"), ("WaveHeight", "wave_height")):
        u = str(rng.choice(sorted(UNITS[k])))
        x = getattr(w, e).at(pts, tm, units=u)
        mon.check(np.shape(x) == (len(pts),) and np.allclose(x, w.get(k, u), rtol=1e-9), "water property at points", lambda: "%s %s: %s" % (e, u, x))
        x = getattr(w, e).at(pts, tm)
        mon.check(np.allclose(x, w.get(k), rtol=1e-9), "water property at points in its default unit", lambda: "%s: %s" % (e, x))
        mon.event("water_at")
    mon.check(np.allclose(w.Salinity.at(pts, tm), sal), "salinity at points", lambda: "")
    for k, u in (("temperature", "kg"), ("wave_height", "C"), ("density", "m"), ("sediment", "furlong"), ("fetch", "")):
        for f in (lambda: w.get(k, u), lambda: w.set(k, 1., u), lambda: setattr(w, "units", {k: u}), lambda: Water(units={k: u})):
            before = {q: w.get(q) for q in si}
            try:
                f()
            except nucos.InvalidUnitError:
                mon.event("water_refused")
                mon.check({q: w.get(q) for q in si} == before, "a refused unit changed the water", lambda: "%s %s" % (k, u))
                continue
            except Exception as e:
                mon.violation("a unit of another kind is not refused as such", "%s %s %s %r" % (k, u, where(e), e))
                continue
            mon.check(k == "density" and u == "m" and False, "a unit of another kind is accepted", lambda: "%s in %s" % (k, u))


def amount_case(i, rng, mon):
    from gnome.spills.gnome_oil import GnomeOil
    from gnome.spills.substance import NonWeatheringSubstance
    from gnome.spills import surface_point_line_spill, Spill
    from gnome.spills.release import PointLineRelease
    from gnome.utilities import convert_mass_to_mass_or_volume
    oil = str(rng.choice(gn.OILS + ["none", "made"]))
    sub = NonWeatheringSubstance(standard_density=float(rng.uniform(500, 1200))) if oil == "none" else random_oil(rng)[0] if oil == "made" else GnomeOil(oil)
    rho = sub.standard_density
    allu = dict(VOL, **MASS)
    u = str(rng.choice(sorted(allu)))
    mass = float(10 ** rng.uniform(-3, 9))
    kg = lambda x, q: x * MASS[q] if q in MASS else x * VOL[q] * rho
    amt = mass / kg(1., u)
    mon.ctx.update(oil=oil, unit=u, kg=mass)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sp = Spill(release=PointLineRelease(release_time=T0, start_position=(0, 0, 0), num_elements=int(rng.integers(1, 20))), substance=sub, amount=amt, units=u)
        mon.close(sp.get_mass(), mass, "mass of a spill given in another unit", 3e-6)
        mon.close(sp.amount, amt, "amount read back", 1e-9)
        for q in rng.permutation(sorted(allu))[:6]:
            sp.units = str(q)
            mon.close(sp.get_mass(), mass, "mass after the unit was changed", 3e-6)
            mon.close(kg(sp.amount, str(q)), mass, "amount in another unit", 3e-6)
            sp.amount = sp.amount
            mon.close(sp.get_mass(), mass, "mass after the amount was set to itself", 3e-6)
            mon.event("amounts")
            mon.state("amount", oil, str(q))
        m2 = float(10 ** rng.uniform(-3, 9))
        sp.amount = m2 / kg(1., str(q))
        mon.close(sp.get_mass(), m2, "mass after the amount was changed", 3e-6)
        for bad in ("C", "m", "furlong", "m/s"):
            before = (sp.get_mass(), sp.units)
            try:
                sp.units = bad
            except Exception:       # noqa: BLE001  (any error is a refusal)
                mon.event("amount_refused")
                mon.equal((sp.get_mass(), sp.units), before, "a refused unit changed the spill")
            else:
                mon.violation("a unit that is neither mass nor volume is accepted for an amount", bad)
            try:
                Spill(release=PointLineRelease(release_time=T0, start_position=(0, 0, 0), num_elements=3), substance=sub, amount=5, units=bad)
            except Exception:       # noqa: BLE001
                mon.event("amount_refused")
            else:
                mon.violation("a unit that is neither mass nor volume is accepted for a new spill", bad)
        try:
            sp.amount = -1.
        except ValueError:
            pass
        else:
            mon.violation("a negative amount is accepted", "")
    # mass to mass or volume
    a, b = str(rng.choice(sorted(MASS))), str(rng.choice(sorted(allu)))
    x = float(10 ** rng.uniform(-2, 6))
    got = convert_mass_to_mass_or_volume(a, b, rho, x)
    mon.close(kg(got, b), kg(x, a), "mass to mass or volume", 6e-6)
    back = convert_mass_to_mass_or_volume("kg", b, rho, kg(1., a) * x)
    mon.close(got, back, "mass to mass or volume from kg", 6e-6)
    try:
        convert_mass_to_mass_or_volume(a, "C", rho, x)
    except Exception:       # noqa: BLE001
        mon.event("amount_refused")
    else:
        mon.violation("mass converted to a temperature", "")
    mon.event("mass_volume")


def run_case(i, rng, mon):
    """the same model with everything said in other units: the results are the same"""
    import p14
    S = p14.spec(1, rng)
    S["n"] = min(S["n"], 6)
    S["map"], S["land"] = None, False
    S["uncertain"] = False
    S["movers"] = [m for m in S["movers"] if m[0] in ("simple", "wind", "pwind")]
    us = dict(temperature=str(rng.choice(sorted(T))), wave_height=str(rng.choice(sorted(L))), sediment=str(rng.choice(sorted(C))), fetch=str(rng.choice(sorted(L))),
              density=str(rng.choice(sorted(D))), kinematic_viscosity=str(rng.choice(sorted(V))))
    fetch = None if rng.random() < .5 else float(rng.uniform(500, 1e5))
    uw = str(rng.choice(["knots", "mph", "km/h", "m/s"]))
    mon.ctx.update(spec=gn.brief(S), units=us, wind_units=uw, fetch=fetch)

    def go(other):
        model = p14.build(S)
        water = [e for e in model.environment if type(e).__name__ == "Water"][0]
        wind = [e for e in model.environment if type(e).__name__ == "Wind"][0]
        if fetch is not None:
            water.set("fetch", fetch, "m")
        water.set("kinematic_viscosity", 1e-6, "m^2/s")
        if other:
            for k, u in us.items():
                if k == "density":
                    water.units = {"density": u}
                elif water.get(k) is not None:
                    water.set(k, nucos.convert(water._units_type[k][0], {"temperature": "K", "sediment": "kg/m^3", "kinematic_viscosity": "m^2/s"}.get(k, "m"), u, water.get(k)), u)
            from gnome.environment import Wind
            ts = wind.get_wind_data(units=uw)
            wind.set_wind_data(ts, uw)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                for sp in model.spills:
                    m = sp.amount
                    before = sp.get_mass()
                    sp.units = S["unit2"]
                    sp.amount = sp.amount
                    mon.close(sp.get_mass(), before, "mass after the unit was changed", 1e-9)
        gn.seed_model(S["seed"])
        out = []
        for _ in range(S["n"]):
            model.step()
            out.append(gn.snapshot(model))
        return out
    S["unit2"] = str(rng.choice(sorted(dict(VOL, **MASS))))
    a, b = go(False), go(True)
    mon.event("runs_in_other_units")
    for s, (x, y) in enumerate(zip(a, b)):
        for (u1, A, mb1, t1), (u2, B, mb2, t2) in zip(x, y):
            if len(A["mass"]) and (A["mass"] < 1e-6 * A["init_mass"]).any():
                # what is left is the rounding of what was taken away: nothing more to compare
                mon.event("stopped_when_all_gone")
                return
            for k in A:
                if A[k].dtype.kind != "f" or k == "evap_decay_constant":
                    continue
                p, q = A[k], B[k]
                mon.check(p.shape == q.shape and np.allclose(p, q, rtol=3e-5, atol=1e-9 * (np.nanmax(np.abs(p[np.isfinite(p)])) if np.isfinite(p).any() else 1), equal_nan=True),
                          "%s depends on the units the model is given in" % k, lambda: "step %d: %s / %s" % (s, p.ravel()[:4], q.ravel()[:4]))
            tot = max(mb1.get("amount_released", 0), 1e-300)
            for k in mb1:
                sc = tot if k not in ("avg_density", "avg_viscosity", "water_content") else abs(mb1[k])
                mon.check(abs(mb1[k] - mb2.get(k, np.nan)) <= 3e-5 * sc + 1e-12, "total %s depends on the units the model is given in" % k, lambda: "step %d: %s / %s" % (s, mb1[k], mb2.get(k)))
    mon.state("run", S["oil"], us["temperature"], uw)
    # what is released has the density of the record, or of the water if it would sink
    if len(a[0][0][1]["density"]):
        from gnome.spills.gnome_oil import GnomeOil
        o = GnomeOil(S["oil"])
        d = a[0][0][1]["density"]
        from gnome.environment import Water
        rw = Water(temperature=S["temp"] + 273.15, salinity=S["salinity"]).density
        want = min(o.density_at_temp(S["temp"] + 273.15), rw)
        mon.check(np.allclose(d, want, rtol=1e-9), "density of new elements is not the oil's at the water's temperature", lambda: "%s / %s" % (d[:3], want))
        v = a[0][0][1]["viscosity"]
        mon.check(np.allclose(v, o.kvis_at_temp(S["temp"] + 273.15), rtol=1e-9), "viscosity of new elements is not the oil's at the water's temperature", lambda: "%s" % v[:3])
        mon.event("released_density")


def case(i, rng, mon):
    k = i % 8
    f, what = ((oil_case, "oil") if k in (0, 1, 2) else (water_case, "water") if k in (3, 4) else (amount_case, "amount") if k in (5, 6) else (run_case, "run"))
    mon.ctx["case"] = what
    try:
        with np.errstate(all="ignore"):
            f(i, rng, mon)
    except Exception as e:
        if blame(e) != "code":
            raise
        mon.violation("%s properties: raises %s" % (what, type(e).__name__), "%s %s" % (where(e), e))
