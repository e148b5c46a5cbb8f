"""The oil weathers by the documented formulas."""
PROPERTY = "P30"
KIND = "plain"
N = {"quick": 1400, "thorough": 24000}
BUDGET = {"quick": 75, "thorough": 1800}
RULE = "(process, oil, formula branch: wind range, waves given or from the wind, thickness and water content classes, limits reached)"
NEED = ["native_dispersion", "wind_between_ice", "native_all_lost", "native_emulsion", "evaporated", "emulsified", "emulsion_limit", "emulsion_not_started", "user_emulsion_start", "dispersed_DS", "dispersed_Li", "sedimented", "spread", "spread_limit", "spread_initial_phase", "langmuir", "langmuir_limit",
        "waves_from_wind", "waves_given", "fetch_limited", "density", "density_limit", "viscosity", "averages", "calm", "gale", "not_weathering_untouched", "water_changed_midway"]
ASSUMES = ["properties of the oil itself (density and viscosity at a temperature, boiling points, component masses) and the wind at a time are taken from the library: P28 and P11 decide those",
           "spreading of a spill is judged where its elements agree on the volume of the slick they belong to"]

import numpy as np
import gn
from gn import sec

G = 9.80665
RT = 1e-8


def sel(sc):
    from gnome.basic_types import fate
    return ((sc["fate_status"] & fate.surface_weather) == fate.surface_weather) & (sc["mass"] > 0)


def arrays(sc):
    return {k: np.array(v) for k, v in sc.data_arrays.items()}


class Ref:
    """the formulas, written down again from their documentation"""

    def __init__(self, wind, water, salinity):
        self.wind, self.water, self.sal = wind, water, salinity

    def u(self, P, t):
        return np.asarray(self.wind.at(P, t, coord_sys="r"), float).reshape(-1)

    def T(self):
        return self.water.get("temperature", "K")

    def pseudo(self, H):
        u = np.sqrt(G * H / .243)
        return (u / .71) ** .813008 if u < 4.433049525859078 else u

    def waves(self, P, t):
        """rms height, breaking fraction, energy per element"""
        U = self.u(P, t)
        h = self.water.get("wave_height")
        if h is None:
            ws = np.where(U < 4.433049525859078, .71 * U ** 1.23, U)
            f = self.water.get("fetch")
            H = .243 * ws ** 2 / G
            if f is not None:
                H = np.where(f < 2268 * ws ** 2, .0016 * np.sqrt(f / G) * ws, H)
            H = np.minimum(.707 * H, 30.)
        else:
            H = np.full(len(U), .707 * h)
            U = np.full(len(U), self.pseudo(h))
        Tm = 2.54 + .03742857 * self.sal()
        fw = np.minimum(.5 * np.where(U < 4, .0125 * U, .01 * U + .01) / Tm, 1.)
        return H, fw, .0034 * self.water.get("density") * G * H ** 2

    def emul_wind(self, P, t):
        U = self.u(P, t)
        h = self.water.get("wave_height")
        return U if h is None else np.maximum(U, self.pseudo(h))


def evaporation(R, w, a, b, m, sub, dt, t, mon):
    T = R.T()
    U = np.maximum(R.u(a["positions"][m], t), 1.)
    bp = np.asarray(sub.boiling_point, float)
    dS = 8.75 + 1.987 * np.log(bp)
    c2 = .19 * bp - 18.
    vp = 101325. * np.exp(dS * (bp - c2) ** 2 / (.97 * 1.987 * bp) * (1 / (bp - c2) - 1 / (T - c2)))
    mw = np.asarray(sub.molecular_weight, float) / 1000.
    mc = a["mass_components"][m][:, :len(vp)]
    A = a["area"][m]
    n = (mc / mw).sum(1)
    with np.errstate(all="ignore"):
        D = np.maximum(2 * np.sqrt(A / a["vol_frac_le_st"][m] / np.pi), 1.)
        K = .0048 * U ** .78 * D ** (-1 / 9.)
        lam = (A * (1 - a["frac_water"][m]) * K / (8.314 * T * n))[:, None] * vp * 1.380277 * (.018 / mw) ** (1 / 3.)
        want = mc * np.exp(-lam * dt)
    ok = (a["mass"][m] > 1e-9 * a["init_mass"][m]) & np.isfinite(want).all(1)
    got = b["mass_components"][m][:, :len(vp)]
    bad = ok & (np.abs(got - want) > RT * np.abs(mc) + 1e-15).any(1)
    mon.check(not bad.any(), "evaporation is not that of the formula", lambda: "left %s, expected %s of %s" % (got[bad][0], want[bad][0], mc[bad][0]))
    fe = (a["mass_components"][m] - b["mass_components"][m]).sum(1) / a["init_mass"][m]
    mon.check(bool((np.abs(b["frac_evap"][m] - a["frac_evap"][m] - fe) <= 1e-9).all()), "fraction evaporated is not that of the formula", lambda: "%s, expected %s" % ((b["frac_evap"][m] - a["frac_evap"][m])[:3], fe[:3]))
    if ok.any() and (mc - want)[ok].sum() > 0:
        mon.event("evaporated")
        mon.state("evaporation", sub.name, "calm" if U.min() <= 1 else "gale" if U.max() > 10 else "wind", bool((a["frac_water"][m] > 0).any()), bool(((mc - want)[ok].sum(1) > .05 * mc[ok].sum(1)).any()))
    return {"mass_components", "mass", "frac_evap", "frac_lost", "evap_decay_constant"}


def emulsification(R, w, a, b, m, sub, dt, t, mon):
    Ymax = sub.emulsion_water_fraction_max
    if Ymax <= 0:
        mon.check(np.array_equal(a["frac_water"], b["frac_water"]), "oil that does not emulsify took up water", "")
        return set()
    U = R.emul_wind(a["positions"][m], t)
    k = 6 * 2.02e-6 * U ** 2 / 1e-5
    Smax = 6 / 1e-6 * Ymax / (1 - Ymax)
    age = a["age"][m].astype(float)
    S0, bull, fe = a["interfacial_area"][m], a["bulltime"][m], a["frac_evap"][m]
    et = sub.bullwinkle_time
    if et >= 0:
        on = age >= et * 3600
        start = np.full(len(age), et * 3600.) if et > 0 else np.where(bull < 0, age, bull)
    else:
        on = (fe >= sub.bullwinkle_fraction) & (sub.bullwinkle_fraction >= 0)
        start = np.where(bull < 0, age, bull)
    with np.errstate(all="ignore"):
        S = np.where(on, np.minimum(S0 + k * dt * np.exp(-k / Smax * (age - start)), Smax), 0.)
        Y = np.where(S < 6 / 1e-5 * Ymax / (1 - Ymax), S * 1e-5 / (6 + S * 1e-5), Ymax)
    for nm, want, sc in (("frac_water", Y, 1.), ("interfacial_area", S, Smax)):
        got = b[nm][m]
        bad = np.abs(got - want) > RT * sc
        mon.check(not bad.any(), "emulsion is not that of the formula (%s)" % nm, lambda: "%s, expected %s; start %s, age %s, evaporated %s" % (got[bad][:3], want[bad][:3], start[bad][:3], age[bad][:3], fe[bad][:3]))
    if on.any():
        mon.event("emulsified")
        mon.event("emulsion_limit", int((Y >= Ymax).any()))
        mon.event("user_emulsion_start", int(et >= 0))
    mon.event("emulsion_not_started", int((~on).any()))
    mon.state("emulsification", sub.name, "time" if et > 0 else "at once" if et == 0 else "evaporated", bool(on.any()), bool((~on).any()), bool((Y >= Ymax).any()))
    mass = b["mass"][m]
    if mass.sum() > 1e-280:
        mon.close(w["mb"]["water_content"], float((mass * b["frac_water"][m]).sum() / mass.sum()), "water content is not the mean of the slick", rtol=1e-8, atol=1e-12)
    return {"frac_water", "interfacial_area", "bulltime"}


def dispersion(R, w, a, b, m, sub, dt, t, mon):
    mass, rho, vis, Y, A = (a[k][m] for k in ("mass", "density", "viscosity", "frac_water", "area"))
    H, fw, De = R.waves(a["positions"][m], t)
    nu, rw = R.water.get("kinematic_viscosity"), R.water.get("density")
    cs = R.water.get("sediment", "kg/m^3")
    with np.errstate(all="ignore"):
        th = np.where(A > 0, mass / rho / (1 - Y) / A, 0.)
        C = De ** .57 * fw * 2400 * np.exp(-73.682 * np.sqrt(vis))
        drop = .613 * th
        if w["alg"] == "Li2017":
            fl = rho < rw
            d0 = 4 * np.sqrt(.035 / (G * np.where(fl, rw - rho, 1.)))
            Hs = H / .707
            We = rw * G * Hs * d0 / .035
            Oh = vis * rho / np.sqrt(rho * .035 * d0)
            q = 4.604e-10 * We ** 1.805 * Oh ** -1.023
            disp = np.where(fl & (A > 0) & (Hs > 0), .11 * rho * th * fw * q * (1 - Y) * A * dt, 0.)
        else:
            disp = C * 3.9e-8 * (1 - Y) * A * dt
        up = np.maximum(drop ** 2 * G * (1 - rho / rw) / (18 * nu), 0.)
        q = C * np.maximum(.588 * (th ** 1.7 - 5e-8), 0.) * A
        sed = np.where((cs > 0) & (th >= 1e-4) & (q > 0), (1 - Y) * 1.6e-4 * np.sqrt(H * De * fw / (rw * nu)) * q * dt / (up * dt + 1.5 * H) * cs * dt, 0.)
        over = disp + sed > mass
        r = np.where(over, disp / (disp + sed), 0.)
        disp = np.where(over, r * mass, disp)
        sed = np.where(over, mass - disp, sed)
    if not (np.isfinite(disp).all() and np.isfinite(sed).all()) or mass.sum() <= 1e-280:
        return {"mass_components", "mass", "droplet_avg_size"}
    f = min(1., disp.sum() / mass.sum())
    left = a["mass_components"][m].sum() * (1 - f)       # (the parts add up to the mass only to the digits of the oil record)
    f = 1 - (1 - f) * (1 - (min(1., sed.sum() / left) if left > 0 else 0.))
    want = a["mass_components"][m] * (1 - f)
    got = b["mass_components"][m]
    tot = mass.sum()
    mon.check(bool((np.abs(got - want) <= 1e-7 * np.abs(a["mass_components"][m]) + 1e-14 * tot).all()), "dispersion is not that of the formula", lambda: "%s: left %s, expected %s of %s (lost %.6g)" % (w["alg"], got[0], want[0], a["mass_components"][m][0], f))
    mon.check(abs(w["mb"]["natural_dispersion"] - w["mb0"]["natural_dispersion"] - disp.sum()) <= 1e-8 * disp.sum() + 1e-13 * a["init_mass"].sum(), "amount dispersed is not that of the formula", lambda: "%s: %.10g, expected %.10g" % (w["alg"], w["mb"]["natural_dispersion"] - w["mb0"]["natural_dispersion"], disp.sum()))
    mon.check(abs(w["mb"]["sedimentation"] - w["mb0"]["sedimentation"] - sed.sum()) <= 1e-8 * sed.sum() + 1e-13 * a["init_mass"].sum(), "amount settled is not that of the formula", lambda: "%s: %.10g, expected %.10g" % (w["alg"], w["mb"]["sedimentation"] - w["mb0"]["sedimentation"], sed.sum()))
    mon.event("dispersed_" + w["alg"][:2].replace("D&", "DS"), int(disp.sum() > 0))
    mon.event("sedimented", int(sed.sum() > 0))
    mon.state("dispersion", w["alg"], sub.name, bool(disp.sum() > 1e-6 * tot), bool(sed.sum() > 0), bool(over.any()), R.water.get("wave_height") is None)
    return {"mass_components", "mass", "droplet_avg_size"}


def spreading(R, w, a, b, m, sub, dt, t, mon):
    nu = 1e-6
    if w["changed"]:           # which of the conditions the slick goes by is not stated then
        return {"fay_area", "area", "max_area_le"}
    v0 = float(sub.kvis_at_temp(w["T0"]))
    lim = 1e-4 if v0 >= 1e-4 else 1e-5 if v0 < 1e-6 else 1e-5 + .9091 * (v0 - 1e-6)
    rw = w["rho0"]
    buoy = (rw - sub.standard_density) / rw
    if buoy <= 0:
        return {"fay_area", "area", "max_area_le"}
    V, A, vf, age = a["bulk_init_volume"][m], a["fay_area"][m], a["vol_frac_le_st"][m], a["age"][m] + dt
    mx = a["init_mass"][m] / a["density"][m] / lim
    got = b["fay_area"][m]
    t0 = (1.21 / 1.53) ** 4 * (V / (nu * G * buoy)) ** (1 / 3.)
    sp = a["spill_num"][m]
    with np.errstate(all="ignore"):
        Cc = np.pi * 1.45 ** 2 * (V ** 2 * G * buoy / np.sqrt(nu)) ** (1 / 3.)
        K = 4 * np.pi * 2 * .033
        blob = A / vf
        new = np.minimum(A + vf * (.5 * Cc ** 2 / blob + 7 / 6. * K * (blob / K) ** (1 / 7.)) * dt, mx)
    for s in np.unique(sp):
        k = sp == s
        lo, hi = t0[k].min(), t0[k].max()
        grow = k & (age > hi * (1 + 1e-9)) & (A < mx) & (A > 0) & (vf > 0)
        stay = k & ((age < lo * (1 - 1e-9)) | (A >= mx) | (A == 0))
        bad = (grow & (np.abs(got - new) > 1e-8 * np.abs(new))) | (stay & (got != A))
        mon.check(not bad.any(), "area of the slick is not that of the formula", lambda: "%s, expected %s, before %s, limit %s, age %s, t0 %s" % (got[bad][:3], np.where(grow, new, A)[bad][:3], A[bad][:3], mx[bad][:3], age[bad][:3], t0[bad][:3]))
        mon.event("spread", int((grow & (new > A)).any()))
        mon.event("spread_limit", int((grow & (new >= mx)).any() or (A[k] >= mx[k]).any()))
        mon.event("spread_initial_phase", int((k & (age < lo)).any()))
        mon.state("spreading", sub.name, bool(grow.any()), bool(stay.any()), bool((A[k] >= mx[k]).any()), len(np.unique(sp)))
    mon.check(np.array_equal(b["area"][m], b["fay_area"][m]), "area of the slick is not the spread one", "")
    return {"fay_area", "area", "max_area_le"}


def langmuir(R, w, a, b, m, sub, dt, t, mon):
    rw = R.water.get("density")
    v = .005 * R.u(a["positions"][m], t).max()
    sp = a["spill_num"][m]
    for s in np.unique(sp):
        k = sp == s
        V = a["bulk_init_volume"][m][k]
        A = a["fay_area"][m][k]
        if np.ptp(V) > 1e-9 * V[0] or A.sum() <= 0:
            continue
        h = V[0] / A.sum()
        bu = (rw - a["density"][m][k]) / rw
        with np.errstate(all="ignore"):
            f = (4 * h * bu * G / (v * v * np.pi ** 2)) ** (1 / 3.)
        f = np.where(bu <= 0, .1, np.clip(np.where(np.isnan(f), .1, f), .1, 1.))
        got = b["frac_coverage"][m][k]
        sink = bu <= 1e-12
        mon.check(bool((np.abs(got - f) <= 1e-7)[~sink].all()), "coverage by Langmuir cells is not that of the formula", lambda: "%s, expected %s; wind %s thickness %s" % (got[:3], f[:3], v / .005, h))
        mon.check(bool((np.abs(b["area"][m][k] - A * got) <= 1e-9 * A).all()), "area of the slick is not the part covered", "")
        mon.event("langmuir", int(((f > .1) & (f < 1)).any()))
        mon.event("langmuir_limit", int(((f <= .1) | (f >= 1)).any()))
        mon.state("langmuir", sub.name, bool(f.min() <= .1), bool(f.max() >= 1))
    return {"frac_coverage", "area"}


PROC = dict(Evaporation=evaporation, Emulsification=emulsification, NaturalDispersion=dispersion, FayGravityViscous=spreading, Langmuir=langmuir)


def properties(R, a, sub, mon, mb):
    """density, viscosity and means at the end of a step"""
    rw, T = R.water.get("density"), R.T()
    from gnome.basic_types import fate
    m = (a["fate_status"] & fate.surface_weather) == fate.surface_weather
    m &= (a["age"] > 0) & (a["mass"] > 1e-290)          # (below that, parts of the oil have no digits left)
    cd, mf = np.asarray(sub.component_density, float), np.asarray(sub.mass_fraction, float)
    if m.any():
        mc = a["mass_components"][m][:, :len(cd)]
        oil = float(sub.density_at_temp(T)) / (cd * mf).sum() * (cd * mc).sum(1) / a["mass"][m]
        Y = a["frac_water"][m]
        raw = Y * rw + (1 - Y) * oil
        want = np.minimum(raw, rw)
        got = a["density"][m]
        bad = np.abs(got - want) > 1e-7 * want
        mon.check(not bad.any(), "density is not that of the oil and water in the element", lambda: "%s, expected %s, water %s" % (got[bad][:3], want[bad][:3], rw))
        mon.event("density")
        mon.event("density_limit", int((raw > rw).any()))
    m = a["age"] > 0
    if m.any():
        v0 = float(sub.kvis_at_temp(T))
        k = min(max(1500. * np.sqrt(v0), 1.), 10.)
        x = a["frac_water"][m] / .84
        want = v0 * np.exp(k * a["frac_evap"][m]) * (1 + x / (1.187 - x)) ** 2.49
        got = a["viscosity"][m]
        bad = np.abs(got - want) > 1e-7 * want
        mon.check(not bad.any(), "viscosity is not that of the weathered emulsion", lambda: "%s, expected %s (evaporated %s, water %s)" % (got[bad][:3], want[bad][:3], a["frac_evap"][m][bad][:3], a["frac_water"][m][bad][:3]))
        mon.event("viscosity")
        mon.state("viscosity", sub.name, "low" if k == 1 else "high" if k == 10 else "mid", bool(x.max() > 0))


def native_case(rng, mon):
    """the native routines, called as the weatherers call them, over a wider range of conditions than runs reach"""
    from gnome.cy_gnome.cy_weatherers import disperse_oil, emulsify_oil
    n = int(rng.integers(1, 30))
    dt = int(rng.choice([60, 900, 3600, 21600, 86400]))
    mass, Y, rw = 10 ** rng.uniform(-6, 5, n), rng.choice([0., .3, .7, .9], n), float(rng.choice([997., 1025.]))
    vis, rho = 10 ** rng.uniform(-6, -1.3, n), rng.uniform(750, rw - 1, n)
    A = np.where(rng.random(n) < .1, 0., mass / rho / (1 - Y) / 10 ** rng.uniform(-6, -1, n))
    H = rng.choice([.05, .5, 2., 8., 21.], n)
    fw, De, nu = rng.uniform(0, .5, n), .0034 * rw * G * H ** 2, 1e-6
    cs = float(rng.choice([0., .005, .05, 5., 200.]))
    out = [np.full(n, -1.) for _ in range(3)]
    a = [np.array(x) for x in (Y, mass, vis, rho, A)]
    disperse_oil(dt, *a, *out, fw, De, np.array(H), nu, rw, cs, 3.9e-8, 1e-4)
    th = np.where(A > 0, mass / rho / (1 - Y) / np.where(A > 0, A, 1.), 0.)
    C = De ** .57 * fw * 2400 * np.exp(-73.682 * np.sqrt(vis))
    disp = C * 3.9e-8 * (1 - Y) * A * dt
    up = (.613 * th) ** 2 * G * (1 - rho / rw) / (18 * nu)
    q = C * np.maximum(.588 * (th ** 1.7 - 5e-8), 0.) * A
    sed = np.where((cs > 0) & (th >= 1e-4), (1 - Y) * 1.6e-4 * np.sqrt(H * De * fw / (rw * nu)) * q * dt / (up * dt + 1.5 * H) * cs * dt, 0.)
    over = disp + sed > mass
    r = np.where(over, disp / np.where(over, disp + sed, 1.), 0.)
    disp, sed = np.where(over, r * mass, disp), np.where(over, (1 - r) * mass, sed)
    edge = np.abs(th - 1e-4) < 1e-12
    for nm, got, want in (("dispersed", out[0], disp), ("settled", out[1], sed), ("droplet size", out[2], .613 * th)):
        bad = ~edge & ~(np.abs(got - want) <= 1e-9 * mass if nm != "droplet size" else np.abs(got - want) <= 1e-9 * want)
        mon.check(not bad.any(), "native dispersion is not that of the formula", lambda: "%s: %s, expected %s, thickness %s" % (nm, got[bad][:3], want[bad][:3], th[bad][:3]))
        if nm != "droplet size":
            rel = ~edge & (want > 0) & ~over & (np.abs(got - want) > 1e-9 * want)
            mon.check(not rel.any(), "native dispersion is not that of the formula", lambda: "%s: %s, expected %s" % (nm, got[rel][:3], want[rel][:3]))
    mon.check(all(np.array_equal(x, y) for x, y in zip(a, (Y, mass, vis, rho, A))), "native dispersion changed its inputs", "")
    mon.event("native_dispersion", n)
    mon.event("native_all_lost", int(over.any()))
    mon.state("native dispersion", cs > 0, bool(over.any()), bool((A == 0).any()), bool(((th > 1e-4) & (th < 1e-3)).any()), bool((vis > .01).any()))
    # emulsions
    Ymax = float(rng.choice([.1, .5, .7, .9]))
    Smax = 6e6 * Ymax / (1 - Ymax)
    k = 6 * 2.02e-6 * rng.uniform(0, 80, n) ** 2 / 1e-5
    age = rng.integers(0, 2 * 10 ** 5, n).astype(np.int32)
    bull = np.where(rng.random(n) < .4, -1., age * rng.random(n))
    fe = rng.choice([0., .05, .2, .5], n)
    et, ec = float(rng.choice([-999., -1., 0., .5, 6., 20.])), float(rng.choice([-1., 0., .05, .2, .6]))
    S0 = rng.choice([0., .1, .9, 1.], n) * Smax
    y, S1, b1 = np.zeros(n), np.array(S0), np.array(bull)
    emulsify_oil(dt, y, S1, np.array(fe), age, b1, np.array(k), et, ec, Smax, Ymax, 1e-5)
    on = age >= et * 3600 if et >= 0 else (fe >= ec) & (ec >= 0)
    start = np.full(n, et * 3600.) if et > 0 else np.where(bull < 0, age, bull)
    S = np.where(on, np.minimum(S0 + k * dt * np.exp(-k / Smax * (age - start)), Smax), 0.)
    want = np.where(S < 6e5 * Ymax / (1 - Ymax), S * 1e-5 / (6 + S * 1e-5), Ymax)
    mon.check(bool((np.abs(S1 - S) <= 1e-9 * Smax).all()), "native emulsion is not that of the formula", lambda: "interfacial area %s, expected %s" % (S1, S))
    mon.check(bool((np.abs(y - want) <= 1e-9).all()), "native emulsion is not that of the formula", lambda: "water %s, expected %s" % (y, want))
    if et <= 0:
        mon.check(np.array_equal(b1, np.where(on & (bull < 0), age, bull)), "native emulsion is not that of the formula", lambda: "start %s, expected %s" % (b1, np.where(on & (bull < 0), age, bull)))
    mon.event("native_emulsion", n)
    mon.state("native emulsion", et, ec, bool(on.any()), bool((S >= Smax).any()))


def ice_case(rng, mon):
    """the wind that reaches the oil between ice: at least 1 m/s for evaporation, less the ice's share"""
    import datetime as dt
    from gnome.environment import IceAwareWind, IceConcentration, Water
    from gnome.environment.gridded_objects_base import Variable, Time, Grid_R
    from gnome.weatherers import Evaporation, Langmuir
    base = dt.datetime(2020, 3, 1)
    lat, lon = np.array([10., 11.]), np.array([20., 21.])
    grid = Grid_R(node_lon=lon, node_lat=lat)
    t = Time([base, base + dt.timedelta(hours=6)])
    u, v = rng.normal(size=2) * float(rng.choice([.3, 2., 10.]))
    c = float(rng.choice([0., .1, .3, .5, .7, .9, 1.]))
    one = np.ones((2, 2, 2))
    w = IceAwareWind(ice_concentration=IceConcentration(name="ice", units="fraction", time=t, data=one * c, grid=grid, fill_value=0.), name="w", units="m/s", time=t, grid=grid,
                     variables=[Variable(name=n, units="m/s", time=t, data=one * x, grid=grid, fill_value=0.) for n, x in (("u", u), ("v", v))])
    q = np.column_stack([rng.uniform(20.1, 20.9, 7), rng.uniform(10.1, 10.9, 7), np.zeros(7)])
    f = 1 if c < .2 else 0 if c >= .8 else 1 - (c - .2) / .6
    for m, least in ((Evaporation(water=Water(), wind=w), 1.), (Langmuir(water=Water(), wind=w), 0.)):
        got = np.asarray(m.get_wind_speed(q, base + dt.timedelta(hours=1), min_val=least), float)
        want = max(np.hypot(u, v), least) * f
        mon.check(got.shape == (7,) and bool((np.abs(got - want) < 1e-9 * (1 + want)).all()), "the wind a process uses between ice is not that of the place less the ice's share", lambda: "%s, expected %s (ice %s, wind %s %s)" % (got[:2], want, c, u, v))
    mon.event("wind_between_ice")
    mon.state("ice", c, "calm" if np.hypot(u, v) < 1 else "wind")


def case(i, rng, mon):
    if i % 20 == 19:
        ice_case(rng, mon)
        return native_case(rng, mon)
    from gnome import weatherers as W
    from gnome.weatherers import spreading as SP
    from gnome.weatherers import core as WC
    S = gn.random_spec(rng, oil=True, weather=[x for x in ("evaporation", "dispersion", "emulsification") if rng.random() < .75] or ["evaporation"], cleanup=[], uncertain=bool(rng.random() < .15), nmax=20,
                       land=bool(rng.random() < .3), nsteps=int(rng.integers(3, 12)), ts=int(rng.choice([60, 300, 900, 900, 1800, 3600, 3600, 10800])))
    hi = float(rng.choice([.5, 3., 8., 16., 35., 35.]))
    S["wind"] = [(t, s * hi / 16., d) for t, s, d in S["wind"]]
    for sp in S["spills"]:
        sp["amount"] = float(rng.choice([1., 1e3, 1e5, 3e4]))
        if sp["kind"] == "subsurf":
            sp["kind"] = "point"
    mon.ctx["spec"] = gn.brief(S) + " wind %s waves %s" % (S["wind"], S["waveheight"])
    model = gn.build(S)
    env = {type(e).__name__: e for e in model.environment}
    wind, water = env["Wind"], env["Water"]
    if S["waveheight"] is None and rng.random() < .4:
        water.set("fetch", float(10 ** rng.uniform(2, 6)), "m")
        mon.event("fetch_limited")
    sub = model.spills[0].substance
    if rng.random() < .5:
        sub.bullwinkle_time = float(rng.choice([0., .5, 1., 3.]))
    elif rng.random() < .3:
        sub.bullwinkle_fraction = float(rng.choice([0., .01, .05, .3]))
    mon.event("waves_from_wind" if S["waveheight"] is None else "waves_given")
    R = Ref(wind, water, lambda: water.salinity)
    info = dict(T0=R.T(), rho0=water.get("density"), changed=False)
    saved = []

    def wrap(cls, nm):
        f = cls.weather_elements
        saved.append((cls, f))

        def g(self, sc, dt, t):
            if nm == "NaturalDispersion":
                info["alg"] = self.algorithm
            a = arrays(sc)
            info["mb0"] = dict(sc.mass_balance)
            on = self.active
            m = sel(sc) if len(a["mass"]) else np.zeros(0, bool)
            f(self, sc, dt, t)
            b = arrays(sc)
            info["mb"] = dict(sc.mass_balance)
            may = set()
            if on and m.any():
                may = PROC[nm](R, info, a, b, m, sub, dt, t, mon)
                U = R.u(a["positions"][m], t)
                mon.event("calm", int(U.min() < 1))
                mon.event("gale", int(U.max() > 15))
            for k in a:
                if k == "evap_decay_constant":
                    continue
                same = np.array_equal(a[k], b[k], equal_nan=a[k].dtype.kind == "f")
                if k in may:
                    same = np.array_equal(a[k][~m], b[k][~m], equal_nan=a[k].dtype.kind == "f")
                mon.check(same, "a weathering process changed what it does not act on", lambda: "%s: %s" % (nm, k))
            mon.event("not_weathering_untouched", int((~m).any()))
        cls.weather_elements = g

    for cls, nm in ((W.Evaporation, "Evaporation"), (W.Emulsification, "Emulsification"), (W.NaturalDispersion, "NaturalDispersion"), (SP.FayGravityViscous, "FayGravityViscous"), (SP.Langmuir, "Langmuir")):
        wrap(cls, nm)
    midway = None if rng.random() < .75 else int(rng.integers(1, S["n"]))
    try:
        for st in range(S["n"] + 1):
            if st == midway:
                # the user looks at the run and corrects the conditions
                what = str(rng.choice(["temperature", "wave_height"]))
                water.set(what, float(rng.uniform(275, 300)) if what == "temperature" else float(rng.uniform(.1, 4)), "K" if what == "temperature" else "m")
                info["changed"] = True
                mon.event("water_changed_midway")
            model.step()
            for sc in model.spills.items():
                if not sc.uncertain and len(sc["mass"]) and st:
                    a = arrays(sc)
                    properties(R, a, sub, mon, sc.mass_balance)
                    mb = sc.mass_balance
                    ps = dict(mb)
                    tot = a["mass"].sum()
                    if tot > 1e-280 and "avg_density" in ps:
                        mon.close(ps["avg_density"], float((a["mass"] * a["density"]).sum() / tot), "mean density of the oil", rtol=1e-8)
                        mon.close(ps["avg_viscosity"], float((a["mass"] * a["viscosity"]).sum() / tot), "mean viscosity of the oil", rtol=1e-8)
                        mon.event("averages")
    finally:
        for cls, f in saved:
            cls.weather_elements = f
