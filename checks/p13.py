"""Random and vertical movement: statistics, limits, layers and rise speeds of the real movers."""
PROPERTY = "P13"
KIND = "plain"
N = {"quick": 420, "thorough": 6000}
BUDGET = {"quick": 120, "thorough": 2400}
RULE = "(mover, set, first step or later, step length, coefficient, latitude band, layer) or (what was compared)"
NEED = ["random_moves", "first_step", "uncertain_set", "below_surface_left_alone", "not_in_water_left_alone", "variance_over_steps", "moves_3d", "inside_mixed_layer", "below_mixed_layer",
        "surface_kept", "surface_mixed_down", "well_mixed", "seeds_compared", "rise_judged", "rise_speeds", "stokes_range", "form_drag_range", "between_ranges", "model_depths", "surfaced",
        "ice_scaled", "backward", "asked_twice_differs", "sinking", "rise_of_substance"]
ASSUMES = ["the first step of a run draws from the disc of the same radius (as the code documents), so the variance is judged from the second step on",
           "statistical bounds are set at more than six standard deviations: a correct mover fails them less than once in 10^8 draws"]

import datetime as dt

import numpy as np
from scipy import stats
import gn
from gn import T0, sec, oil_status

MPD = 111120.00024


def positions(rng, n, lat=None, z=0.):
    lat = float(rng.uniform(-70, 70)) if lat is None else lat
    p = np.zeros((n, 3))
    p[:, 0] = rng.uniform(-170, 170)
    p[:, 1] = lat
    p[:, 2] = z
    return p, lat


def uniform(mon, x, what, lo=-1., hi=1.):
    """x should be uniform draws of [lo, hi]"""
    n = len(x)
    w = hi - lo
    mon.check(bool(x.min() >= lo - 2e-6 * w and x.max() <= hi + 2e-6 * w), what + ": outside the range", lambda: "%r..%r of %r..%r" % (x.min(), x.max(), lo, hi))
    e = 30. / n * w
    mon.check(bool(x.min() <= lo + e and x.max() >= hi - e), what + ": does not fill the range", lambda: "%r..%r of %r..%r" % (x.min(), x.max(), lo, hi))
    mon.check(abs(x.mean() - (lo + hi) / 2) < 6.5 * w / np.sqrt(12 * n), what + ": mean is off", lambda: "%r" % x.mean())
    d = stats.kstest((x - lo) / w, "uniform").statistic
    mon.check(d < 3.5 / np.sqrt(n), what + ": not uniform", lambda: "KS distance %r of %d" % (d, n))


def corr(mon, a, b, what):
    r = np.corrcoef(a, b)[0, 1]
    mon.check(abs(r) < 6.5 / np.sqrt(len(a)), what, lambda: "r=%r of %d" % (r, len(a)))


def meters(d, lat):
    return d[:, 0] * MPD * np.cos(np.deg2rad(lat)), d[:, 1] * MPD


def random_case(i, rng, mon):
    from gnome.movers import RandomMover
    n = int(rng.choice([3000, 12000]))
    D = float(rng.choice([1., 126., 1e4, 1e5, 1e7]))
    uf = float(rng.choice([1., 2., 5.]))
    ts = int(rng.choice([1, 60, 900, 3600, 86400])) * (1 if rng.random() < .75 else -1)
    unc = bool(rng.random() < .4)
    p, lat = positions(rng, n)
    sub = rng.random(n) < .1
    p[sub, 2] = rng.uniform(.001, 50, sub.sum())
    sc = gn.sample_sc(n, p, uncertain=unc)
    out = rng.random(n) < .1
    sc["status_codes"][out] = int(rng.choice([oil_status.on_land, oil_status.to_be_removed, oil_status.off_maps, oil_status.not_released]))
    mon.ctx["m"] = "RandomMover D=%s factor=%s ts=%s uncertain=%s lat=%.2f n=%d" % (D, uf, ts, unc, lat, n)
    m = RandomMover(diffusion_coef=D, uncertain_factor=uf)
    if rng.random() < .3:                    # set afterwards
        m = RandomMover()
        m.diffusion_coef, m.uncertain_factor = D, uf
    gn.seed_model(int(rng.integers(1 << 30)))
    m.prepare_for_model_run()
    first = True
    last = None
    r = np.sqrt(6 * D / 1e4 * abs(ts) * (uf if unc else 1))
    act = ~(sub | out)
    for s in range(3):
        t = T0 + sec(ts * s)
        m.prepare_for_model_step(sc, ts, t)
        d = np.array(m.get_move(sc, ts, t))
        m.model_step_is_done(sc)
        mon.check(bool(np.all(np.isfinite(d))), "random move not finite", lambda: "")
        mon.check(bool(np.all(d[:, 2] == 0)), "horizontal random walk changes the depth", lambda: "")
        mon.check(bool(np.all(d[out] == 0)), "random walk moves elements that are not in the water", lambda: str(d[out][:2]))
        mon.check(bool(np.all(d[sub] == 0)), "surface random walk moves elements below the surface", lambda: str(d[sub][:2]))
        x, y = meters(d[act], lat)
        x, y = x / r, y / r
        tol = 3e-5
        x, y = np.clip(x, -1 - tol, 1 + tol) if abs(x).max() < 1 + tol else x, y
        if first:
            q = x * x + y * y
            mon.check(bool(q.max() <= 1 + 1e-4), "first random step outside the disc", lambda: str(q.max()))
            dd = stats.kstest(np.clip(q, 0, 1), "uniform").statistic
            mon.check(dd < 3.5 / np.sqrt(len(q)) + 1e-4, "first random step not spread over the disc", lambda: "KS %r" % dd)
            mon.check(abs(x.mean()) < 6.5 * .5 / np.sqrt(len(x)) and abs(y.mean()) < 6.5 * .5 / np.sqrt(len(x)), "first random step has a drift", lambda: "%r %r" % (x.mean(), y.mean()))
            mon.event("first_step")
        else:
            uniform(mon, x / (1 + tol), "random walk east")
            uniform(mon, y / (1 + tol), "random walk north")
            corr(mon, x, y, "random walk: east and north are not independent")
            corr(mon, x[1:], x[:-1], "random walk: elements are not independent")
            if last is not None:
                corr(mon, x, last[0], "random walk: steps are not independent")
                corr(mon, y, last[1], "random walk: steps are not independent")
            last = (x, y)
        first = False
        mon.event("random_moves", int(act.sum()))
    mon.event("uncertain_set", int(unc))
    mon.event("backward", int(ts < 0))
    mon.event("below_surface_left_alone", int(sub.sum()))
    mon.event("not_in_water_left_alone", int(out.sum()))
    mon.state("random", unc, ts, D, int(lat // 20))


def steps_case(i, rng, mon):
    """the spread after a given time does not depend on the step (model runs on open water)"""
    from gnome.movers import RandomMover
    from gnome.model import Model
    n = 2500
    D = float(rng.choice([1e3, 1e5]))
    tot = 7200
    for k in [int(x) for x in rng.choice([1, 2, 3, 8, 24], 2, replace=False)]:
        ts = tot // k
        S = gn.random_spec(rng, oil=False, weather=False, movers=[], land=False, nspills=1, kinds=["point"], nsteps=k + 1, ts=ts, uncertain=bool(rng.random() < .3))
        S["spills"][0].update(n=n, start=0., on=True, z=0.)
        S["extra"] = 0
        model = gn.build(S)
        model.movers += RandomMover(diffusion_coef=D)
        gn.seed_model(S["seed"])
        model.step()
        model.step()
        a = [np.array(sc["positions"]) for sc in model.spills.items()]
        for _ in range(k):
            model.step()
        for j, sc in enumerate(model.spills.items()):
            var = 2 * D / 1e4 * tot * (2. if sc.uncertain else 1)
            d = sc["positions"] - a[j]
            x, y = meters(d, np.asarray(a[j][:, 1]))
            for v, w in ((x, "east"), (y, "north")):
                s2 = v.var() / var
                mon.check(abs(s2 - 1) < 6.5 * np.sqrt(2. / n), "spread over a given time depends on the step: %s" % w, lambda: "variance %.4f of the expected, %d steps, uncertain %s" % (s2, k, sc.uncertain))
                mon.check(abs(v.mean()) < 6.5 * np.sqrt(var / n), "random walk drifts over many steps", lambda: "%r" % v.mean())
            corr(mon, x, y, "random walk: east and north are not independent over many steps")
        mon.event("variance_over_steps")
        mon.state("steps", k, D)


def walk3d_case(i, rng, mon):
    from gnome.movers import RandomMover3D
    n = int(rng.choice([3000, 9000]))
    ts = int(rng.choice([10, 300, 900, 3600])) * (1 if rng.random() < .8 else -1)
    Va, Vb = float(rng.choice([0., 5., 50., 500.])), float(rng.choice([0., .11, 11., 300.]))
    Ha, Hb = float(rng.choice([0., 1e3, 1e5])), float(rng.choice([0., 126., 1e4]))
    ml = float(rng.choice([.5, 10., 40., 200.]))
    keep = bool(rng.random() < .5)
    p, lat = positions(rng, n)
    p[:, 2] = rng.choice([0, 1, 2, 3], n)
    p[:, 2] = np.where(p[:, 2] == 0, 0, np.where(p[:, 2] == 1, rng.uniform(0, ml, n), np.where(p[:, 2] == 2, ml * (1 + rng.random(n)), rng.choice([ml, ml * 1e-3, 4 * ml, ml * (1 + 1e-9)], n))))
    sc = gn.sample_sc(n, p)
    out = rng.random(n) < .08
    sc["status_codes"][out] = oil_status.on_land
    m = RandomMover3D(vertical_diffusion_coef_above_ml=Va, vertical_diffusion_coef_below_ml=Vb, horizontal_diffusion_coef_above_ml=Ha, horizontal_diffusion_coef_below_ml=Hb,
                      mixed_layer_depth=ml, surface_is_allowed=keep)
    if rng.random() < .3:
        m = RandomMover3D()
        for k, v in (("vertical_diffusion_coef_above_ml", Va), ("vertical_diffusion_coef_below_ml", Vb), ("horizontal_diffusion_coef_above_ml", Ha), ("horizontal_diffusion_coef_below_ml", Hb),
                     ("mixed_layer_depth", ml), ("surface_is_allowed", keep)):
            setattr(m, k, v)
    mon.ctx["m"] = "RandomMover3D v=%s/%s h=%s/%s ml=%s surface=%s ts=%s n=%d" % (Va, Vb, Ha, Hb, ml, keep, ts, n)
    gn.seed_model(int(rng.integers(1 << 30)))
    m.prepare_for_model_run()
    m.prepare_for_model_step(sc, ts, T0)
    d = np.array(m.get_move(sc, ts, T0))
    m.model_step_is_done(sc)
    z, z1 = p[:, 2], p[:, 2] + d[:, 2]
    a, b = np.sqrt(6 * Va / 1e4 * abs(ts)), np.sqrt(6 * Vb / 1e4 * abs(ts))
    mon.check(bool(np.all(np.isfinite(d))), "3D random move not finite", lambda: "")
    mon.check(bool(np.all(d[out] == 0)), "3D random walk moves elements that are not in the water", lambda: "")
    mon.check(bool(np.all(z1 >= -1e-9)), "3D random walk takes elements above the surface", lambda: str(z1.min()))
    surf = (z == 0) & ~out
    if keep:
        mon.check(bool(np.all(d[surf] == 0)), "elements on the surface are mixed down although the surface is allowed", lambda: str(d[surf][:2]))
        mon.event("surface_kept", int(surf.sum()))
    act = ~out & ~(surf if keep else np.zeros(n, bool))
    above = act & (z <= ml)
    below = act & (z > ml)
    if not keep and Va > 0 and surf.any():
        mon.check(bool(np.mean(z1[surf] > 0) > .9), "elements on the surface are not mixed down although the surface is not allowed", lambda: str(np.mean(z1[surf] > 0)))
        mon.event("surface_mixed_down")
    # horizontal
    for msk, H, nm in ((above, Ha, "above"), (below, Hb, "below")):
        if msk.sum() > 200:
            x, y = meters(d[msk], lat)
            r = np.sqrt(6 * H / 1e4 * abs(ts))
            if r == 0:
                mon.check(bool(np.all(d[msk][:, :2] == 0)), "horizontal diffusion of zero moves elements", lambda: nm)
            else:
                uniform(mon, x / r / (1 + 3e-5), "3D walk east %s the mixed layer" % nm)
                uniform(mon, y / r / (1 + 3e-5), "3D walk north %s the mixed layer" % nm)
                corr(mon, x, y, "3D walk: east and north are not independent")
    # vertical
    e = 2e-6 * (1 + ml)
    if Va == 0:
        mon.check(bool(np.all(d[above][:, 2] == 0)), "no mixing in the mixed layer, yet elements there change depth", lambda: "")
    else:
        mon.check(bool(np.all(z1[above] <= ml + b + e) or a > ml), "mixed layer elements leave it by more than the mixing below allows", lambda: "%r > %r + %r" % (z1[above].max(), ml, b))
        if a < ml:                             # (longer steps put elements anywhere in the layer)
            mon.check(bool(np.all(np.abs(z1[above] - z[above]) <= a + b + e + np.where(z[above] < a + b, a + b, 0))), "mixed layer step longer than the coefficients allow", lambda: "")
        if Vb == 0 and a <= ml:      # (what a step longer than the layer is deep should do is left open by the code)
            mon.check(bool(np.all(z1[above] <= ml + e)), "elements leave the mixed layer although there is no mixing below", lambda: "%r > %r" % (z1[above].max(), ml))
    mon.check(bool(np.all(np.abs(d[below][:, 2]) <= b + e + np.where(z[below] < b, b, 0))), "step below the mixed layer longer than its coefficient allows", lambda: "")
    if below.sum() > 500 and b > 0:
        w = (d[:, 2] / b)[below & (z > b)]
        if len(w) > 500:
            uniform(mon, w / (1 + 1e-6), "3D walk down, below the mixed layer")
    if above.sum() and a > 0 and b == 0:
        mid = above & (z > a) & (z < ml - a)
        if mid.sum() > 300:
            uniform(mon, (d[:, 2] / a)[mid] / (1 + 1e-6), "3D walk down, inside the mixed layer")
    mon.event("inside_mixed_layer", int(above.sum()))
    mon.event("below_mixed_layer", int(below.sum()))
    mon.event("moves_3d", int(act.sum()))
    mon.event("backward", int(ts < 0))
    mon.state("3d", Va, Vb, ml, keep, ts)


def mixed_case(i, rng, mon):
    """elements spread evenly over the mixed layer stay spread evenly"""
    from gnome.movers import RandomMover3D
    n = 6000
    ml = float(rng.choice([5., 10., 50.]))
    Va, ts = float(rng.choice([5., 50.])), int(rng.choice([300, 900]))
    if np.sqrt(6 * Va / 1e4 * ts) > ml:
        ts = 60
    p, lat = positions(rng, n)
    p[:, 2] = rng.uniform(0, ml, n)
    sc = gn.sample_sc(n, p)
    m = RandomMover3D(vertical_diffusion_coef_above_ml=Va, vertical_diffusion_coef_below_ml=0., mixed_layer_depth=ml, surface_is_allowed=bool(rng.random() < .5))
    gn.seed_model(int(rng.integers(1 << 30)))
    m.prepare_for_model_run()
    for s in range(12):
        m.prepare_for_model_step(sc, ts, T0)
        sc["positions"][:, 2] += np.array(m.get_move(sc, ts, T0))[:, 2]
        m.model_step_is_done(sc)
    z = sc["positions"][:, 2] / ml
    mon.check(bool(z.min() >= 0 and z.max() <= 1 + 1e-6), "mixing leaves the layer", lambda: "%r %r" % (z.min(), z.max()))
    d = stats.kstest(z, "uniform").statistic
    mon.check(d < 3.5 / np.sqrt(n), "mixing unmixes a well mixed layer", lambda: "KS %r" % d)
    mon.event("well_mixed")
    mon.state("mixed", Va, ts, ml)


def seed_case(i, rng, mon):
    """the walk is a function of the seed"""
    S = gn.random_spec(rng, oil=False, weather=False, movers=["random", "rand3d"] if i % 2 else ["random"], land=bool(rng.random() < .3), uncertain=bool(rng.random() < .4), kinds=["point", "subsurf", "contin"])
    S["movers"] = [(m[0], m[1], m[2], None) for m in S["movers"]]
    mon.ctx["spec"] = gn.brief(S)

    def go(seed):
        model = gn.build(S)
        model.step()              # (starting a run seeds the streams)
        gn.seed_model(seed)
        out = []
        for _ in range(S["n"]):
            model.step()
            out += [np.array(sc["positions"]) for sc in model.spills.items()]
        return out
    a, b, c = go(11), go(11), go(12)
    mon.check(all(np.array_equal(x, y) for x, y in zip(a, b)), "the same seed gives another walk", lambda: "")
    if sum(len(x) for x in a) > 10 and S["map"] == "open" and max(x[:, 2].min() if len(x) else 9 for x in a) == 0:
        mon.check(not all(np.array_equal(x, y) for x, y in zip(a, c)), "another seed gives the same walk", lambda: "")
        mon.event("asked_twice_differs")
    mon.event("seeds_compared")
    mon.state("seed", S["map"], S["uncertain"], len(S["movers"]))


def rise_speed(d, rho, nu, rw):
    g = 9.8 * (rw - rho) / rw
    if d < .0002:
        return g * d * d / (18 * nu)
    if d >= .01:
        return np.sqrt(8 * g * d / 3)
    return None


def rise_case(i, rng, mon):
    from gnome.movers import RiseVelocityMover
    from gnome.cy_gnome.cy_rise_velocity_mover import rise_velocity_from_drop_size
    # the speed belonging to a size
    n = 400
    ds = np.sort(np.r_[10 ** rng.uniform(-6, -1.3, n - 6), .0002, .01, np.nextafter(.0002, 0), np.nextafter(.01, 0), .00999, .000201])
    rho, nu, rw = float(rng.uniform(700, 1000)), float(rng.uniform(8e-7, 1.8e-6)), float(rng.choice([1000., 1020., 1030.]))
    v = np.zeros(n)
    rise_velocity_from_drop_size(v, np.full(n, rho), ds, nu, rw)
    mon.ctx["rise"] = "rho=%s nu=%s water=%s" % (rho, nu, rw)
    for d, x in zip(ds, v):
        w = rise_speed(d, rho, nu, rw)
        if w is not None:
            mon.check(abs(x - w) <= 1e-9 * abs(w), "rise speed of a droplet", lambda: "d=%r: %r not %r" % (d, x, w))
            mon.event("stokes_range" if d < .0002 else "form_drag_range")
        else:
            mon.event("between_ranges")
    mon.check(bool(np.all(np.isfinite(v) & (v >= 0))), "rise speed impossible", lambda: "")
    # joined without a jump or a bend at both ends
    lo, hi = rise_speed(.0002 * (1 - 1e-12), rho, nu, rw), rise_speed(.01, rho, nu, rw)
    at = np.zeros(4)
    rise_velocity_from_drop_size(at, np.full(4, rho), np.array([.0002, .0002 * (1 + 1e-6), .01 * (1 - 1e-6), .01]), nu, rw)
    mon.check(abs(at[0] - lo) < 1e-6 * lo and abs(at[3] - hi) < 1e-6 * hi and abs(at[2] - hi) < 1e-5 * hi, "rise speed jumps between the ranges", lambda: "%s %s %s" % (at, lo, hi))
    mon.check(bool(v[np.searchsorted(ds, .01):].size == 0 or np.all(np.diff(v[np.searchsorted(ds, .01):]) >= 0)), "larger droplets rise slower", lambda: "")
    mon.event("rise_speeds", n)
    # the move belonging to the speed
    m = RiseVelocityMover()
    n = 50
    z = rng.uniform(0, 100, n)
    p, lat = positions(rng, n)
    p[:, 2] = z
    sc = gn.sample_sc(n, p, arrays=("rise_vel",))
    sc["rise_vel"][:] = rng.choice([1e-3, 1e-2, .1, 0., -1e-3], n) * rng.random(n)
    st = np.full(n, oil_status.in_water)
    st[::7] = oil_status.on_land
    sc["status_codes"][:] = st
    ts = int(rng.choice([60, 900, -900]))
    m.prepare_for_model_run()
    m.prepare_for_model_step(sc, ts, T0)
    d = np.array(m.get_move(sc, ts, T0))
    w = np.where(st == oil_status.in_water, -sc["rise_vel"] * ts, 0)
    mon.check(bool(np.allclose(d[:, 2], w, rtol=1e-12, atol=1e-15)), "rise is not speed times time", lambda: "%s %s" % (d[:3, 2], w[:3]))
    mon.check(bool(np.all(d[:, :2] == 0)), "rise moves elements sideways", lambda: "")
    mon.event("rise_judged", n)
    mon.event("sinking", int((sc["rise_vel"] < 0).sum()))
    mon.state("rise", ts)


def model_case(i, rng, mon):
    """whole runs with vertical movers: depths and rise of every element in every step"""
    from gnome.movers import RiseVelocityMover, RandomMover3D, SimpleMover
    from gnome.spills import Spill
    from gnome.spills.release import SubsurfaceRelease
    from gnome.utilities.distributions import UniformDistribution
    S = gn.random_spec(rng, oil=False, weather=False, movers=[], land=bool(rng.random() < .3), kinds=["point"], nspills=1)
    S["spills"][0].update(n=4, start=0.)
    only_rise = rng.random() < .5
    model = gn.build(S)
    n = int(rng.integers(5, 60))
    zr = float(rng.choice([.5, 5., 60.]))
    lo, hi = [(2e-5, 1e-4), (1e-4, 2e-3), (1e-3, 2e-2)][int(rng.integers(3))]
    bysize = rng.random() < .6
    rel = SubsurfaceRelease(distribution=UniformDistribution(lo, hi) if bysize else UniformDistribution(1e-4, 1e-2), distribution_type="droplet_size" if bysize else "rise_velocity",
                            release_time=T0, end_release_time=T0 + sec(float(rng.choice([0, 2.5 * S["ts"]]))), start_position=(S["spills"][0]["c"][0], S["spills"][0]["c"][1], zr), num_elements=n)
    rho0 = float(rng.choice([1000., rng.uniform(780, 1010)]))
    for sc in model.spills.items():
        for sp in sc.spills:
            sp.substance.standard_density = rho0
    model.spills += Spill(release=rel, substance=[s for s in model.spills][0].substance, amount=1., units="kg")
    model.movers += RiseVelocityMover()
    if not only_rise:
        model.movers += RandomMover3D(mixed_layer_depth=float(rng.choice([1., 10.])), vertical_diffusion_coef_above_ml=float(rng.choice([5., 500.])), surface_is_allowed=bool(rng.random() < .5))
    mon.ctx["spec"] = gn.brief(S)
    gn.seed_model(S["seed"])
    last = {}
    for s in range(S["n"] + 1):
        model.step()
        for sc in model.spills.items():
            z = sc["positions"][:, 2]
            mon.check(bool(np.all(np.isfinite(z) & (z >= 0))), "an element is above the surface", lambda: str(z.min()))
            mon.event("model_depths", len(z))
            if bysize and s == 0 and "droplet_diameter" in sc:
                from gnome.spills.substance import NonWeatheringSubstance
                sel = sc["droplet_diameter"] > 0
                rho = sc.substance.density_at_temp() if hasattr(sc.substance, "density_at_temp") else 1000.
                for d, v in zip(sc["droplet_diameter"][sel], sc["rise_vel"][sel]):
                    w = rise_speed(d, float(np.ravel(rho)[0]), 1e-6, 1020.)
                    mon.check(lo <= d <= hi, "droplet sizes outside their distribution", lambda: str(d))
                    if w is not None:
                        mon.event("rise_of_substance", int(np.ravel(rho)[0] != 1000.))
                        mon.check(abs(v - w) <= 1e-9 * w, "element rises at another speed than its droplet size gives", lambda: "%r: %r not %r" % (d, v, w))
            now = {int(k): (float(zz), float(v), int(t)) for k, zz, v, t in zip(sc["id"], z, sc["rise_vel"], sc["status_codes"])}
            if only_rise and sc.uncertain in last:
                for k, (z0, v, st) in last[sc.uncertain].items():
                    if k in now and st == oil_status.in_water and now[k][2] == oil_status.in_water:
                        w = max(0., z0 - v * S["ts"])
                        mon.check(abs(now[k][0] - w) < 1e-9 * (1 + z0), "element does not rise by speed times step to the surface", lambda: "%r -> %r, speed %r, expected %r" % (z0, now[k][0], v, w))
                        mon.event("surfaced", int(w == 0 and z0 > 0))
            last[sc.uncertain] = now
    mon.state("model", S["ts"], zr, bysize, only_rise, S["map"])


class Ice:
    def __init__(self, c):
        self.c = c

    def at(self, points, time, *a, **k):
        return self.c[:len(points), None].copy()


def ice_case(i, rng, mon):
    from gnome.movers import RandomMover, IceAwareRandomMover
    n = 300
    p, lat = positions(rng, n)
    if i % 3 == 2:          # broken ice everywhere
        c = rng.uniform(.2, .79, n)
    else:
        c = rng.uniform(0, 1, n) if i % 3 else rng.uniform(0, .19, n)
        c[:3] = (.2, .8, .5) if i % 3 else (0, .1, .199)
    D, ts = float(rng.choice([1e3, 1e5])), int(rng.choice([600, 3600]))
    sc = gn.sample_sc(n, p)
    sc["status_codes"][::9] = oil_status.on_land
    ds = []
    for m in (RandomMover(diffusion_coef=D), IceAwareRandomMover(ice_concentration=Ice(c), diffusion_coef=D)):
        gn.seed_model(77)
        m.prepare_for_model_run()
        m.prepare_for_model_step(sc, ts, T0)
        ds.append(np.array(m.get_move(sc, ts, T0)))
    f = np.where(c < .2, 1, np.where(c >= .8, 0, 1 - (c - .2) / .6))
    mon.check(bool(np.allclose(ds[1], ds[0] * f[:, None], rtol=1e-9, atol=1e-15)), "diffusion in ice does not follow the ice concentration", lambda: str(np.abs(ds[1] - ds[0] * f[:, None]).max()))
    mon.event("ice_scaled", n)
    mon.state("ice", D, ts)


def case(i, rng, mon):
    k = i % 14
    if k < 4:
        random_case(i, rng, mon)
    elif k == 4 and i % 28 == 4:
        steps_case(i, rng, mon)
    elif k < 9:
        walk3d_case(i, rng, mon)
    elif k == 9:
        mixed_case(i, rng, mon)
    elif k == 10:
        seed_case(i, rng, mon)
    elif k == 11:
        rise_case(i, rng, mon)
    elif k == 12:
        model_case(i, rng, mon)
    else:
        ice_case(i // 14, rng, mon)
