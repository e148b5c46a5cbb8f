"""Windage: range, persistence and drift, in model runs and asked directly."""
PROPERTY = "P10"
KIND = "plain"
N = {"quick": 600, "thorough": 10000}
BUDGET = {"quick": 90, "thorough": 1800}
RULE = "(mover, persistence against step, width of the range, set, forward or backward, depths) or (form of the wind record) or (kind of gridded wind file, records, extrapolation, offset, scales)"
NEED = ["drift_judged", "windages_in_range", "windage_fixed", "windage_redrawn", "below_surface", "on_land", "forms_compared", "distribution", "from_direction",
        "backward", "uncertain_set", "asked_directly", "ranges_mixed", "other_status", "gridded_regular", "gridded_curvilinear", "gridded_straight", "rows_from_north", "gridded_ice_list", "gridded_ice", "gridded_text", "gridded_outside", "gridded_refused", "grid_object_wind", "under_ice", "turned_grid"]
ASSUMES = ["a persistence above 900 s (or negative) stands for a windage that never changes, as documented in random_with_persistance",
           "the wind of a step is the wind at its start for PointWindMover"]

import datetime as dt
import os
import shutil
import tempfile

import numpy as np
from scipy import stats
import curfiles
import gn
from vlib import blame
from gn import T0, sec, oil_status

MPD = 1. / 8.9992801e-06
KNOT = 1852. / 3600


def bounds(lo, hi, persist, ts):
    if 0 < persist <= 900:
        h = (hi - lo) / 2 * np.sqrt(persist / abs(ts))
        return (lo + hi) / 2 - h, (lo + hi) / 2 + h, True
    return lo, hi, False


def run_case(i, rng, mon):
    from gnome.movers import PointWindMover, WindMover
    back = i % 6 == 5
    S = gn.random_spec(rng, oil=False, weather=False, back=back, movers=[], nmax=50, kinds=["point", "custom", "contin", "subsurf", "line"] if not back else ["point", "line", "subsurf"],
                       land=bool(rng.random() < .25))
    S["persist"] = int(rng.choice([-1, 900, 900, 600, 60, 3600, 901, 300]))
    lo = float(rng.choice([0., .01, .03, -.01]))
    S["windage"] = (max(lo, 0), max(lo, 0) + float(rng.choice([0, .01, .03, .1])))
    S["wind"] = [(float(t * 3600), float(rng.uniform(.5, 25)), float(rng.uniform(0, 360))) for t in ([0] if rng.random() < .5 else [-40, 0, 1, 2, 5, 40])]
    py = bool(rng.random() < .4)
    mon.ctx["spec"] = gn.brief(S)
    mon.ctx["windage"] = (S["windage"], S["persist"], S["ts"], "py" if py else "native")
    model = gn.build(S)
    wind, water, waves = gn.build_env(S)
    m = WindMover(wind, default_num_method="Euler") if py else PointWindMover(wind)
    model.movers += m
    gn.seed_model(S["seed"])
    a, b, redrawn = bounds(S["windage"][0], S["windage"][1], S["persist"], S["ts"])
    seen = {}
    rec = {}
    orig = m.get_move

    def hook(sc, time_step, model_time):
        d = orig(sc, time_step, model_time)
        rec[sc.uncertain] = (np.array(d), np.array(sc["windages"]), np.array(sc["positions"]), np.array(sc["status_codes"]), np.array(sc["id"]), (model_time - T0).total_seconds(), time_step)
        return d
    m.get_move = hook
    from p09 import wind_uv
    for s in range(S["n"] + 1):
        rec.clear()
        model.step()
        for u, (d, w, pos, st, ids, t, ts) in rec.items():
            eps = 1e-12
            mon.check(bool(np.all((w >= a - eps) & (w <= b + eps))), "windage outside its range",
                      lambda: "%s..%s for range %s persistence %s step %s" % (w.min(), w.max(), S["windage"], S["persist"], ts))
            mon.event("windages_in_range", len(w))
            old = seen.get(u, {})
            common = [(old[int(k)], x) for k, x in zip(ids, w) if int(k) in old]
            if common and not redrawn:
                mon.check(all(x == y for x, y in common), "windage changed although it persists", lambda: str([c for c in common if c[0] != c[1]][:3]))
                mon.event("windage_fixed", len(common))
            elif common and b > a:
                # equal draws of doubles have no probability to speak of
                mon.check(all(x != y for x, y in common), "windage not drawn again although its persistence is over", lambda: str([c for c in common if c[0] == c[1]][:3]))
                mon.event("windage_redrawn", len(common))
            seen[u] = {int(k): x for k, x in zip(ids, w)}
            ok = (st == oil_status.in_water) & (pos[:, 2] <= 0)
            mon.check(not d[~ok].any(), "wind moved an element that is not floating", lambda: "status %s depth %s moved %s" % (st[~ok][:3], pos[~ok, 2][:3], d[~ok][:3]))
            mon.event("below_surface", int((pos[:, 2] > 0).sum()))
            mon.event("on_land", int((st == oil_status.on_land).sum()))
            mon.check(not d[:, 2].any(), "wind moved an element vertically")
            if not u and ok.any():
                U, V = wind_uv(S, t)
                ex = np.c_[U * ts * w / MPD / np.cos(np.radians(pos[:, 1])), V * ts * w / MPD]
                mon.check(bool(np.all(np.abs(d[ok, :2] - ex[ok]) <= 3e-5 * np.abs(ex[ok]) + 1e-11)), "drift is not windage times wind times step",
                          lambda: "got %s, expected %s" % (d[ok][:2, :2], ex[ok][:2]))
                mon.event("drift_judged", int(ok.sum()))
            mon.event("uncertain_set", int(u))
            mon.event("backward", int(back))
            mon.state("py" if py else "native", S["persist"] if S["persist"] < S["ts"] else "longer", S["windage"][1] > S["windage"][0], u, back, bool((pos[:, 2] > 0).any()))


def forms_case(rng, mon):
    """one wind, entered in different units and conventions: the same drift"""
    from gnome.movers import PointWindMover, WindMover
    from gnome.environment import Wind
    from gnome.basic_types import datetime_value_2d
    n = int(rng.choice([1, 3, 6]))
    tt = [T0 + dt.timedelta(hours=2 * k) for k in range(n)]
    sp, di = rng.uniform(0, 20, n), rng.uniform(0, 360, n)
    if rng.random() < .3:
        di = np.round(di / 90) * 90 % 360
    uv = np.c_[-sp * np.sin(np.radians(di)), -sp * np.cos(np.radians(di))]
    forms = []
    for unit, f in (("m/s", 1.), ("knots", KNOT), ("mph", .44704), ("km/hr", 1 / 3.6)):
        for cs, v in (("r-theta", np.c_[sp / f, di]), ("uv", uv / f)):
            a = np.zeros(n, dtype=datetime_value_2d)
            a["time"], a["value"] = tt, v
            try:
                forms.append((unit + " " + cs, Wind(timeseries=a, units=unit, coord_sys=cs, extrapolation_is_allowed=True)))
            except Exception as e:
                if unit == "km/hr" and "nit" in str(e):
                    continue
                raise
    ts = int(rng.choice([600, 3600, -900, 86400]))
    pos = np.c_[rng.uniform(-170, 170, 4), rng.uniform(-70, 70, 4), np.zeros(4)]
    # some below the surface, some no longer (or not yet) in the water
    allpos = np.r_[pos, pos, pos]
    allpos[4:8, 2] = [.001, .3, 1., 40.]
    codes = [oil_status.not_released, oil_status.on_land, oil_status.off_maps, oil_status.to_be_removed, oil_status.on_tideflat]
    other = [int(x) for x in rng.choice(codes, 4, replace=False)]
    sv = float(rng.choice([1., 1., .4, 2.5]))
    q = T0 + dt.timedelta(seconds=int(rng.integers(0, 7200 * n)))
    res = {}
    for name, w in forms:
        for cls in (PointWindMover, WindMover):
            sc = gn.sample_sc(12, allpos, windage_range=(.03, .03), windage_persist=-1, arrays=("windages", "windage_range", "windage_persist"))
            sc["status_codes"][8:] = other
            m = cls(w) if cls is PointWindMover else cls(w, default_num_method="Euler", scale_value=sv)
            m.prepare_for_model_run()
            m.prepare_for_model_step(sc, ts, q)
            d = np.array(m.get_move(sc, ts, q))
            mon.check(not d[4:].any(), "wind moved an element that is not floating", lambda: "%s depth %s status %s moved %s" % (cls.__name__, allpos[4:, 2], [2] * 4 + other, d[4:]))
            mon.event("other_status")
            res[name, cls.__name__] = d[:4] / (1. if cls is PointWindMover else sv)
    x = np.clip((q - T0).total_seconds(), 0, 7200 * (n - 1))
    U, V = np.interp(x, 7200 * np.arange(n), uv[:, 0]), np.interp(x, 7200 * np.arange(n), uv[:, 1])
    ex = np.c_[U * ts * .03 / MPD / np.cos(np.radians(pos[:, 1])), np.full(4, V * ts * .03 / MPD), np.zeros(4)]
    scale = np.abs(ex).max() + 1e-9
    for k, d in res.items():
        mon.check(bool(np.all(np.abs(d - ex) <= 2e-4 * scale)), "drift depends on the form in which the wind was entered", lambda: "%s: got %s, expected %s" % (k, d[0], ex[0]))
    mon.event("forms_compared", len(res))
    mon.state("forms", n, sorted(k[0] for k in res)[:3])
    # a constant wind from a compass direction
    from gnome.movers.c_wind_movers import constant_point_wind_mover
    ts = abs(ts)
    for name, sx, sy in (("N", 0, -1), ("E", -1, 0), ("S", 0, 1), ("W", 1, 0)):
        m = constant_point_wind_mover(10, "NESW".index(name) * 90., units="knots")
        sc = gn.sample_sc(4, pos, windage_range=(.03, .03), windage_persist=-1, arrays=("windages", "windage_range", "windage_persist"))
        m.prepare_for_model_run()
        m.prepare_for_model_step(sc, ts, T0)
        d = np.array(m.get_move(sc, ts, T0))
        ex = 10 * KNOT * .03 * ts / MPD
        mon.check(bool(np.all(np.abs(d[:, 1] - sy * ex) < 1e-4 * ex) and np.all(np.abs(d[:, 0] * np.cos(np.radians(pos[:, 1])) - sx * ex) < 1e-4 * ex)),
                  "wind from a direction does not push the other way", lambda: "%s: %s" % (name, d[0]))
        mon.event("from_direction")


def direct_case(rng, mon):
    from gnome.utilities.rand import random_with_persistance
    n = int(rng.choice([1, 7, 3000, 6000]))
    ts = int(rng.choice([60, 300, 900, 3600, -900, -7200]))
    mixed = bool(rng.random() < .5)
    K = 3 if mixed else 1
    kind = rng.integers(0, K, n)
    L = np.array([.0, .01, .02])[kind]
    H = L + np.array([float(rng.choice([0, .01, .05])), .03, .0])[kind]
    P = np.array([int(rng.choice([-1, 900, 450, 60, 3600, 901])), 900, -1])[kind]
    w = rng.uniform(L, H)
    l0, h0, w0 = L.copy(), H.copy(), w.copy()
    random_with_persistance(L, H, w, P, ts)
    mon.check(np.array_equal(L, l0) and np.array_equal(H, h0), "bounds given were changed")
    for k in range(K):
        s = kind == k
        if not s.any():
            continue
        a, b, red = bounds(l0[s][0], h0[s][0], P[s][0], ts)
        if not red:
            if not np.all(l0 == h0):
                mon.check(np.array_equal(w[s], w0[s]), "windage changed although it persists")
            continue
        mon.check(bool(np.all((w[s] >= a - 1e-12) & (w[s] <= b + 1e-12))), "windage outside its range", lambda: "%s %s [%s, %s]" % (w[s].min(), w[s].max(), a, b))
        if b > a and s.sum() > 500:
            p = stats.kstest((w[s] - a) / (b - a), "uniform").pvalue
            mon.check(p > 1e-10, "windages are not spread evenly over their range", lambda: "p=%g" % p)
            mon.event("distribution")
            # mean drift does not depend on the step
            se = (b - a) / np.sqrt(12 * s.sum())
            mon.check(abs(w[s].mean() - (l0[s][0] + h0[s][0]) / 2) < 7 * se, "mean windage depends on the step length", lambda: "%s" % w[s].mean())
    mon.event("asked_directly")
    mon.event("ranges_mixed", int(mixed))
    mon.state("direct", mixed, ts, n > 100)
    # a container whose spills have different ranges
    if rng.random() < .3:
        from gnome.movers import PointWindMover
        from gnome.movers.c_wind_movers import constant_point_wind_mover
        sc = gn.sample_sc(40, windage_range=(.01, .04), windage_persist=900, arrays=("windages", "windage_range", "windage_persist"))
        half = np.arange(40) < 20
        sc["windage_range"][half] = (.1, .2)
        sc["windage_persist"][half] = -1
        sc["windages"][half] = .15
        m = constant_point_wind_mover(5, 0)
        m.prepare_for_model_run()
        m.prepare_for_model_step(sc, 900, T0)
        mon.check(bool(np.all(sc["windages"][half] == .15) and np.all((sc["windages"][~half] >= .01) & (sc["windages"][~half] <= .04))), "windage outside its range",
                  lambda: "%s" % sc["windages"])


def axes(rng):
    n = int(rng.choice([1, 2, 3, 5]))
    return np.sort(rng.choice(np.arange(-20, 21), n, replace=False)).astype(float)


def between(hours, t, X):
    if len(hours) == 1 or t <= hours[0]:
        return X[0]
    if t >= hours[-1]:
        return X[-1]
    k = int(np.searchsorted(hours, t, side="right")) - 1
    a = (t - hours[k]) / (hours[k + 1] - hours[k])
    return X[k] * (1 - a) + X[k + 1] * a


def gridded_case(rng, mon):
    """winds from files on a grid: one value per cell (regular NetCDF and text), or uniform over a curvilinear grid"""
    from gnome.movers.c_wind_movers import c_GridWindMover
    base = dt.datetime(2020, 3, 1)
    R, C = int(rng.integers(3, 9)), int(rng.integers(3, 9))
    dy, dx = float(rng.choice([.2, .05])), float(rng.choice([.15, .4]))
    y0, x0 = float(rng.choice([44., -1., -60.])), float(rng.choice([-71., 10., 150.]))
    lat, lon = y0 + np.arange(R) * dy, x0 + np.arange(C) * dx
    kind = str(rng.choice(["regular", "curvilinear", "text"]))
    const = kind == "text" and rng.random() < .2
    hours = np.zeros(1) if const else axes(rng)
    U, V = np.float32(rng.normal(size=(2, len(hours), R, C)) * 8).astype(float)
    dry = np.zeros(U.shape, bool)
    fac = 1.
    ice = None
    d0 = tempfile.mkdtemp(prefix="p10", dir=os.environ.get("TMPDIR", "/tmp"))
    f = os.path.join(d0, "w.nc" if kind != "text" else "w.wnd")
    scale = None if rng.random() < .7 else 2.5
    try:
        if kind == "regular":
            fill = -999. if rng.random() < .4 else None
            if fill is not None:
                dry = np.broadcast_to(rng.random((R, C)) < .2, U.shape)
            turn = slice(None, None, -1 if rng.random() < .3 else 1)
            mon.event("rows_from_north", int(turn.step < 0))
            curfiles.reg(f, lat[turn], lon, hours, np.where(dry, fill or 0, U)[..., turn, :], np.where(dry, fill or 0, V)[..., turn, :], fill=fill, names=("air_u", "air_v"), scale=scale)
            fac = scale or 1.
            box = (lon[0] - dx / 2, lat[0] - dy / 2, lon[-1] + dx / 2, lat[-1] + dy / 2)
        elif kind == "curvilinear":
            yy, xx = np.meshgrid(lat, lon, indexing="ij")
            straight = bool(rng.random() < .5)
            if not straight:
                xx, yy = xx + .15 * dx * np.sin(yy * 9), yy + .15 * dy * np.cos(xx * 7)
                U, V = U[:, :1, :1] * np.ones((1, R, C)), V[:, :1, :1] * np.ones((1, R, C))
            units = str(rng.choice(["m/s", "knots"]))
            curfiles.curv(f, yy, xx, hours, U, V, names=[("air_u", "air_v"), ("u", "v"), ("U", "V")][int(rng.integers(0, 3))], units=units, scale=scale)
            fac = (scale or 1.) * (KNOT if units == "knots" else 1.)
            if rng.random() < .4:
                # among ice: the wind where there is little, none where there is much
                import netCDF4
                ice = np.float32(rng.choice([0., .1, .2, .5, .8, 1.], len(hours)) if rng.random() < .5 else rng.random(len(hours))).astype(float)
                with netCDF4.Dataset(f, "a") as nc:
                    for name, X in (("ice_u", 9.), ("ice_v", -9.), ("ice_fraction", ice), ("ice_thickness", 1.)):
                        nc.createVariable(name, "f4", ("time", "yc", "xc"), fill_value=-9999.)[:] = (X * np.ones(len(hours)))[:, None, None] * np.ones((1, R, C))
            box = (xx.min(), yy.min(), xx.max(), yy.max())
        else:
            units, fac = [("mps", 1.), ("knots", KNOT), ("kph", 1 / 3.6), ("mph", .44704)][int(rng.integers(0, 4))]
            box = (lon[0], lat[0], lon[-1], lat[-1])
            dy, dx = (box[3] - box[1]) / R, (box[2] - box[0]) / C
            dry = rng.random(U.shape) < float(rng.choice([0, .2]))
            curfiles.gridcur(f, R, C, box, None if const else [base + dt.timedelta(hours=float(x)) for x in hours], U, V, str(rng.choice(["corner", "bounds"])), nl=str(rng.choice(["\n", "\r\n"])), units=units, skip=dry,
                             head=str(rng.choice(["[GRIDWIND]", "[GRIDWINDTIME]"])))
            U, V = U[:, ::-1], V[:, ::-1]
            dry = dry[:, ::-1]
        U, V = np.where(dry, 0, U), np.where(dry, 0, V)
        n = 80
        q = np.zeros((n, 3))
        w, h0 = box[2] - box[0], box[3] - box[1]
        q[:, 0] = rng.uniform(box[0] - .3 * w, box[2] + .3 * w, n)
        q[:, 1] = rng.uniform(box[1] - .3 * h0, box[3] + .3 * h0, n)
        deep = rng.random(n) < .15
        q[deep, 2] = rng.choice([.01, 1., 30.], int(deep.sum()))
        sc = gn.sample_sc(n, q)
        off = rng.random(n) < .1
        sc["status_codes"][off] = rng.choice([oil_status.on_land, oil_status.off_maps, oil_status.not_released, oil_status.to_be_removed, oil_status.on_tideflat], int(off.sum()))
        sc["windages"][:] = rng.uniform(0, .1, n) * (rng.random(n) < .9)
        ext = bool(rng.random() < .5)
        offset = float(rng.choice([0, 0, 0, 2, -5, 1]))
        ws = float(rng.choice([1, 1, 2, .5, 0]))
        h = int(rng.choice([60, 900, 3600, -900]))
        ask = float(rng.choice(hours)) + offset if rng.random() < .3 and not const else float(rng.integers(-24 * 4, 24 * 4)) / 4
        when, t = base + dt.timedelta(hours=ask), ask - offset
        mon.ctx["what"] = "%s wind, hours %s asked %s offset %s extrapolate %s wind_scale %s file scale %s step %s" % (kind, hours, ask, offset, ext, ws, scale, h)
        if ice is not None:
            from gnome.movers.c_wind_movers import IceWindMover
            ws = 1.
            m = IceWindMover(f, extrapolate=ext, time_offset=offset)
            mon.ctx["what"] += " ice %s" % ice
        elif rng.random() < .5:
            m = c_GridWindMover(f, extrapolate=ext, wind_scale=ws, time_offset=offset)
        else:
            m = c_GridWindMover(f)
            m.extrapolate = ext
            m.wind_scale = ws
            m.time_offset = offset
        mon.check(ice is not None or m.wind_scale == ws and bool(m.extrapolate) == ext and m.time_offset == offset, "a gridded wind does not keep its settings", lambda: str((m.wind_scale, m.extrapolate, m.time_offset)))
        outside = not const and len(hours) > 1 and not hours[0] <= t <= hours[-1]
        m.prepare_for_model_run()
        try:
            m.prepare_for_model_step(sc, h, when)
            d = np.array(m.get_move(sc, h, when))
        except Exception as e:
            mon.check(outside and not ext, "a wind within its times was refused", lambda: "%s: %s" % (type(e).__name__, e))
            mon.event("gridded_refused")
            return
        if outside and not ext:
            mon.check(not d.any(), "a gridded wind moved elements outside its times although extrapolation is off", lambda: str(d[:2]))
            mon.event("gridded_refused")
            return
        if kind == "curvilinear":
            where = np.full(n, -1)
            where[(q[:, 0] > xx[:, 0].max() + .01 * dx) & (q[:, 0] < xx[:, -1].min() - .01 * dx) & (q[:, 1] > yy[0].max() + .01 * dy) & (q[:, 1] < yy[-1].min() - .01 * dy)] = 1
            where[(q[:, 0] < box[0] - .01 * dx) | (q[:, 0] > box[2] + .01 * dx) | (q[:, 1] < box[1] - .01 * dy) | (q[:, 1] > box[3] + .01 * dy)] = 0
            r = c = np.zeros(n, int)
        else:
            c, r = (q[:, 0] - box[0]) / dx, (q[:, 1] - box[1]) / dy
            near = np.minimum(np.abs(c - np.round(c)) * dx, np.abs(r - np.round(r)) * dy) < 2e-5
            c, r = np.floor(c).astype(int), np.floor(r).astype(int)
            where = np.where(near, -1, ((c >= 0) & (c < C) & (r >= 0) & (r < R)).astype(int))
            r, c = np.clip(r, 0, R - 1), np.clip(c, 0, C - 1)
        want = np.column_stack([between(hours, t, U)[r, c], between(hours, t, V)[r, c]])
        steep = 0.
        if kind == "curvilinear" and straight:
            # bilinear between its nodes
            want = np.column_stack([bilinear(lon, lat, between(hours, t, X), q) for X in (U, V)])
            steep = 4e-6 / min(dx, dy) * float(max(np.ptp(U), np.ptp(V))) * fac * ws * abs(h) * .1
            mon.event("gridded_straight", int((where == 1).sum()))
        if ice is not None:
            open_ = float(np.clip((.8 - between(hours, t, ice)) / .6, 0, 1))
            want = want * open_
            mon.event("gridded_ice")
            mon.event("gridded_ice_%s" % ("none" if open_ == 1 else "some" if open_ else "much"))
        want = want * fac * ws * h * sc["windages"][:, None]
        want[(where == 0) | off | deep] = 0
        got = d[:, :2] * 111120.00024
        got[:, 0] *= np.cos(np.radians(q[:, 1]))
        tol = 1.2e-4 * np.abs(want).max(initial=1e-9) + 1e-6 * abs(h) + .01 + steep
        bad = ((where >= 0) | off | deep) & (np.abs(got - want).max(axis=1) > tol)
        mon.check(not bad.any(), "displacement by a gridded wind is not its velocity times windage and step", lambda: "%d: %s instead of %s m, inside %s" % (bad.sum(), got[bad][:2].tolist(), want[bad][:2].tolist(), where[bad][:2]))
        mon.check(not d[:, 2].any(), "a gridded wind moved elements vertically")
        mon.event("gridded_" + kind, int((where == 1).sum()))
        mon.event("gridded_outside", int((where == 0).sum()))
        mon.state(("gridded", kind, min(len(hours), 3), ext, outside, offset != 0, ws, scale is not None, h < 0))
    finally:
        shutil.rmtree(d0)


def ice_list_case(rng, mon):
    """winds among ice in a list of files, asked for again and again, forth and back"""
    import netCDF4
    from gnome.movers.c_wind_movers import IceWindMover
    base = dt.datetime(2020, 3, 1)
    R, C = int(rng.integers(4, 9)), int(rng.integers(4, 9))
    lat, lon = 44. + .2 * np.arange(R), -71. + .2 * np.arange(C)
    yy, xx = np.meshgrid(lat, lon, indexing="ij")
    hours = np.sort(rng.choice(np.arange(-20, 21), int(rng.integers(3, 7)), replace=False)).astype(float)
    W, F = np.float32(rng.normal(size=(2, len(hours))) * 8).astype(float), np.float32(rng.random(len(hours))).astype(float)
    cut = np.sort(rng.choice(np.arange(1, len(hours)), int(rng.integers(1, min(len(hours), 4))), replace=False))
    parts = [slice(x, y) for x, y in zip(np.r_[0, cut], np.r_[cut, len(hours)])]
    d0 = tempfile.mkdtemp(prefix="p10", dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        names = [os.path.join(d0, "i%d.nc" % k) for k in range(len(parts))]
        with open(os.path.join(d0, "list.txt"), "w") as out:
            out.write("NetCDF Files\n" + "".join("[FILE] %s\n" % x for x in names))
        for f, x in zip(names, parts):
            one = np.ones((len(hours[x]), R, C))
            curfiles.curv(f, yy, xx, hours[x], W[0, x, None, None] * one, W[1, x, None, None] * one, names=("air_u", "air_v"))
            with netCDF4.Dataset(f, "a") as nc:
                for name, X in (("ice_u", 9. + 0 * F), ("ice_v", -9. + 0 * F), ("ice_fraction", F), ("ice_thickness", 1. + 0 * F)):
                    nc.createVariable(name, "f4", ("time", "yc", "xc"), fill_value=-9999.)[:] = X[x, None, None] * one
        m = IceWindMover(os.path.join(d0, "list.txt"), extrapolate=True)
        n, h = 6, 900
        q = np.column_stack([rng.uniform(lon[1], lon[-2], n), rng.uniform(lat[1], lat[-2], n), np.zeros(n)])
        sc = gn.sample_sc(n, q)
        m.prepare_for_model_run()
        asked = []
        for k in range(int(rng.integers(2, 8))):
            t = float(rng.choice(hours)) if rng.random() < .3 else float(rng.integers(-100, 100)) / 4
            asked.append(t)
            mon.ctx["what"] = "ice winds at hours %s in files %s asked %s" % (hours, parts, asked)
            when = base + dt.timedelta(hours=t)
            m.prepare_for_model_step(sc, h, when)
            sc["windages"][:] = .03
            d = np.array(m.get_move(sc, h, when))
            m.model_step_is_done(sc)
            want = between(hours, t, W.T) * .03 * h * np.clip((.8 - between(hours, t, F)) / .6, 0, 1)
            got = d[:, :2] * 111120.00024
            got[:, 0] *= np.cos(np.radians(q[:, 1]))
            mon.check(np.abs(got - want).max() < 2e-4 * np.abs(want).max() + .02, "displacement by a wind among ice is not its velocity times windage and step", lambda: "%s instead of %s m" % (got[:1].tolist(), want.tolist()))
            mon.event("gridded_ice_list")
        mon.state(("ice list", len(parts), len(asked)))
    finally:
        shutil.rmtree(d0)


def bilinear(lon, lat, X, p):
    i = np.clip(np.searchsorted(lon, p[:, 0]) - 1, 0, len(lon) - 2)
    j = np.clip(np.searchsorted(lat, p[:, 1]) - 1, 0, len(lat) - 2)
    a, b = (p[:, 0] - lon[i]) / (lon[i + 1] - lon[i]), (p[:, 1] - lat[j]) / (lat[j + 1] - lat[j])
    return X[j, i] * (1 - a) * (1 - b) + X[j, i + 1] * a * (1 - b) + X[j + 1, i] * (1 - a) * b + X[j + 1, i + 1] * a * b


def object_case(rng, mon):
    """winds held as grid objects, with and without ice, on a turned grid or not"""
    from gnome.environment import GridWind, IceAwareWind, IceConcentration
    from gnome.environment.gridded_objects_base import Variable, Time, Grid_R
    from gnome.movers import WindMover
    base = dt.datetime(2020, 3, 1)
    R, C = int(rng.integers(2, 7)), int(rng.integers(2, 7))
    lat = np.cumsum(rng.uniform(.05, .3, R)) + float(rng.choice([0, 44, -60]))
    lon = np.cumsum(rng.uniform(.05, .3, C)) + float(rng.choice([-71, 10, 170]))
    hours = axes(rng)
    U, V = rng.normal(size=(2, len(hours), R, C)) * 8
    grid = Grid_R(node_lon=lon, node_lat=lat)
    t = Time([base + dt.timedelta(hours=float(h)) for h in hours])
    vs = [Variable(name=n, units="m/s", time=t, data=X, grid=grid, fill_value=0.) for n, X in (("u", U), ("v", V))]
    kw, A = {}, None
    if rng.random() < .4:
        A = rng.uniform(-3, 3, (R, C))
        kw["angle"] = Variable(name="angle", units="radians", time=Time.constant_time(), data=A, grid=grid)
        kw["angle"]._gnome_unit = "radians"
    ice = None
    if rng.random() < .6:
        ice = rng.choice([0., .1, .2, .5, .79, .8, .95, 1.], (len(hours), R, C)) if rng.random() < .7 else np.full((len(hours), R, C), float(rng.choice([0., .19, .5, .8, 1.])))
        ct = IceConcentration(name="ice", units="fraction", time=t, data=ice, grid=grid, fill_value=0.)
        w = IceAwareWind(ice_concentration=ct, name="w", units="m/s", time=t, variables=vs, grid=grid, **kw)
    else:
        w = GridWind(name="w", units="m/s", time=t, variables=vs, grid=grid, **kw)
    w.extrapolation_is_allowed = True
    n = 60
    q = np.zeros((n, 3))
    q[:, 0] = rng.uniform(lon[0], lon[-1], n)
    q[:, 1] = rng.uniform(lat[0], lat[-1], n)
    deep = rng.random(n) < .15
    q[deep, 2] = rng.choice([.01, 1., 30.], int(deep.sum()))
    sc = gn.sample_sc(n, q)
    off = rng.random(n) < .1
    sc["status_codes"][off] = rng.choice([oil_status.on_land, oil_status.off_maps, oil_status.not_released, oil_status.to_be_removed, oil_status.on_tideflat], int(off.sum()))
    sc["windage_persist"][:] = -1
    sc["windages"][:] = rng.uniform(0, .1, n) * (rng.random(n) < .9)
    ask = float(rng.choice(hours)) if rng.random() < .3 else float(rng.integers(-24 * 4, 24 * 4)) / 4
    when = base + dt.timedelta(hours=ask)
    u, v = (bilinear(lon, lat, between(hours, ask, X), q) for X in (U, V))
    if A is not None:
        a = bilinear(lon, lat, A, q)
        u, v = u * np.cos(a) - v * np.sin(a), u * np.sin(a) + v * np.cos(a)
        mon.event("turned_grid")
    u, v = np.where(deep, 0, u), np.where(deep, 0, v)
    speed, f = np.hypot(u, v), np.ones(n)
    if ice is not None:
        c = bilinear(lon, lat, between(hours, ask, ice), q)
        f = np.where(c < .2, 1, np.where(c >= .8, 0, 1 - (c - .2) / .6))
        f = np.where((np.abs(c - .2) < 1e-9), 1., f)
        mon.event("under_ice", int((f < 1).sum()))
    h = int(rng.choice([60, 900, 3600, -900]))
    sv = float(rng.choice([1, 1, 2, .5]))
    mon.ctx["what"] = "%s, hours %s asked %s angle %s scale %s step %s" % (type(w).__name__, hours, ask, A is not None, sv, h)
    m = WindMover(w, default_num_method="Euler", scale_value=sv)
    m.prepare_for_model_run()
    for again in range(2):
        m.prepare_for_model_step(sc, h, when)
        d = np.array(m.get_move(sc, h, when))
        want = np.column_stack([u, v]) * (f * sv * h * sc["windages"])[:, None]
        want[off | deep] = 0
        got = d[:, :2] * MPD
        got[:, 0] *= np.cos(np.radians(q[:, 1]))
        bad = np.abs(got - want).max(axis=1) > 1e-6 * np.abs(want).max(initial=1) + 1e-5
        mon.check(not bad.any(), "displacement by a wind on a grid is not its velocity times windage and step", lambda: "%d: %s instead of %s m (%s)" % (bad.sum(), got[bad][:2].tolist(), want[bad][:2].tolist(), ["first", "asked again"][again]))
    # asked for in each convention
    ang = np.degrees(np.arctan2(v, u))
    for cs, x in (("uv", np.c_[u * f, v * f]), ("u", (u * f)[:, None]), ("v", (v * f)[:, None]), ("r", (speed * f)[:, None]), ("theta", ang[:, None]), ("r-theta", np.c_[speed * f, ang])):
        r = np.array(w.at(q, when, coord_sys=cs))[:, :x.shape[1]]
        e = np.abs(r - x)
        if "theta" in cs:
            e[:, -1] = np.where(deep, 0, np.minimum(e[:, -1] % 360, -e[:, -1] % 360))
        mon.check(bool(e.max(initial=0) < 1e-6), "a wind on a grid gives another answer in another convention", lambda: "%s: %s instead of %s" % (cs, r[:2], x[:2]))
    mon.event("grid_object_wind", n)
    mon.state(("object", type(w).__name__, min(len(hours), 3), A is not None, h < 0))


def case(i, rng, mon):
    if i % 5 == 4:
        try:
            return (object_case if i % 3 == 1 else ice_list_case if i % 7 == 1 else gridded_case)(rng, mon)
        except (OSError, ValueError, RuntimeError, AttributeError, TypeError, IndexError) as e:
            if blame(e) != "code":
                raise
            return mon.violation("a gridded wind cannot be used: " + type(e).__name__, "%s (%s)" % (e, mon.ctx.get("what")))
    i = i // 5 * 4 + i % 5
    if i % 4 == 3:
        forms_case(rng, mon)
    elif i % 4 == 2:
        direct_case(rng, mon)
    else:
        run_case(i, rng, mon)
