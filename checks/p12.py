"""Currents: displacement against the field, for the Python mover and for the native ones reading files."""
PROPERTY = "P12"
KIND = "plain"
N = {"quick": 2400, "thorough": 60000}
BUDGET = {"quick": 100, "thorough": 1800}
RULE = "(kind of field or file, method, scale, extrapolation, offset, forward or backward, where the times lie)"
NEED = ["order_euler", "order_rk2", "order_rk4", "returned_to_start", "uniform_same", "scaled", "not_in_water", "cats_judged", "cats_scaled", "cats_tide", "component_judged", "component_no_wind", "netcdf_triangular_judged", "first_triangle", "asked_again", "list_of_files", "other_units", "alike_RK2", "alike_RK4", "layered_judged", "below_the_data", "ptcur_judged", "gridcur_judged",
        "netcdf_regular_judged", "netcdf_curvilinear_judged", "netcdf_ice_judged", "much_ice", "some_ice", "little_ice", "ice_list_of_files", "ice_shown", "component_averaged", "straight_grid", "leaning_grid", "rows_from_north", "land_in_grid", "outside_grid", "outside_times_refused", "extrapolated", "time_offset", "backward", "units", "native_order_euler",
        "native_order_rk2", "native_order_rk4", "skipped_cells", "constant_current", "grid_object_judged", "carried_by_ice", "rotated", "scaled_velocities", "time_between_records", "cycle_tide_C", "cycle_tide_H", "cycle_no_tide", "cycle_turn", "cycle_backward", "cycle_outside_refused"]
ASSUMES = ["the stand-in for gridded interpolates as the real package does for the Python grid currents",
           "near the equator the flat earth's longitude factor may be taken as that of the start of a step"]

import datetime as dt
import os
import shutil
import tempfile
import warnings

import netCDF4
import numpy as np
import curfiles
from curfiles import reg, curv
import gn
from gn import oil_status

T0 = dt.datetime(2020, 3, 1, 0, 0, 0)       # current files hold whole minutes
from vlib import blame

MPD = 111120.00024        # native
PPD = 1. / 8.9992801e-06  # Python
KNOT = 1852. / 3600


# ---------------------------------------------------------------------------------------------- Python mover

class Field(object):
    """a smooth field in metres around a place, over time, as something with .at()"""
    _ref_as = "current"

    def __init__(self, rng, lon0, lat0, T, speed=1., lin=False):
        self.lon0, self.lat0, self.T, self.lin = lon0, lat0, T, lin
        self.b = rng.normal(size=2) * speed
        self.A = rng.normal(size=(2, 2)) * .35 / T
        self.c = rng.normal(size=2) * speed * .35 / T
        self.A *= min(1., .6 / T / np.linalg.norm(self.A, 2))
        self.c *= min(1., .6 * speed / T / np.hypot(*self.c))
        self.steady = False
        self.k = rng.uniform(.5, 1.5, size=2) / (T * 4 * speed)

    def uv(self, x, y, t):
        t = 0 if self.steady else t
        v = self.b + np.column_stack([x, y]) @ self.A.T + self.c * t
        if not self.lin:
            v = v + .3 * np.column_stack([np.sin(self.k[0] * y), np.cos(self.k[1] * x)])
        return v

    def at(self, points, time, **kw):
        p = np.asarray(points, float)
        t = (time - T0).total_seconds()
        x = (p[:, 0] - self.lon0) * PPD * np.cos(np.radians(self.lat0))
        y = (p[:, 1] - self.lat0) * PPD
        v = self.uv(x, y, t)
        out = np.zeros((len(p), 3))
        out[:, :2] = v
        return out

    def exact(self, x, y, t, h, n=48):
        """the way the water goes, in metres"""
        X, Y = x.copy(), y.copy()
        s = h / n
        for k in range(n):
            tt = t + k * s
            k1 = self.uv(X, Y, tt)
            k2 = self.uv(X + k1[:, 0] * s / 2, Y + k1[:, 1] * s / 2, tt + s / 2)
            k3 = self.uv(X + k2[:, 0] * s / 2, Y + k2[:, 1] * s / 2, tt + s / 2)
            k4 = self.uv(X + k3[:, 0] * s, Y + k3[:, 1] * s, tt + s)
            d = (k1 + 2 * k2 + 2 * k3 + k4) * s / 6
            X, Y = X + d[:, 0], Y + d[:, 1]
        return np.column_stack([X - x, Y - y])

    def rate(self):
        return max(np.linalg.norm(self.A, 2) + .3 * self.k.max(), np.hypot(*self.c) / max(np.hypot(*self.b), .2), 1e-9)


def fastest(F, x, y, h):
    """the fastest the water goes on its way, of all"""
    v = 0.
    for part in (0., .25, .5, .75, 1.):
        d = F.exact(x, y, 0., part * h) if part else np.zeros((len(x), 2))
        v = max(v, np.abs(F.uv(x + d[:, 0], y + d[:, 1], part * h)).sum(axis=1).max())
    return v


ORDER = {"Euler": 1, "RK2": 2, "RK4": 4}
# what a method of the order may leave, relative to the way gone, times (rate x step) to the order
CONST = {"Euler": .9, "RK2": .45, "RK4": .025}


def bound(method, rate, h, way):
    return CONST[method] * (rate * abs(h)) ** ORDER[method] * way


def order_case(i, rng, mon):
    from gnome.movers import CurrentMover
    lat0 = float(rng.uniform(-.3, .3))
    lon0 = float(rng.uniform(-179, 179))
    h = int(rng.choice([600, 900, 1800, 3600]))
    F = Field(rng, lon0, lat0, h, speed=float(rng.choice([.1, .5, 2.])))
    n = 12
    pos = np.zeros((n, 3))
    pos[:, 0] = lon0 + rng.uniform(-1, 1, n) * h / PPD
    pos[:, 1] = lat0 + rng.uniform(-1, 1, n) * h / PPD
    sc = gn.sample_sc(n, pos)
    st = np.array(sc["status_codes"])
    odd = int(rng.integers(0, n))
    sc["status_codes"][odd] = rng.choice([oil_status.on_land, oil_status.off_maps])
    moved = np.arange(n) != odd
    x = (pos[:, 0] - lon0) * PPD * np.cos(np.radians(lat0))
    y = (pos[:, 1] - lat0) * PPD
    back = bool(rng.random() < .4)
    scale = float(rng.choice([1, 1, -1, 2.5, 0]))
    import gnome.environment.environment_objects as eo
    cur = eo.SteadyUniformCurrent(1., 0.)
    cur.at = F.at
    for method in ("Euler", "RK2", "RK4"):
        m = CurrentMover(current=cur, default_num_method=method if rng.random() < .5 else "RK2")
        m.prepare_for_model_run()
        errs = []
        for hh in (h, h // 2, h // 4):
            H = -hh if back else hh
            m.prepare_for_model_step(sc, H, T0)
            d = np.array(m.get_move(sc, H, T0, **({"num_method": method} if m.default_num_method != method else {})))
            mon.check(not d[odd].any(), "a current moved an element that is not in the water", lambda: str(d[odd]))
            mon.event("not_in_water")
            got = d[:, :2] * PPD
            got[:, 0] *= np.cos(np.radians(lat0))
            want = F.exact(x, y, 0., H)
            way = abs(H) * fastest(F, x, y, H) + 1.
            if method == "Euler":
                want, B = F.uv(x, y, 0.) * H, 3e-5 * way
            else:
                B = bound(method, F.rate(), H, way) + 3e-5 * way
            e = np.abs(got - want)[moved].max()
            errs.append(e)
            mon.check(e <= B, "displacement by the Python current mover is not of the order of %s" % method,
                      lambda: "step %s: off by %s m of %s m, at most %s" % (H, e, way, B))
            mon.event("order_" + method.lower())
            mon.check(not d[:, 2].any(), "a current without vertical part moved elements vertically")
            m.model_step_is_done(sc)
        if scale != 1:
            m2 = CurrentMover(current=cur, default_num_method=method, scale_value=scale)
            m2.prepare_for_model_run()
            m2.prepare_for_model_step(sc, H, T0)
            d2 = np.array(m2.get_move(sc, H, T0))
            mon.close(d2, d * scale, "the scale does not scale the displacement", rtol=1e-9, atol=1e-14)
            mon.event("scaled")
        # there and back in a steady field
        F.steady = True
        sc2 = gn.sample_sc(n, pos)
        m.prepare_for_model_step(sc2, h, T0)
        a = np.array(m.get_move(sc2, h, T0, num_method=method))
        sc2["positions"][:] += a
        b = np.array(m.get_move(sc2, -h, T0 + dt.timedelta(seconds=h), num_method=method))
        left = (a + b)[:, :2] * PPD
        way = h * fastest(F, x, y, h) + 1.
        B = 2.5 * bound(method, F.rate(), h, way) + 6e-5 * way
        mon.check(np.abs(left).max() <= B, "forward and back does not return to the start with %s" % method, lambda: "%s m left of %s m, at most %s" % (np.abs(left).max(), way, B))
        mon.event("returned_to_start")
        F.steady = False
        mon.state(("python", method, back, m.default_num_method == method, scale))
    if back:
        mon.event("backward")


def axes(rng):
    """record times in hours around T0, and where the question lies"""
    n = int(rng.choice([1, 2, 3, 5]))
    h = np.sort(rng.choice(np.arange(-20, 21), n, replace=False)).astype(float)
    return h


def between(hours, t, X):
    """linear in time, the end records beyond"""
    if len(hours) == 1 or t <= hours[0]:
        return X[0]
    if t >= hours[-1]:
        return X[-1]
    k = int(np.searchsorted(hours, t, side="right")) - 1
    a = (t - hours[k]) / (hours[k + 1] - hours[k])
    return X[k] * (1 - a) + X[k + 1] * a


def bilinear(lon, lat, X, p):
    """values over lat x lon nodes at places inside"""
    c = np.clip(np.searchsorted(lon, p[:, 0], side="right") - 1, 0, len(lon) - 2)
    r = np.clip(np.searchsorted(lat, p[:, 1], side="right") - 1, 0, len(lat) - 2)
    a = (p[:, 0] - lon[c]) / (lon[c + 1] - lon[c])
    b = (p[:, 1] - lat[r]) / (lat[r + 1] - lat[r])
    return X[r, c] * (1 - a) * (1 - b) + X[r, c + 1] * a * (1 - b) + X[r + 1, c] * (1 - a) * b + X[r + 1, c + 1] * a * b


def grid_object_case(i, rng, mon):
    from gnome.environment import GridCurrent
    from gnome.environment.gridded_objects_base import Variable, Time, Grid_R
    from gnome.movers import CurrentMover
    R, C = int(rng.integers(2, 7)), int(rng.integers(2, 7))
    lat = np.cumsum(rng.uniform(.05, .3, R)) + float(rng.choice([0, 44, -60]))
    lon = np.cumsum(rng.uniform(.05, .3, C)) + float(rng.choice([-71, 10, 170]))
    hours = axes(rng)
    U, V = rng.normal(size=(2, len(hours), R, C))
    # other units are converted by gridded and the package together: not decided with a stand-in
    units, f = "m/s", 1.
    grid = Grid_R(node_lon=lon, node_lat=lat)
    t = Time([T0 + dt.timedelta(hours=float(h)) for h in hours])
    vs = [Variable(name=n, units=units, time=t, data=X, grid=grid, fill_value=0.) for n, X in (("u", U), ("v", V))]
    ang = None
    kw = {}
    if rng.random() < .4:
        A = rng.uniform(-3, 3, (R, C))
        deg = bool(rng.random() < .5)
        ang = Variable(name="angle", units="degrees" if deg else "radians", time=Time.constant_time(), data=np.degrees(A) if deg else A, grid=grid)
        ang._gnome_unit = "radians"
        kw["angle"] = ang
    ice = None
    if rng.random() < .4:
        from gnome.environment import IceAwareCurrent, IceConcentration
        from gnome.environment.environment_objects import IceVelocity
        ice = rng.choice([0., .1, .2, .5, .79, .8, .95, 1.], (len(hours), R, C)) if rng.random() < .7 else np.full((len(hours), R, C), float(rng.choice([0., .19, .5, .8, 1.])))
        IU, IV = rng.normal(size=(2, len(hours), R, C))
        iv = IceVelocity(name="i", units=units, time=t, variables=[Variable(name=n, units=units, time=t, data=X, grid=grid, fill_value=0.) for n, X in (("iu", IU), ("iv", IV))], grid=grid)
        ic = IceConcentration(name="ice", units="fraction", time=t, data=ice, grid=grid, fill_value=0.)
        cur = IceAwareCurrent(ice_velocity=iv, ice_concentration=ic, name="c", units=units, time=t, variables=vs, grid=grid, **kw)
    else:
        cur = GridCurrent(name="c", units=units, time=t, variables=vs, grid=grid, **kw)
    n = 60
    w = .4
    q = np.zeros((n, 3))
    q[:, 0] = rng.uniform(lon[0] - w * .5, lon[-1] + w * .5, n)
    q[:, 1] = rng.uniform(lat[0] - w * .5, lat[-1] + w * .5, n)
    ins = (q[:, 0] > lon[0]) & (q[:, 0] < lon[-1]) & (q[:, 1] > lat[0]) & (q[:, 1] < lat[-1])
    ext = bool(rng.random() < .5)
    if rng.random() < .3:
        ask = float(rng.choice(hours))
    else:
        ask = float(rng.integers(-24 * 4, 24 * 4)) / 4
    cur.extrapolation_is_allowed = ext
    for v in cur.variables[:2]:
        v.extrapolation_is_allowed = ext
    sc = gn.sample_sc(n, q)
    h = int(rng.choice([60, 900, -900, 3600]))
    m = CurrentMover(current=cur, default_num_method="Euler")
    when = T0 + dt.timedelta(hours=ask)
    m.prepare_for_model_run()
    m.prepare_for_model_step(sc, h, when)
    outside = len(hours) > 1 and not (hours[0] <= ask <= hours[-1])
    mon.ctx["what"] = "GridCurrent, hours %s asked %s extrapolate %s units %s angle %s" % (hours, ask, ext, units, kw and ang.units)
    try:
        d = np.array(m.get_move(sc, h, when))
    except Exception as e:
        mon.check(outside and not ext, "a grid current within its times was refused", lambda: "%s: %s" % (type(e).__name__, e))
        mon.event("outside_times_refused")
        return
    if outside:
        mon.check(ext, "a grid current outside its times was used although extrapolation is off")
        mon.event("extrapolated")
    elif len(hours) > 1:
        mon.event("time_between_records")
    u = bilinear(lon, lat, between(hours, ask, U), q[ins]) * f
    v = bilinear(lon, lat, between(hours, ask, V), q[ins]) * f
    if ang is not None:
        a = bilinear(lon, lat, A, q[ins])
        u, v = u * np.cos(a) - v * np.sin(a), u * np.sin(a) + v * np.cos(a)
        mon.event("rotated", int(ins.sum()))
    if ice is not None:
        # water below a fifth of ice, the ice itself above four fifths, in proportion between
        c = bilinear(lon, lat, between(hours, ask, ice), q[ins])
        w = np.where(c < .2, 0, np.where(c >= .8, 1, (c - .2) / .6))
        u, v = (x + (bilinear(lon, lat, between(hours, ask, X), q[ins]) - x) * w for x, X in ((u, IU), (v, IV)))
        mon.event("carried_by_ice", int((w > 0).sum()))
    got = d[:, :2] * PPD
    got[:, 0] *= np.cos(np.radians(q[:, 1]))
    mon.close(got[ins], np.column_stack([u, v]) * h, "displacement is not the grid current times the step", rtol=1e-6, atol=1e-5)
    mon.event("grid_object_judged", int(ins.sum()))
    mon.check(not d[~ins].any(), "a grid current moved an element outside its grid", lambda: str(d[~ins][:3]))
    mon.event("outside_grid", int((~ins).sum()))
    if h < 0:
        mon.event("backward")
    mon.state(("GridCurrent", len(hours), ext, outside, units, ang is not None, h < 0))


# ---------------------------------------------------------------------------------------------- native movers

def scratch():
    return tempfile.mkdtemp(prefix="p12", dir=os.environ.get("TMPDIR", "/tmp"))


def metres(d, q):
    got = d[:, :2] * MPD
    got[:, 0] *= np.cos(np.radians(q[:, 1]))
    return got


def places(rng, box, n):
    x0, y0, x1, y1 = box
    q = np.zeros((n, 3))
    w, h = x1 - x0, y1 - y0
    q[:, 0] = rng.uniform(x0 - .2 * w, x1 + .2 * w, n)
    q[:, 1] = rng.uniform(y0 - .2 * h, y1 + .2 * h, n)
    return q


BOXES = [(-71., 44., -70., 45.), (10., -.5, 11., .5), (-124.2, -45.1, -124., -44.9), (150., 60., 153., 61.)]


def mesh(rng, box, n=None):
    while True:
        M = curfiles.Mesh(rng, n or int(rng.integers(4, 40)), box, holes=rng.choice([0, .2]))
        try:
            return M, M.tree(rng)
        except ValueError:
            continue


def whole(M):
    """all triangles hang together (the tree the package makes itself needs that)"""
    seen, todo = {0}, [0]
    while todo:
        for b in M.adj[todo.pop()]:
            if b >= 0 and b not in seen:
                seen.add(int(b))
                todo.append(int(b))
    return len(seen) == len(M.t)


def agree(mon, got, want, ok, mech, h, info="", slack=0.):
    """metres, tolerance of the native degrees, float velocities and microdegrees"""
    # slack: what a microdegree or two is worth where the velocity changes steeply
    slack = np.asarray(slack)
    tol = 1.2e-4 * np.abs(want).max(initial=1e-9) + 1e-6 * abs(h) + .01 + (slack[:, None] if slack.ndim == 1 else slack)
    bad = ok & (np.abs(got - want) > tol).any(axis=1)
    mon.check(not bad.any(), mech, lambda: "%d of %d, %s instead of %s m%s" % (bad.sum(), ok.sum(), got[bad][:2].tolist(), want[bad][:2].tolist(), info))


def cats_case(i, rng, mon):
    from gnome.movers import CatsMover
    from gnome.environment import Tide
    from gnome.utilities.time_utils import date_to_sec
    box = BOXES[int(rng.integers(0, len(BOXES)))]
    M, tr = mesh(rng, box)
    u, v = rng.normal(size=(2, len(M.t))) * float(rng.choice([.1, 1, 3]))
    d0 = scratch()
    try:
        f = os.path.join(d0, "a.cur")
        curfiles.cats(f, M, tr, u, v, nl=str(rng.choice(["\n", "\r\n"])))
        n = 120
        q = places(rng, box, n)
        q[rng.random(n) < .1, 2] = float(rng.choice([5., .3]))
        sc = gn.sample_sc(n, q)
        off = rng.random(n) < .1
        sc["status_codes"][off] = rng.choice([oil_status.on_land, oil_status.off_maps, oil_status.not_released, oil_status.to_be_removed, oil_status.on_tideflat], int(off.sum()))
        k, far = M.find(q[:, :2])
        ok = far > 20
        kw = {}
        factor = 1.
        if rng.random() < .6:
            # scaled so that the value at the reference point is the one asked for
            c = int(rng.integers(0, len(M.t)))
            w = rng.dirichlet([3, 3, 3])
            ref = (w[:, None] * M.p[M.t[c]]).sum(axis=0) / 1e6
            kk, ff = M.find(ref[None])
            val = float(rng.choice([.5, 2., -1., 1.]))
            if kk[0] >= 0 and ff[0] > 50 and np.hypot(u[kk[0]], v[kk[0]]) > .01:
                kw = dict(scale=True, scale_value=val, scale_refpoint=tuple(map(float, ref)) + ((0.,) if rng.random() < .5 else ()))
                factor = val / np.hypot(np.float32(u[kk[0]]), np.float32(v[kk[0]]))
        tide = None
        if rng.random() < .5:
            tf = os.path.join(d0, "t.ossm")
            hrs = np.arange(-6, 7, 3)
            vals = rng.normal(size=len(hrs))
            with open(tf, "w") as o:
                o.write("Some Station\n-75.26,39.14\nmeters per second\n")
                for hh, x in zip(hrs, vals):
                    w = T0 + dt.timedelta(hours=int(hh))
                    o.write("%d,%d,%d,%d,%d,%.5f,0.000\n" % (w.day, w.month, w.year, w.hour, w.minute, x))
            tide = Tide(tf)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = CatsMover(f, tide=tide, **kw)
        h = int(rng.choice([60, 900, 3600, -900]))
        mins = int(rng.integers(-300, 300))
        if rng.random() < .3:
            mins = int(rng.choice([-180, 0, 180]))
        when = T0 + dt.timedelta(minutes=mins)
        if tide is not None:
            tv = tide.cy_obj.get_time_value(int(date_to_sec(when)))[0]["u"][0]
            mon.event("cats_tide")
        else:
            tv = 1.
        m.prepare_for_model_run()
        rep = int(rng.integers(1, 3))
        for _ in range(rep):
            m.prepare_for_model_step(sc, h, when)
            d = np.array(m.get_move(sc, h, when))
            m.model_step_is_done(sc)
        got = metres(d, q)
        want = np.zeros((n, 2))
        ins = k >= 0
        want[ins] = np.column_stack([u[k[ins]], v[k[ins]]]) * h * factor * tv
        want[off | (q[:, 2] > 0)] = 0
        mon.ctx["what"] = "CATS %s tide %s (%s) step %s" % (kw, tide is not None, tv, h)
        agree(mon, got, want, ok, "displacement by a CATS current is not its velocity times the step", h)
        mon.event("cats_judged", int((ok & ins).sum()))
        mon.event("outside_grid", int((ok & ~ins).sum()))
        mon.event("not_in_water", int(off.sum()))
        mon.check(not d[off].any() and not d[(~ins) & ok].any(), "a CATS current moved elements that it must not move")
        mon.check(not d[:, 2].any(), "a CATS current moved elements vertically")
        if kw:
            mon.event("cats_scaled")
        if h < 0:
            mon.event("backward")
        if rng.random() < .5:
            g = m.get_scaled_velocities(int(date_to_sec(when)))
            fac = np.float32(factor * tv)
            mon.close(np.array(g["u"]), np.float32(u) * factor * tv, "the velocities shown for a CATS current are not those it moves with", rtol=1e-4, atol=1e-6 * abs(factor))
            mon.close(np.array(g["v"]), np.float32(v) * factor * tv, "the velocities shown for a CATS current are not those it moves with", rtol=1e-4, atol=1e-6 * abs(factor))
            mon.event("scaled_velocities")
            d2 = np.array(m.get_move(sc, h, when))
            mon.check(np.array_equal(d, d2), "asking for the velocities of a CATS current changed how it moves")
        mon.state(("CATS", bool(kw), kw.get("scale_value"), tide is not None, h < 0, len(M.t) // 10))
    finally:
        shutil.rmtree(d0)


def component_case(i, rng, mon):
    """Two patterns carried by the wind: each is scaled to its value at the reference point, for its own wind"""
    from gnome.movers.c_current_movers import ComponentMover
    from gnome.environment import Wind
    box = BOXES[int(rng.integers(0, len(BOXES)))]
    M, tr = mesh(rng, box)
    two = bool(rng.random() < .7)
    U = rng.normal(size=(2, 2, len(M.t))) * float(rng.choice([.1, 1, 3]))
    d0 = scratch()
    try:
        names = []
        for k in range(1 + two):
            f = os.path.join(d0, "p%d.cur" % k)
            curfiles.cats(f, M, tr, U[k, 0], U[k, 1], nl=str(rng.choice(["\n", "\r\n"])))
            names.append(f)
        c = int(rng.integers(0, len(M.t)))
        ref = (rng.dirichlet([3, 3, 3])[:, None] * M.p[M.t[c]]).sum(axis=0) / 1e6
        kk, ff = M.find(ref[None])
        if kk[0] < 0 or ff[0] < 50 or np.hypot(U[:, 0, kk[0]], U[:, 1, kk[0]]).min() < .01:
            return
        kw = dict(scale_refpoint=tuple(map(float, ref)) + ((0.,) if rng.random() < .5 else ()))
        speed, angle, value, unit = rng.choice([5., 10., 20.], 2), rng.integers(0, 360, 2).astype(float), rng.choice([.1, .5, 1., -.3], 2), rng.choice([1, 2, 3], 2)
        by = int(rng.choice([0, 1, 2]))
        kw["scale_by"] = by
        for k in range(2):
            kw.update({"pat%d_angle" % (k + 1): float(angle[k]), "pat%d_speed" % (k + 1): float(speed[k]), "pat%d_speed_units" % (k + 1): int(unit[k]), "pat%d_scale_to_value" % (k + 1): float(value[k])})
        hrs = np.arange(-6, 13, 3) if rng.random() < .7 else np.zeros(1)
        ws, wd = rng.uniform(1, 20, len(hrs)), rng.uniform(0, 360, len(hrs))
        calm = rng.random() < .15
        if calm:
            ws[:] = 0
        ave = bool(rng.random() < .35)
        later = {}
        if ave:
            past, power, much = int(rng.choice([0, 1, 3, 6, 12])), float(rng.choice([1., 1., 2., .5, 1.5])), float(rng.choice([1., .03, .5, -2.]))
            two, names = False, names[:1]
            later = dict(use_averaged_winds=True, past_hours_to_average=past, wind_power_factor=power, scale_factor_averaged_winds=much)
            if len(hrs) > 1:
                hrs = np.arange(-18, 13, 3)
                ws, wd = rng.uniform(1, 20, len(hrs)), rng.uniform(0, 360, len(hrs))
                if calm:
                    ws[:] = 0
        wind = Wind(timeseries=[(T0 + dt.timedelta(hours=float(h)), (float(a), float(b))) for h, a, b in zip(hrs, ws, wd)], units="m/s")
        none = rng.random() < .15
        mon.ctx["what"] = "component %s %s wind %s" % (kw, later, None if none else list(zip(hrs, ws, wd)))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if none and rng.random() < .5:
                m = ComponentMover(names[0], names[1] if two else None, wind=wind, **kw)
                m.wind = None
            elif none:
                m = ComponentMover(names[0], names[1] if two else None, **kw)
            elif rng.random() < .5:
                m = ComponentMover(names[0], names[1] if two else None, wind=wind, **kw)
            else:
                m = ComponentMover(names[0], names[1] if two else None)
                for a, b in kw.items():
                    setattr(m, a, b)
                m.wind = wind
            for a, b in later.items():
                setattr(m, a, b)
                mon.check(getattr(m, a) == b, "a wind-driven pattern does not keep a setting")
        n = 120
        q = places(rng, box, n)
        q[rng.random(n) < .1, 2] = 5.
        sc = gn.sample_sc(n, q)
        off = rng.random(n) < .1
        sc["status_codes"][off] = rng.choice([oil_status.on_land, oil_status.off_maps, oil_status.not_released], int(off.sum()))
        k, far = M.find(q[:, :2])
        ok, ins = (far > 20) & ~(q[:, 2] > 0), k >= 0
        m.prepare_for_model_run()
        for step in range(int(rng.integers(1, 4))):
            h = int(rng.choice([60, 900, 3600, -900]))
            when = T0 + dt.timedelta(minutes=int(rng.integers(-300, 600)))
            w = np.zeros(2) if none else wind_at(hrs, ws, wd, (when - T0).total_seconds() / 3600.)
            fac = np.zeros(2)
            for j in range(2):
                s = speed[j] * [0, .514444, 1., .447028][unit[j]]
                a = np.deg2rad(angle[j])
                along = -(w[0] * np.sin(a) + w[1] * np.cos(a)) / s
                fac[j] = along * value[j] / np.hypot(*U[j, :, kk[0]]) * (1. if by == 1 else np.hypot(*w) / s)
                if ave and not none:
                    back = (when - T0).total_seconds() / 3600. - (np.arange(past, 0, -1) if past else np.zeros(1))
                    one = np.mean([wind_at(hrs, ws, wd, b) for b in back], axis=0)
                    one = -(one[0] * np.sin(a) + one[1] * np.cos(a))
                    fac[j] = much * np.sign(one) * abs(one) ** power
                    mon.event("component_averaged")
            if not two:
                fac[1] = 0
            m.prepare_for_model_step(sc, h, when)
            d = np.array(m.get_move(sc, h, when))
            m.model_step_is_done(sc)
            got = metres(d, q)
            want = np.zeros((n, 2))
            want[ins] = (fac[0] * U[0][:, k[ins]] + fac[1] * U[1][:, k[ins]]).T * h
            want[off] = 0
            agree(mon, got, want, ok, "displacement by wind-driven patterns is not their scaled velocity times the step", h, slack=3e-4 * np.abs(want).max())  # the package's knot is .5144 m/s
            mon.event("component_judged", int((ok & ins).sum()))
            mon.event("outside_grid", int((ok & ~ins).sum()))
            mon.check(not d[off].any() and not d[(~ins) & ok].any(), "wind-driven patterns moved elements that they must not move")
            mon.check(not d[:, 2].any(), "wind-driven patterns moved elements vertically")
            if none:
                mon.event("component_no_wind")
                mon.check(not d.any(), "patterns without a wind moved elements")
        mon.state(("component", two, by, none, calm, len(hrs) > 1, ave and (past, power)))
    finally:
        shutil.rmtree(d0)


def wind_at(hrs, ws, wd, h):
    """the wind (where it blows to) at an hour, interpolated by component"""
    u, v = -ws * np.sin(np.deg2rad(wd)), -ws * np.cos(np.deg2rad(wd))
    return np.array([np.interp(h, hrs, u), np.interp(h, hrs, v)])


def native(rng, mon, f, kind, box, hours, field, judge, d0, constant=False, depths=None, alike=False, cls=None):
    """field(q, X index weights) -> u, v at places; judge(q) -> inside (1), outside (0), no opinion (-1)"""
    from gnome.movers.c_current_movers import c_GridCurrentMover
    cls = cls or c_GridCurrentMover
    ext = bool(rng.random() < .5)
    offset = float(rng.choice([0, 0, 0, 2, -5, 1]))
    scale = float(rng.choice([1, 1, 2, -1, .1]))
    kw = {}
    # where the current is the same at all places, every method is known exactly
    method = str(rng.choice(["Euler", "RK2", "RK4"])) if alike else None
    if offset:
        kw["time_offset"] = offset
    mon.ctx["what"] = "%s hours %s" % (kind, hours)
    if rng.random() < .5:
        m = cls(f, extrapolate=ext, current_scale=scale, **kw)
    else:
        m = cls(f)
        m.extrapolate_in_time(ext)
        m.current_scale = scale
        if offset:
            m.offset_time(offset)
    if method:
        m.num_method = method
    if cls is c_GridCurrentMover and not constant and not f.endswith(".txt"):
        for a, b in ((m.data_start, hours[0]), (m.data_stop, hours[-1])):
            mon.check(abs((a - T0).total_seconds() - b * 3600) < 1.5 or abs((a - T0).total_seconds() - (b + offset) * 3600) < 1.5, "the times of a current file are not those it contains",
                      lambda: "%s for %s h" % (a, b))
    # the same mover asked for several times, as in runs that are repeated, go on or turn back
    asked = []
    for k in range(int(rng.choice([1, 1, 3, 6]))):
        h = int(rng.choice([60, 900, 3600, -900]))
        if rng.random() < .3 and not constant:
            ask = float(rng.choice(hours)) + offset
        elif rng.random() < .2:
            ask = float(rng.choice([-30, 30]))
        else:
            ask = float(rng.integers(-24 * 4, 24 * 4)) / 4
        asked.append(ask)
        mon.ctx["what"] = "%s hours %s asked %s offset %s extrapolate %s scale %s step %s" % (kind, hours, asked, offset, ext, scale, h)
        if k == 0 or rng.random() < .3:
            m.prepare_for_model_run()
        native_ask(rng, mon, m, kind, box, hours, field, judge, constant, ext, offset, scale, h, ask, depths, method)
        if k:
            mon.event("asked_again")


def native_ask(rng, mon, m, kind, box, hours, field, judge, constant, ext, offset, scale, h, ask, depths, method):
    n = 100
    q = places(rng, box, n)
    # below the surface: in the layers of the file, on them, between them and deeper than all
    if depths is not None:
        zs = np.r_[0, depths, rng.uniform(0, depths[-1] * 1.3, 20)]
        q[:, 2] = np.where(rng.random(n) < .2, 0, rng.choice(zs, n))
    sc = gn.sample_sc(n, q)
    off = rng.random(n) < .1
    sc["status_codes"][off] = rng.choice([oil_status.on_land, oil_status.off_maps, oil_status.not_released, oil_status.to_be_removed, oil_status.on_tideflat], int(off.sum()))
    when = T0 + dt.timedelta(hours=ask)
    t = ask - offset
    times = {"RK2": [(.5, 0.), (.5, 1.)], "RK4": [(1 / 6., 0.), (2 / 3., .5), (1 / 6., 1.)]}.get(method, [(1., 0.)])
    outside = not constant and len(hours) > 1 and not all(hours[0] <= t + b * h / 3600. <= hours[-1] for a, b in times)
    if outside and method and not ext:
        return
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m.prepare_for_model_step(sc, h, when)
            d = np.array(m.get_move(sc, h, when))
            m.model_step_is_done(sc)
    except Exception as e:
        mon.check(outside and not ext, "a current within its times was refused", lambda: "%s: %s" % (type(e).__name__, e))
        mon.event("outside_times_refused")
        mon.state((kind, "refused", len(hours)))
        return
    if outside and not ext:
        # the default outside the record is no motion, or an error above
        mon.check(not d.any(), "a current moved elements outside its times although extrapolation is off", lambda: str(d[:2]))
        mon.event("outside_times_refused")
        return
    if outside:
        mon.event("extrapolated")
    elif len(hours) > 1:
        mon.event("time_between_records")
    if offset and not constant and len(hours) > 1:
        mon.event("time_offset")
    where = judge(q)
    u, v, tol = field(q, t)
    if method:
        u, v = (sum(a * field(q, t + b * h / 3600.)[c] for a, b in times) for c in (0, 1))
        fastest = max(float(np.hypot(*field(q, t + b * h / 3600.)[:2]).max()) for a, b in times)
        reach = 2 * abs(h * scale) * fastest / MPD + .001
        for a in ((1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, 1), (1, -1), (-1, -1)):
            # those that may leave the grid or come in during the step
            where = np.where(judge(q + np.column_stack([a[0] * reach / np.cos(np.radians(q[:, 1])), np.full(n, a[1] * reach), np.zeros(n)])) == where, where, -1)
        if not off.all():
            mon.event("alike_%s" % method)
    want = np.column_stack([u, v]) * h * scale
    deep = np.zeros(n, bool) if depths is None else q[:, 2] > depths[-1]
    want[(where == 0) | off | deep] = 0
    mon.event("below_the_data", int(deep.sum()))
    if depths is not None:
        mon.event("layered_judged", int((~deep & (q[:, 2] > 0) & (where == 1)).sum()))
    got = metres(d, q)
    if tol is not None:
        slack = np.array(tol * abs(h * scale), dtype=float)
        if slack.ndim:
            slack[(where == 0) | off | deep] = 0
    agree(mon, got, want, (where >= 0) | off, "displacement by a %s current is not its velocity times the step" % kind, h, slack=0. if tol is None else slack)
    mon.event({"PTCUR": "ptcur_judged", "GRIDCUR": "gridcur_judged", "NetCDF regular": "netcdf_regular_judged", "NetCDF curvilinear": "netcdf_curvilinear_judged", "NetCDF triangular": "netcdf_triangular_judged", "NetCDF ice": "netcdf_ice_judged"}[kind], int((where == 1).sum()))
    mon.event("outside_grid", int((where == 0).sum()))
    mon.event("not_in_water", int(off.sum()))
    if h < 0:
        mon.event("backward")
    if scale != 1:
        mon.event("scaled")
    if constant:
        mon.event("constant_current")
    mon.check(not d[:, 2].any(), "a %s current moved elements vertically" % kind)
    mon.state((kind, min(len(hours), 3), ext, outside, offset, scale, h < 0, constant))


def ptcur_case(i, rng, mon):
    box = BOXES[int(rng.integers(0, len(BOXES)))]
    M, tr = mesh(rng, box)
    const = bool(rng.random() < .2)
    hours = np.zeros(1) if const else axes(rng)
    U, V = rng.normal(size=(2, len(hours), len(M.p)))
    d0 = scratch()
    try:
        f = os.path.join(d0, "b.cur")
        curfiles.ptcur(f, M, tr if rng.random() < .5 or not whole(M) else None, None if const else [T0 + dt.timedelta(hours=float(x)) for x in hours], U, V, nl=str(rng.choice(["\n", "\r\n"])))

        def judge(q):
            k, far = M.find(q[:, :2])
            return np.where(far > 20, (k >= 0).astype(int), -1)

        def field(q, t):
            k, far = M.find(q[:, :2])
            k = np.maximum(k, 0)
            w = M.weights(k, q[:, :2])
            a, b = between(hours, t, U), between(hours, t, V)
            eps = np.array([3e-6, 0.]), np.array([0., 3e-6])
            dw = sum(np.abs(M.weights(k, q[:, :2] + e) - w) for e in eps)
            return (w * a[M.t[k]]).sum(axis=1), (w * b[M.t[k]]).sum(axis=1), (dw * np.maximum(np.abs(a), np.abs(b))[M.t[k]]).sum(axis=1)
        native(rng, mon, f, "PTCUR", box, hours, field, judge, d0, const)
    finally:
        shutil.rmtree(d0)


def gridcur_case(i, rng, mon):
    box = BOXES[int(rng.integers(0, len(BOXES)))]
    R, C = int(rng.integers(2, 9)), int(rng.integers(2, 9))
    const = bool(rng.random() < .2)
    hours = np.zeros(1) if const else axes(rng)
    U, V = rng.normal(size=(2, len(hours), R, C))
    units, fac = [("mps", 1.), ("knots", KNOT), ("kph", 1 / 3.6), ("mph", .44704), ("", 1.)][int(rng.integers(0, 4))]
    skip = rng.random((len(hours), R, C)) < float(rng.choice([0, .2]))
    d0 = scratch()
    x0, y0, x1, y1 = box
    try:
        f = os.path.join(d0, "c.cur")
        curfiles.gridcur(f, R, C, box, None if const else [T0 + dt.timedelta(hours=float(x)) for x in hours], U, V, str(rng.choice(["corner", "bounds"])),
                         nl=str(rng.choice(["\n", "\r\n"])), units=units, skip=skip)

        def cells(q):
            c = (q[:, 0] - x0) / (x1 - x0) * C
            r = (y1 - q[:, 1]) / (y1 - y0) * R
            near = np.minimum(np.abs(c - np.round(c)) * (x1 - x0) / C, np.abs(r - np.round(r)) * (y1 - y0) / R) < 2e-5
            c, r = np.floor(c).astype(int), np.floor(r).astype(int)
            return r, c, near, (c >= 0) & (c < C) & (r >= 0) & (r < R)

        def judge(q):
            r, c, near, ins = cells(q)
            return np.where(near, -1, ins.astype(int))

        def field(q, t):
            r, c, near, ins = cells(q)
            r, c = np.clip(r, 0, R - 1), np.clip(c, 0, C - 1)
            a, b = between(hours, t, np.where(skip, 0, U)), between(hours, t, np.where(skip, 0, V))
            return a[r, c] * fac, b[r, c] * fac, None
        if skip.any():
            mon.event("skipped_cells", int(skip.sum()))
        mon.event("units")
        native(rng, mon, f, "GRIDCUR", box, hours, field, judge, d0, const)
    finally:
        shutil.rmtree(d0)


def netcdf_case(i, rng, mon):
    R, C = int(rng.integers(3, 9)), int(rng.integers(3, 9))
    hours = axes(rng)
    U, V = np.float32(rng.normal(size=(2, len(hours), R, C))).astype(float)
    dy, dx = float(rng.choice([.2, .05])), float(rng.choice([.15, .4]))
    y0, x0 = float(rng.choice([44., -1., -60.])), float(rng.choice([-71., 10., 150.]))
    lat, lon = y0 + np.arange(R) * dy, x0 + np.arange(C) * dx
    d0 = scratch()
    f = os.path.join(d0, "r.nc")
    # values in other units, or to be multiplied
    units, factor = ("m/s", 1.) if rng.random() < .6 else [("cm/s", 100.), ("Cm/S", 100.), ("M/S", 1.)][int(rng.integers(0, 3))]
    times = None
    if rng.random() < .2:
        times = float(rng.choice([.5, .01, 2.]))
        factor /= times
    if factor != 1:
        mon.event("other_units")
    try:
        if i % 2:
            fill = None
            dry = np.zeros(U.shape, bool)
            if rng.random() < .4:
                fill = -999.
                dry = np.broadcast_to(rng.random((R, C)) < .2, U.shape)
            depths = None
            if rng.random() < .4:
                depths = np.sort(rng.choice(np.arange(1, 60), int(rng.choice([2, 3, 6])), replace=False)).astype(float)
                if rng.random() < .7:
                    depths[0] = 0
                U, V = np.float32(rng.normal(size=(2, len(hours), len(depths), R, C))).astype(float)
                dry = np.broadcast_to(dry[:, None], U.shape)
            parts = [slice(None)]
            if len(hours) > 2 and rng.random() < .5:
                # a list of files, one after the other in time
                cut = np.sort(rng.choice(np.arange(1, len(hours)), int(rng.integers(1, min(len(hours), 4))), replace=False))
                parts = [slice(x, y) for x, y in zip(np.r_[0, cut], np.r_[cut, len(hours)])]
                names = [os.path.join(d0, "r%d.nc" % k) for k in range(len(parts))]
                f = os.path.join(d0, "list.txt")
                with open(f, "w") as out:
                    out.write("NetCDF Files\n" + "".join("[FILE]%s%s\n" % (rng.choice([" ", "\t"]), x) for x in names))
                mon.event("list_of_files")
            # rows from the south or from the north
            turn = slice(None, None, -1 if rng.random() < .3 else 1)
            mon.event("rows_from_north", int(turn.step < 0))
            for k, part in enumerate(parts):
                reg(f if len(parts) == 1 else names[k], lat[turn], lon, hours[part], *(np.where(dry, fill or 0, X * factor)[part][..., turn, :] for X in (U, V)), fill=fill, depths=depths, units=units, scale=times)
            box = (lon[0] - dx / 2, lat[0] - dy / 2, lon[-1] + dx / 2, lat[-1] + dy / 2)

            def cells(q):
                c = (q[:, 0] - box[0]) / dx
                r = (q[:, 1] - box[1]) / dy
                near = np.minimum(np.abs(c - np.round(c)) * dx, np.abs(r - np.round(r)) * dy) < 2e-5
                c, r = np.floor(c).astype(int), np.floor(r).astype(int)
                return r, c, near, (c >= 0) & (c < C) & (r >= 0) & (r < R)

            def judge(q):
                r, c, near, ins = cells(q)
                return np.where(near, -1, ins.astype(int))

            def field(q, t):
                r, c, near, ins = cells(q)
                r, c = np.clip(r, 0, R - 1), np.clip(c, 0, C - 1)
                a, b = between(hours, t, np.where(dry, 0, U)), between(hours, t, np.where(dry, 0, V))
                if depths is None:
                    return a[r, c], b[r, c], None
                k = np.clip(np.searchsorted(depths, q[:, 2]), 1, len(depths) - 1)
                w = np.clip((q[:, 2] - depths[k - 1]) / (depths[k] - depths[k - 1]), 0, 1)
                return tuple((1 - w) * x[k - 1, r, c] + w * x[k, r, c] for x in (a, b)) + (None,)
            if dry.any():
                mon.event("skipped_cells", int(dry.sum()))
            mon.ctx["files"] = str([hours[x] for x in parts])
            native(rng, mon, f, "NetCDF regular", box, hours, field, judge, d0, depths=depths)
        else:
            # a uniform field that changes with time: its value everywhere well inside, nothing well outside
            yy, xx = np.meshgrid(lat, lon, indexing="ij")
            if rng.random() < .4:
                return straight(rng, mon, f, lat, lon, hours, factor, units, times, d0)
            xx, yy = xx + .15 * dx * np.sin(yy * 9), yy + .15 * dy * np.cos(xx * 7)
            u, v = np.float32(rng.normal(size=(2, len(hours)))).astype(float)
            one = np.ones((1, R, C))
            layers = depths = None
            if rng.random() < .4:
                # layers in parts of the depth, or in metres
                kind, n = str(rng.choice(["sigma", "levels"])), int(rng.choice([2, 3, 6]))
                bottom = float(rng.choice([10., 37., 200.]))
                lev = np.r_[0, np.sort(rng.choice(np.arange(1, 20), n - 2, replace=False)) / 20, 1]
                if kind == "levels":
                    lev = lev * bottom
                layers = kind, lev, np.full(yy.shape, bottom)
                depths = lev * (bottom if kind == "sigma" else 1)
                u, v = np.float32(rng.normal(size=(2, len(hours), n))).astype(float)
                one = np.ones((1, 1, R, C))
            curv(f, yy, xx, hours, factor * u[..., None, None] * one, factor * v[..., None, None] * one, layers=layers, units=units, scale=times)
            box = (xx.min(), yy.min(), xx.max(), yy.max())

            def judge(q):
                w = np.full(len(q), -1)
                inn = (q[:, 0] > xx[:, 0].max() + .01 * dx) & (q[:, 0] < xx[:, -1].min() - .01 * dx) & (q[:, 1] > yy[0].max() + .01 * dy) & (q[:, 1] < yy[-1].min() - .01 * dy)
                out = (q[:, 0] < xx.min() - dx) | (q[:, 0] > xx.max() + dx) | (q[:, 1] < yy.min() - dy) | (q[:, 1] > yy.max() + dy)
                w[inn] = 1
                w[out] = 0
                return w

            def field(q, t):
                if depths is None:
                    return np.full(len(q), between(hours, t, u)), np.full(len(q), between(hours, t, v)), None
                return tuple(np.interp(q[:, 2], depths, between(hours, t, x)) for x in (u, v)) + (None,)
            mon.ctx["layers"] = str(None if layers is None else (layers[0], depths))
            native(rng, mon, f, "NetCDF curvilinear", box, hours, field, judge, d0, depths=depths, alike=True)
    finally:
        shutil.rmtree(d0)


def ice_case(i, rng, mon):
    """water and ice that flow apart: with the water where there is little ice, with the ice where there is much, and in parts between"""
    import netCDF4
    from gnome.movers.c_current_movers import IceMover
    R, C = int(rng.integers(4, 9)), int(rng.integers(4, 9))
    dy, dx = float(rng.choice([.2, .05])), float(rng.choice([.15, .4]))
    y0, x0 = float(rng.choice([44., -1., -60.])), float(rng.choice([-71., 10., 150.]))
    yy, xx = np.meshgrid(y0 + np.arange(R) * dy, x0 + np.arange(C) * dx, indexing="ij")
    xx, yy = xx + .15 * dx * np.sin(yy * 9), yy + .15 * dy * np.cos(xx * 7)
    hours = axes(rng)
    W, I = np.float32(rng.normal(size=(2, 2, len(hours)))).astype(float)
    F = np.float32(rng.choice([0., .1, .2, .5, .8, 1.], len(hours)) if rng.random() < .5 else rng.random(len(hours))).astype(float)
    H = np.float32(rng.uniform(0, 3, len(hours))).astype(float)
    d0 = scratch()
    try:
        parts, f = [slice(None)], os.path.join(d0, "i.nc")
        names = [f]
        if len(hours) > 2 and rng.random() < .4:
            cut = np.sort(rng.choice(np.arange(1, len(hours)), int(rng.integers(1, min(len(hours), 4))), replace=False))
            parts = [slice(x, y) for x, y in zip(np.r_[0, cut], np.r_[cut, len(hours)])]
            names = [os.path.join(d0, "i%d.nc" % k) for k in range(len(parts))]
            f = os.path.join(d0, "list.txt")
            with open(f, "w") as out:
                out.write("NetCDF Files\n" + "".join("[FILE] %s\n" % x for x in names))
            mon.event("ice_list_of_files")
        for k, x in zip(names, parts):
            one = np.ones((len(hours[x]), R, C))
            curv(k, yy, xx, hours[x], W[0, x, None, None] * one, W[1, x, None, None] * one)
            with netCDF4.Dataset(k, "a") as n:
                for a, X in (("ice_u", I[0]), ("ice_v", I[1]), ("ice_fraction", F), ("ice_thickness", H)):
                    n.createVariable(a, "f4", ("time", "yc", "xc"), fill_value=-9999.)[:] = X[x, None, None] * one

        def judge(q):
            w = np.full(len(q), -1)
            w[(q[:, 0] > xx[:, 0].max() + .01 * dx) & (q[:, 0] < xx[:, -1].min() - .01 * dx) & (q[:, 1] > yy[0].max() + .01 * dy) & (q[:, 1] < yy[-1].min() - .01 * dy)] = 1
            w[(q[:, 0] < xx.min() - dx) | (q[:, 0] > xx.max() + dx) | (q[:, 1] < yy.min() - dy) | (q[:, 1] > yy.max() + dy)] = 0
            return w

        def field(q, t):
            a = np.clip((between(hours, t, F) - .2) / .6, 0, 1)
            mon.event("much_ice" if a == 1 else "some_ice" if a else "little_ice")
            return tuple(np.full(len(q), (1 - a) * between(hours, t, w) + a * between(hours, t, c)) for w, c in zip(W, I)) + (1e-5,)
        mon.ctx["ice"] = str((F, W, I))
        native(rng, mon, f, "NetCDF ice", (xx.min(), yy.min(), xx.max(), yy.max()), hours, field, judge, d0, cls=IceMover)
        if rng.random() < .5:
            # what is shown is what moves
            from gnome.utilities.time_utils import date_to_sec
            m = IceMover(f)
            t = float(rng.choice(hours[:-1])) if len(hours) > 1 else 0.
            sec = int(date_to_sec(T0 + dt.timedelta(hours=t)))
            a = float(np.clip((between(hours, t, F) - .2) / .6, 0, 1))
            frac, thick = m.get_ice_fields(sec)
            mon.close(np.array(frac), np.full(len(frac), between(hours, t, F)), "the ice cover shown is not that of the file", rtol=1e-5, atol=1e-6)
            mon.close(np.array(thick), np.full(len(thick), between(hours, t, H)), "the ice thickness shown is not that of the file", rtol=1e-5, atol=1e-6)
            for name, k in (("get_ice_velocities", 1.), ("get_movement_velocities", a)):
                if k is a and t != hours[0]:
                    continue  # shown with the cover of the record before
                g = getattr(m, name)(sec)
                for c, w, x in zip("uv", W, I):
                    mon.close(np.array(g[c]), np.full(len(g), (1 - k) * between(hours, t, w) + k * between(hours, t, x)), "the velocities shown among ice are not those of the file (%s)" % name, rtol=1e-5, atol=1e-5)
            mon.event("ice_shown")
    finally:
        shutil.rmtree(d0)


def straight(rng, mon, f, lat, lon, hours, factor, units, times, d0):
    """a curvilinear file whose lines are straight: bilinear between its nodes; leaning, within the values around"""
    R, C = len(lat), len(lon)
    dx, dy = lon[1] - lon[0], lat[1] - lat[0]
    lean = 0. if rng.random() < .6 else float(rng.choice([-1, 1]) * rng.uniform(.1, .6))
    yy, xx = np.meshgrid(lat, lon, indexing="ij")
    xx = xx + lean * dx * np.arange(R)[:, None]
    U, V = np.float32(rng.normal(size=(2, len(hours), R, C))).astype(float)
    layers = depths = None
    if rng.random() < .3:
        kind, n = str(rng.choice(["sigma", "levels"])), int(rng.choice([2, 3, 6]))
        bottom = float(rng.choice([10., 37., 200.]))
        lev = np.r_[0, np.sort(rng.choice(np.arange(1, 20), n - 2, replace=False)) / 20, 1]
        if kind == "levels":
            lev = lev * bottom
        layers, depths = (kind, lev, np.full(yy.shape, bottom)), lev * (bottom if kind == "sigma" else 1)
        U, V = np.float32(rng.normal(size=(2, len(hours), n, R, C))).astype(float)
    mask = None
    if rng.random() < .5:
        # land: nothing there, or a value that stands for none
        mask = np.ones((R, C))
        if rng.random() < .5:
            mask[rng.random((R, C)) < .2] = 0
        else:
            mask[:, :int(rng.integers(0, C - 1))] = 0
        wet = mask > 0
        U, V = np.where(wet, U, 0), np.where(wet, V, 0)
        mon.event("land_in_grid", int((~wet).sum()))
    none = -9999. if mask is not None and rng.random() < .5 else 0.
    curv(f, yy, xx, hours, *(factor * X if mask is None else np.where(wet, factor * X, none) for X in (U, V)), mask=mask, layers=layers, units=units, scale=times)
    box = (xx.min(), yy.min(), xx.max(), yy.max())

    def at(q):
        r = (q[:, 1] - lat[0]) / dy
        return r, (q[:, 0] - lon[0]) / dx - lean * r

    def judge(q):
        r, c = at(q)
        near = np.minimum(np.abs(r - np.round(r)) * dy, np.abs(c - np.round(c)) * dx) < 2e-5
        ins = (r > 0) & (r < R - 1) & (c > 0) & (c < C - 1)
        far = (r < -1) | (r > R) | (c < -1) | (c > C)
        return np.where(ins & ~near, 1, np.where(far, 0, -1))

    def field(q, t):
        r, c = at(q)
        i, j = np.clip(np.floor(r).astype(int), 0, R - 2), np.clip(np.floor(c).astype(int), 0, C - 2)
        r, c = np.clip(r - i, 0, 1), np.clip(c - j, 0, 1)
        out = []
        for X in (between(hours, t, U), between(hours, t, V)):
            X = X.reshape(-1, R, C)
            around = np.array([X[:, i, j], X[:, i, j + 1], X[:, i + 1, j], X[:, i + 1, j + 1]])
            if depths is None:
                around = around[:, 0]
            else:
                k = np.clip(np.searchsorted(depths, q[:, 2]), 1, len(depths) - 1)
                w = np.clip((q[:, 2] - depths[k - 1]) / (depths[k] - depths[k - 1]), 0, 1)
                m = np.arange(len(q))
                around = (1 - w) * around[:, k - 1, m] + w * around[:, k, m]
            out.append((np.sum(around * [(1 - r) * (1 - c), (1 - r) * c, r * (1 - c), r * c], axis=0), around.min(0), around.max(0)))
        if lean:
            # no more than the values around: their middle, and half their spread allowed
            return (out[0][1] + out[0][2]) / 2, (out[1][1] + out[1][2]) / 2, np.column_stack([(o[2] - o[1]) / 2 for o in out])
        return out[0][0], out[1][0], np.column_stack([(o[2] - o[1]) * 4e-6 / min(dx, dy) for o in out])
    mon.event("leaning_grid" if lean else "straight_grid")
    mon.ctx["layers"] = str(None if layers is None else (layers[0], depths))
    native(rng, mon, f, "NetCDF curvilinear", box, hours, field, judge, d0, depths=depths)


def tri(path, M, hours, U, V, order, cells, rng, fill=-9999.):
    """triangles with their neighbours, velocities at the nodes or in the triangles"""
    t, adj = M.t.copy(), M.adj.copy()
    if order == "cw":
        # the package turns them round: second and third change places
        t, adj = t[:, [0, 2, 1]], adj[:, [0, 2, 1]]
    edge = np.unique(np.concatenate([M.t[k][[(j + 1) % 3, (j + 2) % 3]] for k in range(len(M.t)) for j in range(3) if M.adj[k, j] < 0]))
    with netCDF4.Dataset(path, "w", format="NETCDF3_CLASSIC") as d:
        d.grid_type = str(rng.choice(["TRIANGULAR", "Triangular"]))
        d.createDimension("time", None)
        for n, x in (("node", len(M.p)), ("nele", len(t)), ("nbnd", len(edge)), ("nbi", 4), ("three", 3)):
            d.createDimension(n, x)
        v = d.createVariable("time", "f8", ("time",))
        v.units = "hours since 2020-03-01 00:00:00"
        v[:] = hours
        d.createVariable("lat", "f4", ("node",))[:] = np.float32(M.ll[:, 1])
        d.createVariable("lon", "f4", ("node",))[:] = np.float32(M.ll[:, 0])
        v = d.createVariable("bnd", "i4", ("nbnd", "nbi"))
        v[:] = np.column_stack([np.roll(edge, 1) + 1, edge + 1, np.full(len(edge), int(rng.choice([0, 1]))), rng.integers(0, 2, len(edge))])
        d.createVariable("nv", "i4", ("three", "nele"))[:] = t.T + 1
        v = d.createVariable("nbe", "i4", ("three", "nele"))
        v[:] = adj.T + 1
        v.order = order
        for n, X in (("u", U), ("v", V)):
            v = d.createVariable(n, "f4", ("time", "nele" if cells else "node"))
            v.units = "m/s"
            v.missing_value = np.float32(fill)
            v[:] = X


def netcdf_tri_case(i, rng, mon):
    box = BOXES[int(rng.integers(0, len(BOXES)))]
    while True:
        M, _ = mesh(rng, box)
        # the file has single precision degrees
        M.ll = np.float32(M.p / 1e6)
        M.p = np.trunc(M.ll.astype(float) * 1e6).astype(int)
        if whole(M) and (M.area2(M.p, M.t) > 0).all():
            break
    cells = bool(rng.random() < .5)
    hours = axes(rng)
    U, V = np.float32(rng.normal(size=(2, len(hours), len(M.t) if cells else len(M.p)))).astype(float)
    # still water, and currents due north or east
    for X in (U, V):
        X[rng.random(X.shape) < float(rng.choice([0, .2]))] = 0
    missing = np.broadcast_to(rng.random(U.shape[1]) < float(rng.choice([0, .1])), U.shape)
    d0 = scratch()
    try:
        f = os.path.join(d0, "t.nc")
        tri(f, M, hours, np.where(missing, -9999., U), np.where(missing, -9999., V), str(rng.choice(["cw", "ccw"])), cells, rng)
        U, V = np.where(missing, 0, U), np.where(missing, 0, V)

        def judge(q):
            k, far = M.find(q[:, :2])
            return np.where(far > 20, (k >= 0).astype(int), -1)

        def field(q, t):
            k, far = M.find(q[:, :2])
            k = np.maximum(k, 0)
            a, b = between(hours, t, U), between(hours, t, V)
            if cells:
                mon.event("first_triangle", int(((k == 0) & (judge(q) == 1)).sum()))
                return a[k], b[k], None
            w = M.weights(k, q[:, :2])
            eps = np.array([3e-6, 0.]), np.array([0., 3e-6])
            dw = sum(np.abs(M.weights(k, q[:, :2] + e) - w) for e in eps)
            return (w * a[M.t[k]]).sum(axis=1), (w * b[M.t[k]]).sum(axis=1), (dw * np.maximum(np.abs(a), np.abs(b))[M.t[k]]).sum(axis=1)
        mon.ctx["cells"] = cells
        native(rng, mon, f, "NetCDF triangular", box, hours, field, judge, d0)
    finally:
        shutil.rmtree(d0)


def native_order_case(i, rng, mon):
    """a field linear in place and time is interpolated exactly, so the methods can be held to their order"""
    from gnome.movers.c_current_movers import c_GridCurrentMover
    box = (10., -.5, 11., .5)
    h = int(rng.choice([1800, 3600]))
    lon0, lat0 = 10.5, 0.
    F = Field(rng, lon0, lat0, h, speed=float(rng.choice([1., 3.])), lin=True)
    steady = bool(rng.random() < .3)
    F.steady = steady
    while True:
        M, tr = mesh(rng, box, n=int(rng.integers(4, 20)))
        k, far = M.find(np.array([[lon0, lat0]]))
        if k[0] >= 0:
            break
    hours = np.array([-3., 4.])
    X = (M.p[:, 0] / 1e6 - lon0) * MPD
    Y = (M.p[:, 1] / 1e6 - lat0) * MPD
    UV = np.array([F.uv(X, Y, t * 3600.) for t in hours])
    d0 = scratch()
    try:
        f = os.path.join(d0, "b.cur")
        curfiles.ptcur(f, M, None if whole(M) else tr, [T0 + dt.timedelta(hours=float(x)) for x in hours], UV[:, :, 0], UV[:, :, 1])
        n = 20
        q = np.zeros((n, 3))
        q[:, 0] = rng.uniform(10.2, 10.8, n)
        q[:, 1] = rng.uniform(-.3, .3, n)
        x, y = (q[:, 0] - lon0) * MPD, (q[:, 1] - lat0) * MPD
        back = bool(rng.random() < .4)
        H = -h if back else h
        # only those whose velocity is asked for within the mesh, at every stage of every method
        ok = np.ones(n, bool)
        at = lambda v, part: (x + part * H * v[:, 0], y + part * H * v[:, 1])
        k1 = F.uv(x, y, 0.)
        k2 = F.uv(*at(k1, .5), H / 2)
        k3 = F.uv(*at(k2, .5), H / 2)
        for v, part in ((k1, 0.), (k1, .5), (k1, 1.), (k2, .5), (k2, 1.), (k3, .5), (k3, 1.)):
            px, py = at(v, part)
            k, far = M.find(np.column_stack([lon0 + px / MPD, lat0 + py / MPD]))
            ok &= (k >= 0) & (far > 100)
        k, far = M.find(q[:, :2])
        ok &= k >= 0
        if not ok.any():
            return
        sc = gn.sample_sc(n, q)
        want = F.exact(x, y, 0., H)
        mon.ctx["what"] = "native, step %s steady %s" % (H, steady)
        for method in ("Euler", "RK2", "RK4"):
            m = c_GridCurrentMover(f, num_method=method)
            m.prepare_for_model_run()
            m.prepare_for_model_step(sc, H, T0)
            d = np.array(m.get_move(sc, H, T0))
            got = metres(d, q)
            way = abs(H) * fastest(F, x, y, H) + 1.
            B = 1.5e-4 * way + 1.
            if method != "Euler":
                B += bound(method, F.rate(), H, way)
            e = np.abs(got - (F.uv(x, y, 0.) * H if method == "Euler" else want))[ok].max()
            mon.check(e <= B, "displacement by the native grid current is not of the order of %s" % method, lambda: "off by %s m of %s m, at most %s" % (e, way, B))
            mon.event("native_order_" + method.lower(), int(ok.sum()))
            mon.state(("native order", method, back, steady))
    finally:
        shutil.rmtree(d0)


def uniform_case(i, rng, mon):
    """the same uniform current in every form and method"""
    from gnome.movers import CatsMover, CurrentMover, SimpleMover
    from gnome.movers.c_current_movers import c_GridCurrentMover
    from gnome.environment.environment_objects import SteadyUniformCurrent
    box = BOXES[int(rng.integers(0, len(BOXES)))]
    x0, y0, x1, y1 = box
    u, v = (float(np.float32(z)) for z in rng.normal(size=2))
    M, tr = mesh(rng, box, 30)
    R, C = 6, 7
    d0 = scratch()
    try:
        n = 40
        q = np.zeros((n, 3))
        q[:, 0] = rng.uniform(x0 + .2 * (x1 - x0), x1 - .2 * (x1 - x0), n)
        q[:, 1] = rng.uniform(y0 + .2 * (y1 - y0), y1 - .2 * (y1 - y0), n)
        k, far = M.find(q[:, :2])
        h = int(rng.choice([60, 900, -900]))
        way = abs(h) * np.hypot(u, v) / MPD * 1e6 * (3 if abs(q[0, 1]) > 55 else 2)
        q = q[(k >= 0) & (far > way + 20)]
        if len(q) == 0:
            return
        n = len(q)
        sc = gn.sample_sc(n, q)
        times = [T0 + dt.timedelta(hours=x) for x in (-5, 5)]
        lat, lon = np.linspace(y0, y1, R), np.linspace(x0, x1, C)
        one = np.ones((2, R, C))
        curfiles.cats(d0 + "/a.cur", M, tr, np.full(len(M.t), u), np.full(len(M.t), v))
        curfiles.ptcur(d0 + "/b.cur", M, tr, times, np.full((2, len(M.p)), u), np.full((2, len(M.p)), v))
        curfiles.gridcur(d0 + "/c.cur", R, C, box, times, one * u, one * v)
        reg(d0 + "/r.nc", lat, lon, [-5, 5], one * u, one * v)
        yy, xx = np.meshgrid(lat, lon, indexing="ij")
        curv(d0 + "/k.nc", yy, xx, [-5, 5], one * u, one * v)
        ms = [("CATS", CatsMover(d0 + "/a.cur")), ("simple", SimpleMover(velocity=(u, v, 0)))]
        for meth in ("Euler", "RK2", "RK4"):
            for nm in ("b.cur", "c.cur", "r.nc", "k.nc"):
                ms.append(("%s %s" % (nm, meth), c_GridCurrentMover(os.path.join(d0, nm), num_method=meth)))
            ms.append(("Python " + meth, CurrentMover(current=SteadyUniformCurrent(float(np.hypot(u, v)), float(np.degrees(np.arctan2(u, v))) % 360), default_num_method=meth)))
        want = np.tile([u * h, v * h], (n, 1))
        ok = np.ones(n, bool)
        for nm, m in ms:
            m.prepare_for_model_run()
            m.prepare_for_model_step(sc, h, T0)
            d = np.array(m.get_move(sc, h, T0))
            mon.ctx["what"] = "uniform %s step %s" % (nm, h)
            # Python and native degrees differ by 8e-6
            agree(mon, metres(d, q), want, ok, "a uniform current does not move elements by itself times the step (%s)" % nm.split()[0], h)
            m.model_step_is_done(sc)
            mon.event("uniform_same", n)
            mon.state(("uniform", nm, h < 0))
    finally:
        shutil.rmtree(d0)


def cycle_case(i, rng, mon):
    """patterns for the stages of a tide: the one in effect is where the tide is in its cycle"""
    import gnome
    import p11
    from gnome.environment import Tide
    from gnome.movers.c_current_movers import c_GridCurrentMover, CurrentCycleMover
    from gnome.utilities.time_utils import date_to_sec
    box = BOXES[int(rng.integers(0, len(BOXES)))]
    n = int(rng.choice([2, 4, 5, 8, 12, 12, 24]))
    hours = np.arange(n) * float(rng.choice([.5, 1., 1.25]))
    A, B = np.float32(rng.normal(size=(2, n))).astype(float)
    tide = rng.random() < .8
    d0 = scratch()
    try:
        f, top = os.path.join(d0, "t.nc"), os.path.join(d0, "top.dat")
        if tide and rng.random() < .4:
            yy, xx = np.meshgrid(np.linspace(box[1], box[3], 5), np.linspace(box[0], box[2], 6), indexing="ij")
            curv(f, yy, xx, hours, np.broadcast_to(A[:, None, None], (n, 5, 6)), np.broadcast_to(B[:, None, None], (n, 5, 6)))
            place = ((box[0] + box[2]) / 2 + (box[2] - box[0]) * .03, (box[1] + box[3]) / 2 + (box[3] - box[1]) * .04)
        else:
            while True:
                M, _ = mesh(rng, box)
                M.ll = np.float32(M.p / 1e6)
                M.p = np.trunc(M.ll.astype(float) * 1e6).astype(int)
                if whole(M) and (M.area2(M.p, M.t) > 0).all():
                    break
            cells = bool(rng.random() < .5)
            m = len(M.t) if cells else len(M.p)
            tri(f, M, hours, np.repeat(A[:, None], m, axis=1), np.repeat(B[:, None], m, axis=1), "ccw", cells, rng)
            area = M.area2(M.p, M.t)
            place = M.p[M.t[int(np.argmax(area))]].mean(axis=0) / 1e6
        c_GridCurrentMover(f).export_topology(top)
        kw = {}
        year = int(rng.integers(1990, 2024))
        start = dt.datetime(year, 1, 5) + dt.timedelta(days=int(rng.integers(0, 50)), minutes=int(rng.integers(0, 1440)))    # no summer time
        if tide:
            k = len(p11.SPEED)
            H = np.zeros(k)
            which = int(rng.choice([0, 0, 3, 5]))       # M2, K1, O1
            kind = str(rng.choice(["C", "C", "H"]))
            H[which] = round(float(rng.uniform(.3, 2)), 4)
            kp = round(float(rng.uniform(0, 360)), 1)
            with open(os.path.join(d0, "c.txt"), "w") as fd:
                hs, ks = " ".join("%.4f" % x for x in H), " ".join(["%.1f" % kp] * k)
                fd.write(p11.SHIO_C % ("32.0", "-81.0", 0., 0, hs, ks) if kind == "C" else p11.SHIO % ("32.0", "-81.0", hs, ks))
            y = np.array(open(os.path.join(os.path.dirname(gnome.__file__), "data", "yeardata", "#%d" % year)).read().split(), dtype=float).reshape(-1, 2)[which]
            kw["tide"] = Tide(os.path.join(d0, "c.txt"))
            lap = 360 / p11.SPEED[which]

            def stage(t):
                """part of the cycle since the strongest flood, which is a quarter before high water"""
                return ((t - dt.datetime(year, 1, 1)).total_seconds() / 3600 / lap + (y[1] - kp) / 360 + (.25 if kind == "H" else 0.)) % 1
        scale = float(rng.choice([1., .4, 2.5]))
        m = CurrentCycleMover(f, topology_file=top, current_scale=scale, **kw)
        q = np.zeros((3, 3))
        q[:, :2] = place
        sc = gn.sample_sc(3, q)
        sc["status_codes"][2] = oil_status.on_land
        m.prepare_for_model_run()
        h = int(rng.choice([900, 60]))
        if tide:
            ts = [start + dt.timedelta(minutes=int(x)) for x in np.sort(rng.integers(0, 3 * 1440, 30))]
            # every second around the strongest flood, slack and the strongest ebb
            for part in (0., .25, .5, .75):
                near = start + dt.timedelta(hours=((part - stage(start)) % 1 + int(rng.integers(0, 3))) * lap)
                near = near.replace(microsecond=0)
                ts += [near + dt.timedelta(seconds=x) for x in range(-40, 41)]
                mon.event("cycle_turn")
            ts = sorted(ts)
            if rng.random() < .3:
                ts = ts[::-1]
                h = -h
                mon.event("cycle_backward")
        else:
            ts = [start] + [start + dt.timedelta(hours=float(x)) for x in np.sort(rng.uniform(0, hours[-1], 10))] + [start + dt.timedelta(hours=float(hours[-1]))]
            ts += [ts[-1] + dt.timedelta(hours=float(x)) for x in (.01, 1., 30.)]
        mon.ctx["what"] = "patterns %d, tide %s" % (n, tide and (kind, which))
        for t in ts:
            t = t.replace(microsecond=0)
            try:
                m.prepare_for_model_step(sc, h, t)
            except RuntimeError:
                mon.check(not tide and (t - start).total_seconds() > hours[-1] * 3600 - 1, "a current pattern is refused at some time of a tide", lambda: "%s, %d patterns" % (t, n))
                m.model_step_is_done(sc)
                mon.event("cycle_outside_refused")
                continue
            d = metres(m.get_move(sc, h, t), q)[:, :2]
            m.model_step_is_done(sc)
            mon.check(not d[2].any(), "an element that is not in the water was moved", lambda: str(d[2]))
            if tide:
                speed = abs(float(kw["tide"].cy_obj.get_time_value(date_to_sec(t))[0]["u"][0]))
                x = stage(t) * n
                err = .012 * n      # how well the tables of the tide have the times of its stages
            else:
                x, speed, err = (t - start).total_seconds() / 3600 / (hours[1] - hours[0]), 1., 1e-4
                if x > n - 1:
                    mon.check(x < n - 1 + 1e-3, "a current pattern was used after the last of them", lambda: "%s, %d patterns" % (t, n))
                    x = n - 1.
            xs = np.concatenate([[x - err, x + err], np.arange(np.ceil(x - err), x + err)]) % n if tide else np.clip([x - err, x, x + err], 0, n - 1)
            k, w = np.floor(xs).astype(int), xs % 1
            for X, got in ((A, d[0, 0]), (B, d[0, 1])):
                e = ((1 - w) * X[k % n] + w * X[(k + 1) % n]) * speed * scale * h
                slack = .001 * abs(X).max() * speed * scale * abs(h) + .02
                mon.check(e.min() - slack <= got <= e.max() + slack, "a current pattern is not that of the stage of the tide" if tide else "a current pattern is not that of the time since the start",
                          lambda: "moved %.4f m, expected %.4f to %.4f at %s, %d patterns, at %.3f" % (got, e.min(), e.max(), t, n, x))
            mon.event("cycle_tide_" + kind if tide else "cycle_no_tide")
        mon.state("cycle", n, tide and (kind, which), scale)
    finally:
        shutil.rmtree(d0)


CASES = [order_case, grid_object_case, cats_case, ptcur_case, gridcur_case, netcdf_case, netcdf_case, native_order_case, uniform_case, cats_case, netcdf_tri_case, component_case, ice_case, cycle_case]


def case(i, rng, mon):
    k = CASES[i % len(CASES)]
    try:
        k(i % len(CASES) if k is netcdf_case else i, rng, mon)
    except (AssertionError, ValueError, TypeError, RuntimeError, OSError, IndexError, AttributeError, KeyError) as e:
        if blame(e) == "code":
            mon.violation("a current cannot be used: " + type(e).__name__, "%s (%s)" % (e, mon.ctx.get("what")))
        else:
            raise
