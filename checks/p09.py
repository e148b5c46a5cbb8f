"""Every step of generated runs: what the movers returned, what the elements did."""
PROPERTY = "P09"
KIND = "plain"
N = {"quick": 700, "thorough": 12000}
BUDGET = {"quick": 90, "thorough": 2000}
RULE = "(kinds of active movers, kinds of inactive ones, set, forward or backward, some element not in water)"
NEED = ["steps_judged", "inactive_movers", "switched_off", "several_movers", "not_in_water", "backward", "uncertain_set", "order_compared",
        "there_and_back", "deterministic_moves", "high_latitude", "single_alone"]
ASSUMES = ["the random part of a random mover is judged by P13; here what it returned is taken as its move"]

import datetime as dt

import numpy as np
import gn
from gn import T0, sec, oil_status
from gnome.environment.environment_objects import SteadyUniformCurrent

MPD = 1. / 8.9992801e-06
KINDS = ["simple", "simple2", "random", "rand3d", "wind", "pwind", "current", "rise", "probe", "rot"]


def wind_uv(S, t):
    """wind vector at a time from the record, by component (calculated here)"""
    tt = np.array([x[0] for x in S["wind"]])
    u = np.array([-x[1] * np.sin(np.radians(x[2])) for x in S["wind"]])
    v = np.array([-x[1] * np.cos(np.radians(x[2])) for x in S["wind"]])
    return np.interp(t, tt, u), np.interp(t, tt, v)


def degrees(d, pos):
    out = np.array(d, float)
    out[:, 0] = d[:, 0] / MPD / np.cos(np.radians(pos[:, 1]))
    out[:, 1] = d[:, 1] / MPD
    return out


def RTOL(m, ts):
    return 3e-5 if m["kind"] == "wind" else 1e-7


class Field(SteadyUniformCurrent):
    """a current that varies in space and time: rotating and sheared"""
    def __init__(self, p):
        super().__init__(speed=1., direction=0.)
        self.p = p

    def vel(self, pos, t):
        a, b, w, x0, y0, sh = self.p
        ph = w * t
        return np.c_[a * np.cos(ph) + sh * (pos[:, 1] - y0), b * np.sin(ph) - sh * (pos[:, 0] - x0), np.zeros(len(pos))]

    def at(self, points, time, *a, **k):
        return self.vel(np.asarray(points), (time - T0).total_seconds())


def make_movers(S, M, wind):
    from gnome.movers import SimpleMover, RandomMover, RandomMover3D, RiseVelocityMover, PointWindMover, WindMover, CurrentMover
    from gnome.movers.movers import Mover

    class Probe(Mover):
        _schema = SimpleMover._schema

        def __init__(self, v, **kw):
            self.v = v
            super().__init__(**kw)

        def get_move(self, sc, time_step, model_time_datetime):
            d = np.zeros_like(sc["positions"])
            if self.active:
                d[sc["status_codes"] == oil_status.in_water] = self.v
            return d

    out = []
    for m in M:
        kw = dict(on=m["on"])
        if m["range"]:
            kw["active_range"] = tuple(T0 + sec(x) for x in m["range"])
        k, v = m["kind"], m["v"]
        if k == "simple":
            o = SimpleMover((v[0], v[1], 0.), **kw)
        elif k == "simple2":
            o = SimpleMover((v[1], v[0], v[2]), uncertainty_scale=m["us"], **kw)
        elif k == "random":
            o = RandomMover(diffusion_coef=m["d"], **kw)
        elif k == "rand3d":
            o = RandomMover3D(**kw)
        elif k == "wind":
            o = PointWindMover(wind, **kw)
        elif k == "pwind":
            o = WindMover(wind, default_num_method=m["num"], **kw)
        elif k == "current":
            o = CurrentMover(SteadyUniformCurrent(speed=float(np.hypot(v[0], v[1])), direction=float(np.degrees(np.arctan2(v[0], v[1])) % 360)),
                             default_num_method=m["num"], scale_value=m["scale"], **kw)
        elif k == "rot":
            o = CurrentMover(Field(m["field"]), default_num_method=m["num"], scale_value=m["scale"], **kw)
        elif k == "rise":
            o = RiseVelocityMover(**kw)
        elif k == "probe":
            o = Probe((v[0] * 1e-6, v[1] * 1e-6, m["pz"]), **kw)
        out.append(o)
    return out


def numeric(f, scale, num, pos, t, ts):
    """Euler / second / fourth order steps in metres for a velocity field"""
    if num == "Euler":
        return f(pos, t) * ts * scale
    if num == "RK2":
        v0 = f(pos, t)
        v1 = f(pos + degrees(v0 * ts, pos), t + ts)
        return ts / 2 * (v0 + v1) * scale
    v0 = f(pos, t)
    v1 = f(pos + degrees(v0 * ts / 2, pos), t + ts / 2)
    v2 = f(pos + degrees(v1 * ts / 2, pos), t + ts / 2)
    v3 = f(pos + degrees(v2 * ts, pos), t + ts)
    return ts / 6 * (v0 + 2 * v1 + 2 * v2 + v3) * scale


def reference(S, m, sc, pos, st, t, ts, uncertain):
    """what a mover without random part does to each element, or None; (degrees, degrees, metres)"""
    k, v = m["kind"], m["v"]
    n = len(pos)
    d = np.zeros((n, 3))
    if uncertain and k in ("simple", "simple2", "wind", "pwind", "current", "rot"):
        return None
    if k in ("random", "rand3d"):
        return None
    if k == "simple":
        d[:] = np.array((v[0], v[1], 0.)) * ts
        d = degrees(d, pos)
    elif k == "simple2":
        d[:] = np.array((v[1], v[0], v[2])) * ts
        d = degrees(d, pos)
    elif k == "current":
        d[:, 0], d[:, 1] = v[0] * ts * m["scale"], v[1] * ts * m["scale"]
        d = degrees(d, pos)
    elif k == "rot":
        d = degrees(numeric(Field(m["field"]).vel, m["scale"], m["num"], pos, t, ts), pos)
    elif k == "wind":
        u, w = wind_uv(S, t)
        d[:, 0], d[:, 1] = u * ts * sc["windages"], w * ts * sc["windages"]
        d[pos[:, 2] > 0] = 0
        d = degrees(d, pos)
    elif k == "pwind":
        f = lambda p, s: np.c_[np.tile(wind_uv(S, np.floor(s))   # wind records resolve whole seconds
                                      , (len(p), 1)), np.zeros(len(p))]
        d = numeric(f, 1., m["num"], pos, t, ts) * sc["windages"][:, None]
        d[pos[:, 2] > 0] = 0
        d = degrees(d, pos)
    elif k == "rise":
        d[:, 2] = -sc["rise_vel"] * ts
    elif k == "probe":
        d[:] = (v[0] * 1e-6, v[1] * 1e-6, m["pz"])
    d[st != oil_status.in_water] = 0
    return d


def case(i, rng, mon):
    back = i % 5 == 4
    S = gn.random_spec(rng, oil=False, weather=False, back=back, movers=[], nmax=30, land=bool(i % 3 == 1) if i % 3 < 2 else None,
                       kinds=["point", "line", "custom", "grid", "subsurf"] if back or i % 2 else ["point", "line", "custom", "contin", "subsurf", "moving"])
    S["windage"] = (.01, .05)
    if S["map"] == "open" and rng.random() < .4:       # nearly at the pole
        lat = float(rng.choice([-1, 1]) * rng.uniform(65, 84))
        for sp in S["spills"]:
            sp["c"] = (sp["c"][0], lat)
        mon.event("high_latitude")
    rise = any(p["kind"] == "subsurf" and p["on"] for p in S["spills"])
    if rise:                    # an element without a rise velocity cannot be moved by the rise mover
        S["spills"] = [p for p in S["spills"] if p["kind"] == "subsurf"]
    vel = (S["cell"] * 111000 / S["ts"] if S["map"] == "raster" else .02 * 111000 / S["ts"])
    M = []
    for _ in range(int(rng.integers(1, 6))):
        k = str(rng.choice([x for x in KINDS if x != "rise" or rise]))
        a = float(rng.uniform(-1, 6) * S["ts"]) if rng.random() < .5 else float(rng.choice([.5, 1, 1.5, 2, 2.5]) * S["ts"])
        b = a + float(rng.choice([.2, .5, 1, 3, 5.3]) * S["ts"])
        if back:
            a, b = -b, -a
        M.append(dict(kind=k, v=(float(rng.normal(0, vel)), float(rng.normal(0, vel)), float(rng.choice([0, 0, 1e-3, -1e-3]))),
                      d=float(rng.choice([1e3, 1e5])), us=float(rng.choice([.5, 0, .1])), on=bool(rng.random() > .12),
                      range=(a, b) if rng.random() < .45 else None, num=str(rng.choice(["Euler", "RK2", "RK4"])), scale=float(rng.choice([1, 1, .5, 2, -1, 0])),
                      pz=float(rng.choice([0, 0, .5, -.5])),
                      field=(float(rng.normal(0, vel)), float(rng.normal(0, vel)), float(rng.uniform(-2, 2) / S["ts"]), S["lon0"], S["lat0"], float(rng.normal(0, 5)))))
    S["wind"] = [(float(t * 3600), float(rng.uniform(0, 16)), float(rng.uniform(0, 360))) for t in ([0] if rng.random() < .4 else [-30, -3, 0, 1, 2, 5, 40])]
    mon.ctx["spec"] = gn.brief(S)
    mon.ctx["movers"] = [(m["kind"], m["on"], m["range"]) for m in M]
    rmix = rng.random() < .5

    def run(order, hook=True, only=None):
        model = gn.build(S)
        wind, water, waves = gn.build_env(S)
        objs = make_movers(S, M, wind)
        for j in order:
            model.movers += objs[j]
        model.environment += [wind]
        gn.seed_model(S["seed"])
        log = {}
        tr = []
        if hook:
            for j in order:
                def wrap(o=objs[j], j=j, orig=objs[j].get_move):
                    def f(sc, time_step, model_time):
                        p0 = np.array(sc["positions"])
                        d = orig(sc, time_step, model_time)
                        log.setdefault((sc.uncertain, j), []).append((np.array(d), time_step, model_time, np.array_equal(p0, sc["positions"])))
                        return d
                    o.get_move = f
                wrap()
            ob = model.map.beach_elements

            def beach(sc, model_time=None):
                log[(sc.uncertain, "in")] = (np.array(sc["positions"]), np.array(sc["next_positions"]), np.array(sc["status_codes"]), {k: np.array(sc[k]) for k in ("windages", "rise_vel") if k in sc})
                return ob(sc, model_time)
            model.map.beach_elements = beach
        for s in range(S["n"] + 1):
            log.clear()
            model.step()
            if hook and s:
                judge(model, log, order, s)
            tr.append([(sc.uncertain, np.array(sc["positions"]), np.array(sc["status_codes"]), np.array(sc["id"])) for sc in model.spills.items()])
        return tr

    sg = -1 if back else 1

    def judge(model, log, order, s):
        t = sg * (s - 1) * S["ts"]                     # start of this step
        ts = sg * S["ts"]
        mid = t + ts / 2
        for u in ([False, True] if S["uncertain"] else [False]):
            if (u, "in") not in log:
                mon.check(not any(k[0] == u for k in log), "movers were used without a step being completed")
                continue
            pos, nxt, st, extra = log[(u, "in")]
            inw = st == oil_status.in_water
            total = np.zeros_like(pos)
            act, ina = [], []
            for j in order:
                m = M[j]
                calls = log.get((u, j), [])
                if not mon.check(len(calls) == 1, "mover not used exactly once in a step", lambda: "%s %d times, uncertain=%s" % (m["kind"], len(calls), u)):
                    continue
                d, ats, amt, untouched = calls[0]
                mon.check(untouched, "mover changed the positions itself", m["kind"])
                mon.check(d.shape == pos.shape and bool(np.isfinite(d).all()), "move is not one finite vector per element", lambda: "%s %s" % (m["kind"], d.shape))
                mon.check(ats == ts and amt == T0 + sec(t), "mover given the wrong time or step", lambda: "%s %s" % (ats, amt))
                total += d
                active = m["on"] and (m["range"] is None or m["range"][0] <= mid <= m["range"][1])
                if m["range"] is not None and min(abs(m["range"][0] - mid), abs(m["range"][1] - mid)) < 1e-3 and (m["range"][0] != mid and m["range"][1] != mid):
                    active = None                       # closer than the clock resolves
                (act if active else ina).append(m["kind"])
                if active is False:
                    mon.event("inactive_movers")
                    if not m["on"]:
                        mon.event("switched_off")
                    mon.check(not d.any(), "mover that is off or out of its active time moved elements", lambda: "%s %s" % (m["kind"], d[:3]))
                if not inw.all():
                    mon.event("not_in_water", int((~inw).sum()))
                    mon.check(not d[~inw].any(), "element that is not in water was moved", lambda: "%s status %s" % (m["kind"], st[~inw][:4]))
                if active:
                    ref = reference(S, m, extra, pos, st, t, ts, u)
                    if ref is not None:
                        mon.event("deterministic_moves", int(inw.sum()))
                        # the native movers take 3.14159 for pi and single precision in the latitude factor
                        mon.check(bool(np.all(np.abs(d - ref) <= RTOL(m, ts) * np.abs(ref) + 1e-11)), "move differs from velocity times step",
                                  lambda: "%s %s: got %s, expected %s (lat %s)" % (m["kind"], m["num"], d[inw][:2], ref[inw][:2], pos[inw][:2, 1]))
            want = pos + total
            mon.check(bool(np.all(np.abs(nxt - want) <= 1e-12 * (1 + np.abs(want)))), "next position is not the position plus the sum of the moves",
                      lambda: "off by %s" % (nxt - want)[np.abs(nxt - want).max(axis=1).argmax()])
            # what becomes of it: the destination, unless the map stopped or removed it
            for sc in model.spills.items():
                if sc.uncertain == u:
                    n = len(pos)
                    p, f = sc["positions"], sc["status_codes"]
                    if S["map"] == "open" and len(p) >= n:
                        mon.check(bool(np.all(np.abs(p[:n] - np.c_[want[:, :2], np.maximum(want[:, 2], 0)]) <= 1e-12 * (1 + np.abs(p[:n])))),
                                  "element not at its destination after the step")
            mon.event("steps_judged")
            if len(order) > 1:
                mon.event("several_movers")
            if back:
                mon.event("backward")
            if u:
                mon.event("uncertain_set")
            mon.state(sorted(set(act)), sorted(set(ina)), u, back, bool((~inw).any()))

    order = list(range(len(M)))
    a = run(order)
    rand = [j for j in order if M[j]["kind"] in ("random", "rand3d")] or S["uncertain"] or S["map"] == "raster"
    if len(order) > 1 and not rand:
        b = run(order[::-1], hook=False)
        mon.event("order_compared")
        for x, y in zip(a, b):
            for p, q in zip(x, y):
                if p[1].shape == q[1].shape:
                    mon.check(bool(np.all(np.abs(p[1] - q[1]) <= 1e-9 * (1 + np.abs(p[1])))), "result depends on the order of the movers",
                              lambda: "%s" % np.abs(p[1] - q[1]).max())
                else:
                    mon.check(S["map"] == "bounds", "number of elements depends on the order of the movers")
    # out and back again with the same constant velocity
    if i % 4 == 0:
        there_and_back(rng, mon)
    if i % 4 == 2:
        alone(rng, mon, S)


def there_and_back(rng, mon):
    from gnome.model import Model
    from gnome.movers import SimpleMover
    from gnome.spills import Spill
    from gnome.spills.release import PointLineRelease
    lon, lat = float(rng.uniform(-170, 170)), float(rng.uniform(-80, 80))
    ts, n = int(rng.choice([300, 900, 3600])), int(rng.integers(1, 8))
    v = (float(rng.normal(0, 1)), float(rng.normal(0, 1)), 0.)

    def go(start, sg, p):
        m = Model(start_time=start, time_step=sg * ts, duration=sec(sg * n * ts))
        m.spills += Spill(release=PointLineRelease(release_time=start, start_position=p, num_elements=1))
        m.movers += SimpleMover(v)
        for _ in range(n + 1):
            m.step()
        return np.array(list(m.spills.items())[0]["positions"][0])
    a = go(T0, 1, (lon, lat, 0.))
    b = go(T0 + sec(n * ts), -1, tuple(a))
    # each step uses the latitude it starts from: north-south exactly, east-west to first order in the step
    mon.close(a[1] - lat, v[1] * ts * n / MPD, "constant velocity does not add up over the steps", rtol=1e-9, atol=1e-11)
    mon.close(b[1], lat, "backward run does not undo the forward run", rtol=0, atol=1e-9)
    slop = abs(v[0]) * ts / MPD * (1 / np.cos(np.radians(max(abs(lat), abs(a[1])))) - 1 / np.cos(np.radians(min(abs(lat), abs(a[1])))))
    mon.close(b[0], lon, "backward run does not undo the forward run", rtol=0, atol=abs(slop) + 1e-9)
    mon.event("there_and_back")


def alone(rng, mon, S):
    """a mover asked directly about elements of every status and depth"""
    n = int(rng.integers(1, 12))
    lat = rng.uniform(-84, 84, n)
    pos = np.c_[rng.uniform(-179, 179, n), lat, rng.choice([0, 0, 3., 40.], n)]
    sc = gn.sample_sc(n, pos, windage_range=(.02, .03), windage_persist=-1, uncertain=False, arrays=("windages", "windage_range", "windage_persist"))
    st = rng.choice([oil_status.in_water, oil_status.in_water, oil_status.on_land, oil_status.off_maps, oil_status.not_released, oil_status.to_be_removed, oil_status.on_tideflat], n)
    sc["status_codes"][:] = st
    ts = int(rng.choice([-3600, -900, 60, 900, 3600]))
    wind, water, waves = gn.build_env(S)
    for k in ("simple", "simple2", "wind", "pwind", "current", "rot", "probe", "random", "rand3d"):
        m = dict(kind=k, v=(float(rng.normal()), float(rng.normal()), 1e-3), d=1e5, us=.5, on=True, range=None, num=str(rng.choice(["Euler", "RK2", "RK4"])),
                 scale=1., pz=.1, field=(1., .5, 1e-4, 0., 0., 1e-3))
        o = make_movers(S, [m], wind)[0]
        o.prepare_for_model_run()
        o.prepare_for_model_step(sc, ts, T0)
        d = np.array(o.get_move(sc, ts, T0))
        ref = reference(S, m, sc, pos, st, 0., ts, False)
        if ref is not None:
            mon.check(bool(np.all(np.abs(d - ref) <= RTOL(m, ts) * np.abs(ref) + 1e-11)), "move differs from velocity times step",
                      lambda: "%s %s ts=%s: got %s, expected %s" % (k, m["num"], ts, d[np.abs(d - ref).max(axis=1).argmax()], ref[np.abs(d - ref).max(axis=1).argmax()]))
        mon.check(not d[st != oil_status.in_water].any(), "element that is not in water was moved", lambda: "%s %s" % (k, st))
        mon.event("single_alone")
        mon.state("alone", k, sorted(set(int(x) for x in st)), ts > 0)
