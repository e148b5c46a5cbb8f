"""Uncertainty: paired runs with it off and on, and the deviations of the uncertain elements."""
PROPERTY = "P07"
KIND = "plain"
N = {"quick": 900, "thorough": 4000}
BUDGET = {"quick": 100, "thorough": 1800}
RULE = "(pair: release kinds, map, movers, weatherers) or (mover, delay against steps, redraws, light wind, elements added and removed, forward or backward)"
NEED = ["paired_steps", "sets_compared", "released_alike", "no_memory_shared", "wind_deviation", "wind_before_delay", "wind_constant", "wind_redrawn", "light_wind", "forecast_judged",
        "removed_in_between", "added_in_between", "current_deviation", "current_before_delay", "current_constant", "current_redrawn", "simple_deviation", "random_bounded", "backward", "weathered_pair", "rewound_pair", "spread_judged", "native_current", "gridded_wind", "edited_pair", "not_rewound", "split"]
ASSUMES = ["the spread of an uncertain wind grows with the elapsed time as in WindMover_c (the documented GNOME formulas)",
           "the native wind mover counts the elapsed time at the end of a step, the Python movers at its start"]

import datetime as dt

import numpy as np
import curfiles
import gn
from gn import T0, sec, oil_status

MPD = 1. / 8.9992801e-06
RMAX = np.sqrt(-2 * np.log(.001))


def same(a, b):
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    return a.tobytes() == b.tobytes() or bool(np.array_equal(a, b, equal_nan=a.dtype.kind == "f"))


def watch(sc, log):
    orig = type(sc).release_elements.__get__(sc)

    def hook(*a, **kw):
        n = len(sc["positions"]) if "positions" in sc.data_arrays else 0
        res = orig(*a, **kw)
        log.append((sc.uncertain, res, np.array(sc["id"][n:]), np.array(sc["positions"][n:]), np.array(sc["spill_num"][n:])))
        return res
    sc.release_elements = hook


def pair_case(i, rng, mon):
    back = i % 7 == 6
    kinds = ["point", "line", "moving", "grid", "contin", "pertimestep"] if not back else ["point", "line", "grid"]
    S = gn.random_spec(rng, kinds=kinds, random_movers=False, back=back, uncertain=False,
                       movers=[m for m in ("simple", "wind", "simple2", "pwind") if rng.random() < .6], oil=False if back else None)
    S["windage"] = (S["windage"][0], S["windage"][0])
    S["persist"] = -1
    S["halflife"] = -1.
    S["weatherers"] = [w for w in S["weatherers"] if w[0] != "dispersion"] + [(w[0], w[1], "D&S1988") for w in S["weatherers"] if w[0] == "dispersion"]
    mon.ctx["spec"] = gn.brief(S)
    A, B = gn.build(S, uncertain=False), gn.build(S, uncertain=True)
    gn.seed_model(S["seed"])
    off = []
    for s in range(S["n"] + 1):
        A.step()
        off.append(gn.snapshot(A)[0])
    gn.seed_model(S["seed"])
    rounds = 2 if rng.random() < .3 else 1
    for r in range(rounds):
        log = []
        for sc in B.spills.items():
            watch(sc, log)
        for s in range(S["n"] + 1):
            B.step()
            snap = gn.snapshot(B)
            mon.check(len(snap) == 2 and not snap[0][0] and snap[1][0], "not one forecast and one uncertain set", lambda: str([x[0] for x in snap]))
            f, u = snap[0][1], snap[1][1]
            mon.check(set(f) == set(off[s][1]), "arrays of the forecast set depend on the uncertainty", lambda: str(set(f) ^ set(off[s][1])))
            for k in off[s][1]:
                mon.check(same(off[s][1][k], f[k]), "forecast changed by the uncertainty", lambda: "step %d array %s" % (s, k))
            mon.event("paired_steps")
            mon.event("sets_compared", len(f["id"]))
            mb, mo = snap[0][2], off[s][2]
            mon.check(set(mb) == set(mo) and all(np.array_equal(np.asarray(mb[k], float), np.asarray(mo[k], float), equal_nan=True) for k in mo), "forecast mass balance changed by the uncertainty",
                      lambda: "step %d %s / %s" % (s, {k: v for k, v in mb.items() if v != mo.get(k)}, {k: v for k, v in mo.items() if v != mb.get(k)}))
            r0, r1 = [[x for x in log if x[0] == u] for u in (False, True)]
            mon.check(len(r0) == len(r1) and all(a[1] == b[1] and same(a[2], b[2]) and same(a[3], b[3]) and same(a[4], b[4]) for a, b in zip(r0, r1)), "the sets did not release the same elements at the same places",
                      lambda: "step %d: %s / %s" % (s, [(x[1], len(x[2]), x[3][:3]) for x in r0], [(x[1], len(x[2]), x[3][:3]) for x in r1]))
            mon.event("released_alike", sum(len(x[2]) for x in r0))
            del log[:]
            scs = list(B.spills.items())
            for k in scs[0].data_arrays:
                if k in scs[1].data_arrays:
                    mon.check(not np.shares_memory(scs[0][k], scs[1][k]), "the sets share memory", lambda: k)
                    mon.event("no_memory_shared")
            mon.state("pair", tuple(sorted({p["kind"] for p in S["spills"]})), S["map"], tuple(sorted({m[0] for m in S["movers"]})), len(S["weatherers"]), back)
        mon.event("weathered_pair", int(bool(S["weatherers"])))
        mon.event("backward", int(back))
        if r:
            mon.event("rewound_pair")
        B.rewind()


def edit_case(i, rng, mon):
    """several spills of a model with uncertainty on, added, replaced, taken out and changed: the sets go on releasing alike"""
    from gnome.model import Model
    from gnome.maps import GnomeMap
    from gnome.spills import surface_point_line_spill
    seq = [0]

    def new():
        seq[0] += 1
        t = T0 + dt.timedelta(seconds=900 * int(rng.integers(0, 3)))
        s = surface_point_line_spill(num_elements=int(rng.integers(6, 12)), start_position=(float(rng.uniform(-2, 2)), float(rng.uniform(-2, 2)), 0.), release_time=t,
                                     end_release_time=t + dt.timedelta(seconds=900 * int(rng.integers(1, 4))) if rng.random() < .4 else None, amount=float(rng.uniform(1, 50)), units="kg")
        s.name = "s%d" % seq[0]
        return s
    m = Model(start_time=T0, duration=dt.timedelta(hours=2), time_step=900, uncertain=bool(rng.random() < .7), map=GnomeMap())
    want = [new() for _ in range(int(rng.integers(1, 4)))]
    if rng.random() < .5:
        m.spills += list(want)
    else:
        for s in want:
            m.spills += s
    done = []
    for r in range(int(rng.integers(2, 5))):
        for e in range(int(rng.integers(1, 4))):
            op = str(rng.choice(["add", "remove", "replace", "change", "update", "onoff"]))
            j = int(rng.integers(0, len(want))) if want else 0
            if op == "add" or not want:
                op = "add"
                want.append(new())
                m.spills += want[-1]
            elif op == "remove":
                s = want.pop(j)
                if rng.random() < .5:
                    m.spills.remove(s.id)
                else:
                    del m.spills[j]
            elif op == "replace":
                s = new()
                m.spills[want[j].id if rng.random() < .5 else j] = s
                want[j] = s
            elif op == "change":
                s = want[j]
                which = int(rng.integers(0, 3))
                if which == 0:
                    s.num_elements = int(rng.integers(6, 12))
                elif which == 1:
                    s.release.start_position = (float(rng.uniform(-2, 2)), float(rng.uniform(-2, 2)), 0.)
                else:
                    s.amount = float(rng.uniform(1, 50))
            elif op == "update":
                order = [want[k] for k in rng.permutation(len(want))]
                if rng.random() < .5:
                    order[j] = new()
                m.spills.update_from_dict({"spills": list(order)})
                want = order
            else:
                m.uncertain = not m.uncertain
            done.append(op)
            mon.event("edit_" + op)
            mon.check([s.id for s in m.spills] == [s.id for s in want] and all(a is b for a, b in zip(m.spills, want)), "the spills of the model are not those given to it",
                      lambda: "%s: %s / %s" % (done, [s.name for s in m.spills], [s.name for s in want]))
            mon.check(len({len(sc.spills) for sc in m.spills.items()}) == 1, "the sets do not have the same spills", lambda: "%s: %s" % (done, [len(sc.spills) for sc in m.spills.items()]))
        if r or rng.random() < .4:
            m.rewind()
        else:
            mon.event("not_rewound")
        log = []
        cls = type(m.spills.items()[0])
        orig = cls.release_elements

        def hook(sc, *a, **kw):
            n = len(sc["positions"]) if "positions" in sc.data_arrays else 0
            res = orig(sc, *a, **kw)
            log.append((sc.uncertain, res, np.array(sc["id"][n:]), np.array(sc["positions"][n:]), np.array(sc["spill_num"][n:])))
            return res
        cls.release_elements = hook
        try:
            for s in range(m.num_time_steps):
                m.step()
        finally:
            cls.release_elements = orig
        if m.uncertain:
            r0, r1 = [[x for x in log if x[0] == u] for u in (False, True)]
            mon.check(len(r0) == len(r1) >= m.num_time_steps and all(a[1] == b[1] and same(a[2], b[2]) and same(a[3], b[3]) and same(a[4], b[4]) for a, b in zip(r0, r1)), "the sets did not release alike after their spills were changed",
                      lambda: "%s: %s / %s" % (done, [(x[1], x[3][:3].tolist()) for x in r0], [(x[1], x[3][:3].tolist()) for x in r1]))
            a, u = m.spills.items()
            mon.check(bool(np.allclose(a["mass"], u["init_mass"] if "init_mass" in u else u["mass"])) if len(a["id"]) else True, "the sets did not release the same mass", lambda: str(done))
            mon.event("edited_pair")
        n = sum(x[1] for x in log if not x[0])
        mon.check(n == sum(s.num_elements for s in want), "not every element of the spills given was released", lambda: "%s: %d / %s" % (done, n, [s.num_elements for s in want]))
        mon.state("edit", tuple(done[-2:]), m.uncertain)
    # an element split in parts
    sc = m.spills.items()[0]
    if len(sc["id"]):
        k = int(rng.integers(0, len(sc["id"])))
        num = int(rng.integers(2, 5))
        fr = rng.dirichlet(np.ones(num)) if rng.random() < .7 else None
        before = {x: np.array(sc[x]) for x in sc.data_arrays}
        sc.split_element(int(sc["id"][k]), num, None if fr is None else list(fr))
        f = np.full(num, 1. / num) if fr is None else fr
        for x in before:
            b, a = before[x], sc[x]
            mon.check(len(a) == len(b) + num - 1 and same(np.array(a[:k]), b[:k]) and same(np.array(a[k + num:]), b[k + 1:]), "splitting an element changed the others", lambda: "%s %s" % (x, a))
            if x in ("mass", "mass_components"):
                w = b[k] * (f if b.ndim == 1 else f[:, None])
                mon.check(bool(np.allclose(a[k:k + num], w)), "the parts of a split element do not add up to it", lambda: "%s %s / %s" % (x, a[k:k + num], w))
            elif x == "positions":
                mon.check(bool((a[k:k + num] == b[k]).all()), "the parts of a split element are not where it was", lambda: str(a[k:k + num]))
        mon.event("split")


class Track:
    """the uncertainty draws of each element, recovered from its moves"""

    def __init__(self):
        self.d, self.last = {}, None


def dev_case(i, rng, mon):
    from gnome.movers import PointWindMover, WindMover, SimpleMover, RandomMover
    from gnome.movers.py_current_movers import CurrentMover
    from gnome.environment.environment_objects import SteadyUniformCurrent
    from gnome.environment.wind import constant_wind
    from gnome.maps import GnomeMap
    from gnome.model import Model
    from gnome.spills import Spill
    from gnome.spills.release import PointLineRelease
    which = ["pwm", "wm", "cur", "cats", "grid", "pwm", "wm", "gwm", "cur", "simple", "random", "cats", "grid", "gwm"][i % 14]
    wind = which in ("pwm", "wm", "gwm")
    current = which in ("cur", "cats", "grid")
    back = bool(rng.random() < .25)
    sg = -1 if back else 1
    ts = int(rng.choice([300, 900, 1800, 3600]))
    n = int(rng.integers(4, 14))
    x, y = float(rng.uniform(-170, 170)), float(rng.uniform(-60, 60))
    speed = float(rng.choice([rng.uniform(1.5, 25), rng.uniform(1.5, 25), rng.uniform(1.01, 2), rng.uniform(0, .98), 0])) if wind else float(rng.uniform(.05, 2))
    ang = float(rng.uniform(0, 360))
    wdg = float(rng.choice([.01, .03, .1]))
    delay = int(rng.choice([0, 0, 1, 2.5, 4, 100]) * ts)
    dur = int(rng.choice([.5, 1, 2, 3.5, 1000]) * ts)
    p = dict(ss=float(rng.choice([2., .5, 0., 4])), an=float(rng.choice([.4, .1, 0., .8])), along=float(rng.choice([.5, 0, .2])), cross=float(rng.choice([.25, 0, .4])), us=float(rng.choice([.5, 0, 1.])))
    scale = float(rng.choice([1, 1, .5, 2, -1]))
    mon.ctx["spec"] = (which, back, ts, n, (x, y), speed, ang, wdg, delay, dur, p, scale)
    rad = np.radians(ang)
    if which == "gwm":
        V0 = -speed * np.sin(rad), -speed * np.cos(rad)
        scale = abs(scale)
    elif wind:
        w = constant_wind(speed, ang, "m/s")
        V0 = -speed * np.sin(rad), -speed * np.cos(rad)
        if which == "pwm":
            scale = 1.0
            m = PointWindMover(w, uncertain_duration=dur / 3600., uncertain_time_delay=delay / 3600., uncertain_speed_scale=p["ss"], uncertain_angle_scale=p["an"])
        else:
            m = WindMover(w, uncertain_duration=dur, uncertain_time_delay=delay, uncertain_speed_scale=p["ss"], uncertain_angle_scale=p["an"], scale_value=scale,
                          default_num_method=str(rng.choice(["Euler", "RK2", "RK4"])))
    elif which == "cur":
        V0 = speed * np.sin(rad), speed * np.cos(rad)
        m = CurrentMover(SteadyUniformCurrent(speed, ang), scale_value=scale, uncertain_duration=dur, uncertain_time_delay=delay, uncertain_along=p["along"], uncertain_cross=p["cross"],
                         default_num_method=str(rng.choice(["Euler", "RK2", "RK4"])))
    elif which in ("cats", "grid"):
        V0 = speed * np.sin(rad), speed * np.cos(rad)
    elif which == "simple":
        scale = 1.
        V0 = speed * np.sin(rad), speed * np.cos(rad)
        m = SimpleMover((V0[0], V0[1], 0.), uncertainty_scale=p["us"])
    elif which == "random":
        D, fac = float(rng.choice([1e3, 1e5])), float(rng.choice([2., 1., 5.]))
        m = RandomMover(diffusion_coef=D, uncertain_factor=fac)
    b = float(rng.choice([.02, .1, 1.]))
    lim4 = (-p["along"], p["along"], -p["cross"], p["cross"])
    mesh = None
    if which == "cats":
        from gnome.movers import CatsMover
        while mesh is None:
            mesh = curfiles.Mesh(rng, 14, (x - 4 * b, y - 4 * b, x + 4 * b, y + 4 * b), holes=0)
            try:
                tr = mesh.tree(rng)
            except ValueError:
                mesh = None
        curfiles.cats("a.cur", mesh, tr, np.full(len(mesh.t), V0[0]), np.full(len(mesh.t), V0[1]))
        lim4 = (-float(rng.choice([.3, .1, 0.])), p["along"], -float(rng.choice([.1, .3, 0.])), p["cross"])
        m = CatsMover("a.cur", uncertain_duration=dur / 3600., uncertain_time_delay=delay / 3600., down_cur_uncertain=lim4[0], up_cur_uncertain=lim4[1], left_cur_uncertain=lim4[2],
                      right_cur_uncertain=lim4[3], uncertain_eddy_diffusion=0.)
        scale = 1.
    elif which == "gwm":
        from gnome.movers import c_GridWindMover
        ax = np.linspace(-3 * b - .3, 3 * b + .3, 5)
        if rng.random() < .5:
            curfiles.reg("a.nc", y + ax, x + ax, [-2000., 2000.], *[z / scale * np.ones((2, 5, 5)) for z in V0], names=("air_u", "air_v"))
        else:
            LA, LO = np.meshgrid(y + ax, x + ax, indexing="ij")
            curfiles.curv("a.nc", LA, LO, [-2000., 2000.], *[z / scale * np.ones((2, 5, 5)) for z in V0], names=("air_u", "air_v"))
        m = c_GridWindMover("a.nc", uncertain_duration=dur / 3600., uncertain_time_delay=delay / 3600., uncertain_speed_scale=p["ss"], uncertain_angle_scale=p["an"], wind_scale=scale)
        scale = 1.
    elif which == "grid":
        from p12 import reg
        from gnome.movers import c_GridCurrentMover
        ax = np.linspace(-3 * b - .3, 3 * b + .3, 5)
        one = np.ones((2, 5, 5))
        reg("a.nc", y + ax, x + ax, [-2000., 2000.], V0[0] * one, V0[1] * one)
        m = c_GridCurrentMover("a.nc", uncertain_duration=dur / 3600., uncertain_time_delay=delay / 3600., uncertain_along=p["along"], uncertain_cross=p["cross"], current_scale=scale,
                               num_method=str(rng.choice(["Euler", "RK4", "RK2"])))
    model = Model(start_time=T0, time_step=sg * ts, duration=sec(sg * ts * n), uncertain=True,
                  map=GnomeMap(map_bounds=[(x - b, y - b), (x - b, y + b), (x + b, y + b), (x + b, y - b)]))
    model.movers += m
    carry = float(rng.choice([0, .15, .3])) * b * 111000 / ts
    model.movers += SimpleMover((carry, 0, 0), uncertainty_scale=.2)
    for k in range(int(rng.choice([1, 2, 3]))):
        st = 0 if back else float(rng.choice([0, 0, ts, ts * 2.5]))
        rel = PointLineRelease(release_time=T0 + sec(st), end_release_time=T0 + sec(st + float(rng.choice([2.5, 6])) * ts) if not back and rng.random() < .5 else None,
                               start_position=(x - .9 * b, y, 0.), end_position=(x + .9 * b, y + .1 * b, 0.), num_elements=int(rng.integers(8, 30)))
        sp = Spill(release=rel)
        sp.substance.windage_range, sp.substance.windage_persist = (wdg, wdg), -1
        model.spills += sp
    gn.seed_model(int(rng.integers(1 << 30)))
    rec = {}
    orig = m.get_move

    def hook(sc, time_step, model_time):
        d = orig(sc, time_step, model_time)
        rec[sc.uncertain] = (np.array(d), np.array(sc["positions"]), np.array(sc["status_codes"]), np.array(sc["id"]), (model_time - T0).total_seconds(), time_step)
        return d
    m.get_move = hook
    T = Track()
    ever = False
    prev_ids = None
    for s in range(n + 1):
        rec.clear()
        model.step()
        for u, (d, pos, st, ids, t, step) in rec.items():
            ok = st == oil_status.in_water
            if mesh is not None:
                kk, far = mesh.find(pos[:, :2])
                ok &= (kk >= 0) & (far > 20)
            mon.check(mesh is not None or not d[~ok].any(), "moved although not in the water", lambda: "")
            mon.check(not d[:, 2].any(), "moved vertically", lambda: "")
            mon.event("backward", int(back))
            if which == "random":
                lim = np.sqrt((fac if u else 1.) * 6 * D / 1e4 * ts) * (1 + 2e-4)
                mx = np.abs(np.c_[d[:, 0] * np.cos(np.radians(pos[:, 1])) * MPD, d[:, 1] * MPD])
                mon.check(bool(np.all(mx <= lim)), "random move beyond the bound of its set", lambda: "%r > %r (uncertain: %s)" % (mx.max(), lim, u))
                mon.event("random_bounded", len(d))
                mon.state("random", u, back, D, fac)
                continue
            f = step * (wdg if wind else 1.) * scale
            v = np.c_[d[:, 0] * np.cos(np.radians(pos[:, 1])) * MPD, d[:, 1] * MPD] / f          # velocity before windage
            tol = 1e-4 * speed + 1e-9
            if which == "gwm":
                tol = 5e-4 * speed + .05 / ts / wdg
            if which in ("cats", "grid"):
                tol = 5e-4 * speed + .05 / ts
            if not u:
                mon.check(bool(np.all(np.abs(v[ok] - V0) <= tol)), "forecast not moved by the mean field alone", lambda: "got %s, field %s" % (v[ok][:2], V0))
                mon.event("forecast_judged", int(ok.sum()))
                continue
            if which == "simple":
                lim = p["us"] * np.abs(V0) * (1 + 1e-6) + 1e-9
                mon.check(bool(np.all(np.abs(v[ok] - V0) <= lim + tol)), "uncertain move beyond the uncertainty scale", lambda: "%s, field %s scale %s" % (v[ok][:2], V0, p["us"]))
                if p["us"] and ok.sum() > 2 and speed > 1e-3:
                    mon.check(bool(np.ptp(v[ok][:, 0]) > 0 or abs(V0[0]) < 1e-3), "uncertain elements all moved alike", lambda: "")
                mon.event("simple_deviation", int(ok.sum()))
                mon.state("simple", p["us"], back)
                continue
            el = abs(t + step) if which in ("pwm", "gwm") else abs(t)
            if prev_ids is not None:
                mon.event("removed_in_between", int(bool(prev_ids - set(map(int, ids)))))
                mon.event("added_in_between", int(bool(set(map(int, ids)) - prev_ids)))
                if not prev_ids & set(map(int, ids)):
                    T.last = None            # nothing left of the set it was drawn for
            prev_ids = set(map(int, ids))
            name = "current" if current else "wind"
            mon.event("native_current", int(which in ("cats", "grid")))
            mon.event("gridded_wind", int(which == "gwm"))
            if el < delay:
                mon.check(bool(np.all(np.abs(v[ok] - V0) <= tol)), "uncertain element deviates before the uncertainty starts",
                          lambda: "%d s after the start, delay %d: %s, field %s" % (el, delay, v[ok][:2], V0))
                mon.event(name + "_before_delay", int(ok.sum()))
                mon.state(which, "before", back)
                continue
            if len(ids) == 0:
                ever = True
                continue
            if T.last is None and el - delay >= ts and not T.d:
                ever = True          # joined later: when the first draw was is not known
            redraw = T.last is None or el >= T.last + dur
            known = not ever and T.last is not None
            if redraw:
                T.last = el
            if not current and speed < 1:
                lim = np.sqrt(6 * 100. / ts)
                mon.check(bool(np.all(np.abs(v[ok] - V0) <= lim * (1 + 1e-4) + tol)), "light wind: deviation beyond the diffusion", lambda: "%s, wind %s, diffusion %s" % (v[ok][:2], V0, lim))
                if ok.sum() >= 8 and which != "gwm":
                    mon.check(bool(np.abs(v[ok] - V0).max() > .05 * lim), "light wind: uncertain elements do not spread", lambda: "%s, wind %s, diffusion %s" % (v[ok][:2], V0, lim))
                mon.event("light_wind", int(ok.sum()))
                mon.state(which, "light", back)
                continue
            if current:
                e = np.array(V0) / speed
                q = v / speed
                al = q @ e - 1
                be = q @ np.array([e[1], -e[0]])
                rt = 1e-6 if which == "cur" else 1e-3 + .05 / ts / speed
                mon.check(bool(np.all((al[ok] >= lim4[0] - rt) & (al[ok] <= lim4[1] + rt) & (be[ok] >= lim4[2] - rt) & (be[ok] <= lim4[3] + rt))), "uncertain current beyond its bounds",
                          lambda: "%s: along %s..%s across %s..%s, bounds %s" % (which, al[ok].min(), al[ok].max(), be[ok].min(), be[ok].max(), lim4))
                vals = [(float(a), float(c)) for a, c in zip(al, be)]
            else:
                sth = p["an"] * 2.73 * (el - delay) ** .25
                s2 = (p["ss"] * .315 * (el - delay) ** .147) ** 2 / 2
                sqs = np.sqrt(max(speed ** 2 - s2, 0))
                mm, ss = np.sqrt(sqs), np.sqrt(max(speed - sqs, 0.))
                e = np.array(V0) / speed
                along, cross = v @ e, v @ np.array([-e[1], e[0]])
                th = np.degrees(np.arctan2(cross, along))
                mag = np.hypot(along, cross)
                cap = max(min(sth * RMAX, 180), 0)
                mon.check(bool(np.all(np.abs(th[ok & (mag > 1e-3 * speed)]) <= cap + .01)), "wind direction off by more than the uncertainty allows", lambda: "%s of %s degrees" % (np.abs(th[ok]).max(), cap))
                xx = np.sqrt(mag * np.clip(np.cos(np.radians(th)), .001, None))
                lim = mm + RMAX * ss
                mon.check(bool(np.all(xx[ok] <= lim * (1 + 1e-3))), "wind speed off by more than the uncertainty allows", lambda: "%s of %s" % (xx[ok].max(), lim))
                vals = []
                for a, c, g in zip(th, xx, mag):
                    sin = a / sth if sth > 1 and g > 1e-2 * speed else None
                    cos = tuple(q for q in ((c - mm) / ss, (-c - mm) / ss) if abs(q) <= RMAX * 1.01) if ss > .05 and g > .03 * speed else None
                    vals.append((sin, cos))
            now = {}
            nsame = ndiff = 0
            bad = []
            for k, val, o in zip(ids, vals, ok):
                if not o:
                    if int(k) in T.d and not redraw:
                        now[int(k)] = T.d[int(k)]
                    continue
                old = T.d.get(int(k))
                if old is not None and known:
                    if current:
                        eq = abs(old[0] - val[0]) < 2 * rt and abs(old[1] - val[1]) < 2 * rt
                    else:
                        eq = True
                        if (old[0] is None or val[0] is None) and (old[1] is None or val[1] is None):
                            now[int(k)] = val
                            continue
                        if old[0] is not None and val[0] is not None:
                            eq = abs(old[0] - val[0]) < 5e-3 * (1 + abs(val[0]))
                        if eq and old[1] is not None and val[1] is not None:
                            eq = any(abs(a - c) < .02 * (1 + abs(a)) for a in old[1] for c in val[1])
                    nsame += eq
                    ndiff += not eq
                    if not eq:
                        bad.append((old, val))
                now[int(k)] = val
            judge = current or sth > 1 or ss > .05
            if known and not redraw and judge:
                mon.check(ndiff == 0, "deviation of an element changed although its duration is not over",
                          lambda: "%s: %d s after the last draw (duration %d) %d of %d: %s" % (which, el - T.last, dur, ndiff, ndiff + nsame, bad[:3]))
                mon.event(name + "_constant", nsame)
            elif known and redraw and nsame + ndiff > 3 and (max(lim4[1] - lim4[0], lim4[3] - lim4[2]) > 80 * rt if current else sth > 1 and p["an"]):
                mon.check(nsame <= (nsame + ndiff) / 2, "deviation not drawn again although its duration is over", lambda: "%d s, duration %d: %d of %d the same" % (el, dur, nsame, nsame + ndiff))
                mon.event(name + "_redrawn", ndiff)
            T.d = now
            mon.event(name + "_deviation", int(ok.sum()))
            mon.state(which, "dev", back, redraw, delay // ts, p["an"] > 0, p["ss"] > 0)


def spread_case(rng, mon):
    """many elements at once: how the deviations are spread over their bounds"""
    from scipy import stats
    from gnome.movers import PointWindMover, WindMover, SimpleMover
    from gnome.movers.py_current_movers import CurrentMover
    from gnome.environment.environment_objects import SteadyUniformCurrent
    from gnome.environment.wind import constant_wind
    n, ts = 3000, int(rng.choice([300, 900])) * int(rng.choice([1, -1]))
    pos = np.c_[np.full(n, 20.), np.full(n, float(rng.uniform(-50, 50))), np.zeros(n)]
    ang, speed = float(rng.uniform(0, 360)), float(rng.uniform(5, 20))
    gn.seed_model(int(rng.integers(1 << 30)))
    d0 = np.linspace(-1, 1, 5)
    method = str(rng.choice(["Euler", "RK2", "RK4"]))
    V0 = speed * np.sin(np.radians(ang)), speed * np.cos(np.radians(ang))
    for which in ("pwm", "wm", "gwm", "cur", "grid", "simple"):
        sc = gn.sample_sc(n, pos, uncertain=True, windage_range=(.03, .03), windage_persist=-1, arrays=("windages", "windage_range", "windage_persist"))
        f = 1.
        if which == "cur":
            m = CurrentMover(SteadyUniformCurrent(speed, ang), uncertain_along=.4, uncertain_cross=.2, default_num_method="Euler")
        elif which == "grid":
            from gnome.movers import c_GridCurrentMover
            curfiles.reg("a.nc", pos[0, 1] + d0, pos[0, 0] + d0, [-2000., 2000.], *[z * np.ones((2, 5, 5)) for z in V0])
            m = c_GridCurrentMover("a.nc", uncertain_along=.4, uncertain_cross=.2, num_method=method)
        elif which == "gwm":
            from gnome.movers import c_GridWindMover
            f = .03
            curfiles.reg("a.nc", pos[0, 1] + d0, pos[0, 0] + d0, [-2000., 2000.], *[z * np.ones((2, 5, 5)) for z in V0], names=("air_u", "air_v"))
            m = c_GridWindMover("a.nc", uncertain_speed_scale=1., uncertain_angle_scale=.2)
        elif which == "simple":
            m = SimpleMover((speed * np.sin(np.radians(ang)), speed * np.cos(np.radians(ang)), 0.), uncertainty_scale=.3)
        else:
            f = .03
            w = constant_wind(speed, (ang + 180) % 360, "m/s")
            m = PointWindMover(w, uncertain_speed_scale=1., uncertain_angle_scale=.2) if which == "pwm" else WindMover(w, uncertain_speed_scale=1., uncertain_angle_scale=.2, default_num_method="Euler")
        m.prepare_for_model_run()
        for k in range(3):
            q = T0 + sec(k * ts)
            m.prepare_for_model_step(sc, ts, q)
            d = np.array(m.get_move(sc, ts, q))
            m.model_step_is_done(sc)
        v = np.c_[d[:, 0] * np.cos(np.radians(pos[:, 1])) * MPD, d[:, 1] * MPD] / (ts * f)
        e = np.array([np.sin(np.radians(ang)), np.cos(np.radians(ang))])
        along, cross = v @ e / speed, v @ np.array([e[1], -e[0]]) / speed
        lim = 2.5 / np.sqrt(n)
        if which in ("cur", "grid"):
            ks = stats.kstest((along - 1) / .4, stats.uniform(-1, 2).cdf).statistic, stats.kstest(cross / .2, stats.uniform(-1, 2).cdf).statistic
        elif which == "simple":
            ks = [stats.kstest(v[:, j] / (speed * e[j]) - 1, stats.uniform(-.3, .6).cdf).statistic for j in (0, 1) if abs(e[j]) > .01]
        else:
            el = abs(3 * ts) if which in ("pwm", "gwm") else abs(2 * ts)
            sth = .2 * 2.73 * el ** .25
            s2 = (.315 * el ** .147) ** 2 / 2
            sqs = np.sqrt(speed ** 2 - s2)
            th = np.degrees(np.arctan2(-cross, along))
            x = np.sqrt(np.hypot(along, cross) * speed * np.cos(np.radians(th)))
            ks = stats.kstest(th / sth, "norm").statistic, stats.kstest((x - np.sqrt(sqs)) / np.sqrt(speed - sqs), "norm").statistic
            lim = 3 / np.sqrt(n)
        mon.check(max(ks) < lim, "deviations not spread as the uncertainty parameters say", lambda: "%s %s > %s" % (which, ks, lim))
        r = np.corrcoef(along, cross)[0, 1], np.corrcoef(cross[1:], cross[:-1])[0, 1], np.corrcoef(along[1:], along[:-1])[0, 1]
        mon.check(max(map(abs, r[1:])) < 6 / np.sqrt(n), "deviations of different elements not independent", lambda: "%s %s" % (which, r))
        mon.event("spread_judged", n)
        mon.state("spread", which, ts > 0, method)


def case(i, rng, mon):
    if i % 20 == 7:
        spread_case(rng, mon)
    elif i % 20 == 13:
        edit_case(i, rng, mon)
    elif i % 3 == 0:
        pair_case(i // 3, rng, mon)
    else:
        dev_case(2 * (i // 3) + i % 3 - 1, rng, mon)

