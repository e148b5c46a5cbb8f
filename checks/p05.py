"""Status life cycle: refloat, off-map, tide flats, on land means not moving."""
PROPERTY = "P05"
KIND = "plain"
N = {"quick": 1600, "thorough": 20000}
BUDGET = {"quick": 75, "thorough": 1800}
RULE = "(workload, map kind, half-life class, transition seen or refloat probability class)"
NEED = ["refloat_calls", "refloated", "kept_on_land", "off_map", "land_to_land", "water_to_land", "land_to_water",
        "tideflat_dry", "tideflat_refloat", "tide_mixed", "tide_beached", "tide_over_land", "released_on_land", "subsurface", "airborne"]
ASSUMES = ["refloat rates are judged with a two-sided binomial bound of probability below 1e-9 per call"]

import datetime as dt
import numpy as np
import gn
from gn import oil_status

LEGAL = None


def case(i, rng, mon):
    k = i % 4
    if k == 0:
        refloat_case(rng, mon)
    elif k == 1:
        tide_case(rng, mon)
        tide_direct_case(rng, mon)
    else:
        run_case(rng, mon, on_land_release=(k == 3))


def refloat_case(rng, mon):
    style, r = gn.random_raster(rng, 60)
    hl = float(rng.choice([.1, 1., 3., 24., 1e-3, 0., -1., -.5]))
    m, bb, cell = gn.raster_map(rng, r, hl)
    via = "init"
    if rng.random() < .4:
        m.refloat_halflife = hl = float(rng.choice([.25, 2., 6., 0., -1.]))
        via = "set"
        mon.check(abs(m.refloat_halflife - hl) < 1e-12, "half-life does not read back", "")
    n = int(rng.choice([1, 3, 400, 3000]))
    sc = gn.sample_sc(n)
    P = np.c_[rng.uniform(-10, 10, (n, 2)), rng.uniform(0, 5, n)]
    W = np.c_[rng.uniform(-10, 10, (n, 2)), rng.uniform(0, 5, n)]
    codes = [oil_status.in_water, oil_status.on_land, oil_status.on_land, oil_status.on_tideflat, oil_status.to_be_removed]
    S = rng.choice(codes, n)
    sc["positions"][:] = P
    sc["last_water_positions"][:] = W
    sc["status_codes"][:] = S
    ts = int(rng.choice([60, 900, 3600, 7200, 86400]))
    m.refloat_elements(sc, ts)
    mon.event("refloat_calls")
    land = S == oil_status.on_land
    now = sc["status_codes"]
    mon.check(np.array_equal(now[~land], S[~land]) and np.array_equal(sc["positions"][~land], P[~land]),
              "refloating touched an element that was not on land", "")
    flo = land & (now == oil_status.in_water)
    kept = land & ~flo
    mon.check(bool((now[kept] == oil_status.on_land).all()) and np.array_equal(sc["positions"][kept], P[kept]),
              "element that stayed on land changed", "")
    mon.check(np.array_equal(sc["positions"][flo], W[flo]), "refloated element not at its last water position", "")
    mon.event("refloated", flo.sum())
    mon.event("kept_on_land", kept.sum())
    nl = int(land.sum())
    p = 0. if hl < 0 else 1. if hl == 0 else 1 - .5 ** (ts / (hl * 3600.))
    if p in (0., 1.):
        mon.check(int(flo.sum()) == nl * p, "refloat with half-life %s" % ("zero" if p else "negative"),
                  "%d of %d" % (flo.sum(), nl))
    elif nl:
        from scipy.stats import binom
        lo, hi = binom.ppf(1e-12, nl, p), binom.ppf(1 - 1e-12, nl, p)
        mon.check(lo <= flo.sum() <= hi, "refloat rate off the half-life law",
                  "%d of %d refloated, expected fraction %g (half-life %g h, step %d s)" % (flo.sum(), nl, p, hl, ts))
        mon.event("refloat_rate_judged")
    mon.state("refloat", via, hl, ts, n)


def tide_case(rng, mon):
    from gnome.model import Model
    from gnome.maps import GnomeMap
    from gnome.maps.tideflat_map import TideflatMap, SimpleTideflat
    from gnome.movers import SimpleMover
    from gnome.spills import point_line_spill
    x0, y0 = float(rng.uniform(-100, 100)), float(rng.uniform(-40, 40))
    step = 900
    a, b = sorted(rng.integers(1, 12, 2))
    a, b = gn.T0 + dt.timedelta(seconds=int(a) * step + 300), gn.T0 + dt.timedelta(seconds=int(b) * step + 600)
    box = [(x0 + .01, y0 - 1), (x0 + .05, y0 - 1), (x0 + .05, y0 + 1), (x0 + .01, y0 + 1)]
    base = GnomeMap()
    kind = "plain"
    if rng.random() < .5:
        style, r = gn.random_raster(rng, 40, style="specks")
        base, bb, cell = gn.raster_map(rng, r, 1.)
        kind = "raster elsewhere"
    tm = TideflatMap(base, SimpleTideflat(box, a, b))
    model = Model(start_time=gn.T0, time_step=step, duration=dt.timedelta(seconds=16 * step), map=tm)
    n = 20
    model.spills += point_line_spill(num_elements=n, start_position=(x0 - .02, y0, 0), end_position=(x0 + .03, y0, 0), release_time=gn.T0)
    v = float(rng.uniform(.2, 1.5))
    model.movers += SimpleMover((v, 0, 0))
    prev = None
    for k in range(15):
        t = gn.T0 + dt.timedelta(seconds=(k - 1) * step)      # model time during this step
        model.step()
        sc = list(model.spills.items())[0]
        st, pos = sc["status_codes"].copy(), sc["positions"].copy()
        if prev is not None:
            dry = a <= t <= b
            for j in range(n):
                inside = x0 + .01 < pos[j, 0] < x0 + .05
                edge = min(abs(pos[j, 0] - x0 - .01), abs(pos[j, 0] - x0 - .05)) < 1e-9
                was = prev[0][j] == oil_status.on_tideflat
                if was and dry:
                    mon.check(np.array_equal(pos[j], prev[1][j]) and st[j] == oil_status.on_tideflat,
                              "element on a dry tide flat moved or changed status", "")
                    mon.event("tideflat_dry")
                elif not edge:
                    want = oil_status.on_tideflat if dry and inside else oil_status.in_water
                    mon.check(st[j] == want, "tide-flat status wrong", lambda: "%s at %s dry=%s inside=%s" % (st[j], t, dry, inside))
                    mon.check(pos[j, 0] > prev[1][j, 0], "element off the flat did not move", "")
                    if was:
                        mon.event("tideflat_refloat")
                mon.state("tide", kind, dry, inside, was, int(st[j]))
        prev = (st, pos)


def tide_direct_case(rng, mon):
    """a tide flat that dries and wets point by point, over a map with land that refloats"""
    from gnome.maps.tideflat_map import TideflatMap, TideflatBase
    style, r = gn.random_raster(rng, 40)
    hl = float(rng.choice([0., -1., 1.]))
    base, bb, cell = gn.raster_map(rng, r, hl)
    n = int(rng.integers(1, 60))
    asked = []

    class Flats(TideflatBase):
        def is_dry(self, points, time):
            points = np.asarray(points, dtype=np.float64).reshape(-1, 3)
            asked.append(time)
            return np.array([(int(p[0] * 1e6) + int(p[1] * 1e6) + int((time - gn.T0).total_seconds())) % 3 == 0 for p in points], dtype=bool)
    tm = TideflatMap(base, Flats())
    sc = gn.sample_sc(n)
    P = np.c_[rng.uniform(-10, 10, (n, 2)), np.zeros(n)]
    W = np.c_[rng.uniform(-10, 10, (n, 2)), np.zeros(n)]
    S = rng.choice([oil_status.in_water, oil_status.on_land, oil_status.on_tideflat, oil_status.on_tideflat, oil_status.off_maps, oil_status.to_be_removed], n)
    t = gn.T0 + dt.timedelta(seconds=int(rng.integers(0, 1e6)))
    sc["positions"][:] = sc["next_positions"][:] = P
    sc["last_water_positions"][:] = W
    sc["status_codes"][:] = S
    wet = ~Flats().is_dry(P, t)
    asked.clear()
    tm.refloat_elements(sc, 900, t)
    now = sc["status_codes"]
    flat, land = S == oil_status.on_tideflat, S == oil_status.on_land
    mon.check(all(x == t for x in asked), "the tide flat is asked for another time", lambda: str(asked))
    mon.check(bool(np.all(now[flat & wet] == oil_status.in_water) and np.all(now[flat & ~wet] == oil_status.on_tideflat)), "element on a tide flat does not follow the water there",
              lambda: "%s wet %s" % (now[flat], wet[flat]))
    rest = ~(flat | land)
    mon.check(np.array_equal(now[rest], S[rest]) and np.array_equal(sc["positions"][~land], P[~land]), "refloating touched an element that was not on land", "")
    if hl <= 0:
        want = oil_status.in_water if hl == 0 else oil_status.on_land
        mon.check(bool(np.all(now[land] == want)), "land below a tide flat map does not refloat as its map says", lambda: "half-life %s: %s" % (hl, now[land]))
        mon.event("tide_over_land", int(land.any() and flat.any()))
    mon.check(np.array_equal(sc["positions"][land & (now == oil_status.in_water)], W[land & (now == oil_status.in_water)]), "refloated element not at its last water position", "")
    mon.event("tide_mixed", int((flat & wet).any() and (flat & ~wet).any()))
    # the beaching of the map goes on around the flats
    lo, hi = np.array(bb[0]), np.array(bb[1])
    Q = np.c_[lo + (hi - lo) * rng.uniform(0, 1, (n, 2)), np.zeros(n)]
    N = Q + np.c_[(hi - lo) * rng.normal(0, .1, (n, 2)), np.zeros(n)]
    S = rng.choice([oil_status.in_water, oil_status.in_water, oil_status.on_land, oil_status.on_tideflat], n)
    scs = []
    for m in (base, tm):
        c = gn.sample_sc(n)
        c["positions"][:], c["next_positions"][:], c["last_water_positions"][:], c["status_codes"][:] = Q, N, Q, S
        m.beach_elements(c, t)
        scs.append(c)
    dry = Flats().is_dry(scs[0]["next_positions"], t)
    want = np.where((scs[0]["status_codes"] == oil_status.in_water) & dry, oil_status.on_tideflat, scs[0]["status_codes"])
    mon.check(np.array_equal(scs[1]["status_codes"], want) and np.array_equal(scs[1]["next_positions"], scs[0]["next_positions"]), "elements around a tide flat do not beach as its map says",
              lambda: "%s / %s" % (scs[1]["status_codes"], want))
    mon.event("tide_beached", int((S != scs[0]["status_codes"]).any()))
    mon.state("tide direct", hl, int(flat.sum()) > 0, int(land.sum()) > 0, bool(wet[flat].all()))


def run_case(rng, mon, on_land_release):
    from gnome.model import Model
    from gnome.movers import SimpleMover, RandomMover
    from gnome.maps import GnomeMap
    from gnome.spills import point_line_spill, Spill
    from gnome.spills.release import PolygonRelease
    style, r = gn.random_raster(rng, 60, 12)
    hl = float(rng.choice([.1, 1., -1.]))
    cell = .01
    m, bb, cell = gn.raster_map(rng, r, hl, lat0=float(rng.uniform(-40, 40)), cell=cell)
    w, h = r.shape
    # map bounds: bigger or smaller than the raster
    g = int(rng.integers(-3, 6))
    mb = ((bb[0][0] - g * cell, bb[0][1] - g * cell), (bb[1][0] + g * cell, bb[1][1] + g * cell))
    m.map_bounds = [(mb[0][0], mb[0][1]), (mb[0][0], mb[1][1]), (mb[1][0], mb[1][1]), (mb[1][0], mb[0][1])]
    kind = "raster"
    if rng.random() < .2:
        m = GnomeMap(map_bounds=m.map_bounds)
        kind = "open"
    land = r if kind == "raster" else np.zeros_like(r)
    ts = int(rng.choice([600, 900, 3600]))
    v = rng.normal(0, 1, 2) * rng.choice([.5, 2., 8.]) * cell * 111000 / ts
    back = rng.random() < .2
    model = Model(start_time=gn.T0, time_step=-ts if back else ts, duration=dt.timedelta(seconds=(-1 if back else 1) * ts * 14), map=m,
                  uncertain=bool(rng.random() < .3))
    n = 50
    pos = None
    if on_land_release:
        c0, c1 = (mb[0][0] + mb[1][0]) / 2, (mb[0][1] + mb[1][1]) / 2
        dx, dy = (mb[1][0] - mb[0][0]) * .4, (mb[1][1] - mb[0][1]) * .4
        a, b = (c0 - dx, c1 - dy, 0.), (c0 + dx, c1 + dy, 0.)
        model.spills += point_line_spill(num_elements=n, start_position=a, end_position=b, release_time=gn.T0, amount=n * 2., units="kg")
    else:
        gg = max(0, -g)
        inner = np.argwhere(land[gg:w - gg, gg:h - gg] == 0) + gg
        if not len(inner):
            return
        c = inner[int(rng.integers(len(inner)))] + .5
        model.spills += point_line_spill(num_elements=n, start_position=(bb[0][0] + c[0] * cell, bb[1][1] - c[1] * cell, 0.),
                                         release_time=gn.T0, amount=n * 2., units="kg")
    model.movers += SimpleMover((v[0], v[1], 0.))
    rnd = rng.random() < .6
    if rnd:
        model.movers += RandomMover(diffusion_coef=float(rng.choice([1e5, 1e7])))
    vz = float(rng.choice([0., .002, -.004]))
    if vz:
        model.movers += SimpleMover((0., 0., vz))
    prev = {}
    legal = (oil_status.in_water, oil_status.on_land)
    mon.ctx.update(style=style, hl=hl, ts=ts, v=v, kind=kind, back=back, on_land_release=on_land_release, g=g)
    for k in range(12):
        model.step()
        for sc in model.spills.items():
            st, P, ids, mass = sc["status_codes"].copy(), sc["positions"].copy(), sc["id"].copy(), sc["mass"].copy()
            mon.check(bool(np.isin(st, legal).all()), "illegal status code", str(np.unique(st)))
            off = sc.mass_balance["off_maps"]
            if k == 0:
                mon.check(off == 0, "mass off the map before the first step", off)
                c = np.floor(gn.cellcoords(bb, cell, h, P)).astype(int)
                f = gn.cellcoords(bb, cell, h, P) - c
                ok = (c[:, 0] >= 0) & (c[:, 0] < w) & (c[:, 1] >= 0) & (c[:, 1] < h)
                lnd = np.zeros(len(P), bool)
                lnd[ok] = land[c[ok, 0], c[ok, 1]] > 0
                clear = (np.minimum(f, 1 - f).min(axis=1) > 1e-6)
                mon.check(bool(((st == oil_status.on_land) == lnd)[clear].all()), "released on land but not marked so (or the reverse)", "")
                mon.event("released_on_land", (st == oil_status.on_land).sum())
            p = prev.get(sc.uncertain)
            if p is not None:
                ix = {a: j for j, a in enumerate(p["ids"])}
                gone = [j for a, j in ix.items() if a not in set(ids.tolist())]
                mon.event("off_map", len(gone))
                lost = sum(p["mass"][j] for j in gone)
                mon.check(abs(off - p["off"] - lost) <= 1e-9 * max(1., off), "mass of elements that left the map not counted as off the map",
                          lambda: "%g -> %g, elements that left weigh %g" % (p["off"], off, lost))
                inside = (P[:, 0] >= mb[0][0] - 1e-9) & (P[:, 0] <= mb[1][0] + 1e-9) & (P[:, 1] >= mb[0][1] - 1e-9) & (P[:, 1] <= mb[1][1] + 1e-9)
                mon.check(bool(inside.all()), "element off the map kept", lambda: str(P[~inside][:2]))
                for j in gone:
                    if not rnd and not sc.uncertain:
                        # deterministic: it must really have been carried out (or beached outside)
                        s = -1 if back else 1
                        dlat = s * v[1] * ts / 111120.00024
                        dlon = s * v[0] * ts / (111120.00024 * np.cos(np.radians(p["P"][j, 1])))
                        q = p["P"][j, :2] + [dlon, dlat]
                        # a landing outside counts as outside; a refloated one starts a cell away
                        e = 1e-6 + cell * (1 if p["st"][j] == oil_status.in_water else 2.5)
                        mon.check(not (mb[0][0] + e < q[0] < mb[1][0] - e and mb[0][1] + e < q[1] < mb[1][1] - e),
                                  "element removed although it was not carried off the map", str(q))
                for q, a in enumerate(ids):
                    j = ix[a]
                    was, now = p["st"][j], st[q]
                    if was == oil_status.on_land and now == oil_status.on_land:
                        # it may have been refloated and stopped again within the step: then it
                        # stands at a landing near its last water position
                        same = np.array_equal(P[q], p["P"][j])
                        if hl < 0 and k == 1 and on_land_release:
                            # released on land: put at the centre of its cell
                            same = bool(np.all(np.abs(P[q, :2] - p["P"][j, :2]) <= .5000001 * cell))
                        if hl < 0:
                            mon.check(same, "element on land moved", lambda: "%s -> %s" % (p["P"][j], P[q]))
                        mon.event("land_to_land")
                    elif was == oil_status.on_land:
                        mon.check(hl >= 0, "element refloated from land that never refloats", "")
                        mon.event("land_to_water")
                    elif now == oil_status.on_land:
                        mon.event("water_to_land")
                    mon.check(P[q, 2] >= 0, "element above the surface", "")
                    if P[q, 2] > 0:
                        mon.event("subsurface")
                    if vz < 0 and P[q, 2] == 0:
                        mon.event("airborne")
                    # nobody jumps: distance per step bounded by what the movers can do
                    d = np.abs(P[q, :2] - p["P"][j, :2]).max()
                    mon.check(d <= 30, "element jumped across the map", lambda: "%s -> %s" % (p["P"][j], P[q]))
                    mon.state("run", kind, hl, int(was), int(now), on_land_release, back)
            prev[sc.uncertain] = dict(ids=ids, st=st, P=P, mass=mass, off=off)
