"""Where and how deep new elements appear."""
PROPERTY = "P03"
KIND = "plain"
N = {"quick": 1600, "thorough": 20000}
BUDGET = {"quick": 75, "thorough": 1800}
RULE = "(release kind, instantaneous or continuous, alignment with the step, depth class, set)"
NEED = ["point", "line", "moving", "contin", "polygon", "contpoly", "grid", "custom", "subsurf", "multi_polygon", "spread_judged", "weights_judged", "mixed_records", "evenness_judged", "windage_judged", "rise_judged"]
ASSUMES = ["polygons given as geojson are rounded to 6 decimals by the geojson library: places are judged to 2e-6 degrees", "the spread of polygon releases over the polygons is judged with a binomial bound of probability below 1e-9"]

import datetime as dt
import numpy as np
import gn
from gn import sec


def case(i, rng, mon):
    if i % 10 == 9:
        return poly_case(rng, mon)
    if i % 10 == 8:
        return init_case(rng, mon)
    S = gn.random_spec(rng, oil=bool(rng.random() < .2), land=False, weather=False, movers=[], nmax=60,
                       nsteps=int(rng.integers(3, 10)))
    for sp in S["spills"]:
        if rng.random() < .4:
            sp["start"] = float(rng.integers(0, 3 * S["ts"]))
        if rng.random() < .3:
            sp["d"] = (sp["d"][0] * 40, sp["d"][1] * 40)
        if sp["kind"] == "grid" and rng.random() < .4:
            sp["res"] = (int(rng.integers(40, 120)), int(rng.integers(2, 5)))[::int(rng.choice([1, -1]))]
            sp["n"] = sp["res"][0] * sp["res"][1]
    z2 = float(rng.choice([0., 7.]))
    mon.ctx["spec"] = gn.brief(S)
    model = gn.build(S)
    for j, sp in enumerate(model.spills):
        if S["spills"][j]["kind"] in ("line", "moving") and z2:
            e = np.array(sp.release.end_position)
            e[2] = S["spills"][j]["z"] + z2
            sp.release.end_position = e
            if model.uncertain:
                list(model.spills.items())[1].spills[j].release.end_position = e
            S["spills"][j]["dz"] = z2
    known = {False: set(), True: set()}
    for step in range(S["n"] + 1):
        model.step()
        for sc in model.spills.items():
            new = ~np.isin(sc["id"], list(known[sc.uncertain])) if known[sc.uncertain] else np.ones(len(sc["id"]), bool)
            known[sc.uncertain].update(int(a) for a in sc["id"])
            for j, sp in enumerate(S["spills"]):
                m = new & (sc["spill_num"] == j)
                if not m.any():
                    continue
                P = sc["positions"][m]
                place(S, sp, step, P, mon)
                mon.event(sp["kind"], m.sum())
                mon.state(sp["kind"], sp["dur"] > 0, sp["start"] % S["ts"] == 0, sp["z"] > 0, sc.uncertain, len(P) > 1)


def place(S, sp, step, P, mon):
    k = sp["kind"]
    a = np.array([sp["c"][0], sp["c"][1], sp["z"]])
    b = a + np.array([sp["d"][0], sp["d"][1], sp.get("dz", 0.)])
    if k in ("point", "contin", "pertimestep", "subsurf"):
        mon.close(P, np.tile(a, (len(P), 1)), "element of a point release not at the point", rtol=0, atol=1e-9)
    elif k == "line":
        # the whole line at once, evenly from end to end
        want = a + np.linspace(0, 1, len(P))[:, None] * (b - a)
        mon.close(P[np.lexsort(((P - a) @ (b - a),))], want, "instantaneous line release not spread evenly from end to end", rtol=0, atol=1e-7 * (1 + abs(b - a).max()))
        mon.event("spread_judged")
    elif k == "moving":
        # source position between the times of this step
        L2 = ((b - a) ** 2).sum()
        s = ((P - a) @ (b - a)) / L2
        off = np.abs(P - (a + s[:, None] * (b - a))).max()
        mon.check(off <= 1e-8, "element of a moving release off the line", off)
        nst = max(1, int(np.ceil(sp["dur"] / S["ts"])))

        def frac(t):
            d = t - sp["start"]
            if d <= 0:
                return 0.
            if d >= sp["dur"]:
                return 1.
            f = int(d // S["ts"])
            return (f + (d - f * S["ts"]) / min(S["ts"], sp["dur"] - f * S["ts"])) / nst
        lo, hi = frac((step - 1) * S["ts"]), frac(step * S["ts"] + (1 if step == 0 else 0))
        mon.check(s.min() >= lo - 1e-6 and s.max() <= hi + 1e-6, "element released where the moving source was not at that time",
                  lambda: "fractions %.6g..%.6g of the line, source at %.6g..%.6g" % (s.min(), s.max(), lo, hi))
        if len(P) > 4:
            mon.check(s.max() - s.min() >= (hi - lo) * .3, "moving release bunched up", lambda: "%.4g of %.4g" % (s.max() - s.min(), hi - lo))
    elif k in ("polygon", "contpoly"):
        import shapely.geometry as sg
        pol = gn.polygons(sp)
        for p in P:
            d = min(q.distance(sg.Point(p[0], p[1])) for q in pol)
            mon.check(d <= 2e-6, "element of a polygon release outside the polygons", lambda: "%s is %g away" % (p, d))
        if len(pol) > 1:
            mon.event("multi_polygon")
        mon.check(bool((P[:, 2] == 0).all()), "polygon release not at the surface", "")
    elif k == "grid":
        s = sp["s"]
        x, y = np.linspace(a[0] - s, a[0] + s, sp["res"][0]), np.linspace(a[1] - s, a[1] + s, sp["res"][1])
        want = sorted((round(p, 9), round(q, 9)) for p in x for q in y)
        mon.check(sorted((round(p[0], 9), round(p[1], 9)) for p in P) == want, "grid release is not the grid of nodes", "")
    elif k == "custom":
        C = np.array(gn.custom_positions(sp))
        D = np.abs(P[:, None, :] - C[None]).max(axis=2)
        mon.check(bool((D.min(axis=1) <= 1e-12).all()), "element not at any of the given positions", "")
        cnt = np.bincount(D.argmin(axis=1), minlength=len(C))
        mon.check(cnt.min() >= len(P) // len(C), "given positions not used equally", lambda: str(cnt))


def poly_case(rng, mon):
    """area and weight proportions over polygons, with holes and multipolygons"""
    import shapely.geometry as sg
    from gnome.spills.release import PolygonRelease
    from gnome.spills import Spill
    from scipy.stats import binom
    x0, y0 = float(rng.uniform(-150, 150)), float(rng.uniform(-50, 50))
    n = int(rng.choice([600, 2000]))
    polys, base = [], []
    mode = str(rng.choice(["area", "weights", "thickness", "multi", "mixed"]))
    far = mode in ("weights", "thickness", "mixed") and rng.random() < .6
    yy = y0
    if far and mode == "thickness":
        n = 6000
    for k in range(int(rng.integers(2, 4))):
        w, h = rng.uniform(.02, .2, 2)
        c = x0 + k * .5
        y0 = (float(rng.uniform(-8, 8)) if k % 2 else float(rng.choice([-1, 1]) * rng.uniform(50, 65))) if far else yy
        base.append((c, y0, w, h))
        sq = [(c, y0), (c + w, y0), (c + w, y0 + h), (c, y0 + h)]
        if rng.random() < .5:
            sq = sq[::-1]
        kind = rng.choice(["box", "L", "tri", "quad"])
        if kind == "L":
            sq = [(c, y0), (c + w, y0), (c + w, y0 + h / 2), (c + w / 2, y0 + h / 2), (c + w / 2, y0 + h), (c, y0 + h)]
        elif kind == "tri":
            sq = [(c, y0), (c + w, y0 + .1 * h), (c + .1 * w, y0 + h)]
        elif kind == "quad":
            sq = [(c, y0), (c + w, y0), (c + .2 * w, y0 + .15 * h), (c, y0 + h)]
        polys.append(sg.Polygon(sq))
    kw = {}
    # the area on the ground of a small polygon goes with the cosine of its latitude
    ground = np.array([p.area * np.cos(np.radians(p.centroid.y)) for p in polys])
    if mode == "weights":
        w = rng.dirichlet(np.ones(len(polys)))
        kw = dict(weights=[float(a) for a in w])
    elif mode == "thickness":
        th = rng.uniform(1e-6, 1e-4, len(polys))
        kw = dict(thicknesses=[float(a) for a in th])
        w = ground * th
        w = w / w.sum()
    elif mode == "mixed":
        # a record of two polygons and one of one: the record's weight is shared out by area
        polys, base, ground = polys[:3], base[:3], ground[:3]
        feats = [sg.MultiPolygon(polys[:-1]), polys[-1]]
        a = float(rng.uniform(.1, .9))
        kw = dict(weights=[a, 1 - a])
        pa = np.array([p.area for p in polys[:-1]])
        w = np.append(a * pa / pa.sum(), 1 - a)
        if far:
            # whether by degrees or by the ground is not stated: only the record's share is judged
            w = None
        far = False
        mon.event("mixed_records")
    elif mode == "multi":
        feats = [sg.MultiPolygon(polys)]
        w = np.array([p.area for p in polys])
        w = w / w.sum()
    else:
        w = np.array([p.area for p in polys])
        w = w / w.sum()
    rel = PolygonRelease(polygons=feats if mode in ("multi", "mixed") else polys, release_time=gn.T0, num_elements=n, **kw)
    sc = release(rel, n)
    P = sc["positions"]
    cnt = np.zeros(len(polys), int)
    for p in P:
        d = [q.distance(sg.Point(p[0], p[1])) for q in polys]
        mon.check(min(d) <= 2e-6, "element of a polygon release outside the polygons", lambda: "%s is %g away" % (p, min(d)))
        cnt[int(np.argmin(d))] += 1
    if w is None:
        lo, hi = binom.ppf(1e-10, n, 1 - a), binom.ppf(1 - 1e-10, n, 1 - a)
        mon.check(lo <= cnt[-1] <= hi, "record share off its weight", lambda: "%d of %d, weight %.4g" % (cnt[-1], n, 1 - a))
    for k in range(len(polys)):
        if w is None:
            continue
        # areas are those of the sphere: at one latitude band the proportions differ by well under 1 %
        lo, hi = binom.ppf(1e-10, n, max(0, w[k] * .985)), binom.ppf(1 - 1e-10, n, min(1, w[k] * 1.015))
        mon.check(lo <= cnt[k] <= hi, "polygon share off its weight", lambda: "%s: %d of %d, weight %.4g" % (mode, cnt[k], n, w[k]))
    # evenly filled: a part of a polygon holds the elements of its part of the area
    own = np.array([int(np.argmin([q.distance(sg.Point(p[0], p[1])) for q in polys])) for p in P])
    for k in range(len(polys)):
        c, y, ww, hh = base[k]
        if cnt[k] < 50:
            continue
        fx, fy = rng.uniform(.2, .8, 2)
        for name, part, got in [("west", sg.box(c - 1, y - 1, c + fx * ww, y + 1), P[own == k, 0] < c + fx * ww), ("south", sg.box(c - 1, y - 1, c + 1, y + fy * hh), P[own == k, 1] < y + fy * hh)]:
            f = polys[k].intersection(part).area / polys[k].area
            g = int(got.sum())
            mon.check(binom.ppf(1e-10, cnt[k], max(0, f - .003)) <= g <= binom.ppf(1 - 1e-10, cnt[k], min(1, f + .003)), "polygon not filled evenly", lambda: "%s part: %d of %d, %.4g of the area" % (name, g, cnt[k], f))
        mon.event("evenness_judged")
    mon.event("weights_judged")
    mon.state("poly", mode, len(polys), n)


def release(rel, n, substance=None, arrays=()):
    import gnome.array_types as at
    from gnome.spills import Spill
    from gnome.spill_container import SpillContainer
    sp = Spill(release=rel, amount=n, units="kg", **(dict(substance=substance) if substance is not None else {}))
    sc = SpillContainer(False)
    sc.spills.add(sp)
    ats = dict(sp.all_array_types)
    for a in arrays:
        ats[a] = at.gat(a)
    sc.prepare_for_model_run(ats, 900)
    sc.release_elements(gn.T0, gn.T0 + sec(900), environment={"water": None})
    if len(sc["positions"]) != n:
        raise RuntimeError("harness: release")
    return sc


def init_case(rng, mon):
    """initialisers: windage range and persistence, rise velocity and droplet size within the distribution"""
    from gnome.spills.release import PointLineRelease, SubsurfaceRelease
    from gnome.spills.substance import NonWeatheringSubstance
    from gnome.spills.gnome_oil import GnomeOil
    from gnome.utilities.distributions import UniformDistribution, NormalDistribution, LogNormalDistribution, WeibullDistribution
    n = int(rng.choice([1, 40, 400]))
    if rng.random() < .5:
        lo = float(rng.uniform(0, .03))
        hi = lo + float(rng.choice([0, .02, .05]))
        per = int(rng.choice([-1, 900, 3600]))
        sub = NonWeatheringSubstance(windage_range=(lo, hi), windage_persist=per)
        sc = release(PointLineRelease(release_time=gn.T0, start_position=(1, 2, 0), num_elements=n), n, sub, ("windages", "windage_range", "windage_persist"))
        mon.close(sc["windage_range"], np.tile([lo, hi], (n, 1)), "windage range not that of the substance", rtol=1e-12)
        mon.check(bool((sc["windage_persist"] == per).all()), "windage persistence not that of the substance", "")
        w = sc["windages"]
        mon.check(bool((w >= lo - 1e-12).all() and (w <= hi + 1e-12).all()), "initial windage outside its range", lambda: "%g..%g not in %g..%g" % (w.min(), w.max(), lo, hi))
        if per == -1 and hi > lo and n >= 40:
            mon.check(w.max() - w.min() > .3 * (hi - lo), "initial windages not spread over the range", "")
        mon.event("windage_judged", n)
        mon.state("windage", per, hi > lo, n)
    else:
        a = float(rng.choice([1e-5, 5e-4]))
        b = a + float(rng.choice([1e-5, 1e-3]))
        typ = str(rng.choice(["droplet_size", "rise_velocity"]))
        sub = GnomeOil(str(rng.choice(gn.OILS)))
        rel = SubsurfaceRelease(distribution=UniformDistribution(a, b), distribution_type=typ, release_time=gn.T0, start_position=(1, 2, 30.), num_elements=n)
        sc = release(rel, n, sub)
        v = sc["droplet_diameter"] if typ == "droplet_size" else sc["rise_vel"]
        mon.check(bool((v >= a).all() and (v <= b).all()), "initial %s outside its distribution" % typ, lambda: "%g..%g" % (v.min(), v.max()))
        if n >= 40:
            mon.check(v.max() - v.min() > .3 * (b - a), "initial %s not spread" % typ, "")
        if typ == "droplet_size":
            r = sc["rise_vel"]
            mon.check(bool(np.isfinite(r).all()), "rise velocity not finite", "")
            o = np.argsort(v)
            mon.check(bool(np.all(np.diff(r[o]) >= -1e-15)), "bigger droplets do not rise faster", "")
            rho = sc["density"]
            mon.check(bool(np.all(np.sign(np.round(r, 18)) == np.sign(1020. - rho)) or abs(1020 - rho[0]) < 30), "rise velocity has the wrong sign", lambda: "%s %s" % (r[:3], rho[:3]))
        mon.event("rise_judged", n)
        mon.state("rise", typ, n, a, b > 10 * a)
