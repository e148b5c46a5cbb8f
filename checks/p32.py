"""The land raster against the shoreline it was made from."""
PROPERTY = "P32"
KIND = "plain"
N = {"quick": 2000, "thorough": 40000}
BUDGET = {"quick": 120, "thorough": 2400}
RULE = "(kind of map, raster size class, latitude band, shift, spillable area given how, bounds given how, place: land/lake/water/off raster/off map)"
NEED = ["land", "lake", "island_in_lake", "open_water", "off_raster", "off_map", "not_spillable", "spillable", "two_spillable_areas", "bounds_in_file", "bounds_given", "bounds_from_land", "shifted_180", "shifted_360",
        "resized", "grid_file", "grid_map", "simple_map", "one_by_one_and_together", "geojson", "near_shore", "masked_cells_judged", "coarse_layers"]
ASSUMES = ["places closer than two cells to a shoreline may be either land or water (vertices are drawn to whole cells)",
           "where polygons overlap, the one that comes later in the file decides (lakes after the land they are in)"]

import json
import os
import tempfile
import warnings
import numpy as np
import gn
from vlib import blame, where


def inside(poly, pts):
    """even-odd rule, written independently of the package"""
    x, y = pts[:, 0], pts[:, 1]
    r = np.zeros(len(pts), bool)
    for (x0, y0), (x1, y1) in zip(poly, np.roll(poly, -1, axis=0)):
        c = (y0 > y) != (y1 > y)
        with np.errstate(all="ignore"):
            xx = x0 + (y - y0) * (x1 - x0) / (y1 - y0)
        r ^= c & (x < xx)
    return r


def dist(poly, pts, sx, sy):
    """distance of points to the outline, in cells"""
    P, Q = poly * (sx, sy), np.roll(poly, -1, axis=0) * (sx, sy)
    pts = pts[:, :2] * (sx, sy)
    best = np.full(len(pts), np.inf)
    for a, b in zip(P, Q):
        d = b - a
        L = (d * d).sum()
        t = np.clip(((pts - a) @ d) / L, 0, 1) if L > 0 else np.zeros(len(pts))
        best = np.minimum(best, np.hypot(*(pts - (a + t[:, None] * d)).T))
    return best


def star(rng, c, r, n=None):
    n = n or int(rng.integers(3, 14))
    a = np.sort(rng.uniform(0, 2 * np.pi, n))
    while n < 3 or np.diff(np.r_[a, a[0] + 2 * np.pi]).max() > np.pi * .98:
        a = np.sort(rng.uniform(0, 2 * np.pi, n))
    rr = r * rng.uniform(.35, 1., n)
    p = np.c_[c[0] + rr * np.cos(a), c[1] + rr * np.sin(a)]
    return p if rng.random() < .5 else p[::-1].copy()


def shoreline(rng, lon0, lat0, size):
    """[(points, '1' land / '2' lake)] in drawing order"""
    out = []
    for _ in range(int(rng.integers(1, 5))):
        c = np.array([lon0, lat0]) + rng.uniform(-.5, .5, 2) * size
        r = float(rng.uniform(.1, .4)) * size
        out.append((star(rng, c, r), "1"))
        if rng.random() < .5:
            out.append((star(rng, c, r * .3), "2"))
            if rng.random() < .5:
                out.append((star(rng, c, r * .1), "1"))
    return out


def write(rng, path, polys, spill, bounds):
    nl = str(rng.choice(["\n", "\r\n"]))
    L = []

    def add(name, sname, pts, close):
        pts = [tuple(p) for p in np.asarray(pts).tolist()]
        if close:
            pts = pts + pts[:1]
        if rng.random() < .2:
            L.append("")
        L.append('"%s","%s",%s%d' % (name, sname, " " if rng.random() < .5 else "", len(pts)))
        for p in pts:
            L.append(("%r,%r" if rng.random() < .7 else "%r, %r ") % p)
    todo = [("land %d" % k if t == "1" else "lake", t, p) for k, (p, t) in enumerate(polys)]
    # (metadata is the name, then the secondary name: 1 for land, 2 for water)
    extra = [(str(rng.choice(["SpillableArea", "spillable area", "Spillable Area", "SPILLABLEAREA"])), "1", s) for s in spill]
    if bounds is not None:
        extra.append((str(rng.choice(["Map Bounds", "MapBounds", "map bounds"])), "1", bounds))
    for e in extra:
        todo.insert(int(rng.integers(0, len(todo) + 1)), e)
    for n, s, p in todo:
        add(n, s, p, bool(rng.random() < .6))
    with open(path, "w", newline="") as fd:
        fd.write(nl.join(L) + (nl if rng.random() < .7 else ""))


def bna_case(i, rng, mon, folder):
    from gnome.maps import MapFromBNA
    lat0 = float(rng.choice([0., 25., -40., 60., 78.]))
    size = float(rng.choice([.01, .2, 3., 15.])) if abs(lat0) < 70 else float(rng.choice([.01, .2, 3.]))
    shift = int(rng.choice([0, 0, 180, 360]))
    lon0 = {0: float(rng.choice([-70., 0., 120.])), 180: float(rng.choice([-100., -30.])), 360: float(rng.choice([250., 30.]))}[shift]
    polys = shoreline(rng, lon0, lat0, size)
    turn = {0: 0., 180: 360., 360: -360.}[shift]
    some = rng.random() < .6

    def other(p):
        """as it may stand in the file: all of the longitudes a turn away, or only those of some polygons"""
        return p if some and rng.random() < .5 else p + (turn, 0.)
    raster = int(rng.choice([200, 2000, 20000, 300000, 1200000])) if rng.random() < .9 else int(rng.integers(100, 5000))
    allp = np.vstack([p for p, _ in polys])
    lo, hi = allp.min(0), allp.max(0)
    spill, bounds_file, bounds_arg, spill_arg = [], None, None, None
    k = int(rng.integers(4))
    for _ in range(k if k < 3 else 0):
        spill.append(star(rng, (lo + hi) / 2 + rng.uniform(-.3, .3, 2) * size, size * .8))
    hb = str(rng.choice(["none", "file", "given"]))
    box = np.array([(lo[0] - .3 * size, lo[1] - .2 * size), (hi[0] + .1 * size, lo[1] - .2 * size), (hi[0] + .1 * size, hi[1] + .4 * size), (lo[0] - .3 * size, hi[1] + .4 * size)])
    if rng.random() < .3:
        box = np.vstack([box, [(lo[0] - .35 * size, (lo[1] + hi[1]) / 2)]])
    if hb == "file":
        bounds_file = box
    elif hb == "given":
        bounds_arg = box
    if spill and rng.random() < .4:
        spill_arg = spill
    f = os.path.join(folder, "m%d.bna" % i)
    spill_f, box_f = [other(p) for p in spill], other(box)
    if bounds_arg is not None:
        bounds_arg = box_f if rng.random() < .5 else box_f.tolist()
    if spill_arg is not None:
        spill_arg = spill_f if len(spill) > 1 or rng.random() < .5 else spill_f[0]
        if rng.random() < .5:
            spill_arg = [np.asarray(q).tolist() for q in spill_arg]
    write(rng, f, [(other(p), t) for p, t in polys], [] if spill_arg is not None else spill_f, box_f if bounds_file is not None else None)
    kw = {}
    if bounds_arg is not None:
        kw["map_bounds"] = bounds_arg
    if spill_arg is not None:
        kw["spillable_area"] = spill_arg
    mon.ctx.update(file=open(f, newline="").read()[:1500], raster=raster, shift=shift, bounds=hb, spill="%d %s" % (len(spill), "given" if spill_arg is not None else "file"))
    m = MapFromBNA(f, raster_size=raster, shift_lons=shift, refloat_halflife=1, **kw)
    if rng.random() < .25:
        m.raster_size = raster = int(rng.choice([500, 5000, 60000]))
        again = MapFromBNA(f, raster_size=raster, shift_lons=shift, refloat_halflife=1, **kw)
        mon.check(np.array_equal(m.raster, again.raster), "a map resized differs from one made in that size", lambda: "%s %s" % (m.raster.shape, again.raster.shape))
        mon.check(all(np.array_equal(a, b) for a, b in zip(m.layers, again.layers)), "coarse layers of a map resized differ from those made in that size", lambda: "")
        mon.event("resized")
    mon.check(m.raster.size <= raster, "raster larger than asked for", lambda: str(m.raster.shape))
    # coarse layers: a coarse cell is land when any of its cells is
    for lay, ratio in zip(m.layers, m.ratios):
        W, H = m.raster.shape
        w, h = -(-W // ratio), -(-H // ratio)
        pad = np.zeros((w * ratio, h * ratio), np.uint8)
        pad[:W, :H] = m.raster
        want = pad.reshape(w, ratio, h, ratio).any(axis=(1, 3))
        mon.check(np.array_equal(np.asarray(lay) != 0, want), "a coarse layer does not cover the land of the fine one", lambda: str(ratio))
        mon.event("coarse_layers")

    if shift:
        mon.event("shifted_%d" % shift)
    allp = np.vstack([p for p, _ in polys])
    lo, hi = allp.min(0), allp.max(0)
    if hb == "none":
        q = np.vstack([allp] + spill)
        a, b = q.min(0), q.max(0)
        bounds = np.array([a, (b[0], a[1]), b, (a[0], b[1])])
        mon.event("bounds_from_land")
    else:
        bounds = box
        mon.event("bounds_in_file" if hb == "file" else "bounds_given")
    a, b = m.get_map_bounding_box()
    mon.check(np.allclose(a, bounds.min(0), atol=1e-9) and np.allclose(b, bounds.max(0), atol=1e-9), "bounding box is not that of the map bounds", lambda: "%s %s / %s" % (a, b, bounds))
    # query points
    n = 160
    big = hi - lo + 1e-9
    pts = [rng.uniform(lo - .5 * big, hi + .5 * big, (n, 2))]
    for p, _ in polys + [(s, 0) for s in spill]:
        c = p.mean(0)
        e = p + rng.uniform(0, 1, (len(p), 1)) * (np.roll(p, -1, 0) - p)
        pts.append(e + rng.normal(0, 1, e.shape) * big / np.sqrt(raster) * rng.choice([.5, 4.]))
        pts.append(c + rng.uniform(0, 1, (6, 1)) * (p[rng.integers(0, len(p), 6)] - c))
    pts = np.vstack(pts)
    pts = np.c_[pts, rng.choice([0., 5.], len(pts))]
    # cells of the raster, in degrees
    W, H = m.raster.shape
    lat_c = (lo[1] + hi[1]) / 2
    kx = np.cos(np.radians(lat_c))
    s = min(W / (big[0] * kx), H / big[1])
    sx, sy = s * kx, s
    land = np.zeros(len(pts), bool)
    kind = np.array(["open_water"] * len(pts), dtype=object)
    shore = np.full(len(pts), np.inf)
    for p, t in polys:
        inn = inside(p, pts)
        land[inn] = t == "1"
        kind[inn & (kind == "lake")] = "island_in_lake" if t == "1" else "lake"
        kind[inn & (kind != "lake") & (kind != "island_in_lake")] = "land" if t == "1" else "lake"
        shore = np.minimum(shore, dist(p, pts, sx, sy))
    got = np.asarray(m.on_land_points(pts))
    one = np.array([bool(m.on_land(tuple(p))) for p in pts])
    mon.check(np.array_equal(got, one), "places asked together and one by one differ", lambda: str(pts[got != one][:2]))
    mon.event("one_by_one_and_together", len(pts))
    sure = shore > 2.
    bad = sure & (one != land)
    mon.check(not bad.any(), "land and water do not follow the shoreline", lambda: "%s is called %s, %.1f cells from the shore (%s), raster %s" % (
        pts[bad][0], "land" if one[bad][0] else "water", shore[bad][0], kind[bad][0], m.raster.shape))
    for kk in ("land", "lake", "island_in_lake", "open_water"):
        mon.event(kk, int((sure & (kind == kk)).sum()))
    mon.event("near_shore", int((~sure).sum()))
    # (how far from the shoreline the answers were wrong: goes into the evidence)
    if (~sure & (one != land)).any():
        mon.sample("raster and shoreline differ %.2f cells from the shore" % shore[~sure & (one != land)].max())
    px = m.projection.to_pixel(pts, asint=True)
    off = (px[:, 0] < 0) | (px[:, 1] < 0) | (px[:, 0] >= W) | (px[:, 1] >= H)
    mon.event("off_raster", int(off.sum()))
    mon.check(not one[off].any(), "land beyond the raster", lambda: str(pts[off & one][:1]))
    # bounds and spillable area
    inb = inside(bounds, pts)
    nearb = dist(bounds, pts, 1, 1) <= 1e-9 * (1 + np.abs(pts[:, :2]).max())
    om = np.asarray(m.on_map(pts))
    mon.check(np.array_equal(om[~nearb], inb[~nearb]), "on_map does not follow the bounds", lambda: str(pts[~nearb][om[~nearb] != inb[~nearb]][:1]))
    mon.event("off_map", int((~om).sum()))
    insp = np.zeros(len(pts), bool)
    nears = np.zeros(len(pts), bool)
    for q in spill:
        insp |= inside(q, pts)
        nears |= dist(q, pts, 1, 1) <= 1e-9 * (1 + np.abs(pts[:, :2]).max())
    if not spill:
        insp[:] = inb
    if len(spill) > 1:
        mon.event("two_spillable_areas")
    for j in range(0, len(pts), 2):
        p = tuple(pts[j])
        w = bool(m.in_water(p))
        mon.check(w == (bool(om[j]) and not one[j]), "in_water is not on the map and not land", lambda: "%s: in_water %s, on_map %s, on_land %s" % (p, w, om[j], one[j]))
        mon.check(bool(m.on_map(p)) == bool(om[j]), "places asked together and one by one differ", lambda: str(p))
        if nears[j] or nearb[j]:
            continue
        al = bool(m.allowable_spill_position(p))
        want = bool(om[j] and not one[j] and insp[j])
        mon.check(al == want, "allowable spill position is not in water inside the spillable area and the map", lambda: "%s: %s, on map %s, land %s, in area %s" % (p, al, om[j], one[j], insp[j]))
        mon.event("spillable" if al else "not_spillable")
        mon.state("bna", int(np.log10(raster)), lat0, shift, "%d%s" % (len(spill), spill_arg is not None), hb, kind[j], bool(off[j]), bool(om[j]))
    gj = json.loads(json.dumps(m.to_geojson()))
    rings = {"1": [], "2": []}
    for ft in gj["features"]:
        for pl in ft["geometry"]["coordinates"]:
            rings[ft["id"]].append(np.array(pl[0]))
    for t in "12":
        want = [p for p, q in polys if q == t]
        mon.check(len(want) == len(rings[t]) and all(len(r) == len(p) + 1 and np.allclose(r[:-1], p, atol=1e-6) and np.array_equal(r[0], r[-1]) for r, p in zip(rings[t], want)),
                  "the shoreline drawn is not the one read", lambda: "%s: %d/%d" % (t, len(want), len(rings[t])))
    mon.event("geojson")


def grid_case(i, rng, mon, folder):
    import netCDF4
    from gnome.maps.map import map_from_rectangular_grid_nc_file, map_from_rectangular_grid
    nr, nc_ = int(rng.integers(2, 12)), int(rng.integers(2, 12))
    lon = float(rng.uniform(-170, 100)) + np.cumsum(rng.uniform(.1, 2., nc_))
    lat = float(rng.uniform(-70, 40)) + np.cumsum(rng.uniform(.1, 2., nr))
    M = rng.integers(0, 2, (nr, nc_))
    ref = int(rng.choice([1, 2, 5]))
    if rng.random() < .6:
        f = os.path.join(folder, "g%d.nc" % i)
        with netCDF4.Dataset(f, "w") as d:
            d.createDimension("y", nr)
            d.createDimension("x", nc_)
            a, b, m_ = d.createVariable("lat", "f8", ("y", "x")), d.createVariable("lon", "f8", ("y", "x")), d.createVariable("mask", "i4", ("y", "x"))
            a[:] = np.repeat(lat[:, None], nc_, 1)
            b[:] = np.repeat(lon[None], nr, 0)
            m_[:] = M
        m = map_from_rectangular_grid_nc_file(f, refine=ref)
        lo, la = np.r_[lon, 2 * lon[-1] - lon[-2]], np.r_[lat, 2 * lat[-1] - lat[-2]]
        mon.event("grid_file")
    else:
        # raster orientation: first axis west to east, second north to south
        lo, la = np.r_[lon, lon[-1] + 1.], np.r_[lat, lat[-1] + 1.]
        m = map_from_rectangular_grid(np.ascontiguousarray(np.fliplr((M == 0).astype(np.uint8).T)), lo, la, refine=ref)
        mon.event("grid_map")
    mon.ctx.update(grid="%dx%d refine %d" % (nr, nc_, ref))
    for _ in range(60):
        r, c = int(rng.integers(nr)), int(rng.integers(nc_))
        # not on the line between two cells
        x = lo[c] + (lo[c + 1] - lo[c]) * rng.uniform(.02, .98)
        y = la[r] + (la[r + 1] - la[r]) * rng.uniform(.02, .98)
        p = (x, y, 0.)
        L = bool(m.on_land(p))
        mon.check(L == (M[r, c] == 0), "a cell of the grid is not what its mask says", lambda: "row %d col %d: land %s, mask %d" % (r, c, L, M[r, c]))
        mon.check(bool(m.on_map(p)), "a cell of the grid is off the map", lambda: str(p))
        mon.check(bool(m.in_water(p)) != L, "in_water is not on the map and not land", lambda: str(p))
        mon.event("masked_cells_judged")
    for p in ((lo[0] - .5, la.mean(), 0.), (lo.mean(), la[-1] + .5, 0.), (lo[-1] + .01, la[0], 0.)):
        mon.check(not m.on_map(p) and not m.in_water(p) and not m.allowable_spill_position(p), "a place off the map is in water or can be spilled at", lambda: str(p))
        mon.event("off_map")
    mon.state("grid", nr > 5, nc_ > 5, ref)


def simple_case(i, rng, mon):
    from gnome.maps import GnomeMap
    b = star(rng, rng.uniform(-60, 60, 2), 5.)
    sp = [star(rng, b.mean(0) + rng.uniform(-2, 2, 2), 3.) for _ in range(int(rng.integers(0, 3)))]
    arg = None if not sp else sp if len(sp) > 1 else sp[0] if rng.random() < .5 else [sp[0].tolist()]
    world = rng.random() < .2
    m = GnomeMap(map_bounds=str("global") if world and rng.random() < .5 else None if world else b if rng.random() < .5 else b.tolist(), spillable_area=arg)
    pts = np.c_[rng.uniform(b.min(0) - 2, b.max(0) + 2, (80, 2)), np.zeros(80)]
    inb = np.ones(80, bool) if world else inside(b, pts)
    om = np.asarray(m.on_map(pts))
    mon.check(np.array_equal(om, inb), "on_map does not follow the bounds", lambda: str(pts[om != inb][:1]))
    insp = np.zeros(80, bool)
    for q in sp:
        insp |= inside(q, pts)
    for j, p in enumerate(pts):
        mon.check(not m.on_land(p), "land on a map without any", lambda: str(p))
        al = bool(m.allowable_spill_position(tuple(p)))
        mon.check(al == bool(insp[j] if sp else inb[j]), "allowable spill position does not follow the spillable area", lambda: str(p))
        mon.event("spillable" if al else "not_spillable")
    mon.check(not np.any(m.on_land_points(pts)) and len(m.on_land_points(pts)) == 80, "land on a map without any", lambda: "")
    mon.check(np.array_equal(np.asarray(m.in_water(pts)), om), "in_water is not on the map and not land", lambda: "")
    mon.event("simple_map")


def case(i, rng, mon):
    with tempfile.TemporaryDirectory() as folder, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if i % 8 < 5:
                bna_case(i, rng, mon, folder)
            elif i % 8 == 5:
                simple_case(i, rng, mon)
            else:
                grid_case(i, rng, mon, folder)
        except Exception as e:
            if blame(e) != "code":
                raise
            mon.violation("map raises %s" % type(e).__name__, "%s %s" % (where(e), e))
