"""Pixel and metre conversions."""
PROPERTY = "P26"
KIND = "plain"
N = {"quick": 1600, "thorough": 40000}
BUDGET = {"quick": 60, "thorough": 1500}
RULE = "(conversion, wide/tall box, wide/tall image, hemisphere, size class)"
NEED = ["geo", "flat", "regular", "rectangular", "no_projection", "rescaled", "outside_box", "integer_pixels", "north_up", "metres", "metres_2d", "single_point", "geodesic", "wind_vectors", "current_vectors", "caller_arrays_kept"]
ASSUMES = ["the radius of the earth is the documented 6366706.989 m (8.9992801e-06 degrees per metre)"]

import math
import numpy as np

DEG = 8.9992801e-06


def box(rng):
    s = 10. ** rng.uniform(-3, 1.3)
    w, h = s * float(rng.uniform(.2, 5)), s * float(rng.uniform(.2, 5))
    h = min(h, 60.)
    w = min(w, 170.)
    lo, la = float(rng.uniform(-179, 179 - w)), float(rng.uniform(-80, 80 - h))
    return np.array([(lo, la), (lo + w, la + h)])


def pixels(rng, mon):
    from gnome.utilities import projections as P
    bb = box(rng)
    size = (int(rng.integers(2, 1500)), int(rng.integers(2, 1500)))
    name = str(rng.choice(["geo", "flat", "regular"]))
    cls = dict(geo=P.GeoProjection, flat=P.FlatEarthProjection, regular=P.RegularGridProjection)[name]
    form = int(rng.integers(3))
    arg = [bb.copy(), tuple(map(tuple, bb.tolist())), bb.tolist()][form]
    p = cls(arg, size)
    if rng.random() < .4:
        p = cls(box(rng), (int(rng.integers(2, 900)), int(rng.integers(2, 900))))
        p.set_scale(arg, size)
        mon.event("rescaled")
        if rng.random() < .3:       # only the box is new
            q = cls(box(rng), size)
            q.set_scale(arg)
            p = q
    W, H = size
    c = bb.mean(0)
    w, h = bb[1] - bb[0]
    k = math.cos(math.radians(c[1])) if name == "flat" else 1.
    if name == "regular":
        sx, sy = W / w, H / h
    else:
        s = min(W / (w * k), H / h)
        sx, sy = s * k, s
    n = int(rng.choice([1, 2, 17]))
    pos = np.c_[rng.uniform(bb[0, 0], bb[1, 0], n), rng.uniform(bb[0, 1], bb[1, 1], n), rng.uniform(-5, 99, n)]
    if rng.random() < .3:
        pos[:, :2] += rng.choice([-1, 1], (n, 2)) * (w, h)
        mon.event("outside_box")
    exp = np.c_[(pos[:, 0] - c[0]) * sx + W / 2., (c[1] - pos[:, 1]) * sy + H / 2.]
    tol = 1e-9 * (W + H) + 1e-12 * 360 * max(sx, sy)
    for form in ("n3", "n2", "list", "one"):
        a = {"n3": pos.copy(), "n2": np.ascontiguousarray(pos[:, :2]), "list": [tuple(x) for x in pos.tolist()], "one": pos[0].copy()}[form]
        keep = np.array(a)
        e = exp[:1] if form == "one" else exp
        g = p.to_pixel(a)
        mon.close(g, e, "pixel of a position", rtol=0, atol=tol, what="%s %s box %s image %s" % (name, form, bb.tolist(), size))
        i = p.to_pixel(a, asint=True)
        # floor, apart from positions within rounding of a pixel edge
        f = np.floor(e)
        near = np.abs(e - np.round(e)) < tol
        mon.check(i.dtype.kind == "i" and i.shape == e.shape and bool(np.all((i == f) | near & (np.abs(i - f) <= 1))), "integer pixel of a position", lambda: "%s %s, expected %s" % (name, i, f))
        mon.check(np.array_equal(np.array(a), keep), "conversion changed the caller's positions", lambda: "%s %s" % (name, form))
        mon.event("integer_pixels")
        if form == "one":
            mon.event("single_point")
    # back
    px = p.to_pixel(pos)
    kp = px.copy()
    back = p.to_lonlat(px)
    mon.check(np.array_equal(px, kp), "conversion changed the caller's pixels", name)
    one = p.to_lonlat((float(px[0, 0]), float(px[0, 1])))
    mon.close(np.ravel(one), pos[0, :2], "position to pixel and back (one point)", rtol=0, atol=1e-9 + 1e-12 * 360)
    mon.close(back, pos[:, :2], "position to pixel and back", rtol=0, atol=1e-9 + 1e-12 * 360)
    ip = p.to_pixel(pos, asint=True)
    keep = ip.copy()
    back = p.to_lonlat(ip)
    d = np.abs(back - pos[:, :2]) * (sx, sy)
    mon.check(bool(np.all(d <= .5 + 1e-6 + tol)), "position to whole pixel and back is off by more than half a pixel", lambda: "%s %s" % (name, d))
    mon.check(np.array_equal(ip, keep), "conversion changed the caller's pixels", name)
    mon.check(np.array_equal(p.to_pixel(back, asint=True), keep), "centre of a pixel is not in the pixel", name)
    mon.event("caller_arrays_kept")
    # orientation
    a = p.to_pixel(np.array([(c[0], c[1], 0.), (c[0], c[1] + h / 3, 0.), (c[0] + w / 3, c[1], 0.)]))
    mon.check(a[1, 1] < a[0, 1] and abs(a[1, 0] - a[0, 0]) < tol and a[2, 0] > a[0, 0] and abs(a[2, 1] - a[0, 1]) < tol, "north is not up or east not right", lambda: "%s %s" % (name, a))
    mon.event("north_up")
    # box fits, fills one direction
    corners = p.to_pixel(np.array([(x, y, 0.) for x in bb[:, 0] for y in bb[:, 1]]))
    mon.check(bool(np.all(corners >= -tol) and np.all(corners <= np.array(size) + tol)), "the box does not fit in the image", lambda: "%s %s %s" % (name, corners, size))
    full = np.ptp(corners, axis=0) / np.array(size)
    mon.check(full.max() > 1 - 1e-9 and (name != "regular" or full.min() > 1 - 1e-9), "the box does not fill the image", lambda: "%s %s" % (name, full))
    if name != "regular":
        ib = np.array([np.ravel(x) for x in p.image_box])
        e = np.array([(c[0] - W / 2. / sx, c[1] - H / 2. / sy), (c[0] + W / 2. / sx, c[1] + H / 2. / sy)])
        mon.close(ib, e, "box of the image", rtol=1e-9, atol=1e-9 + abs(e).max() * 1e-12)
    m = p.to_pixel_multipoint(pos[:, :2].reshape(1, -1, 2).copy())
    mon.close(m[0], exp, "pixel of a position (any shape)", rtol=0, atol=tol)
    mon.event(name)
    mon.state(name, w > h, W > H, c[1] > 0, int(math.log10(w)), form)


def grid(rng, mon):
    from gnome.utilities import projections as P
    nx, ny = int(rng.integers(2, 40)), int(rng.integers(2, 40))
    lon = np.cumsum(rng.uniform(.01, .5, nx)) + float(rng.uniform(-170, 100))
    lat = np.cumsum(rng.uniform(.01, .5, ny)) + float(rng.uniform(-80, 50))
    p = P.RectangularGridProjection(lon.copy(), lat.copy())
    n = int(rng.choice([1, 9]))
    pos = np.c_[rng.uniform(lon[0], lon[-1], n), rng.uniform(lat[0], lat[-1], n), rng.uniform(0, 9, n)]
    if rng.random() < .4:
        k = int(rng.integers(n))
        pos[k, 0] = float(rng.choice([lon[0] - 1, lon[-1] + 1]))
        pos[k, 1] = float(rng.choice([lat[0] - 1, lat[-1] + 1]))
        mon.event("outside_box")
    cl = np.c_[np.clip(pos[:, 0], lon[0], lon[-1]), np.clip(pos[:, 1], lat[0], lat[-1])]
    exp = np.c_[np.interp(cl[:, 0], lon, np.arange(nx)), ny - 1 - np.interp(cl[:, 1], lat, np.arange(ny))]
    for a in (pos.copy(), np.ascontiguousarray(pos[:, :2]), pos.tolist()):
        keep = np.array(a)
        g = p.to_pixel(a)
        mon.close(g, exp, "pixel of a position on a grid", rtol=1e-9, atol=1e-9)
        mon.check(np.array_equal(np.array(a), keep), "conversion changed the caller's positions", "rectangular grid")
        f = p.to_pixel(a, asint=True)
        near = np.abs(exp - np.round(exp)) < 1e-9
        mon.check(bool(np.all((f == np.floor(exp)) | near)), "integer pixel of a position on a grid")
    px = p.to_pixel(pos)
    keep = px.copy()
    mon.close(p.to_lonlat(px), cl, "position to grid pixel and back", rtol=1e-9, atol=1e-9)
    mon.check(np.array_equal(px, keep), "conversion changed the caller's pixels", "rectangular grid")
    far = px + np.array([nx * 2., 0.])
    keep = far.copy()
    p.to_lonlat(far)
    mon.check(np.array_equal(far, keep), "conversion changed the caller's pixels", "rectangular grid, outside")
    mon.event("rectangular")
    mon.state("grid", nx < 5, ny < 5, n)
    q = P.NoProjection()
    mon.equal(q.to_pixel(pos), pos[:, :2], "no projection changes positions")
    mon.equal(q.to_lonlat(pos[:, :2]), pos[:, :2], "no projection changes positions")
    mon.event("no_projection")


def metres(rng, mon):
    from gnome.utilities.projections import FlatEarthProjection as Fp
    n = int(rng.choice([1, 2, 30]))
    ref = np.c_[rng.uniform(-180, 180, n), rng.uniform(-88, 88, n), rng.uniform(0, 50, n)]
    d = np.c_[rng.normal(0, 1, (n, 2)) * 10. ** rng.uniform(-2, 6), rng.uniform(-9, 9, n)]
    keep, kr = d.copy(), ref.copy()
    g = Fp.meters_to_lonlat(d, ref)
    e = np.c_[d[:, 0] * DEG / np.cos(np.radians(ref[:, 1])), d[:, 1] * DEG, d[:, 2]]
    mon.close(g, e, "metres to degrees", rtol=1e-12)
    mon.check(np.array_equal(d, keep) and np.array_equal(ref, kr), "conversion changed the caller's arrays", "metres")
    b = Fp.lonlat_to_meters(g, ref)
    mon.close(b, d, "metres to degrees and back", rtol=1e-11, atol=1e-12)
    mon.close(Fp.lonlat_to_meters(e, ref), d, "degrees to metres", rtol=1e-11, atol=1e-12)
    mon.event("metres")
    mon.close(Fp.meters_to_lonlat(tuple(d[0]), tuple(ref[0])), e[:1], "metres to degrees (one point)", rtol=1e-12)
    mon.close(Fp.meters_to_lonlat(d[:, :2], ref[:, :2]), e[:, :2], "metres to degrees (two columns)", rtol=1e-12)
    mon.event("metres_2d")
    # one reference position for all, a step there and back
    one = Fp.meters_to_lonlat(d, ref[0])
    mon.close(one, np.c_[d[:, 0] * DEG / math.cos(math.radians(ref[0, 1])), d[:, 1] * DEG, d[:, 2]], "metres to degrees (one reference position)", rtol=1e-12)
    mon.close(Fp.meters_to_lonlat(-d, ref), -e, "a step back is not the opposite of the step", rtol=1e-12)
    mon.state("metres", n, ref[0, 1] > 0, int(abs(ref[0, 1]) > 60))
    # great circles
    R = 6366706.989
    lon, lat, brg = float(rng.uniform(-180, 180)), float(rng.uniform(-85, 85)), float(rng.uniform(0, 360))
    dist = float(10. ** rng.uniform(0, 6.5))
    if rng.random() < .2:
        brg = float(rng.choice([0, 90, 180, 270]))
    x, y = Fp.geodesic_sphere(lon, lat, dist, brg)
    la, ph, al, be = (math.radians(v) for v in (lat, y, brg, x - lon))
    hav = math.sin((ph - la) / 2) ** 2 + math.cos(la) * math.cos(ph) * math.sin(be / 2) ** 2
    mon.close(2 * R * math.asin(min(1., math.sqrt(hav))), dist, "distance of the end of a great circle", rtol=1e-6, atol=.01)
    # initial bearing of the way there
    if dist > 100:
        b0 = math.atan2(math.sin(be) * math.cos(ph), math.cos(la) * math.sin(ph) - math.sin(la) * math.cos(ph) * math.cos(be))
        dd = (math.degrees(b0) - brg + 180) % 360 - 180
        mon.check(abs(dd) < 1e-3, "bearing of the end of a great circle", lambda: "%s %s %s %s: off by %s" % (lon, lat, dist, brg, dd))
    xs, ys = Fp.geodesic_sphere(np.array([lon, lon]), np.array([lat, lat]), np.array([dist, dist / 2]), np.array([brg, brg]))
    mon.close([xs[0], ys[0]], [x, y], "great circle of arrays", rtol=1e-12, atol=1e-12)
    mon.event("geodesic")


def vectors(rng, mon):
    from gnome.utilities import transforms as T
    n = int(rng.choice([1, 5]))
    r, th = rng.uniform(0, 40, n), rng.uniform(0, 360, n)
    if rng.random() < .4:
        th[:] = rng.choice([0., 90., 180., 270., 360., 45.], n)
    if rng.random() < .2:
        r[0] = 0.
    a = np.c_[r, th]
    keep = a.copy()
    uv = T.r_theta_to_uv_wind(a)
    e = np.c_[-r * np.sin(np.radians(th)), -r * np.cos(np.radians(th))]
    mon.close(uv, e, "wind from a direction to components", rtol=1e-12, atol=2e-14 * 1e1)
    mon.check(np.array_equal(a, keep), "conversion changed the caller's arrays", "wind")
    back = T.uv_to_r_theta_wind(uv)
    d = (back[:, 1] - th + 180) % 360 - 180
    mon.check(bool(np.all(np.abs(back[:, 0] - r) < 1e-11) and np.all((np.abs(d) < 1e-8) | (r < 1e-5)) and np.all((back[:, 1] >= 0) & (back[:, 1] < 360))), "components to speed and direction", lambda: "%s %s" % (a, back))
    mon.event("wind_vectors")
    cu = T.r_theta_to_uv_current(a)
    mon.close(cu, -e, "current towards a direction to components", rtol=1e-12, atol=2e-13)
    back = T.uv_to_r_theta_current(cu)
    d = (back[:, 1] - th + 180) % 360 - 180
    mon.check(bool(np.all(np.abs(back[:, 0] - r) < 1e-11) and np.all((np.abs(d) < 1e-8) | (r < 1e-5))), "current components to speed and direction", lambda: "%s %s" % (a, back))
    mon.event("current_vectors")
    for bad in ((1., -1.), (1., 361.), (-1., 3.)):
        try:
            T.r_theta_to_uv_wind(bad)
            mon.check(False, "impossible speed or direction accepted", str(bad))
        except ValueError:
            mon.check(True, "x")
    mon.state("vectors", n, bool((r == 0).any()))


def case(i, rng, mon):
    (pixels, pixels, grid, metres, vectors)[i % 5](rng, mon)
