"""Geometry answers against exact rational geometry."""
PROPERTY = "P25"
KIND = "plain"
N = {"quick": 1400, "thorough": 30000}
BUDGET = {"quick": 80, "thorough": 1800}
RULE = "(question, shape kind, orientation, closed ring, number of points class, answer)"
NEED = ["point_inside", "point_outside", "vertex_height", "bulk", "many_polygons", "polygonset", "negative_index", "empty_polygon", "thin", "bbox_inside", "bbox_outside", "bbox_merge", "bbox_null", "bbox_inf", "bbox_half_infinite",
        "clockwise", "counterclockwise", "area", "triangulated", "random_point", "hull", "hull_by_spill", "contour", "set_copy", "set_points_data", "two_neighbours"]
ASSUMES = ["points closer to an edge than 1e-9 of the polygon's size (plus rounding of the coordinates) may be either inside or outside",
           "areas are compared with an independent spherical formula to 1 percent (the ellipsoid differs by less)"]

from fractions import Fraction as F
import math
import numpy as np


# ---------------------------------------------------------------- reference
def seg_far(p, q, a, eps):
    """is point a farther than eps from segment pq (floats are fine for that)"""
    d = q - p
    L = float(d @ d)
    t = 0. if L == 0 else min(1., max(0., float((a - p) @ d) / L))
    return float(np.hypot(*(a - p - t * d))) > eps


def inside(poly, a):
    """exact crossing number"""
    x, y = F(float(a[0])), F(float(a[1]))
    c = False
    n = len(poly)
    for i in range(n):
        x1, y1 = poly[i]
        x2, y2 = poly[i - 1]
        if (y1 > y) != (y2 > y):
            # x coordinate of the crossing, exactly
            if x < (x2 - x1) * (y - y1) / (y2 - y1) + x1:
                c = not c
    return c


def shape_(rng, scale, cx, cy):
    kind = str(rng.choice(["star", "star", "box", "triangle", "lattice", "comb", "spiral", "sliver", "spikes"]))
    if kind == "star":
        n = int(rng.integers(4, 40))
        th = np.sort(rng.uniform(0, 2 * np.pi, n))
        r = rng.uniform(.1, 1, n)
        p = np.c_[r * np.cos(th), r * np.sin(th)]
    elif kind == "box":
        a, b = rng.uniform(-1, 0, 2), rng.uniform(0, 1, 2)
        p = np.array([(a[0], a[1]), (b[0], a[1]), (b[0], b[1]), (a[0], b[1])])
    elif kind == "triangle":
        p = rng.uniform(-1, 1, (3, 2))
    elif kind == "lattice":                  # heights of vertices coincide
        n = int(rng.integers(3, 14))
        th = np.sort(rng.choice(np.arange(64), n, replace=False)) / 64 * 2 * np.pi
        r = rng.choice([.25, .5, 1.], n)
        p = np.round(np.c_[r * np.cos(th), r * np.sin(th)] * 8) / 8
    elif kind == "comb":
        k = int(rng.integers(2, 8))
        x = np.linspace(-1, 1, 2 * k + 1)
        top = [(x[j], 1. if j % 2 else float(rng.choice([0., .2]))) for j in range(2 * k + 1)]
        p = np.array([(-1., -1.)] + top + [(1., -1.)])
    elif kind == "spiral":
        t = np.linspace(0, 4 * np.pi, 30)
        o = np.c_[(.1 + t / 20) * np.cos(t), (.1 + t / 20) * np.sin(t)]
        i_ = np.c_[(.03 + t / 20) * np.cos(t), (.03 + t / 20) * np.sin(t)][::-1]
        p = np.r_[o, i_]
    elif kind == "sliver":
        h = float(rng.choice([1e-3, 1e-6]))
        p = np.array([(-1, 0), (1, 0), (1, h), (-1, h * .5)])
    else:
        n = int(rng.integers(3, 9))
        th = np.linspace(0, 2 * np.pi, 2 * n + 1)[:-1]
        r = np.where(np.arange(2 * n) % 2, .05, 1.)
        p = np.c_[r * np.cos(th), r * np.sin(th)]
    p = p * scale + (cx, cy)
    if rng.random() < .5:
        p = p[::-1]
    p = np.roll(p, int(rng.integers(len(p))), axis=0)
    closed = bool(rng.random() < .4)
    if closed:
        p = np.r_[p, p[:1]]
    return kind, closed, np.ascontiguousarray(p, dtype=np.float64)


def points(rng, p, n):
    lo, hi = p.min(0), p.max(0)
    s = np.maximum(hi - lo, 1e-12)
    out = list(rng.uniform(lo - .3 * s, hi + .3 * s, (n, 2)))
    for _ in range(n // 2):                     # at the height of a vertex, left or right of it
        v = p[int(rng.integers(len(p)))]
        w = p[int(rng.integers(len(p)))]
        out.append(np.array([rng.uniform(lo[0] - s[0], hi[0] + s[0]), v[1]]))
        out.append(np.array([w[0], v[1]]))
        k = int(rng.integers(len(p)))           # near the middle of an edge
        m = (p[k] + p[k - 1]) / 2
        out.append(m + rng.normal(0, 1e-4, 2) * s)
    out.append((lo + hi) / 2)
    return np.array(out)


def pip(rng, mon):
    from gnome.utilities.geometry.cy_point_in_polygon import point_in_poly, points_in_poly, points_in_polys
    from gnome.utilities.geometry import PinP
    scale = float(10. ** rng.uniform(-4, 2))
    cx, cy = (float(x) for x in rng.uniform(-180, 180, 2)) if rng.random() < .8 else (0., 0.)
    kind, closed, p = shape_(rng, scale, cx, cy)
    P = [(F(float(x)), F(float(y))) for x, y in p]
    a = points(rng, p, int(rng.choice([1, 3, 12])))
    size = float(np.ptp(p, axis=0).max())
    eps = 1e-9 * size + 4e-15 * (abs(cx) + abs(cy) + size) * 16
    keep, want = [], []
    for q in a:
        if all(seg_far(p[i - 1], p[i], q, eps) for i in range(len(p))):
            keep.append(q)
            want.append(inside(P, q))
    if not keep:
        return
    z = rng.uniform(-5, 5, (len(keep), 1))
    k3 = np.c_[np.array(keep), z]
    want = np.array(want)
    got = {}
    got["one at a time"] = np.array([bool(point_in_poly(p, q)) for q in keep])
    got["tuple"] = np.array([bool(point_in_poly(p, (float(q[0]), float(q[1])))) for q in keep])
    got["bulk"] = points_in_poly(p, k3)
    got["bulk of lists"] = points_in_poly(p, [tuple(map(float, q)) for q in k3])
    got["bulk of a transposed array"] = points_in_poly(p, np.asfortranarray(k3))
    got["reversed ring"] = points_in_poly(np.ascontiguousarray(p[::-1]), k3)
    ring = p[:-1] if closed else p
    got["other start"] = points_in_poly(np.ascontiguousarray(np.roll(ring, int(rng.integers(len(ring))), axis=0)), k3)
    got["closed ring"] = points_in_poly(np.ascontiguousarray(np.r_[ring, ring[:1]]), k3)
    got["one polygon per point"] = points_in_polys(np.ascontiguousarray(np.repeat(p[None], len(keep), 0)), np.ascontiguousarray(np.array(keep)))
    got["python"] = PinP.points_in_poly(p, k3.copy())
    for nm, g in got.items():
        bad = np.flatnonzero(np.asarray(g, bool) != want) if len(g) == len(want) else [0]
        mon.check(len(g) == len(want) and not len(bad), "point in polygon answer is wrong (%s)" % nm,
                  lambda: "%s polygon of %d points %s; point %s: %s, expected %s" % (kind, len(p), p.tolist()[:8], keep[bad[0]], g[bad[0]] if len(g) == len(want) else len(g), want[bad[0]]))
    single = points_in_poly(p, tuple(k3[0]))
    mon.check(isinstance(single, bool) and single == want[0], "point in polygon answer is wrong (single triple)", lambda: "%r, expected %s" % (single, want[0]))
    mon.event("point_inside", int(want.sum()))
    mon.event("point_outside", int((~want).sum()))
    mon.event("vertex_height")
    if len(keep) > 5:
        mon.event("bulk")
    mon.state("pip", kind, closed, bool(want.any()), bool((~want).any()), len(keep) > 5)
    # a shared edge: a point belongs to exactly one of two halves (also on the edge itself)
    if kind == "box":
        b = p[:-1] if closed else p
        lo, hi = b.min(0), b.max(0)
        m = float(rng.uniform(lo[0], hi[0]))
        left = np.array([(lo[0], lo[1]), (m, lo[1]), (m, hi[1]), (lo[0], hi[1])])
        right = np.array([(m, lo[1]), (hi[0], lo[1]), (hi[0], hi[1]), (m, hi[1])])
        if lo[0] < m < hi[0]:
            ys = rng.uniform(lo[1], hi[1], 20)
            e = np.c_[np.where(np.arange(20) % 2, m, rng.uniform(lo[0], hi[0], 20)), ys, ys * 0]
            e = e[(e[:, 0] > lo[0]) & (e[:, 0] < hi[0]) & (e[:, 1] > lo[1]) & (e[:, 1] < hi[1])]
            l, r = points_in_poly(left, e), points_in_poly(right, e)
            mon.check(bool(np.all(l != r)), "point on a shared edge is in none or both of the two polygons", lambda: "%s %s" % (left.tolist(), e[l == r].tolist()))
            mon.event("two_neighbours")
    # different polygons, one point each
    n = int(rng.integers(1, 6))
    tri = rng.uniform(-1, 1, (n, 4, 2))
    q = rng.uniform(-1, 1, (n, 2))
    g = points_in_polys(tri, q)
    for j in range(n):
        if all(seg_far(tri[j, k - 1], tri[j, k], q[j], 1e-9) for k in range(4)):
            mon.check(bool(g[j]) == inside([(F(float(x)), F(float(y))) for x, y in tri[j]], q[j]), "point in polygon answer is wrong (different polygons)", lambda: "%s %s" % (tri[j].tolist(), q[j]))
    mon.event("many_polygons")


def same_poly(g, want, meta, mon, what):
    mon.check(np.asarray(g).shape == want.shape and np.array_equal(np.asarray(g), want) and g.metadata == meta, "polygon of a set is not the one put in",
              lambda: "%s: %s %s, expected %s %s" % (what, np.asarray(g).tolist()[:4], g.metadata, want.tolist()[:4], meta))


def pset(rng, mon):
    from gnome.utilities.geometry.polygons import PolygonSet, Polygon
    ps = PolygonSet()
    ref = []
    for k in range(int(rng.integers(1, 9))):
        _, _, p = shape_(rng, float(rng.choice([.01, 1., 30.])), *rng.uniform(-100, 100, 2))
        if rng.random() < .12:
            p = p[:0]
            mon.event("empty_polygon")
        meta = {"i": k, "n": ["1", "x"]}
        r = rng.random()
        if r < .3:
            ps.append(Polygon(p, metadata=meta))
        elif r < .6:
            ps.append(p.copy(), metadata=meta)
        elif r < .8:
            ps.append([tuple(map(float, q)) for q in p], metadata=meta)
        else:
            a = p.copy()
            ps.append(a, metadata=meta)
            a[...] = 0
        ref.append((p, meta))
        # everything so far is still there
        mon.check(len(ps) == len(ref), "number of polygons in a set", lambda: "%d, expected %d" % (len(ps), len(ref)))
        for j, (w, m) in enumerate(ref):
            same_poly(ps[j], w, m, mon, "index %d of %d" % (j, len(ref)))
            same_poly(ps[j - len(ref)], w, m, mon, "index %d of %d" % (j - len(ref), len(ref)))
            mon.event("negative_index")
    for j, g in enumerate(ps):
        same_poly(g, ref[j][0], ref[j][1], mon, "iteration %d" % j)
    for bad in (len(ref), len(ref) + 3, -len(ref) - 1):
        try:
            ps[bad]
            mon.check(False, "polygon that is not in the set was returned", "index %d of %d" % (bad, len(ref)))
        except IndexError:
            mon.check(True, "x")
    allp = np.concatenate([r[0] for r in ref])
    mon.check(ps.total_num_points == len(allp), "number of points in a set")
    if len(allp):
        mon.equal(np.asarray(ps.bounding_box), np.array([allp.min(0), allp.max(0)]), "bounding box of a polygon set")
    c = ps.Copy()
    mon.check(c == ps and not c != ps, "copy of a polygon set differs")
    g = ps[0]
    if len(g):
        g[:] = 7.            # what the reader does to its copy
    c.TransformData(lambda x: x * 2 + 1)
    for j, (w, m) in enumerate(ref):
        same_poly(ps[j], w, m, mon, "after changing copies, index %d" % j)
        same_poly(c[j], w * 2 + 1, m, mon, "transformed copy, index %d" % j)
    mon.check((c == ps) == (len(allp) == 0), "different polygon sets compare equal")
    mon.event("set_copy")
    o = PolygonSet()
    o.SetPointsData(ps.GetPointsData(), ps.GetMetaData())
    for j, (w, m) in enumerate(ref):
        same_poly(o[j], w, m, mon, "set from points data, index %d" % j)
    mon.check(len(o) == len(ref), "number of polygons in a set made from points data")
    mon.event("set_points_data")
    n = PolygonSet((ps.GetPointsData()[0], ps.GetPointsData()[1], ps.GetMetaData()))
    n.append(np.array([(1., 2.), (3., 4.), (5., 1.)]), metadata={"q": 1})
    same_poly(n[len(ref)], np.array([(1., 2.), (3., 4.), (5., 1.)]), {"q": 1}, mon, "appended to a set built from data")
    for j, (w, m) in enumerate(ref):
        same_poly(n[j], w, m, mon, "set built from data, index %d" % j)
    if len(ref) > 1 and len(ref[0][0]) and len(ref[1][0]):     # same points, other cut
        x, y = PolygonSet(), PolygonSet()
        both = np.r_[ref[0][0], ref[1][0]]
        k = int(rng.integers(1, len(both)))
        for q in (ref[0][0], ref[1][0]):
            x.append(q, metadata={})
        for q in (both[:k], both[k:]):
            y.append(q, metadata={})
        mon.check((x == y) == (k == len(ref[0][0])), "sets with differently cut polygons compare equal")
    # thinning
    sc = (float(10. ** rng.uniform(-1, 2)), -float(10. ** rng.uniform(-1, 2)))
    t = ps.thin(sc)
    want = []
    for w, m in ref:
        if not len(w):
            continue
        pix = np.round(w * np.array(sc))
        keep = [w[0]]
        last = len(w) > 0 and np.array_equal(w[0], w[-1])
        for j in range(1, len(w) - (1 if last else 0)):
            if not np.array_equal(pix[j], pix[j - 1]):
                keep.append(w[j])
        if len(keep) > 1:
            if last:
                keep.append(w[0])
            want.append((np.array(keep), m))
    mon.check(len(t) == len(want), "thinning keeps the wrong polygons", lambda: "%d, expected %d" % (len(t), len(want)))
    for g, (w, m) in zip(t, want):
        # same sequence of pixels (duplicates removed), only original points
        def seq(a):
            q = np.round(np.asarray(a) * np.array(sc))
            return [tuple(x) for j, x in enumerate(q) if j == 0 or not np.array_equal(x, q[j - 1])]
        mon.check(seq(g) == seq(w), "thinned polygon draws differently", lambda: "%s %s" % (np.asarray(g).tolist()[:6], w.tolist()[:6]))
        mon.check(g.metadata == m, "thinned polygon has other metadata")
    mon.event("thin")
    mon.event("polygonset")
    mon.state("set", len(ref), any(not len(r[0]) for r in ref))


def bbox(rng, mon):
    from gnome.utilities.geometry import BBox as B
    def box():
        a, b = rng.integers(-6, 7, 2) / 2., rng.integers(-6, 7, 2) / 2.
        c = np.array([np.minimum(a, b), np.maximum(a, b)])
        if rng.random() < .2:                      # without end on one side
            j = int(rng.integers(2))
            k = int(rng.integers(2))
            c[j, k] = (-np.inf, np.inf)[j]
            mon.event("bbox_half_infinite")
        return c
    for _ in range(12):
        a, b = box(), box()
        A, C = B.BBox(a), B.BBox(b)
        ov = not (a[1, 0] < b[0, 0] or b[1, 0] < a[0, 0] or a[1, 1] < b[0, 1] or b[1, 1] < a[0, 1])
        ins = bool(np.all(b[0] >= a[0]) and np.all(b[1] <= a[1]))
        mon.check(bool(A.Overlaps(C)) == ov and bool(A.Overlaps(b)) == ov and bool(C.Overlaps(A)) == ov, "boxes overlap answer is wrong", lambda: "%s %s" % (a.tolist(), b.tolist()))
        mon.check(bool(A.Inside(C)) == ins and bool(A.Inside(b)) == ins, "box inside box answer is wrong", lambda: "%s in %s" % (b.tolist(), a.tolist()))
        for q in (rng.integers(-7, 8, 2) / 2., a[0], a[1], np.array([a[0, 0], a[1, 1]]), (a[0] + a[1]) / 2):
            w = bool(np.all(q >= a[0]) and np.all(q <= a[1]))
            mon.check(bool(A.PointInside(q)) == w and bool(A.PointInside(tuple(q))) == w, "point in box answer is wrong", lambda: "%s in %s" % (q, a.tolist()))
            mon.event("bbox_inside" if w else "bbox_outside")
        M = B.BBox(a)
        M.Merge(C)
        mon.equal(np.asarray(M), np.array([np.minimum(a[0], b[0]), np.maximum(a[1], b[1])]), "merged box")
        mon.equal(np.asarray(C), b, "merging changed the other box")
        mon.equal(np.asarray(A), a, "merging changed a copy of the box")
        N0 = B.NullBBox()
        mon.check(bool(N0.IsNull()) and not A.IsNull(), "null box")
        M2 = B.BBox(a)
        M2.Merge(N0)
        mon.equal(np.asarray(M2), a, "merging nothing changes the box")
        N0.Merge(A)
        mon.equal(np.asarray(N0), a, "nothing merged with a box is the box")
        mon.event("bbox_null")
        mon.event("bbox_merge")
        I = B.InfBBox()
        mon.check(bool(I.Overlaps(A)) and bool(A.Overlaps(I)) and bool(I.Inside(A)) and bool(I.PointInside(a[0])), "infinite box")
        mon.event("bbox_inf")
        pts = rng.integers(-9, 10, (int(rng.integers(1, 7)), 2)) / 4.
        mon.equal(np.asarray(B.fromPoints(pts)), np.array([pts.min(0), pts.max(0)]), "box of points")
        arr = np.array([box() for _ in range(int(rng.integers(1, 5)))])
        mon.equal(np.asarray(B.fromBBArray(arr)), np.array([arr[:, 0].min(0), arr[:, 1].max(0)]), "box of boxes")
        mon.equal(np.array([A.Left, A.Right, A.Bottom, A.Top, A.Width, A.Height]), np.array([a[0, 0], a[1, 0], a[0, 1], a[1, 1], a[1, 0] - a[0, 0], a[1, 1] - a[0, 1]]), "sides of a box")
        mon.equal(np.asarray(A.Center), (a[0] + a[1]) / 2, "centre of a box")
        pl = A.AsPoly()
        mon.check(sorted(map(tuple, pl)) == sorted([(a[0, 0], a[0, 1]), (a[0, 0], a[1, 1]), (a[1, 0], a[1, 1]), (a[1, 0], a[0, 1])]), "corners of a box")
        mon.check(bool(A == B.BBox(a)) and (bool(A == C) == bool(np.array_equal(a, b))), "equality of boxes")
        if np.any(a[0] > a[1] - 1e-9) is False:
            pass
        if not np.array_equal(a[0], a[1]):
            bad = a[::-1].copy()
            try:
                B.BBox(bad)
                mon.check(False, "box with its corners swapped was accepted", str(bad.tolist()))
            except ValueError:
                mon.check(True, "x")
        mon.state("bbox", ov, ins, bool(np.any(a[0] == a[1])))


def area_exact(p):
    s = F(0)
    for i in range(len(p)):
        s += F(float(p[i - 1][0])) * F(float(p[i][1])) - F(float(p[i][0])) * F(float(p[i - 1][1]))
    return s / 2


def areas(rng, mon):
    from gnome.utilities.geometry.poly_clockwise import is_clockwise, is_clockwise_convex
    from gnome.utilities.geometry import geo_routines as G
    from shapely.geometry import Polygon, MultiPolygon, Point
    import geojson
    kind, closed, p = shape_(rng, float(10. ** rng.uniform(-2, 1)), float(rng.uniform(-150, 150)), float(rng.uniform(-60, 60)))
    A = area_exact(p)
    if abs(float(A)) > 1e-9 * (abs(p).max() ** 2):
        mon.check(bool(is_clockwise(p)) == (A < 0), "orientation of a ring", lambda: "%s" % p.tolist()[:10])
        mon.check(bool(is_clockwise([tuple(q) for q in p[::-1]])) == (A > 0), "orientation of a reversed ring")
        mon.event("clockwise" if A < 0 else "counterclockwise")
        if kind in ("box", "triangle"):
            mon.check(bool(is_clockwise_convex(p[:-1] if closed else p)) == (A < 0), "orientation of a convex ring", lambda: "%s" % p.tolist())
    # areas and triangles of valid shapes
    poly = Polygon(p)
    if kind in ("sliver",) or not poly.is_valid or poly.area < 1e-12:
        return
    q = Polygon(p + np.array([float(np.ptp(p[:, 0])) * 1.5 * (1 if p[:, 0].mean() < 0 else -1), 0.]))
    if rng.random() < .5:
        q = Polygon(np.array(q.exterior.coords)[::-1])
    hole = None
    shapes = [poly, MultiPolygon([poly, q])]
    if kind == "box":
        b = p[:-1] if closed else p
        c = b.mean(0)
        hole = Polygon(p, [c + (b - c) * .4])
        shapes.append(hole)
    for sh in shapes:
        gj = geojson.loads(geojson.dumps(sh.__geo_interface__, allow_nan=False)) if rng.random() < .3 else None
        got = G.geo_area_of_polygon(sh)

        def sph(ring):
            ring = np.asarray(ring)
            s = 0.
            for k in range(len(ring)):
                s += math.radians(ring[k][0] - ring[k - 1][0]) * (math.sin(math.radians(ring[k][1])) + math.sin(math.radians(ring[k - 1][1]))) / 2
            return abs(s) * 6371007.18 ** 2
        parts = list(sh.geoms) if isinstance(sh, MultiPolygon) else [sh]
        if max(np.ptp(p, axis=0)) < 1.:
            ref = sum(sph(x.exterior.coords[:-1]) - sum(sph(h.coords[:-1]) for h in x.interiors) for x in parts)
            mon.close(got, ref, "area of a polygon on the earth", rtol=.012, atol=.3 * (sh.length * 1.11e5) ** 3 / 6.37e6 * (.1 + abs(math.tan(math.radians(p[0, 1])))), what="%s %s" % (kind, sh.wkt[:200]))
            mon.event("area")
        if gj is not None:
            g2 = G.geo_area_of_polygon(gj if not isinstance(sh, MultiPolygon) else gj)
            mon.close(g2, got, "area of the same shape as geojson", rtol=1e-6, atol=sh.length * 1e-6 * 1.3e10)
        tri = G.triangulate_poly(sh)
        S = sum(t.area for t in tri)
        mon.close(S, sh.area, "triangles do not add up to the shape", rtol=1e-7, what="%s %s" % (kind, sh.wkt[:200]))
        tol = 1e-7 * max(np.ptp(p, axis=0)) + 1e-12
        big = sh.buffer(tol)
        mon.check(all(big.covers(t) for t in tri), "triangle outside the shape", lambda: sh.wkt[:300])
        w = G.poly_area_weight(tri)
        mon.close(np.array(w), np.array([t.area for t in tri]) / S, "weights of triangles", rtol=1e-9)
        mon.close(sum(w), 1., "weights do not add up to one", rtol=1e-9)
        wg = G.poly_area_weight(tri, geo_area=True)
        mon.close(sum(wg), 1., "weights do not add up to one", rtol=1e-9)
        mon.event("triangulated")
        for t in tri[:4]:
            tb = t.buffer(tol)
            for _ in range(6):
                r = G.random_pt_in_tri(t)
                mon.check(tb.covers(Point(r)), "random point outside its triangle", lambda: "%s %s" % (t.wkt, r))
                r2 = G.random_pt_in_tri(np.array(t.exterior.coords)[:3])
                mon.check(tb.covers(Point(r2)), "random point outside its triangle")
            mon.event("random_point")
        flat = G.mixed_polys_to_polygon([sh, poly])
        mon.check(len(flat) == len(parts) + 1 and all(a.equals(b) for a, b in zip(flat, parts + [poly])), "flattening loses or changes polygons")
        mon.state("area", kind, type(sh).__name__, bool(A < 0), len(tri) > 4)
    if kind == "triangle":      # uniformity: mean of many points is the centroid
        n = 4000
        t = np.array(poly.exterior.coords)[:3]
        r = np.array([G.random_pt_in_tri(t) for _ in range(n)])
        c = t.mean(0)
        cov = sum(np.outer(v - c, v - c) for v in t) / 12.
        d = r.mean(0) - c
        sd = np.sqrt(np.diag(cov) / n)
        mon.check(bool(np.all(np.abs(d) <= 6.5 * sd + 1e-12)), "random points are not spread evenly over the triangle", lambda: "%s sd %s" % (d, sd))


class FakeSC(dict):
    pass


def hulls(rng, mon):
    from gnome.utilities import hull as H
    from shapely.geometry import Point, MultiPoint
    n = int(rng.choice([1, 2, 3, 5, 30]))
    c = np.array([rng.uniform(-150, 150), rng.uniform(-60, 60)])
    s = float(10. ** rng.uniform(-3, 0))
    def cont(n):
        pos = np.c_[c + rng.uniform(-s, s, (n, 2)), np.zeros(n)]
        if rng.random() < .2:
            pos[:, 1] = pos[0, 1]
        if rng.random() < .2:
            pos[:] = pos[0]
        return FakeSC(positions=pos, spill_num=rng.integers(0, 3, n), mass=rng.uniform(0, 10, n), age=np.zeros(n), status_codes=np.full(n, 2))
    sc = cont(n)
    ratio = float(rng.choice([0., .3, .5, 1.]))
    tol = 1e-9 * (1 + s)
    for two in (False, True):
        scs = (sc, cont(3)) if two else sc
        allpos = np.concatenate([x["positions"] for x in (scs if two else (sc,))])
        alln = np.concatenate([x["spill_num"] for x in (scs if two else (sc,))])
        for by in (False, True):
            for un in (False, True):
                h = H.calculate_hull(scs, ratio=ratio, union_results=un, separate_by_spill=by)
                mon.check(len(h["hulls"]) == len(h["spill_num"]), "hulls and their spills")
                if by and not un:
                    mon.check(sorted(h["spill_num"]) == sorted(set(alln)), "hull for every spill", lambda: "%s %s" % (h["spill_num"], set(alln)))
                    for g, k in zip(h["hulls"], h["spill_num"]):
                        gg = g.buffer(tol)
                        mon.check(all(gg.covers(Point(q[:2])) for q in allpos[alln == k]), "hull leaves out elements of its spill", lambda: g.wkt[:200])
                        bb = MultiPoint(allpos[alln == k][:, :2]).convex_hull.buffer(1e-4)
                        mon.check(bb.covers(g), "hull is larger than the elements of its spill", lambda: g.wkt[:200])
                    mon.event("hull_by_spill")
                else:
                    mon.check(len(h["hulls"]) == 1, "one hull around everything", lambda: str(len(h["hulls"])))
                    gg = h["hulls"][0].buffer(tol)
                    mon.check(all(gg.covers(Point(q[:2])) for q in allpos), "hull leaves out elements", lambda: "%s %s" % (h["hulls"][0].wkt[:200], allpos.tolist()[:5]))
                    mon.check(MultiPoint(allpos[:, :2]).convex_hull.buffer(1e-4).covers(h["hulls"][0]), "hull is larger than the elements")
                    mon.event("hull")
                mon.state("hull", n, by, un, two, ratio)
    e = H.calculate_hull(FakeSC(positions=np.zeros((0, 3)), spill_num=np.zeros(0)))
    mon.check(e["hulls"] == [], "hull of nothing")
    # contours by mass
    cut = sorted(rng.uniform(0, 10, int(rng.integers(2, 4))))
    st = {k: dict(param="mass", cutoffs=[dict(cutoff=float(x), cutoff_id=j, color="c", label="l%d" % j) for j, x in enumerate(cut)]) for k in (0, 1, 2)}
    out = H.calculate_contours(sc, st, ratio=ratio)
    for k in st:
        for j, x in enumerate(cut):
            sel = (sc["spill_num"] == k)
            if j == 0:
                sel &= sc["mass"] <= x
            elif j == len(cut) - 1:
                sel &= sc["mass"] >= cut[j - 1]
            else:
                sel &= (sc["mass"] <= x) & (sc["mass"] >= cut[j - 1])
            got = [o for o in out if o["spill_num"] == k and o["cutoff_id"] == j]
            mon.check(len(got) == (1 if sel.any() else 0), "contour for every class that has elements", lambda: "%d, %d elements" % (len(got), sel.sum()))
            if got and sel.any():
                gg = got[0]["contour"].buffer(tol)
                mon.check(all(gg.covers(Point(q[:2])) for q in sc["positions"][sel]), "contour leaves out elements of its class")
                mon.event("contour")


def case(i, rng, mon):
    k = i % 8
    if k in (0, 1, 2):
        pip(rng, mon)
    elif k in (3, 4):
        pset(rng, mon)
    elif k == 5:
        bbox(rng, mon)
    elif k == 6:
        areas(rng, mon)
    else:
        hulls(rng, mon)
