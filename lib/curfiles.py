"""Current files of the kinds the native movers read, from a description."""
import netCDF4
import numpy as np
from scipy.spatial import Delaunay


class Mesh(object):
    """triangles over random points, counter-clockwise, with neighbours and a search tree"""

    def __init__(self, rng, n, box, holes=0.):
        x0, y0, x1, y1 = box
        while True:
            p = np.column_stack([rng.integers(int(x0 * 1e6), int(x1 * 1e6), n), rng.integers(int(y0 * 1e6), int(y1 * 1e6), n)])
            p = np.unique(p, axis=0)
            if len(p) < 3:
                continue
            p = p[rng.permutation(len(p))]
            q = (p - p.mean(axis=0)) / 1e6
            try:
                d = Delaunay(q)
            except Exception:
                continue
            t = d.simplices
            a = self.area2(p, t)
            t = np.where((a < 0)[:, None], t[:, ::-1], t)
            a = np.abs(a)
            # slivers are left out: rounding decides there
            lim = 2e-3 * (x1 - x0) * (y1 - y0) * 1e12 / n
            t = t[a > lim]
            if len(t) > 3 and holes:
                t = t[rng.random(len(t)) >= holes]
            if len(t):
                break
        used = np.unique(t)
        re = -np.ones(len(p), int)
        re[used] = np.arange(len(used))
        self.p, self.t = p[used], re[t]
        self.adj = self.neighbours(self.t)

    @staticmethod
    def area2(p, t):
        a, b, c = (p[t[:, k]].astype(float) for k in range(3))
        return (b[:, 0] - a[:, 0]) * (c[:, 1] - a[:, 1]) - (b[:, 1] - a[:, 1]) * (c[:, 0] - a[:, 0])

    @staticmethod
    def neighbours(t):
        e = {}
        for k, tri in enumerate(t):
            for j in range(3):
                e[(tri[j], tri[(j + 1) % 3])] = k
        adj = -np.ones(t.shape, int)
        for k, tri in enumerate(t):
            for j in range(3):
                # the neighbour opposite to corner j
                adj[k, j] = e.get((tri[(j + 2) % 3], tri[(j + 1) % 3]), -1)
        return adj

    def side(self, a, b, q):
        """> 0: left of the way from point a to point b"""
        a, b = self.p[a].astype(float), self.p[b].astype(float)
        return (b[0] - a[0]) * (q[..., 1] - a[1]) - (b[1] - a[1]) * (q[..., 0] - a[0])

    def tree(self, rng):
        out = []

        def node(S):
            if not len(S):
                return -8
            best = None
            cand = [(k, j) for k in S for j in range(3)]
            if len(cand) > 24:
                cand = [cand[x] for x in rng.choice(len(cand), 24, replace=False)]
            P = self.p[self.t[S]].astype(float)
            for k, j in cand:
                a, b = self.t[k][j], self.t[k][(j + 1) % 3]
                s = self.side(a, b, P)
                L = (s > 0).any(axis=1)
                R = (s < 0).any(axis=1)
                right = self.adj[k, (j + 2) % 3]
                if right == -1 and R.any() and len(S) > 1:
                    continue
                score = max(L.sum(), R.sum()) + .5 * (L & R).sum()
                if best is None or score < best[0]:
                    best = (score, k, j, L, R)
            if best is None:
                # only borders to choose from, each with something beyond: take any pair of sides that makes progress
                for k in S:
                    for j in range(3):
                        if self.adj[k, (j + 2) % 3] != -1:
                            a, b = self.t[k][j], self.t[k][(j + 1) % 3]
                            s = self.side(a, b, P)
                            best = (0, k, j, (s > 0).any(axis=1), (s < 0).any(axis=1))
                if best is None:
                    raise ValueError("no edge to split by")
            _, k, j, L, R = best
            me = len(out)
            out.append([k * 6 + j, -8, -8])
            S = np.asarray(S)
            # the triangles beside the edge are tested there and then
            Ls = S[L & (S != k)]
            Rs = S[R & (S != self.adj[k, (j + 2) % 3])]
            if len(Ls) == len(S) or len(Rs) == len(S):
                raise ValueError("no progress")
            out[me][1] = node(Ls)
            out[me][2] = node(Rs)
            return me
        node(np.arange(len(self.t)))
        return out

    def find(self, q):
        """triangle of each place (degrees) and how far it is from the nearest edge (microdegrees)"""
        q = np.asarray(q, float) * 1e6
        who = -np.ones(len(q), int)
        for k, tri in enumerate(self.t):
            s = np.array([self.side(tri[j], tri[(j + 1) % 3], q) for j in range(3)])
            who[(s > 0).all(axis=0)] = k
        far = np.full(len(q), np.inf)
        for tri in self.t:
            for j in range(3):
                a, b = self.p[tri[j]].astype(float), self.p[tri[(j + 1) % 3]].astype(float)
                u = b - a
                s = np.clip(((q - a) @ u) / (u @ u), 0, 1)
                far = np.minimum(far, np.hypot(*(q - a - s[:, None] * u).T))
        return who, far

    def weights(self, k, q):
        q = np.asarray(q, float) * 1e6
        T = self.t[k]
        a, b, c = (self.p[T[:, j]].astype(float) for j in range(3))
        D = (b[:, 0] - a[:, 0]) * (c[:, 1] - a[:, 1]) - (b[:, 1] - a[:, 1]) * (c[:, 0] - a[:, 0])
        w1 = ((q[:, 0] - a[:, 0]) * (c[:, 1] - a[:, 1]) - (q[:, 1] - a[:, 1]) * (c[:, 0] - a[:, 0])) / D
        w2 = ((b[:, 0] - a[:, 0]) * (q[:, 1] - a[:, 1]) - (b[:, 1] - a[:, 1]) * (q[:, 0] - a[:, 0])) / D
        return np.column_stack([1 - w1 - w2, w1, w2])


def deg(x):
    # a little more than the value so that truncating the product by a million gives it back
    return "%.8f" % (x / 1e6 + (2e-8 if x >= 0 else -2e-8))


def cats(path, mesh, tree, u, v, rng=None, nl="\n", depths=True):
    L = ["DAG 1.0", "Vertices %d" % len(mesh.p), "%d %d" % (len(mesh.p), len(mesh.p))]
    for x, y in mesh.p:
        L.append("%s %s%s" % (deg(x), deg(y), " 1.0" if depths else ""))
    L.append("Topology %d" % len(mesh.t))
    for k in range(len(mesh.t)):
        L.append(" ".join(str(int(z)) for z in list(mesh.t[k]) + list(mesh.adj[k])) + " %.9g %.9g" % (u[k], v[k]))
    L.append("DAGTree %d" % len(tree))
    for a, b, c in tree:
        L.append("%d %d %d" % (a, b, c))
    with open(path, "w", newline="") as f:
        f.write(nl.join(L) + nl)


def ptcur(path, mesh, tree, times, U, V, nl="\n", scale=None, land=0, bnd=None):
    """U, V: (times, points); times None for a constant current"""
    L = ["[FILETYPE]\tPTCUR", "[NAME]\tx", "[CURSCALE]\t%g" % (1 if scale is None else scale), "[UNCERTALONG]\t.3", "[UNCERTCROSS]\t.1", "[UNCERTMIN]\t0.0",
         "[MAXNUMDEPTHS]\t1", "[GRIDTYPE]\t2D", "[USERDATA]\tnone", "Vertices\t%d\t%d" % (len(mesh.p), land)]
    for k, (x, y) in enumerate(mesh.p):
        L.append("%d %s %s" % (k + 1, deg(x), deg(y)))
    if bnd is not None:
        L.append("BoundarySegments\t%d" % len(bnd))
        L += ["%d" % b for b in bnd]
    L.append("Topology\t%d" % len(mesh.t))
    for k in range(len(mesh.t)):
        L.append(" ".join(str(int(z)) for z in list(mesh.t[k]) + list(mesh.adj[k])))
    if tree is not None:
        L.append("DAGTree\t%d" % len(tree))
        L += ["%d %d %d" % tuple(x) for x in tree]
    for i, t in enumerate(times if times is not None else [None]):
        L.append("[TIME]\t" + (t.strftime("%d %m %Y %H %M") if t is not None else "-1 -1 -1 -1 -1"))
        for k in range(land, len(mesh.p)):
            L.append("%.9g %.9g" % (U[i][k], V[i][k]))
    with open(path, "w", newline="") as f:
        f.write(nl.join(L) + nl)


def gridcur(path, rows, cols, box, times, U, V, form="corner", nl="\n", units="mps", skip=None, rng=None, head="[GRIDCURTIME]"):
    """cells rows x cols over box (lon0, lat0, lon1, lat1), row 1 at the top"""
    x0, y0, x1, y1 = box
    dy, dx = (y1 - y0) / rows, (x1 - x0) / cols
    L = ["%s %s" % (head, units), "NUMROWS %d" % rows, "NUMCOLS %d" % cols]
    if form == "corner":
        L += ["STARTLAT %.9f" % (y0 + dy / 2), "STARTLONG %.9f" % (x0 + dx / 2), "DLAT %.9f" % dy, "DLONG %.9f" % dx]
    else:
        L += ["LOLAT %.9f" % y0, "HILAT %.9f" % y1, "LOLONG %.9f" % x0, "HILONG %.9f" % x1]
    for i, t in enumerate(times if times is not None else [None]):
        L.append("[TIME] " + (t.strftime("%d %m %Y %H %M") if t is not None else "-1 -1 -1 -1 -1"))
        for r in range(rows):
            for c in range(cols):
                if skip is not None and skip[i][r][c]:
                    continue
                L.append("%d %d %.9g %.9g" % (r + 1, c + 1, U[i][r][c], V[i][r][c]))
    with open(path, "w", newline="") as f:
        f.write(nl.join(L) + nl)


def reg(path, lat, lon, hours, U, V, units="m/s", fill=None, names=("water_u", "water_v"), gt="regular", scale=None, depths=None):
    """depths: levels below the surface; U and V then have them after the time"""
    with netCDF4.Dataset(path, "w", format="NETCDF3_CLASSIC") as d:
        if gt:
            d.grid_type = gt
        d.createDimension("time", None)
        if depths is not None:
            d.createDimension("depth", len(depths))
            d.createVariable("depth", "f8", ("depth",))[:] = depths
        d.createDimension("lat", len(lat))
        d.createDimension("lon", len(lon))
        t = d.createVariable("time", "f8", ("time",))
        t.units = "hours since 2020-03-01 00:00:00"
        t[:] = hours
        a = d.createVariable("lat", "f8", ("lat",))
        a[:] = lat
        a.units = "degrees_north"
        a = d.createVariable("lon", "f8", ("lon",))
        a[:] = lon
        a.units = "degrees_east"
        for n, X in zip(names, (U, V)):
            v = d.createVariable(n, "f4", ("time",) + (() if depths is None else ("depth",)) + ("lat", "lon"), **({} if fill is None else dict(fill_value=fill)))
            v.units = units
            if scale is not None:
                v.set_auto_scale(False)
                v.scale_factor = scale
            v[:] = X


def curv(path, LA, LO, hours, U, V, mask=None, fill=-9999., names=("water_u", "water_v"), units="m/s", scale=None, layers=None):
    """layers: (kind, levels, depth of the bottom), U and V then have the levels after the time"""
    with netCDF4.Dataset(path, "w", format="NETCDF3_CLASSIC") as d:
        d.grid_type = "curvilinear"
        d.createDimension("time", None)
        d.createDimension("yc", LA.shape[0])
        d.createDimension("xc", LA.shape[1])
        t = d.createVariable("time", "f8", ("time",))
        t.units = "hours since 2020-03-01 00:00:00"
        t[:] = hours
        d.createVariable("latc", "f8", ("yc", "xc"))[:] = LA
        d.createVariable("lonc", "f8", ("yc", "xc"))[:] = LO
        if mask is not None:
            d.createVariable("mask", "f8", ("yc", "xc"))[:] = mask
        dims = ("time", "yc", "xc")
        if layers is not None:
            kind, lev, bottom = layers
            k = "levels" if kind == "levels" else "sigma"
            dims = ("time", k, "yc", "xc")
            d.createDimension(k, len(lev))
            if kind == "roms":
                d.createVariable("sc_r", "f8", (k,))[:] = -lev[::-1]
                d.createVariable("Cs_r", "f8", (k,))[:] = -lev[::-1] ** 2
                d.createVariable("hc", "f8", ())[...] = 1.
            else:
                d.createVariable("depth_levels" if kind == "levels" else "sigma", "f8", (k,))[:] = lev
            if bottom is not None:
                d.createVariable("depth", "f8", ("yc", "xc"))[:] = bottom
        for n, X in zip(names, (U, V)):
            v = d.createVariable(n, "f4", dims, fill_value=fill)
            v.units = units
            if scale is not None:
                v.set_auto_scale(False)
                v.scale_factor = scale
            v[:] = X
