"""Land is a barrier: every element's path judged against an independent cell walk."""
PROPERTY = "P04"
KIND = "plain"
N = {"quick": 2400, "thorough": 12000}
BUDGET = {"quick": 75, "thorough": 1800}
RULE = ("(raster style, half-life class, path class, path length class, verdict class of the element)")
NEED = ["paths", "must_hit", "must_not_hit", "started_on_land", "already_on_land", "model_steps", "model_hits",
        "pixel_walks", "seams", "tie_or_graze", "other_coarse_rasters"]
ASSUMES = ["cells whose corner or edge the discrete path only grazes (rounding ties) may be judged either way"]

import numpy as np
import gn
from gn import oil_status


def walk(p, q):
    """cells of the 8-connected line p->q: sure (the unambiguous nearest cell at
    each step along the major axis) and near (every cell within one of the line)"""
    d = q - p
    n = int(max(abs(d[0]), abs(d[1])))
    if n == 0:
        return p[None].copy(), np.ones(1, bool), 0
    k = np.arange(n + 1)
    maj = 0 if abs(d[0]) >= abs(d[1]) else 1
    mi = 1 - maj
    s = 1 if d[maj] > 0 else -1
    # exact rational minor coordinate: p[mi] + k*d[mi]/n ; nearest integer, tie if remainder is exactly half
    num = k * int(d[mi])
    base = np.floor_divide(2 * num + n, 2 * n)
    tie = (2 * num + n) % (2 * n) == 0
    cells = np.empty((n + 1, 2), int)
    cells[:, maj] = p[maj] + s * k
    cells[:, mi] = p[mi] + base
    return cells, ~tie, maj


def land_at(r, c):
    w, h = r.shape
    ok = (c[:, 0] >= 0) & (c[:, 0] < w) & (c[:, 1] >= 0) & (c[:, 1] < h)
    out = np.zeros(len(c), bool)
    out[ok] = r[c[ok, 0], c[ok, 1]] != 0
    return out


def judge(mon, r, p, q, hit, hitcell, lastcell, key):
    """p, q integer cells; hit: was it stopped; hitcell/lastcell where"""
    cells, sure, maj = walk(p, q)
    land = land_at(r, cells)
    first_sure = np.flatnonzero(land & sure)
    # a diagonal step between two land cells that meet at a corner goes through land as well
    st = np.diff(cells, axis=0)
    dg = np.abs(st).sum(1) == 2
    if dg.any():
        a, b = cells[:-1], cells[1:]
        w, h = r.shape
        on = ((a >= 0) & (a < [w, h]) & (b >= 0) & (b < [w, h])).all(1)
        seam = dg & on & sure[:-1] & sure[1:] & land_at(r, np.c_[a[:, 0], b[:, 1]]) & land_at(r, np.c_[b[:, 0], a[:, 1]])
        if seam.any():
            mon.event("seams")
            first_sure = np.unique(np.r_[first_sure, np.flatnonzero(seam) + 1])
    lo = cells.copy(); lo[:, 1 - maj] -= 1
    hi = cells.copy(); hi[:, 1 - maj] += 1
    near = land | land_at(r, lo) | land_at(r, hi)
    mon.event("paths")
    start_land = bool(land_at(r, p[None])[0])
    if start_land:
        mon.event("started_on_land")
    info = lambda: "raster %s, from %s to %s, hit=%s at %s, last water %s, land on path at %s" % (
        r.shape, p, q, hit, hitcell, lastcell, cells[land][:4].tolist())
    if len(first_sure):
        mon.event("must_hit")
        if not mon.check(hit, "path crosses land but the element was not stopped", info):
            return
    elif not near.any():
        mon.event("must_not_hit")
        mon.check(not hit, "element stopped although its path is all water", info)
    else:
        mon.event("tie_or_graze")
    if hit:
        mon.check(bool(land_at(r, hitcell[None])[0]), "stopped element is not in a land cell", info)
        k = int(abs(hitcell[maj] - p[maj]))
        mon.check(k < len(cells) and (hitcell[maj] - p[maj]) * (q[maj] - p[maj]) >= 0 and
                  abs(cells[min(k, len(cells) - 1)][1 - maj] - hitcell[1 - maj]) <= 1,
                  "stopped element is off its path", info)
        if len(first_sure):
            mon.check(k <= first_sure[0] + 1, "element stopped behind the first land on its path", info)
        if not start_land:
            mon.check(not bool(land_at(r, lastcell[None])[0]), "last water position is a land cell", info)
            kl = int(abs(lastcell[maj] - p[maj]))
            mon.check(np.abs(lastcell - hitcell).max() <= 1 and kl <= k and
                      abs(cells[min(kl, len(cells) - 1)][1 - maj] - lastcell[1 - maj]) <= 1,
                      "last water position is not next to the landing on the path", info)
    mon.state(*key, min(5, int(np.log2(len(cells) + 1))), "sure" if len(first_sure) else "near" if near.any() else "clear", hit)


def case(i, rng, mon):
    if i % 6 == 5:
        return model_case(i, rng, mon)
    style, r = gn.random_raster(rng)
    if i % 6 == 4:
        return pixel_case(i, rng, mon, style, r)
    hl = float(rng.choice([1., 1., 6., -1., 0.]))
    m, bb, cell = gn.raster_map(rng, r, hl)
    if rng.random() < .3:
        m.ratios = np.array([(32, 1), (128, 32, 1), (64, 16, 4, 1), (8, 1)][int(rng.integers(4))], np.int32)   # as for larger rasters
        mon.event("other_coarse_rasters")
    w, h = r.shape
    n = int(rng.integers(20, 90))
    mon.ctx.update(style=style, shape=r.shape, halflife=hl)
    pc = rng.random((n, 2)) * [w, h]
    kind = rng.choice(["far", "near", "axis", "diag", "leave", "enter"], n)
    qc = rng.random((n, 2)) * [w, h]
    near = pc + rng.normal(0, 4, (n, 2))
    qc[kind == "near"] = near[kind == "near"]
    ax = kind == "axis"
    qc[ax, 0] = pc[ax, 0]
    dg = kind == "diag"
    L = rng.integers(-40, 40, n)
    qc[dg] = (pc + np.c_[L, L * rng.choice([-1, 1], n)])[dg]
    out = (rng.random((n, 2)) - .5) * 3 * [w, h] + np.array([w, h]) / 2
    qc[kind == "leave"] = out[kind == "leave"]
    pc[kind == "enter"] = out[kind == "enter"]
    # keep clear of cell borders: which side of a border a position is on is a matter of rounding
    for a in (pc, qc):
        f = a - np.floor(a)
        a[:] = np.floor(a) + np.clip(f, .02, .98)

    def lonlat(c):
        return np.c_[bb[0][0] + c[:, 0] * cell, bb[1][1] - c[:, 1] * cell, np.zeros(n)]
    P, Q = lonlat(pc), lonlat(qc)
    sc = gn.sample_sc(n, P)
    z = np.where(rng.random(n) < .2, rng.uniform(0, 30, n), 0.)
    sc["positions"][:, 2] = z
    sc["next_positions"][:] = Q
    sc["next_positions"][:, 2] = z
    pre = rng.random(n) < .1
    pre &= land_at(r, np.floor(pc).astype(int))
    sc["status_codes"][pre] = oil_status.on_land
    # an element on land sits at the centre of its cell and is not moved
    cen = np.floor(pc) + .5
    sc["positions"][pre, :2] = m.projection.to_lonlat(np.floor(pc[pre]).astype(np.int32))
    sc["next_positions"][pre] = sc["positions"][pre]
    before = {k: sc[k].copy() for k in ("positions", "next_positions", "status_codes", "last_water_positions")}
    m.beach_elements(sc)
    st = sc["status_codes"]
    nx = gn.cellcoords(bb, cell, h, sc["next_positions"])
    lw = gn.cellcoords(bb, cell, h, sc["last_water_positions"])
    pi, qi = np.floor(pc).astype(int), np.floor(qc).astype(int)
    for k in range(n):
        if pre[k]:
            mon.event("already_on_land")
            if hl != 0:
                mon.check(st[k] == oil_status.on_land and np.allclose(sc["next_positions"][k], before["positions"][k], atol=1e-9, rtol=0),
                          "element that was on land moved", "")
            continue
        moved = not np.array_equal(sc["next_positions"][k], before["next_positions"][k])
        if hl != 0:
            hit = st[k] == oil_status.on_land
            mon.check(hit or (not moved and st[k] == oil_status.in_water),
                      "element that was not stopped lost its destination or status", "")
        else:
            hit = moved
            mon.check(st[k] == oil_status.in_water, "element stuck to land that nothing sticks to", "")
        hc, lc = np.floor(nx[k]).astype(int), np.floor(lw[k]).astype(int)
        if hl == 0 and hit:
            # put back to the last water cell right away: the landing itself is not observable
            cells, sure, maj = walk(pi[k], qi[k])
            mon.event("paths")
            if not land_at(r, pi[k][None])[0]:
                mon.check(not land_at(r, hc[None])[0], "element put back on land", "")
                mon.check(land_at(r, np.array([hc + [a, b] for a in (-1, 0, 1) for b in (-1, 0, 1)])).any(),
                          "element put back away from the shore", "")
            continue
        if hit and hl != 0:
            mon.check(abs(sc["next_positions"][k, 2] - before["next_positions"][k, 2]) < 1e-12, "depth changed by landing", "")
        judge(mon, r, pi[k], qi[k], hit, hc, lc, (style, hl, kind[k]))


def pixel_case(i, rng, mon, style, r):
    """the raster walk itself"""
    from gnome.cy_gnome.cy_land_check import find_first_pixel, check_land
    w, h = r.shape
    n = 60
    P = rng.integers([-5, -5], [w + 5, h + 5], (n, 2)).astype(np.int32)
    Q = rng.integers([-15, -15], [w + 15, h + 15], (n, 2)).astype(np.int32)
    st = np.full(n, oil_status.in_water, np.int16)
    p2, q2, lw = P.copy(), Q.copy(), P.copy()
    check_land(r, p2, q2, st, lw)
    for k in range(n):
        mon.event("pixel_walks")
        f = find_first_pixel(r, tuple(int(x) for x in P[k]), tuple(int(x) for x in Q[k]))
        hit = f is not None
        judge(mon, r, P[k].astype(int), Q[k].astype(int), hit, np.array(f[1]) if f else None,
              np.array(f[0]) if f else None, (style, "walk", "-"))
        mon.check((st[k] == oil_status.on_land) == hit and
                  (not hit or (tuple(q2[k]) == tuple(f[1]) and tuple(lw[k]) == tuple(f[0]))) and
                  (hit or (tuple(p2[k]) == tuple(Q[k]) == tuple(q2[k]))),
                  "bulk land check disagrees with the single one", "")


def model_case(i, rng, mon):
    """whole model steps with strong currents: nobody in the water is ever in a land cell"""
    import datetime as dt
    from gnome.model import Model
    from gnome.movers import SimpleMover, RandomMover
    from gnome.spills import point_line_spill
    style, r = gn.random_raster(rng, 120, 20)
    hl = float(rng.choice([.2, 1., -1., 0.]))
    cell = 0.01
    m, bb, cell = gn.raster_map(rng, r, hl, lat0=float(rng.uniform(-40, 40)), cell=cell)
    w, h = r.shape
    water = np.argwhere(r == 0)
    if not len(water):
        return
    c = water[int(rng.integers(len(water)))] + .5
    pos = (bb[0][0] + c[0] * cell, bb[1][1] - c[1] * cell, 0.)
    dtm = 900
    v = rng.normal(0, 1, 2) * rng.choice([.3, 1.5, 6.]) * cell * 111000 / dtm
    model = Model(start_time=gn.T0, time_step=dtm, duration=dt.timedelta(hours=4), map=m, uncertain=bool(rng.random() < .3))
    model.spills += point_line_spill(num_elements=60, start_position=pos, release_time=gn.T0)
    model.movers += SimpleMover((v[0], v[1], 0.))
    model.movers += RandomMover(diffusion_coef=float(rng.choice([1e5, 1e7])))
    prev = {}
    for _ in range(12):
        try:
            model.step()
        except StopIteration:
            break
        mon.event("model_steps")
        for sc in model.spills.items():
            c = np.floor(gn.cellcoords(bb, cell, h, sc["positions"])).astype(int)
            land = land_at(r, c)
            st = sc["status_codes"]
            wet = st == oil_status.in_water
            mon.check(not (land & wet).any(), "element in water is located in a land cell",
                      lambda: str(c[land & wet][:3]))
            mon.check(bool(land[st == oil_status.on_land].all()), "element on land is located in a water cell", "")
            mon.check(bool(np.isin(st, [oil_status.in_water, oil_status.on_land]).all()), "unexpected status", str(np.unique(st)))
            p = prev.get(sc.uncertain)
            if p is not None:
                ids = {a: b for b, a in enumerate(p[0])}
                for k in range(len(st)):
                    j = ids.get(sc["id"][k])
                    if j is None or p[2][j] != oil_status.in_water or st[k] != oil_status.in_water or hl == 0:
                        continue
                    cells, sure, maj = walk(p[1][j], c[k])
                    mon.check(not (land_at(r, cells) & sure).any(), "element crossed land in one step",
                              lambda: "%s -> %s" % (p[1][j], c[k]))
            mon.event("model_hits", int((st == oil_status.on_land).sum()))
            prev[sc.uncertain] = (sc["id"].copy(), c, st.copy())
    mon.state("model", style, hl, int((st == oil_status.on_land).sum() > 0))
