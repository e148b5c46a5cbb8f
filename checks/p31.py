"""Input files: what is read is what was written; what is damaged is refused."""
PROPERTY = "P31"
KIND = "plain"
N = {"quick": 3000, "thorough": 60000}
BUDGET = {"quick": 90, "thorough": 1800}
RULE = "(kind of file, form of its header, line ends, blank lines, units, size class) of the files read back and (kind of file, kind of damage) of those refused"
NEED = ["wind_read", "wind_header_3", "wind_header_4", "wind_header_5", "wind_cardinal", "wind_two_digit_year", "wind_refused", "bna_read", "bna_polygon", "bna_polyline", "bna_point", "bna_closing_point", "bna_refused",
        "gridcur_nodes", "gridcur_cells", "gridcur_written_by_package", "gridcur_cells_left_out", "gridcur_refused", "gridcur_object", "splot_read", "splot_one_line", "splot_refused", "times_read", "times_refused",
        "tide_read", "tide_refused", "crlf", "blank_lines", "no_final_line_end"]
ASSUMES = ["a damaged first record of a wind file cannot be told from a header line, so damage is only judged after the first two records",
           "values are compared to the precision in which the package keeps them (winds are kept as components in m/s)"]

import datetime as dt
import numpy as np
import gn
from vlib import blame, where

UNITS = {"knots": 1852. / 3600, "m/s": 1., "mps": 1., "mph": 1609.344 / 3600, "meters per second": 1., "km/hr": 1 / 3.6, "cm/s": .01}
CARD = {"N": 0, "NNE": 22.5, "NE": 45, "ENE": 67.5, "E": 90, "ESE": 112.5, "SE": 135, "SSE": 157.5, "S": 180, "SSW": 202.5, "SW": 225, "WSW": 247.5, "W": 270, "WNW": 292.5, "NW": 315, "NNW": 337.5}


def put(rng, mon, name, lines, nls=("\n", "\r\n")):
    nl = str(rng.choice(nls))
    end = nl if rng.random() < .7 else ""
    with open(name, "w", newline="") as fd:
        fd.write(nl.join(lines) + end)
    if nl == "\r\n":
        mon.event("crlf")
    if not end:
        mon.event("no_final_line_end")
    mon.ctx["file"] = (nl.join(lines) + end)[:1500]
    return repr(nl)


def blanks(rng, mon, lines, p=.1):
    out = []
    for l in lines:
        if rng.random() < p:
            out.append(str(rng.choice(["", "  ", "\t"])))
            mon.event("blank_lines")
        out.append(l)
    if rng.random() < .2:
        out += [""] * int(rng.integers(1, 3))
    return out


def refused(mon, kind, what, f, types=Exception):
    """f has to give an error of the package's own making"""
    try:
        r = f()
    except types:
        mon.check(True, "")
        mon.event(kind + "_refused")
        mon.state(kind, "refused", what)
        return
    except Exception as e:
        mon.violation("%s file with %s: not the error the package documents" % (kind, what), "%s: %s" % (type(e).__name__, e))
        return
    mon.check(False, "%s file with %s was read without an error" % (kind, what), lambda: repr(r)[:300])


def wind_times(rng, n):
    t = dt.datetime(int(rng.choice([1971, 1999, 2000, 2012, 2024, 2050])), int(rng.integers(1, 13)), int(rng.integers(1, 29)), int(rng.integers(24)), int(rng.integers(60)))
    out = []
    for _ in range(n):
        out.append(t)
        t += dt.timedelta(minutes=int(rng.choice([1, 10, 60, 180, 1440, 44640])))
    return out


def wind_case(rng, mon):
    from gnome.environment import Wind
    from gnome.environment.wind import read_ossm_format
    n = int(rng.choice([1, 2, 3, 12, 60]))
    times = wind_times(rng, n)
    speed = [float(np.round(rng.choice([0., 1., 1.]) * rng.uniform(0, 60), int(rng.integers(0, 4)))) for _ in times]
    card = rng.random() < .4
    two = rng.random() < .3
    sp = rng.random() < .3
    drs, rows = [], []
    for t, s in zip(times, speed):
        if card and rng.random() < .7:
            c = str(rng.choice(list(CARD)))
            d, ds = float(CARD[c]), c
            mon.event("wind_cardinal")
        else:
            d = float(np.round(rng.choice([0., 360., 1., 1.]) if rng.random() < .2 else rng.uniform(0, 360), int(rng.integers(0, 3))))
            ds = repr(d) if rng.random() < .5 else "%g" % d
            d = float(ds)
        y = t.year % 100 if two else t.year
        if two:
            mon.event("wind_two_digit_year")
        f = [str(t.day), str(t.month), ("%02d" % y) if rng.random() < .5 else str(y), ("%02d" % t.hour) if rng.random() < .5 else str(t.hour), str(t.minute), repr(s), ds]
        rows.append((", " if sp else ",").join(f))
        drs.append(d)
    unit = str(rng.choice(list(UNITS)))
    uline = unit
    name = str(rng.choice(["Station 9", "", "KSEA, Washington", "été"]))
    lat, lon = float(np.round(rng.uniform(-89, 89), 4)), float(np.round(rng.uniform(-180, 360), 4))
    have = rng.random() < .7
    head = [name, "%r,%s%r" % (lat, " " if sp else "", lon) if have else str(rng.choice(["", "unknown", "not a place, at all, really"])), uline + (" " if sp else "")]
    form = int(rng.choice([3, 4, 5]))
    off, zone = None, ""
    if form >= 4:
        k = int(rng.integers(4))
        if k == 0:
            off, zone = float(rng.integers(-12, 13)), str(rng.choice(["PST", "Chatham, NZ", "EST"]))
            head.append("%g,%s%s" % (off, " " if sp else "", zone))
        elif k == 1:
            off, zone = 0., str(rng.choice(["UTC", "gmt", "GMT"]))
            head.append(zone)
        elif k == 2:
            off = float(np.round(rng.uniform(-12, 14) * 4) / 4)
            head.append("%g" % off)
        else:
            head.append(str(rng.choice(["", "local"])))
    if form == 5:
        head.append(str(rng.choice(["0,0,0,0,0,0,0,0", "", "#", "something else"])))
    nl = put(rng, mon, "w.osm", head + rows[:1] + blanks(rng, mon, rows[1:]))
    mon.event("wind_header_%d" % form)
    r = read_ossm_format("w.osm")
    mon.equal(list(r[5]), times, "times of a wind file differ")
    mon.close(r[6], speed, "speeds of a wind file differ", rtol=0)
    mon.close(r[7], drs, "directions of a wind file differ", rtol=0)
    mon.check(r[0] == (name or "w.osm"), "name in a wind file differs", lambda: repr(r[0]))
    mon.check(r[1] == ((lon, lat) if have else (None, None)), "place in a wind file differs", lambda: "%s / lon %s lat %s" % (r[1], lon, lat))
    mon.check(r[3] == off and r[4] == zone, "time zone in a wind file differs", lambda: "%r / %r" % (r[3:5], (off, zone)))
    f = UNITS[unit]
    for how in ("init", "from_file"):
        w = Wind(filename="w.osm") if how == "init" else Wind.from_file("w.osm")
        got = w.get_wind_data(units="m/s", coord_sys="uv")
        a = np.radians(drs)
        want = np.c_[-np.array(speed) * np.sin(a), -np.array(speed) * np.cos(a)] * f
        mon.equal([t.astype("datetime64[s]").item() for t in got["time"]], times, "times of a wind made from a file differ", what=how)
        # (nucos factors differ in the fifth digit for some units)
        mon.close(got["value"], want, "values of a wind made from a file differ", rtol=2e-4, atol=2e-4 * (1e-9 + max(speed) * f), what=how)
        own = w.get_wind_data(coord_sys="r-theta")
        mon.close(own["value"][:, 0], speed, "speeds of a wind made from a file differ in its own units", rtol=1e-9, atol=1e-9 * max(speed), what=how)
        mon.check((w.longitude, w.latitude) == ((lon, lat) if have else (None, None)) or (not have and w.longitude is None), "place of a wind made from a file differs", lambda: "%s: %s %s / %s %s" % (how, w.longitude, w.latitude, lon, lat))
        mon.check(w.name == (name or "w.osm"), "name of a wind made from a file differs", lambda: repr(w.name))
        mon.check(w.data_start == times[0] and w.data_stop == times[-1], "range of a wind made from a file differs", lambda: "%s %s" % (w.data_start, w.data_stop))
        if off is not None:
            mon.check(w.timezone_offset.offset == off, "time zone of a wind made from a file differs", lambda: repr(w.timezone_offset))
    mon.event("wind_read")
    mon.state("wind", form, nl, unit, card, two, sp, n > 3)
    # ---- damage
    if n < 2:
        rows = rows + rows
    bad = list(head + rows[:2])
    good_next = times[min(1, n - 1)] + dt.timedelta(days=40)

    def rec(day=good_next.day, month=good_next.month, year=good_next.year, hour=3, minute=7, s="4", d="90", more=""):
        return ",".join(str(x) for x in (day, month, year, hour, minute, s, d)) + more
    dam = [("a field missing", ",".join(rec().split(",")[:6])), ("a field too many", rec(more=",1")), ("minute 60", rec(minute=60)), ("hour 24", rec(hour=24)), ("month 13", rec(month=13)), ("month 0", rec(month=0)), ("day 31 of June", rec(day=31, month=6)),
           ("a word for a number", rec(s="five")), ("a line cut off", rec()[:int(rng.integers(1, 8))]), ("a direction that does not exist", rec(d="QQ")), ("a half for an hour", rec(hour="3.5")), ("text after the data", "end of file"),
           ("a header line in the data", "knots")]
    what, line = dam[int(rng.integers(len(dam)))]
    tail = [rec(day=28, month=12, year=good_next.year + 1)] if rng.random() < .5 else []
    put(rng, mon, "w.osm", bad + [line] + tail)
    refused(mon, "wind", what, lambda: read_ossm_format("w.osm"), ValueError)
    refused(mon, "wind", what, lambda: Wind(filename="w.osm"), ValueError)
    k = int(rng.integers(6))
    if k == 0:
        put(rng, mon, "w.osm", head)
        refused(mon, "wind", "no data", lambda: Wind(filename="w.osm"))
        return
    if k == 1:
        put(rng, mon, "w.osm", [])
        refused(mon, "wind", "nothing in it", lambda: Wind(filename="w.osm"))
        return
    if k == 2:
        put(rng, mon, "w.osm", head[:2] + [str(rng.choice(["furlongs", "", "meters", "m s"]))] + head[3:] + rows)
        refused(mon, "wind", "a unit that is no speed", lambda: Wind(filename="w.osm"))
        return
    if k == 3 and n > 1:
        put(rng, mon, "w.osm", head + rows[:n] + [rows[int(rng.integers(0, n))]])
        refused(mon, "wind", "times that do not go up", lambda: Wind(filename="w.osm"))
        return
    if k == 4:
        put(rng, mon, "w.osm", head + rows[:1] + [rec(year=2071, s="-3")])
        refused(mon, "wind", "a negative speed", lambda: Wind(filename="w.osm"))
        return
    put(rng, mon, "w.osm", head + rows[:1] + [rec(year=2071, d=str(rng.choice(["361", "-1", "1000"])))])
    refused(mon, "wind", "a direction outside 0..360", lambda: Wind(filename="w.osm"))


def bna_case(rng, mon):
    from gnome.utilities.file_tools.haz_files import ReadBNA
    polys, lines = [], []
    n = int(rng.integers(1, 8))
    dups = 0
    for k in range(n):
        t = str(rng.choice(["polygon", "polygon", "polygon", "polyline", "polyline2", "point"]))
        m = {"polygon": int(rng.integers(3, 20)), "polyline": int(rng.integers(1, 9)), "polyline2": 2, "point": 1}[t]
        pts = rng.uniform(-180, 180, (m, 2)) * (1, .5)
        if rng.random() < .5:
            pts = np.round(pts, int(rng.integers(0, 5)))
        name = str(rng.choice(["land %d" % k, "", "Isle, of the, sea", "1"]))
        sname = str(rng.choice(["1", "2", "", "a b"]))
        w = pts
        if t == "polygon" and rng.random() < .6:
            w = np.vstack([pts, pts[:1]])
            mon.event("bna_closing_point")
            dups += 1
        elif t == "polygon" and np.array_equal(pts[0], pts[-1]):
            pts = pts[:-1]
        if len(w) < 3 and t == "polygon":
            return
        block = ['"%s","%s",%s%d' % (name, sname, str(rng.choice(["", " ", "  "])), -len(w) if t == "polyline" else len(w))]
        for p in w.tolist():
            block.append(str(rng.choice(["%r,%r", "%r, %r", " %r , %r "])) % tuple(p))
        if k and rng.random() < .3:
            lines += [""]
            mon.event("blank_lines")
        lines += block
        polys.append((pts, {"polyline2": "polyline"}.get(t, t), name, sname))
        mon.event("bna_" + polys[-1][1])
    nl = put(rng, mon, "m.bna", ([""] if rng.random() < .1 else []) + lines)
    got = ReadBNA("m.bna", "list")
    mon.check(len(got) == n, "number of polygons in a BNA file differs", lambda: "%d/%d" % (len(got), n))
    for g, p in zip(got, polys):
        mon.check(g[1:] == p[1:], "kind or names of a BNA polygon differ", lambda: "%s / %s" % (g[1:], p[1:]))
        mon.equal(np.asarray(g[0]), p[0], "points of a BNA polygon differ")
    ps = ReadBNA("m.bna", "PolygonSet")
    mon.check(len(ps) == n, "number of polygons in a BNA file differs", lambda: "%d/%d" % (len(ps), n))
    for k in range(n):
        mon.equal(np.asarray(ps[k]), polys[k][0], "points of a BNA polygon differ")
        mon.check(tuple(ps[k].metadata) == polys[k][1:], "kind or names of a BNA polygon differ", lambda: str(ps[k].metadata))
    mon.event("bna_read")
    mon.state("bna", nl, n > 3, tuple(sorted(set(p[1] for p in polys))), dups > 0)
    # ---- damage
    heads = [j for j, l in enumerate(lines) if l.startswith('"')]
    data = [j for j, l in enumerate(lines) if l and not l.startswith('"')]
    j, h = int(rng.choice(data)), int(rng.choice(heads))
    bad = list(lines)
    k = int(rng.integers(8))
    if k == 0:
        what, bad = "its end cut off", lines[:data[-1]]
    elif k == 1:
        what = "a point missing"
        if h == heads[-1]:
            del bad[data[-1]]
        else:
            del bad[h + 1]
    elif k == 2:
        what = "a single coordinate"
        bad[j] = bad[j].split(",")[0]
    elif k == 3:
        what = "three coordinates"
        bad[j] += ",1"
    elif k == 4:
        what = "a word for a coordinate"
        bad[j] = "x," + bad[j].split(",")[1]
    elif k == 5:
        what = "no number of points"
        bad[h] = bad[h][:bad[h].rindex(",") + int(rng.integers(0, 2))]
    elif k == 6:
        what = "zero points"
        bad[h] = bad[h][:bad[h].rindex(",") + 1] + "0"
    else:
        what = "a point too many"
        bad.insert(j, "1.5,2.5")
    put(rng, mon, "m.bna", bad)
    refused(mon, "bna", what, lambda: ReadBNA("m.bna", str(rng.choice(["list", "PolygonSet"]))), ValueError)


def gridcur_case(rng, mon):
    from gnome.environment import gridcur
    cells = rng.random() < .5
    lo = 1 if cells else 2
    nr, nc = int(rng.integers(lo, 9)), int(rng.integers(lo, 9))
    nt = int(rng.integers(1, 5))
    times = wind_times(rng, nt)
    lat0, lon0 = float(np.round(rng.uniform(-60, 60), 3)), float(np.round(rng.uniform(-170, 170), 3))
    dlat, dlon = float(np.round(rng.uniform(.01, 2), 3)), float(np.round(rng.uniform(.01, 2), 3))
    lat = lat0 + dlat * np.arange(nc + cells)
    lon = lon0 + dlon * np.arange(nr + cells)
    kind = str(rng.choice(["currents", "winds"]))
    unit = str(rng.choice(["knots", "m/s", "KNOTS", "mps", "cm/s"]))
    U, V = np.round(rng.uniform(-5, 5, (2, nt, nr, nc)), 6)
    U[rng.random(U.shape) < .1] = 0.
    own = rng.random() < .4
    if own:
        gridcur.write_gridcur("g.cur", kind, unit, times, lon, lat, U, V)
        nl = "own"
        lines = open("g.cur").read().split("\n")[:-1]
        mon.ctx["file"] = "\n".join(lines)[:1500]
        mon.event("gridcur_written_by_package")
    else:
        lines = ["%s %s" % ({"currents": "[GRIDCURTIME]", "winds": "[GRIDWINDTIME]"}[kind], unit)]
        h = ["NUMROWS %d" % nr, "NUMCOLS %d" % nc]
        if cells:
            h += ["LOLAT %r" % lat0, "HILAT %r" % lat[-1].item(), "LOLONG %r" % lon0, "HILONG %r" % lon[-1].item()]
        else:
            h += ["STARTLAT %r" % lat0, "STARTLONG %r" % lon0, "DLAT %r" % dlat, "DLONG %r" % dlon]
        lines += [h[j] for j in rng.permutation(len(h))]
        for k, t in enumerate(times):
            lines.append("[TIME]%s%d %d %d %d %d" % (str(rng.choice([" ", "   ", "\t"])), t.day, t.month, t.year, t.hour, t.minute))
            todo = [(r, c) for r in range(nr) for c in range(nc)]
            if rng.random() < .5:
                rng.shuffle(todo)
            for r, c in todo:
                if U[k, r, c] == 0 and V[k, r, c] == 0 or rng.random() < .05:
                    U[k, r, c] = V[k, r, c] = 0.
                    mon.event("gridcur_cells_left_out")
                    continue
                lines.append(str(rng.choice(["%d %d %r %r", "  %d\t%d   %r %r "])) % (r + 1, c + 1, U[k, r, c].item(), V[k, r, c].item()))
        if rng.random() < .3:
            lines = ["some words before"] + lines
        nl = put(rng, mon, "g.cur", blanks(rng, mon, lines, .04))
    dtp, un, ts, glon, glat, gu, gv = gridcur.read_file("g.cur")
    mon.check(dtp == kind and un == unit, "kind or unit of a gridcur file differs", lambda: "%s %s" % (dtp, un))
    mon.equal(list(ts), times, "times of a gridcur file differ")
    mon.close(glon, lon, "grid of a gridcur file differs", rtol=1e-12, atol=1e-9, what="longitudes")
    mon.close(glat, lat, "grid of a gridcur file differs", rtol=1e-12, atol=1e-9, what="latitudes")
    mon.close(gu, U, "values of a gridcur file differ", rtol=1e-12, atol=1e-12, what="u")
    mon.close(gv, V, "values of a gridcur file differ", rtol=1e-12, atol=1e-12, what="v")
    mon.event("gridcur_cells" if cells else "gridcur_nodes")
    mon.state("gridcur", cells, nl, unit, kind, own, nt > 1)
    if not cells and kind == "currents" and unit == "m/s":
        ex = bool(rng.random() < .5)
        gc = gridcur.from_gridcur("g.cur", extrapolation_is_allowed=ex)
        mon.check(bool(gc.extrapolation_is_allowed) is (ex or nt == 1), "current made from a gridcur file does not extrapolate as asked", lambda: "%s asked %s" % (gc.extrapolation_is_allowed, ex))
        k, r, c = int(rng.integers(nt)), int(rng.integers(nr)), int(rng.integers(nc))
        mon.check(gc.data_start == times[0] and gc.data_stop == times[-1], "range of a current made from a gridcur file differs", lambda: "%s %s" % (gc.data_start, gc.data_stop))
        mon.close(gc.variables[0].data[k][r, c], U[k, r, c], "values of a current made from a gridcur file differ", atol=1e-12)
        mon.close(gc.variables[1].data[k][r, c], V[k, r, c], "values of a current made from a gridcur file differ", atol=1e-12)
        mon.event("gridcur_object")
    # ---- damage
    tl = [j for j, l in enumerate(lines) if l.startswith("[TIME]")]
    dl = [j for j, l in enumerate(lines) if j > tl[0] and not l.startswith("[TIME]")]
    bad = list(lines)
    k = int(rng.integers(10))
    if k >= 4 and not dl:
        k = 0
    if k == 0:
        what = "no header"
        bad = [l for l in lines if not l.startswith("[GRID")]
    elif k == 1:
        what = "part of the grid missing"
        p = ["NUMROWS", "NUMCOLS"] + (["LOLAT", "HILAT", "LOLONG", "HILONG"] if cells else ["STARTLAT", "STARTLONG", "DLAT", "DLONG"])
        p = str(rng.choice(p))
        bad = [l for l in lines if not l.startswith(p)]
    elif k == 2:
        what = "a time that does not exist"
        bad[int(rng.choice(tl))] = "[TIME] " + str(rng.choice(["31 6 2001 0 0", "1 13 2001 0 0", "1 1 2001 24 0", "1 1 2001 0 60", "1 1 2001", "1 1 x 0 0"]))
    elif k == 3:
        what = "no data"
        bad = lines[:tl[0]]
    else:
        j = int(rng.choice(dl))
        f = lines[j].split()
        what, f = [("a row beyond the grid", [str(nr + 1)] + f[1:]), ("a column beyond the grid", [f[0], str(nc + 1)] + f[2:]), ("row 0", ["0"] + f[1:]), ("column 0", [f[0], "0"] + f[2:]),
                   ("a value missing", f[:3]), ("a word for a number", f[:3] + ["x"])][k - 4]
        bad[j] = " ".join(f)
    put(rng, mon, "g.cur", bad)
    refused(mon, "gridcur", what, lambda: gridcur.read_file("g.cur"), gridcur.GridCurReadError)


def splot_case(rng, mon):
    from gnome.spills.release import release_from_splot_data
    n = int(rng.choice([1, 1, 2, 5, 40]))
    pos = np.c_[np.round(rng.uniform(-180, 180, n), 4), np.round(rng.uniform(-80, 80, n), 4)]
    num = rng.integers(0 if n > 2 else 1, 6, n)
    if num.sum() == 0:
        num[0] = 1
    lines = [str(rng.choice(["%r %r %d", "  %r\t%r   %d"])) % (p[0], p[1], k) for p, k in zip(pos.tolist(), num)]
    nl = put(rng, mon, "s.txt", blanks(rng, mon, lines))
    t = dt.datetime(2012, 8, 20, 13)
    r = release_from_splot_data(t, "s.txt")
    want = np.repeat(np.c_[pos, np.zeros(n)], num, axis=0)
    mon.check(r.release_time == t, "release time differs", lambda: str(r.release_time))
    mon.close(r.custom_positions, want, "positions of a splot file differ", rtol=1e-12)
    mon.check(r.num_elements == len(want), "number of elements of a splot file differs", lambda: "%s/%s" % (r.num_elements, len(want)))
    mon.event("splot_read")
    if n == 1:
        mon.event("splot_one_line")
    mon.state("splot", nl, n > 2, n == 1, bool((num == 0).any()))
    j = int(rng.integers(n))
    bad = list(lines)
    what, bad[j] = [("a word for a number", "x " + " ".join(lines[j].split()[1:])), ("a column missing", " ".join(lines[j].split()[:2]))][int(rng.integers(2))]
    put(rng, mon, "s.txt", bad)
    refused(mon, "splot", what, lambda: release_from_splot_data(t, "s.txt"))


def times_case(rng, mon):
    from gnome.environment.gridded_objects_base import Time
    n = int(rng.integers(1, 20))
    t = dt.datetime(int(rng.integers(1971, 2060)), int(rng.integers(1, 13)), int(rng.integers(1, 29)), int(rng.integers(24)), int(rng.integers(60)), int(rng.integers(60)))
    times = [t]
    for _ in range(n - 1):
        times.append(times[-1] + dt.timedelta(seconds=int(rng.integers(1, 500000))))
    lines = [x.strftime("%c") for x in times]
    nl = put(rng, mon, "t.txt", blanks(rng, mon, lines))
    got = Time.from_file("t.txt")
    mon.equal([np.datetime64(x, "s").item() for x in got.data], times, "times in a file of times differ")
    mon.event("times_read")
    mon.state("times", nl, n > 1)
    j = int(rng.integers(n))
    bad = list(lines)
    what, bad[j] = [("a line cut off", lines[j][:-6]), ("a month that does not exist", "Mon Xyz  1 00:00:00 2001"), ("an hour that does not exist", "Mon Jan  1 24:00:00 2001"), ("text", "end")][int(rng.integers(4))]
    put(rng, mon, "t.txt", bad)
    refused(mon, "times", what, lambda: Time.from_file("t.txt"))


TIDE_UNITS = [("knots", 1852. / 3600), ("meters per second", 1.), ("miles per hour", 1609.344 / 3600)]


def tide_case(rng, mon):
    from gnome.environment import Tide
    from gnome.utilities.time_utils import date_to_sec
    n = int(rng.choice([2, 3, 10, 60]))
    times = [t for t in wind_times(rng, n)]
    vals = [float(np.round(rng.uniform(-3, 3), 3)) for _ in times]
    unit, f = TIDE_UNITS[int(rng.integers(3))]
    two = rng.random() < .3
    if two:
        times = [t for t in times if t.year < 2038]
        if len(times) < 2:
            return
        vals = vals[:len(times)]
    head = ["Some Station", "-75.26,39.14", unit]
    rows = ["%d,%d,%s,%d,%d,%.3f,0" % (t.day, t.month, "%02d" % (t.year % 100) if two and t.year >= 2000 else t.year, t.hour, t.minute, v) for t, v in zip(times, vals)]
    nl = put(rng, mon, "t.ossm", head + rows)
    td = Tide("t.ossm")
    mon.check(td.data_start == times[0] and td.data_stop == times[-1], "range of a tide file differs", lambda: "%s %s / %s %s" % (td.data_start, td.data_stop, times[0], times[-1]))
    for t, v in zip(times, vals):
        g, err = td.cy_obj.get_time_value(date_to_sec(t))
        mon.close(float(g["u"][0]), v * f, "value of a tide file differs", rtol=2e-4, atol=1e-9, what=str(t))
    mon.event("tide_read")
    mon.state("tide", nl, unit, two, n > 3)
    k = int(rng.integers(4))
    if k == 0:
        what, bad = "nothing in it", []
    elif k == 1:
        what, bad = "a unit that does not exist", head[:2] + ["furlongs"] + rows
    elif k == 2:
        what, bad = "no data", head
    else:
        what, bad = "words only", ["this is", "not a tide", "file at all", "no"]
    put(rng, mon, "t.ossm", bad)
    refused(mon, "tide", what, lambda: Tide("t.ossm"))


CASES = [wind_case] * 4 + [bna_case] * 3 + [gridcur_case] * 3 + [splot_case, times_case] + [tide_case]


def case(i, rng, mon):
    CASES[i % len(CASES)](rng, mon)
