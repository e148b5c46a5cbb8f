"""Every exporter shows what the model holds."""
PROPERTY = "P23"
KIND = "plain"
N = {"quick": 500, "thorough": 9000}
BUDGET = {"quick": 85, "thorough": 1800}
RULE = "(exporter, option class, set, kinds of elements at the step: none, floating, beached, both, other)"
NEED = ["geojson", "geojson_file", "spilljson", "kmz", "binary", "shape", "weathering", "budget", "erma", "uncertain", "beached", "no_elements", "elements_gone", "backward", "rerun", "aborted_run", "unrounded",
        "not_zipped", "in_a_folder", "other_files_kept", "last_step_left_out", "oil", "steps_compared", "after_the_run", "boundary", "forecast_boundary"]
ASSUMES = ["element arrays are compared to the precision each format carries (as documented or as its fields allow)",
           "KMZ shows elements in the water and on land only; the Analyst files do not carry identities; budgets are for the forecast set"]

import csv
import datetime as dt
import glob
import json
import os
import re
import zipfile
import numpy as np
import gn
from gn import sec
from vlib import blame, where


def near(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol) | ((a != a) & (b != b))))


class Ctx:
    pass


def kinds(a):
    s = set(np.unique(a["status_codes"]).tolist())
    return "none" if not s else "both" if {2, 3} <= s else "floating" if s == {2} else "beached" if s == {3} else "other"


def dec(x, n):
    return .5000001 * 10. ** -n + 1e-12 * np.abs(np.asarray(x, float))


# ---- one comparator per exporter: recs = {set: [(step, time, arrays, mass balance)]}
def cmp_geojson(o, C, mon):
    digits = o["round_to"] if o["round"] else 12

    def features(fs, a, what, t):
        A = [f for f in fs]
        if not mon.check(len(A) == len(a["id"]), "number of elements exported is not that in the model", lambda: "%s at %s: %d, in the model %d" % (what, t, len(A), len(a["id"]))):
            return
        if not A:
            return
        xy = [f["geometry"]["coordinates"] for f in A]
        tol = dec(1, digits) if o["round"] else 1e-12
        mon.check(near(np.array(xy)[:, :2], a["positions"][:, :2], tol + 1e-12), "positions exported are not those in the model", lambda: "%s at %s: %s, in the model %s" % (what, t, xy[:2], a["positions"][:2]))
        mon.check([f["properties"]["status_code"] for f in A] == a["status_codes"].tolist(), "states exported are not those in the model", lambda: "%s at %s" % (what, t))
        mon.check([f["properties"]["spill_num"] for f in A] == a["spill_num"].tolist(), "spill numbers exported are not those in the model", lambda: "%s at %s" % (what, t))
        mon.check(near([f["properties"]["mass"] for f in A], a["mass"], (dec(1, digits) if o["round"] else 0) + 1e-12 * np.abs(a["mass"])), "masses exported are not those in the model",
                  lambda: "%s at %s: %s, in the model %s" % (what, t, [f["properties"]["mass"] for f in A][:3], a["mass"][:3]))
    for u in C.sets:
        for k, t, a, mb in C.recs[u]:
            res = C.results[k].get("TrajectoryGeoJsonOutput") if C.results else None
            if res is not None:
                mon.check(res["time_stamp"] == t.isoformat(), "time exported is not that of the model", lambda: "geojson: %s, in the model %s" % (res["time_stamp"], t))
                features(res["uncertain" if u else "certain"]["features"], a, "geojson result, uncertain=%s" % u, t)
            if o["dir"]:
                f = os.path.join(o["dir"], "geojson_%06d.geojson" % k)
                if mon.check(os.path.exists(f), "no file written", f):
                    d = json.load(open(f))
                    fs = [x for x in d["features"] if x["properties"]["sc_type"] == ("uncertain" if u else "forecast")]
                    features(fs, a, "geojson file, uncertain=%s" % u, t)
                    if not C.S["uncertain"]:
                        mon.check(len(fs) == len(d["features"]), "elements exported that are not in the model", lambda: "geojson file at %s" % t)
                    mon.event("geojson_file")
    if not o["round"]:
        mon.event("unrounded")


def cmp_spilljson(o, C, mon):
    for u in C.sets:
        for k, t, a, mb in C.recs[u]:
            res = C.results[k].get("SpillJsonOutput")
            if not mon.check(res is not None, "nothing exported for a step to put out", lambda: "spill json, step %d" % k):
                continue
            mon.check(res["time_stamp"] == t.isoformat() and res["step_num"] == k, "time exported is not that of the model", lambda: "spill json: %s, in the model %s" % (res["time_stamp"], t))
            d = res["uncertain" if u else "certain"]
            if not mon.check(len(d) == 1, "sets exported are not those in the model", lambda: "spill json: %d" % len(d)):
                continue
            d = d[0]
            what = "spill json, uncertain=%s at %s" % (u, t)
            mon.check(d["length"] == len(a["id"]), "number of elements exported is not that in the model", lambda: "%s: %d, in the model %d" % (what, d["length"], len(a["id"])))
            mon.check(near(d["longitude"], a["positions"][:, 0], 5.001e-6) and near(d["latitude"], a["positions"][:, 1], 5.001e-6), "positions exported are not those in the model", what)
            mon.check(d["status"] == a["status_codes"].tolist(), "states exported are not those in the model", what)
            mon.check(d["spill_num"] == a["spill_num"].tolist(), "spill numbers exported are not those in the model", what)
            mon.check(near(d["mass"], a["mass"], 5.001e-5 + 1e-12 * np.abs(a["mass"])), "masses exported are not those in the model", what)
            for e in o["extra"]:
                w = a["positions"][:, 2] if e == "depth" else a[e]
                mon.check(near(d[e], w, 5.001e-5 + 1e-9 * np.abs(w)), "further data exported are not those in the model", lambda: "%s: %s %s" % (what, e, d[e][:3]))
            json.dumps(res)
        if not C.S["uncertain"]:
            mon.check(all(not r["SpillJsonOutput"]["uncertain"] for r in C.results.values() if "SpillJsonOutput" in r), "elements exported that are not in the model", "spill json")


def cmp_kmz(o, C, mon):
    import xml.etree.ElementTree as ET
    f = o["file"]
    if not mon.check(os.path.exists(f), "no file written", f):
        return
    with zipfile.ZipFile(f) as z:
        n = [x for x in z.namelist() if x.endswith(".kml")]
        mon.check(len(n) == 1 and sorted(set(z.namelist()) - set(n)) == ["dot.png", "x.png"], "archive does not hold the files it should", lambda: str(z.namelist()))
        txt = z.read(n[0]).decode()
    try:
        root = ET.fromstring(txt)
    except ET.ParseError as e:
        mon.violation("file is not well formed", "kmz: %s" % e)
        return
    ns = "{http://www.opengis.net/kml/2.2}"
    got = {}
    styles = {s.get("id") for s in root.iter(ns + "Style")}
    for fo in root.iter(ns + "Folder"):
        for pm in fo.findall(ns + "Placemark"):
            nm = pm.find(ns + "name").text
            b, e = pm.find("%sTimeSpan/%sbegin" % (ns, ns)).text, pm.find("%sTimeSpan/%send" % (ns, ns)).text
            mon.check(b < e, "time span ends before it begins", lambda: "kmz: %s to %s" % (b, e))
            mon.check(dt.datetime.fromisoformat(e) - dt.datetime.fromisoformat(b) == o["span"], "time span is not that of the step", lambda: "kmz: %s to %s, steps of %s" % (b, e, o["span"]))
            mon.check(pm.find(ns + "styleUrl").text.lstrip("#") in styles, "style used is not in the file", nm)
            pts = [tuple(float(v) for v in c.text.split(",")[:2]) for c in pm.iter(ns + "coordinates")]
            key = (b, "Uncertainty" in nm, "Beached" in nm)
            mon.check(key not in got, "elements of a step are there twice", lambda: "kmz: %s" % (key,))
            got[key] = pts
    want = set()
    for u in C.sets:
        for k, t, a, mb in C.recs[u]:
            for beached, code in ((False, 2), (True, 3)):
                key = (t.isoformat(), u, beached)
                want.add(key)
                w = a["positions"][a["status_codes"] == code][:, :2]
                g = np.array(got.get(key, [])).reshape(-1, 2)
                mon.check(near(g, w, 5.001e-7), "positions exported are not those in the model", lambda: "kmz %s: %s, in the model %s" % (key, g[:3], w[:3]))
    mon.check(set(got) == want, "steps or sets exported are not those put out", lambda: "kmz: %s" % sorted(set(got) ^ want))


HD = np.dtype([("name", "S10"), ("day", ">i2"), ("month", ">i2"), ("year", ">i2"), ("hour", ">i2"), ("minute", ">i2"), ("cur", ">f4"), ("ver", ">f4"), ("n", ">i4")])
LE = np.dtype([("lat", ">f4"), ("lon", ">f4"), ("rel", ">f4"), ("agew", ">f4"), ("beach", ">f4"), ("nmap", ">i4"), ("pol", ">i4"), ("wk", ">i4")])


def cmp_binary(o, C, mon):
    import datetime as dt
    blobs = {}
    if o["zip"]:
        if not mon.check(os.path.exists(o["stem"] + ".zip"), "no file written", o["stem"] + ".zip"):
            return
        with zipfile.ZipFile(o["stem"] + ".zip") as z:
            names = z.namelist()
            mon.check(len(set(names)) == len(names), "a file is in the archive twice", str(names))
            blobs = {n: z.read(n) for n in names}
    else:
        for f in glob.glob(o["stem"] + "*CST.*") + glob.glob(o["stem"] + "UNCRTN.*"):
            blobs[os.path.basename(f)] = open(f, "rb").read()
        mon.event("not_zipped")
    base = os.path.basename(o["stem"])
    want = {}
    for u in C.sets:
        for j, r in enumerate(C.recs[u]):
            want["%s%s.%03d" % (base, "UNCRTN" if u else "FORCST", j)] = r
    mon.check(set(blobs) == set(want), "steps or sets exported are not those put out", lambda: "Analyst files %s, expected %s" % (sorted(blobs), sorted(want)))
    for n in set(blobs) & set(want):
        k, t, a, mb = want[n]
        h = np.frombuffer(blobs[n][:HD.itemsize], HD)[0]
        E = np.frombuffer(blobs[n][HD.itemsize:], LE)
        mon.check((h["year"], h["month"], h["day"], h["hour"], h["minute"]) == (t.year, t.month, t.day, t.hour, t.minute), "time exported is not that of the model", lambda: "%s: %s, in the model %s" % (n, h, t))
        ref = dt.datetime(t.year - t.year % 4, 1, 1)
        cur = (t - ref).total_seconds() / 3600
        mon.check(abs(h["cur"] - cur) <= 1e-6 * abs(cur) + 1e-6, "time exported is not that of the model", lambda: "%s: %s hours, expected %s" % (n, h["cur"], cur))
        if not mon.check(h["n"] == len(E) == len(a["id"]), "number of elements exported is not that in the model", lambda: "%s: header %d, records %d, in the model %d" % (n, h["n"], len(E), len(a["id"]))):
            continue
        p = a["positions"]
        mon.check(near(E["lat"], p[:, 1], 1e-7 * np.abs(p[:, 1]) + 1e-9) and near(E["lon"], -p[:, 0], 1e-7 * np.abs(p[:, 0]) + 1e-9), "positions exported are not those in the model", lambda: "%s: %s, in the model %s" % (n, E[:2], p[:2]))
        mon.check(bool(np.all((E["beach"] == -50) == (a["status_codes"] == 3))), "states exported are not those in the model", lambda: n)
        rel = cur - a["age"] / 3600.
        mon.check(near(E["rel"], rel, 2e-7 * np.abs(rel) + 1e-6), "release times exported are not those in the model", lambda: "%s: %s, expected %s" % (n, E["rel"][:3], rel[:3]))
        mon.check(bool(np.all(E["agew"] == 0)) and bool(np.all(E["nmap"] == 1)), "records are not those of elements released new on the map", lambda: n)
    for f, txt in o["keep"].items():
        mon.check(os.path.exists(f) and open(f).read() == txt, "a file of another export was removed", f)
        mon.event("other_files_kept")


def read_shape(path):
    import geopandas
    return geopandas.read_file(path)


def cmp_points(g, recs, mon, what, offset):
    if not mon.check(len(g) == sum(len(r[2]["id"]) for r in recs), "number of elements exported is not that in the model", lambda: "%s: %d, in the model %s" % (what, len(g), [len(r[2]["id"]) for r in recs])):
        return
    if not len(g):
        return
    tcol = g["Time"].astype(str).str.replace(" ", "T").str[:19]
    for k, t, a, mb in recs:
        d = g[tcol == t.isoformat()[:19]]
        w = "%s at %s" % (what, t)
        if not mon.check(len(d) == len(a["id"]), "elements of a step are missing or there twice", lambda: "%s: %d, in the model %d" % (w, len(d), len(a["id"]))):
            continue
        if not len(d):
            continue
        d = d.sort_values("LE_id")
        ix = np.argsort(a["id"], kind="stable")
        mon.check(d["LE_id"].tolist() == a["id"][ix].tolist(), "identities exported are not those in the model", w)
        xyz = np.array([[p.x, p.y, p.z if p.has_z else 0.] for p in d.geometry])
        mon.check(near(xyz, a["positions"][ix], 1e-12 * np.abs(a["positions"][ix]) + 1e-12), "positions exported are not those in the model", lambda: "%s: %s, in the model %s" % (w, xyz[:2], a["positions"][ix][:2]))
        for col, v, tol in (("Spill_id", a["spill_num"], 0), ("StatusCode", a["status_codes"], 0), ("Age", a["age"], 0), ("Mass", a["mass"], 1e-9), ("Depth", a["positions"][:, 2], 1e-9)):
            v = v[ix].astype(float)
            mon.check(near(d[col], v, tol * np.abs(v) + tol), "attributes exported are not those in the model", lambda: "%s: %s %s, in the model %s" % (w, col, d[col].tolist()[:3], v[:3]))
        for col, nm in (("Viscosity", "viscosity"), ("Density", "density"), ("FracWater", "frac_water")):
            if nm in a:
                mon.check(near(d[col], a[nm][ix], 1e-9 * np.abs(a[nm][ix]) + 1e-12), "attributes exported are not those in the model", lambda: "%s: %s %s, in the model %s" % (w, col, d[col].tolist()[:3], a[nm][ix][:3]))
        if offset is not None:
            e = (t - sec(offset * 3600)).isoformat()
            mon.check(all(str(x).replace(" ", "T")[:19] == e[:19] for x in d["Time_UTC"]), "universal time exported is not that of the step", lambda: "%s: %s, expected %s" % (w, d["Time_UTC"].tolist()[:2], e))


def cmp_boundary(g, C, mon, what, sets):
    from shapely.geometry import MultiPoint
    tcol = g["time"].astype(str).str.replace(" ", "T").str[:19] if len(g) else []
    for j, (k, t, a, mb) in enumerate(C.recs[sets[0]]):
        P = np.concatenate([C.recs[u][j][2]["positions"][:, :2] for u in sets])
        d = g[tcol == t.isoformat()[:19]] if len(g) else g
        if len(P) == 0:
            mon.check(len(d) == 0, "boundary of a step without elements", lambda: "%s at %s" % (what, t))
            continue
        if len(d) == 0:
            continue
        hull = MultiPoint(P).convex_hull.buffer(1e-4)
        mon.check(all(hull.covers(x) for x in d.geometry), "boundary reaches beyond the elements", lambda: "%s at %s" % (what, t))
        mon.event("boundary")


def cmp_shape(o, C, mon):
    import shutil
    fn = o["file"]
    parts = {}
    if o["zip"] or C.S["uncertain"]:
        f = fn + ".zip"
        if not mon.check(os.path.exists(f), "no file written", f):
            return
        shutil.rmtree("shp", ignore_errors=True)
        os.makedirs("shp")
        with zipfile.ZipFile(f) as z:
            z.extractall("shp")
        for n in os.listdir("shp"):
            if n.endswith(".zip"):
                parts[n[:-4]] = "shp/" + n
            elif n.endswith(".shp"):
                parts[n[:-4]] = "shp/" + n
                mon.check(os.path.exists("shp/" + n[:-4] + ".dbf") and os.path.exists("shp/" + n[:-4] + ".shx"), "the parts of a shapefile are not all there", lambda: "%s: %s" % (n, os.listdir("shp")))
    else:
        f = fn + ".shp"
        if not mon.check(os.path.exists(f), "no file written", lambda: "%s: %s" % (f, os.listdir(os.path.dirname(fn) or "."))):
            return
        parts[os.path.basename(fn) + "_certain"] = f
        mon.event("not_zipped")
    b = os.path.basename(fn)
    for u in C.sets:
        p = parts.get(b + ("_uncertain" if u else "_certain"))
        if mon.check(p is not None, "set is missing from the shapefiles", lambda: "uncertain=%s: %s" % (u, sorted(parts))):
            cmp_points(read_shape(p), C.recs[u], mon, "shapefile, uncertain=%s" % u, o["offset"])
    if o["cb"]:
        if not (o["zip"] or C.S["uncertain"]):
            parts[b + "_certain_boundary"] = fn + "_boundary.shp" if os.path.exists(fn + "_boundary.shp") else None
        p = parts.get(b + "_certain_boundary")
        if mon.check(p is not None, "boundary is missing from the shapefiles", lambda: str(sorted(parts))):
            cmp_boundary(read_shape(p), C, mon, "forecast boundary", [False])
            mon.event("forecast_boundary")
    if C.S["uncertain"] and o["ub"]:
        p = parts.get(b + "_uncertain_boundary")
        if mon.check(p is not None, "boundary is missing from the shapefiles", lambda: str(sorted(parts))):
            cmp_boundary(read_shape(p), C, mon, "uncertainty boundary", [False, True])


def cmp_erma(o, C, mon):
    f = o["file"]
    if not mon.check(os.path.exists(f), "no file written", f):
        return
    import shutil
    shutil.rmtree("erma", ignore_errors=True)
    with zipfile.ZipFile(f) as z:
        z.extractall("erma")
        for n in z.namelist():
            if n.endswith(".json"):
                json.loads(z.read(n))
    src = {os.path.basename(x)[:-4]: x for x in glob.glob("erma/source_files/*.zip")}
    for u in C.sets:
        p = [v for k, v in src.items() if k.endswith("_uncertain" if u else "_certain")]
        if mon.check(len(p) == 1, "set is missing from the data package", lambda: "uncertain=%s: %s" % (u, sorted(src))):
            cmp_points(read_shape(p[0]), C.recs[u], mon, "data package, uncertain=%s" % u, None)


def cmp_weathering(o, C, mon):
    for k, t, a, mb in C.recs[False]:
        for what, d in (("result", C.results[k].get("WeatheringOutput") if C.results else None), ("file", o["dir"])):
            if what == "file":
                f = os.path.join(o["dir"], "mass_balance_%06d.json" % k)
                if not mon.check(os.path.exists(f), "no file written", f):
                    continue
                d = json.load(open(f))
            if d is None:
                continue
            mon.check(d["time_stamp"] == t.isoformat(), "time exported is not that of the model", lambda: "weathering %s: %s, in the model %s" % (what, d["time_stamp"], t))
            g = {x: v for x, v in d.items() if x not in ("time_stamp", "output_filename", "step_num")}
            mon.check(set(g) == set(mb) and all(float(g[x]) == float(mb[x]) or mb[x] != mb[x] for x in mb), "amounts exported are not those in the model", lambda: "weathering %s at %s: %s, in the model %s" % (what, t, g, mb))


def cmp_budget(o, C, mon):
    f = o["file"]
    if not mon.check(os.path.exists(f), "no file written", f):
        return
    rows = list(csv.reader(open(f)))
    head = rows[0]
    col = {"Amount Released (kg)": "amount_released", "Evaporated (kg)": "evaporated", "Dispersed (kg)": "natural_dispersion", "Sedimentation (kg)": "sedimentation", "Beached (kg)": "beached", "Floating (kg)": "floating", "Off_maps (kg)": "off_maps"}
    mon.check(set(col) <= set(head), "columns are missing", lambda: str(head))
    if not mon.check(len(rows) - 1 == len(C.recs[False]), "steps or sets exported are not those put out", lambda: "budget: %d rows, expected %d" % (len(rows) - 1, len(C.recs[False]))):
        return
    for r, (k, t, a, mb) in zip(rows[1:], C.recs[False]):
        d = dict(zip(head, r))
        mon.check(d["Model Time"] == t.strftime("%Y-%m-%d %H:%M"), "time exported is not that of the model", lambda: "budget: %s, in the model %s" % (d["Model Time"], t))
        h = (t - gn.T0).total_seconds() / 3600
        mon.check(-1e-9 <= h - float(d["Hours Since Model Start"]) < 1 / 60. + 1e-9, "time exported is not that of the model", lambda: "budget: %s hours, in the model %s" % (d["Hours Since Model Start"], h))
        for c, key in col.items():
            if key in mb:
                v = float(mb[key])
                mon.check(d[c].strip() != "" and abs(float(d[c]) - v) <= 1e-7 * abs(v) + 1e-12, "amounts exported are not those in the model", lambda: "budget %s at %s: %s, in the model %s" % (c, t, d[c], v))
            else:
                mon.check(d[c].strip() == "", "amounts exported are not those in the model", lambda: "budget %s at %s: %s, in the model nothing" % (c, t, d[c]))


CMP = dict(geojson=cmp_geojson, spilljson=cmp_spilljson, kmz=cmp_kmz, binary=cmp_binary, shape=cmp_shape, erma=cmp_erma, weathering=cmp_weathering, budget=cmp_budget)


def make(cls, rng, S, kw, folder, mon):
    from gnome.outputters import TrajectoryGeoJsonOutput, WeatheringOutput, KMZOutput, BinaryOutput, SpillJsonOutput, OilBudgetOutput, ShapeOutput, ERMADataPackageOutput
    o = dict(cls=cls)
    j = lambda n: os.path.join(folder, n) if folder else n
    if cls == "geojson":
        o.update(round=bool(rng.random() < .7), round_to=int(rng.choice([4, 2, 6])), dir=j("gj") if rng.random() < .7 else None)
        return o, TrajectoryGeoJsonOutput(round_data=o["round"], round_to=o["round_to"], output_dir=o["dir"], **kw)
    if cls == "spilljson":
        o["extra"] = [str(e) for e in rng.choice(["depth", "age", "windages"], int(rng.integers(0, 4)), replace=False)]
        return o, SpillJsonOutput(_additional_data=o["extra"], include_uncertain_bounds=bool(rng.random() < .3), surface_conc=None, **kw)
    if cls == "kmz":
        o["span"] = kw.get("output_timestep", sec(S["ts"]))
        o["file"] = j(str(rng.choice(["track.kmz", "a & b.kmz", "r<1>.kmz"], p=[.7, .2, .1])))
        return o, KMZOutput(o["file"], **kw)
    if cls == "binary":
        o.update(zip=bool(rng.random() < .5), stem=j("an"), keep={})
        if rng.random() < .5:
            f = j("otherFORCST.000")
            open(f, "w").write("of another run")
            o["keep"][f] = "of another run"
        return o, BinaryOutput(o["stem"], zip_output=o["zip"], **kw)
    if cls == "shape":
        o.update(zip=bool(rng.random() < .6), file=j("shape"), cb=bool(rng.random() < .4), ub=bool(rng.random() < .6), offset=None if rng.random() < .6 else float(rng.choice([-8, 5.5, 0])))
        return o, ShapeOutput(o["file"], zip_output=o["zip"], include_uncertain_boundary=o["ub"], include_certain_boundary=o["cb"], timeoffset=o["offset"], surface_conc="kde" if S["oil"] and rng.random() < .3 else None, **kw)
    if cls == "erma":
        o["file"] = j("pkg.zip")
        return o, ERMADataPackageOutput(o["file"], surface_conc=None, include_uncertain_boundary=bool(rng.random() < .5), **kw)
    if cls == "weathering":
        o["dir"] = j("mb")
        return o, WeatheringOutput(output_dir=o["dir"], **kw)
    if cls == "budget":
        o["file"] = j("budget.csv")
        return o, OilBudgetOutput(o["file"], **{k: v for k, v in kw.items() if k == "output_timestep"})


def case(i, rng, mon):
    back = bool(rng.random() < .15)
    S = gn.random_spec(rng, back=back, weather=False if back else None, nmax=25, nsteps=int(rng.integers(1, 8)), uncertain=bool(rng.random() < .5), land=None if rng.random() < .5 else True)
    if back:
        S["weatherers"] = []
    S["extra"] = 0
    if rng.random() < .35:
        S["map"], S["bounds"] = "bounds", .02
        for sp in S["spills"]:
            sp["c"], sp["s"], sp["d"] = (S["lon0"], S["lat0"]), .004, (.003, -.002)
        vel = .004 * 111000 / S["ts"]
        S["movers"] = [("simple", (vel, vel / 3, 0.), 1e5, None), ("random", (0., 0., 0.), 1e5, None)]
    n = S["n"]
    every = int(rng.choice([1, 1, 2, 3]))
    zero, last = bool(rng.random() < .8), bool(rng.random() < .75)
    kw = dict(output_zero_step=zero, output_last_step=last)
    if every > 1:
        kw["output_timestep"] = sec(every * S["ts"])
    folder = "made" if rng.random() < .5 else ""
    if folder:
        os.makedirs(folder, exist_ok=True)
        mon.event("in_a_folder")
    classes = [str(c) for c in rng.choice(["geojson", "spilljson", "kmz", "binary", "shape", "weathering", "budget", "erma"], int(rng.integers(2, 5)), replace=False, p=[.15, .1, .15, .15, .15, .1, .1, .1])]
    mon.ctx["spec"] = "%s back=%s n=%d every=%d zero=%s last=%s %s" % (gn.brief(S), back, n, every, zero, last, classes)
    model = gn.build(S, cache=True)
    outs = []
    for c in classes:
        o, x = make(c, rng, S, kw, folder, mon)
        outs.append((o, x))
    post = bool(rng.random() < .2)
    if not post:
        for o, x in outs:
            model.outputters += x
    runs = 2 if rng.random() < .35 and not post else 1
    for run in range(runs):
        abort = None
        if run:
            mon.event("rerun")
        elif runs == 2 and rng.random() < .5:
            abort = int(rng.integers(1, n + 1))
        C = Ctx()
        C.S, C.sets, C.recs, C.results = S, [False, True] if S["uncertain"] else [False], {False: [], True: []}, {}
        REC = {"budget": {False: []}}
        model.rewind()
        k = 0
        allrecs = {False: [], True: []}
        while True:
            try:
                r = model.step()
            except StopIteration:
                break
            C.results[k] = r
            for u, a, mb, t in gn.snapshot(model):
                allrecs[u].append((k, t, a, mb))
            k += 1
            if abort is not None and k == abort:
                break
        if abort is not None:
            mon.event("aborted_run")
            continue
        if post:
            C.results = {}
            for o, x in outs:
                if o["cls"] == "spilljson":
                    continue
                x.write_output_post_run(model_start_time=model.start_time, model_time_step=model.time_step, num_time_steps=model.num_time_steps, cache=model._cache, spills=model.spills, uncertain=model.uncertain,
                                        model_name=model.name, map=model.map)
            mon.event("after_the_run")
        else:
            model.post_model_run()
        for o, x in outs:
            if post and o["cls"] == "spilljson":
                continue
            z, l = (True, True) if o["cls"] == "budget" else (zero, last)
            due = lambda k: k == 0 and z or k == n and l or (k > 0 and k % every == 0)
            C.recs = {u: [r for r in allrecs[u] if due(r[0])] for u in C.sets}
            CMP[o["cls"]](o, C, mon)
            mon.event(o["cls"])
            for u in C.sets:
                for r in C.recs[u]:
                    kd = kinds(r[2])
                    mon.state(o["cls"], str({a: b for a, b in o.items() if a in ("zip", "round", "offset")}), u, kd, back, post)
                    mon.event("steps_compared")
                    if kd == "none":
                        mon.event("no_elements")
                    if kd in ("beached", "both"):
                        mon.event("beached")
            if not due(n):
                mon.event("last_step_left_out")
        cnt = [len(r[2]["id"]) for r in allrecs[False]]
        for nm, c in (("uncertain", S["uncertain"]), ("backward", back), ("oil", S["oil"] is not None), ("elements_gone", any(b < a for a, b in zip(cnt, cnt[1:])))):
            if c:
                mon.event(nm)
