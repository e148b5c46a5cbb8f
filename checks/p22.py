"""Which steps are put out."""
PROPERTY = "P22"
KIND = "plain"
N = {"quick": 1600, "thorough": 20000}
BUDGET = {"quick": 90, "thorough": 1800}
RULE = "(outputter, interval class, zero/last/single flags, start time class, direction, during or after the run, rewound)"
NEED = ["geojson", "weathering", "netcdf", "kmz", "binary", "spilljson", "budget", "off", "post_run", "rerun", "backward", "start_between_steps", "start_on_step", "single", "interval_not_multiple",
        "interval_below_step", "every_step", "no_zero", "no_last", "outputs_written", "odd_duration"]
ASSUMES = ["an output start time before the start of the run, and the zero and last step flags before the output start time, are as documented (those two steps are put out regardless)"]

import glob
import os
import zipfile
import numpy as np
import gn
from gn import sec


def due(S, o, k):
    """is step k put out"""
    n, ts = S["n"], S["ts"]
    single_here = o["single"] and (o["start"] is None or o["start"] == 0)
    if k == 0:
        w = o["zero"] or single_here
    else:
        k0 = 0                              # the step from which intervals are counted
        w = None
        if o["start"]:
            k0 = int(np.ceil(o["start"] / ts))
            if k < k0:
                w = False
            elif k == k0:
                w = True
        if w is None:
            if o["single"]:
                w = False
            elif o["every"] is None:
                w = True
            else:
                w = (k - k0) * ts // o["every"] > (k - k0 - 1) * ts // o["every"]
    return w or (k == n and o["last"])


def options(rng, S, cls):
    ts, n = S["ts"], S["n"]
    o = dict(cls=cls, zero=bool(rng.random() < .65), last=bool(rng.random() < .65), single=bool(rng.random() < .2), every=None, start=None, on=bool(rng.random() < .9))
    r = rng.random()
    if r < .35:
        o["every"] = ts * int(rng.integers(1, 5))
    elif r < .6:
        o["every"] = int(rng.integers(max(1, ts // 2), 4 * ts))
    if rng.random() < .4:
        o["start"] = float(rng.choice([0, ts, 2 * ts, ts * 1.5, ts * 2 + 7, ts * n]))
    if cls == "budget":
        o.update(zero=True, last=True, single=False, start=None)
    return o


def make(o, S, tag):
    from gnome.outputters import TrajectoryGeoJsonOutput, WeatheringOutput, NetCDFOutput, KMZOutput, BinaryOutput, SpillJsonOutput, OilBudgetOutput
    sg = -1 if S["back"] else 1
    kw = dict(on=o["on"])
    if o["every"] is not None:
        kw["output_timestep"] = sec(o["every"])
    if o["cls"] != "budget":
        kw.update(output_zero_step=o["zero"], output_last_step=o["last"], output_single_step=o["single"],
                  output_start_time=None if o["start"] is None else gn.T0 + sg * sec(o["start"]))
    c = o["cls"]
    if c == "geojson":
        return TrajectoryGeoJsonOutput(output_dir="gj" + tag, **kw)
    if c == "weathering":
        return WeatheringOutput(output_dir="we" + tag, **kw)
    if c == "netcdf":
        return NetCDFOutput("n%s.nc" % tag, surface_conc=None, **kw)
    if c == "kmz":
        return KMZOutput("k%s.kmz" % tag, **kw)
    if c == "binary":
        return BinaryOutput("b%s" % tag, zip_output=False, **kw)
    if c == "spilljson":
        return SpillJsonOutput(surface_conc=None, **kw)
    if c == "budget":
        return OilBudgetOutput("budget%s.csv" % tag, **kw)


NAME = dict(geojson="TrajectoryGeoJsonOutput", weathering="WeatheringOutput", netcdf="NetCDFOutput", kmz="KMZOutput", binary="BinaryOutput", spilljson="SpillJsonOutput")


def file_times(o, S, tag):
    """times or steps found in what the outputter left behind, None when it leaves no record"""
    c = o["cls"]
    if c == "geojson":
        return ("step", sorted(int(f.split("_")[-1].split(".")[0]) for f in glob.glob("gj%s/geojson_*" % tag)))
    if c == "weathering":
        return ("step", sorted(int(f.split("_")[-1].split(".")[0]) for f in glob.glob("we%s/mass_balance_*.json" % tag)))
    if c == "netcdf":
        if not os.path.exists("n%s.nc" % tag):
            return ("none", [])
        import netCDF4
        with netCDF4.Dataset("n%s.nc" % tag) as d:
            v = d.variables["time"]
            return ("time", [x.strftime("%Y-%m-%dT%H:%M:%S") for x in netCDF4.num2date(v[:], v.units)])
    if c == "kmz":
        if not os.path.exists("k%s.kmz" % tag):
            return ("none", [])
        import re
        with zipfile.ZipFile("k%s.kmz" % tag) as z:
            t = z.read([n for n in z.namelist() if n.endswith(".kml")][0]).decode()
        return ("time", sorted(set(re.findall(r"<begin>(.*?)</begin>", t))))
    if c == "binary":
        return ("count", len(glob.glob("b%sFORCST.*" % tag)))
    if c == "budget":
        if not os.path.exists("budget%s.csv" % tag):
            return ("none", [])
        import csv
        rows = list(csv.reader(open("budget%s.csv" % tag)))
        return ("minute", [r[0] for r in rows[1:]])


def judge(o, S, tag, mon, what, recs=None):
    sg = -1 if S["back"] else 1
    exp = [k for k in range(S["n"] + 1) if due(S, o, k)] if o["on"] else []
    times = [gn.T0 + sg * sec(k * S["ts"]) for k in exp]
    mon.event("outputs_written", len(exp))
    if recs is not None:
        mon.check(recs == exp, "steps put out are not those asked for", lambda: "%s %s: %s, expected %s; %s" % (what, o["cls"], recs, exp, o))
    kind, got = file_times(o, S, tag) or ("unrecorded", None)
    if kind == "none":
        mon.check(not o["on"] or not exp or o["cls"] == "netcdf" and not exp, "no file written", lambda: "%s %s" % (what, o))
    elif kind == "step":
        mon.check(got == exp, "files are not those of the steps asked for", lambda: "%s %s: %s, expected %s; %s" % (what, o["cls"], got, exp, o))
    elif kind == "time":
        e = [t.isoformat() for t in times]
        mon.check(sorted(got) == sorted(e), "times in the file are not those of the steps asked for", lambda: "%s %s: %s, expected %s; %s" % (what, o["cls"], got, e, o))
    elif kind == "minute":
        e = [t.strftime("%Y-%m-%d %H:%M") for t in times]
        mon.check(got == e, "times in the file are not those of the steps asked for", lambda: "%s %s: %s, expected %s; %s" % (what, o["cls"], got, e, o))
    elif kind == "count":
        mon.check(got == len(exp), "number of files is not that of the steps asked for", lambda: "%s %s: %s, expected %s; %s" % (what, o["cls"], got, len(exp), o))
    for nm, c in (("off", not o["on"]), ("start_between_steps", bool(o["start"]) and o["start"] % S["ts"] != 0), ("start_on_step", bool(o["start"]) and o["start"] % S["ts"] == 0), ("single", o["single"]),
                  ("interval_not_multiple", o["every"] is not None and o["every"] % S["ts"] != 0 and o["every"] > S["ts"]), ("interval_below_step", o["every"] is not None and o["every"] < S["ts"]),
                  ("every_step", o["every"] is None and not o["single"]), ("no_zero", not o["zero"]), ("no_last", not o["last"])):
        if c:
            mon.event(nm)
    ev = "none" if o["every"] is None else "sub" if o["every"] < S["ts"] else "mult" if o["every"] % S["ts"] == 0 else "frac"
    st = "none" if o["start"] is None else "zero" if o["start"] == 0 else "on" if o["start"] % S["ts"] == 0 else "off"
    mon.state(o["cls"], ev, o["zero"], o["last"], o["single"], st, S["back"], what, o["on"])
    mon.event(o["cls"])


def case(i, rng, mon):
    back = bool(rng.random() < .3)
    S = gn.random_spec(rng, back=back, oil=False, land=False, movers=["simple"], nmax=5, nsteps=int(rng.integers(1, 10)), nspills=1, kinds=["point"], uncertain=bool(rng.random() < .2))
    S["extra"] = 0
    S["spills"][0]["start"] = 0
    S["ts"] = int(rng.choice([60, 900, 3600, 40000, 100000])) if rng.random() < .5 else S["ts"]
    S["extra"] = int(rng.choice([0, 0, 1, S["ts"] // 2, S["ts"] - 1]))      # duration that is not a multiple of the step
    if S["extra"]:
        mon.event("odd_duration")
    classes = [str(c) for c in rng.choice(["geojson", "weathering", "netcdf", "kmz", "binary", "spilljson", "budget"], int(rng.integers(1, 4)), replace=False)]
    O = [options(rng, S, c) for c in classes]
    post = bool(rng.random() < .25)
    S["movers"] = []
    mon.ctx["spec"] = "ts=%d n=%d back=%s u=%s %s" % (S["ts"], S["n"], back, S["uncertain"], O)
    model = gn.build(S, cache=post)
    if post:
        if any(o["cls"] == "netcdf" for o in O):
            pass
        model.full_run()
        for j, o in enumerate(O):
            o["on"] = True
            if o["cls"] in ("binary", "budget"):
                continue
            out = make(o, S, str(j))
            out.write_output_post_run(model_start_time=model.start_time, model_time_step=model.time_step, num_time_steps=model.num_time_steps,
                                      cache=model._cache, spills=model.spills, uncertain=model.uncertain)
            judge(o, S, str(j), mon, "after the run")
            mon.event("post_run")
        return
    outs = [make(o, S, str(j)) for j, o in enumerate(O)]
    for x in outs:
        model.outputters += x
    for run in range(2 if rng.random() < .35 else 1):
        R = []
        if run:
            if any(o["cls"] == "binary" and o["on"] for o in O):
                break
            mon.event("rerun")
            if rng.random() < .5:         # an aborted run in between
                model.rewind()
                for _ in range(int(rng.integers(1, S["n"] + 2))):
                    model.step()
        model.rewind()
        while True:
            try:
                R.append(model.step())
            except StopIteration:
                break
        model.post_model_run()
        for j, o in enumerate(O):
            rec = None
            if o["cls"] in NAME:
                rec = [r["step_num"] for r in R if NAME[o["cls"]] in r]
            judge(o, S, str(j), mon, "run %d" % (run + 1), rec)
    if back:
        mon.event("backward")
