"""The NetCDF file is a faithful record of the run."""
PROPERTY = "P21"
KIND = "plain"
N = {"quick": 220, "thorough": 4000}
BUDGET = {"quick": 80, "thorough": 1800}
RULE = "(arrays asked for, sets, direction, chunk and compression class, zipped, kind of elements at the step: none, some, fewer than before, more)"
NEED = ["steps_compared", "uncertain_files", "elements_gone_from_one_set", "empty_steps", "backward", "standard", "most", "all", "custom", "zipped", "rerun", "other_file_replaced", "read_by_index", "read_by_time",
        "read_from_the_end", "between_times", "oil", "mass_balances_compared", "small_chunks", "uncompressed", "sparse_output", "single_step_file"]
ASSUMES = ["the surface concentration, which is worked out for the output only, is claimed to be there and not negative; its values are not claimed"]

import os
import zipfile
import numpy as np
import gn
from gn import sec
from vlib import blame, where

SPECIAL = ("latitude", "longitude", "depth")
META = ("time", "particle_count")


def expected(o, names):
    """arrays that belong in the file"""
    std = {"latitude", "longitude", "depth"} | ({"status_codes", "spill_num", "id", "mass", "age", "density", "viscosity", "frac_water", "surface_concentration"} & names)
    if o["which"] == "standard":
        return std | (set(o["add"]) & names)
    if o["which"] == "all":
        return std | (names - {"positions"})
    skip = {"next_positions", "last_water_positions", "windages", "mass_components", "half_lives", "init_mass", "interfacial_area", "fay_area", "bulk_init_volume", "frac_coverage", "bulltime",
            "partition_coeff", "evap_decay_constant", "yield_factor"}
    return (std | (names - {"positions"})) - skip


def truth(a, k):
    if k in SPECIAL:
        return a["positions"][:, ("longitude", "latitude", "depth").index(k)]
    v = a[k]
    return v.astype("u1") if v.dtype == bool else v


def same(got, want):
    got = np.ma.getdata(got)
    return got.shape == want.shape and bool(np.all((got == want) | ((got != got) & (want != want))))


def no_mask(x):
    return not np.ma.is_masked(x)


def compare_file(path, recs, o, S, mon, what):
    """recs: [(time, arrays, mass balance)] of the steps put out"""
    import netCDF4
    from gnome.outputters import NetCDFOutput
    if not mon.check(os.path.exists(path), "no file written", lambda: "%s: %s" % (what, path)):
        return
    names = set(recs[0][1]) if recs else set()
    exp = expected(o, names)
    with netCDF4.Dataset(path) as d:
        V = d.variables
        tv = V["time"]
        n = len(recs)
        times = [x.isoformat()[:19] for x in netCDF4.num2date(tv[:], tv.units, tv.calendar)]
        if not mon.check(times == [r[0].isoformat()[:19] for r in recs], "times in the file are not those of the steps put out", lambda: "%s: %s, expected %s" % (what, times, [str(r[0]) for r in recs])):
            return
        cnt = [int(x) for x in V["particle_count"][:]]
        if not mon.check(cnt == [len(r[1]["id"]) for r in recs], "number of elements is not that in the model", lambda: "%s: %s, expected %s" % (what, cnt, [len(r[1]["id"]) for r in recs])):
            return
        if recs:
            got = set(V) - set(META)
            mon.check(got == exp, "arrays in the file are not those asked for", lambda: "%s (%s): missing %s, not asked for %s" % (what, o["which"], sorted(exp - got), sorted(got - exp)))
        off = np.concatenate([[0], np.cumsum(cnt)]).astype(int)
        mon.check(len(d.dimensions["data"]) == off[-1], "file holds more or fewer elements than were put out", lambda: "%s: %d, expected %d" % (what, len(d.dimensions["data"]), off[-1]))
        for j, (t, a, mb) in enumerate(recs):
            for k in exp & set(V):
                x = V[k][off[j]:off[j + 1]]
                w = truth(a, k)
                if k == "surface_concentration" and o["kde"]:       # worked out for the output
                    mon.check(no_mask(x) and x.shape == w.shape and bool(np.all(np.ma.getdata(x) >= 0)), "surface concentration in the file is missing or below zero", lambda: "%s: %s" % (what, x[:4]))
                    continue
                mon.check(no_mask(x) and same(x, w), "values in the file are not those in the model", lambda: "%s: step at %s, %s: %s, in the model %s" % (what, t, k, x[:4], w[:4]))
            if mb:
                g = d.groups.get("mass_balance")
                if mon.check(g is not None, "no mass balance in the file", what):
                    for k, v in mb.items():
                        x = g.variables[k][j] if k in g.variables and len(g.variables[k]) > j else np.ma.masked
                        mon.check(x is not np.ma.masked and (float(x) == float(v) or float(v) != float(v)), "mass balance in the file is not that of the model", lambda: "%s: step at %s, %s: %s, in the model %s" % (what, t, k, x, v))
                    mon.event("mass_balances_compared")
            mon.event("steps_compared")
            c = cnt[j]
            kind = "none" if c == 0 else "first" if j == 0 else "fewer" if c < cnt[j - 1] else "more" if c > cnt[j - 1] else "same"
            mon.state(o["which"], S["uncertain"], S["back"], o["chunk"], o["compress"], o["zip"], kind, what)
            if c == 0:
                mon.event("empty_steps")
        spillmap = getattr(V["spill_num"], "spills_map", None) if "spill_num" in V else ""
        mon.check(spillmap is not None and ("spill_num" not in V or all("%d: %s," % (j, nm) in spillmap for j, nm in enumerate(o["names"]))), "the spills are not named in the file", lambda: "%s: %r, %s" % (what, spillmap, o["names"]))
    # what the library reads back
    if not recs:
        return
    n = len(recs)
    asked = o["read"]
    for j, how, kw in o["reads"](n, recs):
        arrs, wd = NetCDFOutput.read_data(path, which_data=asked, **kw)
        t, a, mb = recs[j]
        ts = arrs["current_time_stamp"].item() if hasattr(arrs["current_time_stamp"], "item") else arrs["current_time_stamp"]
        mon.check(ts.isoformat()[:19] == t.isoformat()[:19], "step read back is not the one asked for", lambda: "%s: %s (%s): %s, expected %s" % (what, how, kw, ts, t))
        if ts.isoformat()[:19] != t.isoformat()[:19]:
            continue
        if isinstance(asked, str):
            want = (exp - set(SPECIAL)) | {"positions"}
            if asked == "standard":
                want &= {"positions", "status_codes", "spill_num", "id", "mass", "age", "density", "viscosity", "frac_water", "surface_concentration"}
            if asked == "most":
                want = expected(dict(which="most"), want)
                want = (want - set(SPECIAL)) | {"positions"}
        else:
            want = set(asked)
        mon.check(set(arrs) - {"current_time_stamp"} == want, "arrays read back are not those asked for", lambda: "%s: %s: %s, expected %s" % (what, asked, sorted(set(arrs)), sorted(want)))
        for k in want & set(arrs):
            w = a["positions"] if k == "positions" else truth(a, k)
            if k == "surface_concentration" and o["kde"]:
                continue
            mon.check(same(arrs[k], w), "values read back are not those in the model", lambda: "%s: %s, %s: %s, in the model %s" % (what, kw, k, arrs[k][:4], w[:4]))
        for k, v in mb.items():
            mon.check(k in wd and (float(wd[k]) == float(v) or float(v) != float(v)), "mass balance read back is not that of the model", lambda: "%s: %s, %s: %s, in the model %s" % (what, kw, k, wd.get(k), v))
        mon.event(how)


def reads(rng, S):
    sg = -1 if S["back"] else 1

    def f(n, recs):
        out = []
        if n == 1:
            out.append((0, "single_step_file", dict()))
        for j in rng.permutation(n)[:4]:
            j = int(j)
            out.append((j, "read_by_index", dict(index=j)))
            out.append((j, "read_by_time", dict(time=recs[j][0])))
            out.append((j, "read_from_the_end", dict(index=j - n)))
            if n > 1:
                gap = abs((recs[1][0] - recs[0][0]).total_seconds())
                gap = min(abs((recs[q + 1][0] - recs[q][0]).total_seconds()) for q in range(n - 1))
                out.append((j, "between_times", dict(time=recs[j][0] + sec(float(rng.uniform(-.45, .45)) * gap))))
        far = sec(86400 * 9)
        out.append((n - 1, "read_by_time", dict(time=recs[-1][0] + sg * far)))
        out.append((0, "read_by_time", dict(time=recs[0][0] - sg * far)))
        return out
    return f


def run(model, due):
    """steps the model; what it holds after each step that is put out"""
    R = {False: [], True: []}
    model.rewind()
    k = 0
    while True:
        try:
            model.step()
        except StopIteration:
            break
        if due(k):
            for u, a, mb, t in gn.snapshot(model):
                R[u].append((t, a, mb))
        k += 1
    model.post_model_run()
    return R


def case(i, rng, mon):
    from gnome.outputters import NetCDFOutput
    back = bool(rng.random() < .2)
    S = gn.random_spec(rng, back=back, weather=False if back else None, nmax=30, nsteps=int(rng.integers(1, 9)), uncertain=bool(rng.random() < .55))
    if back:
        S["weatherers"] = []
    S["extra"] = 0
    if rng.random() < .5:                       # elements leave the map, not the same ones in the two sets
        S["map"], S["bounds"] = "bounds", .02
        for sp in S["spills"]:
            sp["c"], sp["s"] = (S["lon0"], S["lat0"]), .004
            sp["d"] = (.003, -.002)
        vel = .004 * 111000 / S["ts"]
        S["movers"] = [("simple", (vel, vel / 3, 0.), 1e5, None), ("random", (0., 0., 0.), 1e5, None)]
    custom = bool(rng.random() < .25)
    o = dict(which=str(rng.choice(["standard", "standard", "most", "all"])), add=[], chunk=str(rng.choice(["default", "one", "few"])), compress=bool(rng.random() < .7), zip=bool(rng.random() < .15), read="standard")
    if custom and o["which"] == "standard":
        o["add"] = ["windages", "init_mass", "last_water_positions", "no_such_array", "fate_status"][:int(rng.integers(1, 6))]
    o["read"] = [["id", "mass"], "standard", "all", "most"][int(rng.integers(4))]
    o["kde"] = bool(S["oil"] is not None and rng.random() < .4)
    o["reads"] = reads(rng, S)
    every = int(rng.choice([1, 1, 1, 2, 3]))
    zero, last = bool(rng.random() < .8), bool(rng.random() < .8)
    n = S["n"]

    def due(k):
        return k == 0 and zero or k == n and last or (k > 0 and k % every == 0)
    mon.ctx["spec"] = "%s back=%s n=%d every=%d %s" % (gn.brief(S), back, n, every, {k: v for k, v in o.items() if k != "reads"})
    model = gn.build(S)
    for j, sp in enumerate(model.spills):
        sp.name = "slick %d of %s" % (j, rng.choice(["A", "the barge", "x"]))
    if len(model.spills) > 1 and rng.random() < .3:
        model.spills[int(rng.integers(len(model.spills)))].on = False
        mon.event("spill_off")
    o["names"] = [sp.name for sp in model.spills]
    fn = "out.nc"
    if rng.random() < .3:
        for f in ("out.nc", "out_uncertain.nc"):
            open(f, "w").write("left by something else")
        mon.event("other_file_replaced")
    kw = dict(output_zero_step=zero, output_last_step=last)
    if every > 1:
        kw["output_timestep"] = sec(every * S["ts"])
    out = NetCDFOutput(fn, which_data=o["which"], compress=o["compress"], zip_output=o["zip"], surface_conc="kde" if o["kde"] else None, **kw)
    if o["chunk"] != "default":
        out.chunksize = 1 if o["chunk"] == "one" else 7
        mon.event("small_chunks")
    for a in o["add"]:
        out.arrays_to_output.add(a)
    model.outputters += out
    for again in range(2 if rng.random() < .3 else 1):
        if again:
            mon.event("rerun")
            if rng.random() < .5:
                model.rewind()
                model.step()
            if rng.random() < .4 and not out.zip_output:
                o["which"] = str(rng.choice(["standard", "most", "all"]))
                model.rewind()
                out.which_data = o["which"]
        gn.seed_model(5)
        R = run(model, due)
        what = "run %d" % (again + 1)
        if o["zip"]:
            if mon.check(os.path.exists("out.zip"), "no file written", what):
                with zipfile.ZipFile("out.zip") as z:
                    z.extractall("unzipped")
                p = "unzipped/"
                mon.check(sorted(os.listdir("unzipped")) == (["out.nc", "out_uncertain.nc"] if S["uncertain"] else ["out.nc"]), "archive does not hold the files of the run", lambda: what + str(os.listdir("unzipped")))
            else:
                return
            mon.event("zipped")
        else:
            p = ""
        compare_file(p + "out.nc", R[False], o, S, mon, "forecast")
        if S["uncertain"]:
            compare_file(p + "out_uncertain.nc", R[True], o, S, mon, "uncertainty")
            mon.event("uncertain_files")
            if [len(r[1]["id"]) for r in R[False]] != [len(r[1]["id"]) for r in R[True]]:
                mon.event("elements_gone_from_one_set")
        else:
            mon.check(not os.path.exists("out_uncertain.nc"), "an uncertainty file is there for a run without uncertainty", what)
        mon.event(o["which"])
        if o["add"]:
            mon.event("custom")
        for nm, c in (("backward", back), ("oil", S["oil"] is not None), ("uncompressed", not o["compress"]), ("sparse_output", every > 1)):
            if c:
                mon.event(nm)
