"""P11: point time series return the right value at any time."""
PROPERTY = "P11"
KIND = "plain"
N = {"quick": 480, "thorough": 16000}
BUDGET = {"quick": 200, "thorough": 1200}
RULE = "object kind, number of records (1, 2, few, many), where the query lies (record, first, last, between, before, after), extrapolation, entered and asked coordinate convention and whether units differ"
NEED = ["wind_between", "wind_record", "wind_before_refused", "wind_after_refused", "wind_before_end_value", "wind_after_end_value", "wind_constant",
        "entered_uv", "asked_uv", "units_differ", "read_back", "caller_array_unchanged", "at_points", "tide_file", "timeseries_data", "running_average", "running_average_nodes", "running_average_long", "zone_shift", "replaced_record",
        "unit_refused", "not_ascending_refused", "shio_order", "tide_clock", "tide_summer", "tide_clock_change", "tide_peak", "tide_slack", "tide_turn"]
ASSUMES = ["two velocity components closer than 1e-5 are taken as equal by the interpolation of the package (its own constant)",
           "values inside scalar TimeseriesData records use the stand-in for gridded's time axis (see DESIGN.md)"]

import datetime as dt
import math
import os
import numpy as np
import gn
from gn import T0, sec
from gnome.basic_types import datetime_value_2d, ts_format
from gnome.environment import Wind
from gnome.utilities.timeseries import Timeseries, TimeseriesError

# metres per second in one unit, from the definitions of the units
UNITS = {"m/s": 1.0, "knots": 1852. / 3600, "knot": 1852. / 3600, "mph": 1609.344 / 3600, "km/hr": 1 / 3.6, "cm/s": .01,
         "meter per second": 1.0, "meters per second": 1.0, "miles per hour": 1609.344 / 3600, "ft/s": .3048}
TOL = 3e-5
UTOL = 3e-6      # relative; the unit library gives its factors to six digits or so


def to_uv(r, th):
    return (-r * math.sin(math.radians(th)), -r * math.cos(math.radians(th)))


def record(rng):
    n = int(rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 7, 9, 17, 40]))
    gaps = rng.choice([2, 60, 600, 3600, 3600, 10801, 86400], n)
    t0 = T0 + sec(int(rng.integers(-200, 200)) * 43200 + int(rng.choice([0, 1, 1799, 86399])))
    times = [t0]
    for g in gaps[1:]:
        times.append(times[-1] + sec(int(g)))
    vals = [(float(rng.choice([rng.uniform(0, 30), 0., 5., rng.uniform(0, .3)])), float(rng.choice([rng.uniform(0, 360), 0, 90, 180, 270, 360, 359.9]))) for _ in range(n)]
    if rng.random() < .15:
        vals = [vals[0]] * n
    return times, vals


def interp(times, uv, t, extrap):
    """None when the record has no value at t"""
    if len(times) == 1:
        return uv[0]
    if t < times[0]:
        return uv[0] if extrap else None
    if t > times[-1]:
        return uv[-1] if extrap else None
    for k in range(len(times) - 1):
        a, b = times[k], times[k + 1]
        if a <= t <= b:
            f = (t - a).total_seconds() / (b - a).total_seconds()
            return (uv[k][0] * (1 - f) + uv[k + 1][0] * f, uv[k][1] * (1 - f) + uv[k + 1][1] * f)


def queries(rng, times, m=8):
    out = [times[0], times[-1], times[0] - sec(1), times[-1] + sec(1), times[0] - sec(86400 * 3), times[-1] + sec(90000)]
    for _ in range(m):
        k = int(rng.integers(len(times)))
        out.append(times[k])
        if k + 1 < len(times):
            g = (times[k + 1] - times[k]).total_seconds()
            out.append(times[k] + sec(int(rng.integers(0, g + 1))))
            out.append(times[k] + sec(1))
            out.append(times[k + 1] - sec(1))
    rng.shuffle(out)
    return out


def where(times, t):
    if len(times) == 1:
        return "constant"
    return "before" if t < times[0] else "after" if t > times[-1] else "record" if t in times else "between"


def rclass(n):
    return n if n < 3 else "few" if n < 6 else "many"


def vec(val, cs):
    return to_uv(val[0], val[1]) if cs == "r-theta" else (val[0], val[1])


def close2(mon, got, want, mech, scale, what):
    d = max(abs(got[0] - want[0]), abs(got[1] - want[1]))
    return mon.check(bool(d <= TOL + UTOL * scale), mech, lambda: "%s: got %s, expected %s" % (what, tuple(map(float, got)), want))


def make_array(times, vals):
    a = np.zeros(len(times), dtype=datetime_value_2d)
    a["time"] = times
    a["value"] = vals
    return a


def wind_case(rng, mon):
    times, rt = record(rng)
    unit = str(rng.choice(list(UNITS)))
    cs = str(rng.choice(["r-theta", "r-theta", "uv"]))
    given = rt if cs == "r-theta" else [to_uv(*v) for v in rt]
    f = UNITS[unit]
    uv = [(a * f, b * f) for a, b in (to_uv(*v) for v in rt)]
    arr = make_array(times, given)
    keep = arr.copy()
    extrap = bool(rng.random() < .5)
    mon.ctx["wind"] = "%d records %s, %s %s extrap=%s" % (len(times), times[0], unit, cs, extrap)
    how = str(rng.choice(["init", "set_wind_data", "replace", "list", "setter"]))
    if how == "setter" and cs == "uv":
        how = "init"
    if how == "init":
        w = Wind(timeseries=arr, units=unit, coord_sys=cs, extrapolation_is_allowed=extrap)
    elif how == "list":
        lst = [(t, v) for t, v in zip(times, given)]
        w = Wind(timeseries=lst, units=unit, coord_sys=cs, extrapolation_is_allowed=extrap)
    else:
        ot, ov = record(rng)
        w = Wind(timeseries=make_array(ot, ov), units="knots", extrapolation_is_allowed=extrap)
        if how == "setter":
            w.units = unit
            w.timeseries = arr
        else:
            w.set_wind_data(arr, unit, coord_sys=cs)
        mon.event("replaced_record")
    mon.check(bool(np.all(arr == keep)), "the array given by the caller was changed", lambda: "%s became %s" % (keep[:3], arr[:3]))
    mon.event("caller_array_unchanged")
    if cs == "uv":
        mon.event("entered_uv")
    top = max(max(abs(a), abs(b)) for a, b in uv)
    # read back in the entered convention and unit, in any other unit, and by the property
    for u2, c2 in [(None, "r-theta"), (None, "uv"), (str(rng.choice(list(UNITS))), "uv"), (str(rng.choice(list(UNITS))), "r-theta")]:
        back = w.get_wind_data(units=u2, coord_sys=c2)
        g = UNITS[u2] if u2 else f
        mon.check(len(back) == len(times) and [t.astype("datetime64[s]").item() for t in back["time"]] == times, "times read back differ", lambda: str(back["time"][:4]))
        for k in range(min(len(times), len(back))):
            got = vec(back["value"][k], c2)
            close2(mon, (got[0] * g, got[1] * g), uv[k], "values read back differ", top, "record %d in %s %s" % (k, u2, c2))
    prop = w.timeseries
    mon.check(len(prop) == len(times), "timeseries property has another length", "")
    for k in range(min(len(times), len(prop))):
        got = vec(prop["value"][k], "r-theta")
        close2(mon, (got[0] * f, got[1] * f), uv[k], "timeseries property differs from what was put in", top, "record %d" % k)
    mon.event("read_back")
    mon.check(w.data_start == times[0] and w.data_stop == times[-1], "data range differs", lambda: "%s %s" % (w.data_start, w.data_stop))
    mon.equal(len(w), len(times), "length differs")
    one(rng, mon, w, times, uv, top, extrap, unit, cs)
    if rng.random() < .3:
        from gnome.utilities.time_utils import TZOffset
        a, b = (float(x) for x in rng.choice([-8, -3.5, 0, 2, 5.75, 12], 2))
        w.timezone_offset = TZOffset(a, "a")
        first = [t.astype("datetime64[s]").item() for t in w.get_wind_data()["time"]]
        mon.equal(first, times, "naming a zone moved the record")
        w.timezone_offset = TZOffset(b, "b")
        t2 = [t + sec(int((b - a) * 3600)) for t in times]
        got = [t.astype("datetime64[s]").item() for t in w.get_wind_data()["time"]]
        mon.equal(got, t2, "change of zone moved the record by something else than the difference of the offsets")
        mon.event("zone_shift")
        one(rng, mon, w, t2, uv, top, extrap, unit, cs, m=2)


def one(rng, mon, w, times, uv, top, extrap, unit, cs, m=8):
    for t in queries(rng, times, m):
        at = where(times, t)
        ex = extrap
        u2 = str(rng.choice(list(UNITS)))
        c2 = str(rng.choice(["uv", "r-theta"]))
        api = str(rng.choice(["get_wind_data", "get_value", "at", "at_scalar", "list", "at_override"]))
        if api == "at_override":
            ex = bool(rng.random() < .5)
        want = interp(times, uv, t, ex)
        got, err = None, None
        pts = np.c_[rng.uniform(-170, 170, 3), rng.uniform(-80, 80, 3), np.zeros(3)]
        try:
            if api == "get_wind_data":
                v = w.get_wind_data(t, units=u2, coord_sys=c2)
                mon.check(v["time"][0].astype("datetime64[s]").item() == t, "answer carries another time", str(v))
                got = tuple(x * UNITS[u2] for x in vec(v["value"][0], c2))
            elif api == "list":
                v = w.get_wind_data([t, times[0]], units=u2, coord_sys=c2)
                got = tuple(x * UNITS[u2] for x in vec(v["value"][0], c2))
                g0 = tuple(x * UNITS[u2] for x in vec(v["value"][1], c2))
                close2(mon, g0, uv[0], "value in a list of times differs", top, "first record")
            elif api == "get_value":
                got = vec(w.get_value(t), "r-theta")
            else:
                kw = dict(extrapolate=ex) if api == "at_override" else {}
                if api == "at_scalar":
                    u_, v_ = w.at(pts, t, coord_sys="u"), w.at(pts, t, coord_sys="v")
                    r_, th = w.at(pts, t, coord_sys="r"), w.at(pts, t, coord_sys="theta")
                    v = np.c_[np.ravel(u_), np.ravel(v_)]
                    p = np.c_[np.ravel(r_), np.ravel(th)]
                    for k in range(3):
                        close2(mon, vec(p[k], "r-theta"), v[k], "speed and direction disagree with the components", top, "at %s" % t)
                    # a direction is only defined for a wind that blows
                else:
                    v = w.at(pts, t, coord_sys="uv", **kw)
                mon.check(v.shape[0] == 3 and v.shape[1] >= 2 and bool(np.all(v == v[0])), "wind differs between places", lambda: str(v))
                got = v[0]
                mon.event("at_points")
        except (IndexError, ValueError, RuntimeError) as e:
            if want is not None:
                raise
            err = e
        mon.check(w.extrapolation_is_allowed == extrap, "a query changed whether extrapolation is allowed", api)
        kind = "wind_" + at
        if want is None:
            mon.check(err is not None, "time outside the record gave a value", lambda: "%s for %s..%s: %s (%s)" % (t, times[0], times[-1], got, api))
            mon.event(kind + "_refused")
        else:
            close2(mon, got, want, "value at a time differs", top, "%s at %s (%s, %s)" % (api, t, at, unit))
            mon.event(kind + ("_end_value" if at in ("before", "after") else ""))
        if c2 == "uv":
            mon.event("asked_uv")
        if u2 != unit:
            mon.event("units_differ")
        mon.state("wind", rclass(len(times)), at, ex, cs, c2, u2 != unit)


def base_case(rng, mon):
    times, rt = record(rng)
    uv = [to_uv(*v) for v in rt]
    extrap = bool(rng.random() < .5)
    cs = str(rng.choice(["uv", "r-theta"]))
    arr = make_array(times, uv if cs == "uv" else rt)
    keep = arr.copy()
    ts = Timeseries(arr, coord_sys=cs, extrapolation_is_allowed=extrap)
    if rng.random() < .4:
        t2, r2 = record(rng)
        ts = Timeseries(make_array(t2, r2), coord_sys="r-theta", extrapolation_is_allowed=extrap)
        ts.set_timeseries(arr, cs)
    mon.check(bool(np.all(arr == keep)), "the array given by the caller was changed", "Timeseries")
    top = max(max(abs(a), abs(b)) for a, b in uv)
    for c2 in ("uv", "r-theta"):
        back = ts.get_timeseries(coord_sys=c2)
        for k in range(len(times)):
            close2(mon, vec(back["value"][k], c2), uv[k], "values read back differ", top, "record %d" % k)
    for t in queries(rng, times):
        want = interp(times, uv, t, extrap)
        c2 = str(rng.choice(["uv", "r-theta"]))
        try:
            got = vec(ts.get_timeseries(t, c2)["value"][0], c2)
        except (IndexError, ValueError, RuntimeError):
            if want is not None:
                raise
            got = None
        if want is None:
            mon.check(got is None, "time outside the record gave a value", lambda: "%s: %s" % (t, got))
        else:
            close2(mon, got, want, "value at a time differs", top, "Timeseries at %s" % t)
        mon.state("timeseries", rclass(len(times)), where(times, t), extrap, cs, c2)
    # what may not be entered
    if len(times) > 1:
        bad = arr.copy()
        j = int(rng.integers(1, len(times)))
        bad["time"][j] = bad["time"][j - 1] - np.timedelta64(int(rng.choice([0, 1, 7200])), "s")
        for f in (lambda: Timeseries(bad, coord_sys=cs), lambda: Wind(timeseries=bad, units="m/s", coord_sys=cs)):
            try:
                f()
                mon.check(False, "record that is not in order of time was accepted", str(bad["time"][:4]))
            except TimeseriesError:
                mon.check(True, "")
                mon.event("not_ascending_refused")
    try:
        Wind(timeseries=arr, units=str(rng.choice(["m", "kg", "parsec", "feet", ""])), coord_sys=cs)
        mon.check(False, "unit that is not a speed was accepted", "")
    except Exception:
        mon.check(True, "")
        mon.event("unit_refused")


def tide_case(rng, mon):
    from gnome.environment import Tide
    times, rt = record(rng)
    times = [t.replace(second=0) for t in times]
    times = sorted(set(times))
    n = len(times)
    vals = [(float(np.round(rng.uniform(-3, 3), 3)), 0.) for _ in range(n)]
    unit, f = [("knots", 1852. / 3600), ("meters per second", 1.), ("miles per hour", 1609.344 / 3600)][int(rng.integers(3))]
    with open("t.ossm", "w") as fd:
        fd.write("Some Station\n-75.26,39.14\n%s\n" % unit)
        for t, v in zip(times, vals):
            fd.write("%d,%d,%d,%d,%d,%.3f,%.3f\n" % (t.day, t.month, t.year, t.hour, t.minute, v[0], v[1]))
    s = float(rng.choice([1., 2.5]))
    td = Tide("t.ossm", scale_factor=s)
    uv = [(a * f, 0.) for a, b in vals]
    mon.check(td.data_start == times[0] and td.data_stop == times[-1], "data range of a tide file differs", lambda: "%s %s, file %s %s" % (td.data_start, td.data_stop, times[0], times[-1]))
    mon.close(td.scale_factor, s, "scale factor differs")
    from gnome.utilities.time_utils import date_to_sec
    for t in queries(rng, times, 4):
        want = interp(times, uv, t, False)
        try:
            v, err = td.cy_obj.get_time_value(date_to_sec(t))
            got = (float(v["u"][0]), float(v["v"][0]))
        except IndexError:
            if want is not None:
                raise
            got = None
        if want is None:
            mon.check(got is None, "time outside the record gave a value", lambda: "tide %s: %s" % (t, got))
        else:
            close2(mon, got, want, "value at a time differs", 3e3, "tide at %s" % t)
        mon.state("tide", rclass(n), where(times, t))
    mon.event("tide_file")


def data_case(rng, mon):
    from gnome.environment.timeseries_objects_base import TimeseriesData, TimeseriesVector
    times, _ = record(rng)
    n = len(times)
    # a scalar: temperature, in kelvin or celsius
    d = [float(x) for x in rng.uniform(-5, 35, n)]
    e = [float(x) for x in rng.uniform(-5, 35, n)]
    u = "C"
    ex = bool(rng.random() < .5)
    ts = TimeseriesData(data=np.array(d), time=list(times), units=u, extrapolate=ex, name="x")
    tv = TimeseriesVector(variables=[TimeseriesData(data=np.array(x), time=ts.time, units="m/s", extrapolate=ex) for x in (d, e)], time=ts.time)
    pts = np.array([[0., 0., 0.], [10., 20., 0.]])
    for t in queries(rng, times, 5):
        want = interp(times, list(zip(d, e)), t, ex)
        got = err = None
        try:
            got = np.ravel(ts.at(pts, t))
            k = np.ravel(ts.at(pts, t, units="K"))
            v = np.asarray(tv.at(pts, t))
        except (ValueError, IndexError) as e_:
            if want is not None:
                raise
        if want is None:
            mon.check(got is None, "time outside the record gave a value", lambda: "%s: %s" % (t, got))
        else:
            mon.check(bool(np.all(np.abs(got - want[0]) < 1e-6)), "value at a time differs", lambda: "scalar at %s: %s expected %s" % (t, got, want[0]))
            mon.check(bool(np.all(np.abs(k - want[0] - 273.15) < 1e-6)), "value at a time differs in another unit", lambda: "%s vs %s" % (k, want[0]))
            mon.check(v.shape[0] == 2 and bool(np.all(np.abs(v[:, 0] - want[0]) < 1e-6) and np.all(np.abs(v[:, 1] - want[1]) < 1e-6)), "vector value at a time differs", lambda: "%s vs %s" % (v, want))
        mon.state("data", rclass(n), where(times, t), ex)
    mon.event("timeseries_data")


def average_case(rng, mon):
    from gnome.environment import RunningAverage
    times, rt = record(rng)
    while len(times) == 1 and rng.random() < .7:
        times, rt = record(rng)
    const = rng.random() < .25
    if const:
        s = rt[0][0]
        rt = [(s, d) for _, d in rt]
    uv = [to_uv(*v) for v in rt]
    w = Wind(timeseries=make_array(times, rt), units="m/s", extrapolation_is_allowed=True)
    hours = int(rng.choice([1, 2, 3, 6, 11]))
    r = RunningAverage(w, past_hours_to_average=hours)
    sp = [v[0] for v in rt]
    hi = max(sp)
    mon.ctx.update(times=[str(t) for t in times], speeds=sp, hours=hours)

    def average(t):
        """the mean over the past hours, by hourly trapezoids; before the record its first value"""
        v = [math.hypot(*interp(times, uv, t - sec(3600 * j), True)) for j in range(hours + 1)]
        return sum((a + b) / 2 for a, b in zip(v, v[1:])) / hours

    def judge(when, known):
        ser = r.timeseries
        for t, v in zip(ser["time"], ser["value"]):
            mon.check(-1e-4 <= v[0] <= hi + 1e-4 and abs(v[1]) < 1e-6, "running average outside the range of its record", lambda: "%s, speeds %s" % (v, sp))
        pick = sorted(set([0, len(ser) - 1] + [int(k) for k in rng.integers(0, len(ser), 12)]))
        for k in pick:
            t = ser["time"][k].astype("datetime64[s]").item()
            want = average(t)
            mon.check(abs(ser["value"][k][0] - want) <= TOL * (1 + hi), "running average is not the mean of the past hours", lambda: "%s %s: %s, expected %s" % (when, t, ser["value"][k], want))
            mon.event("running_average_nodes")
        if known is None:
            return
        a, b = ser["time"][0].astype("datetime64[s]").item(), ser["time"][-1].astype("datetime64[s]").item()
        if len(ser) > 1 and not a <= known <= b:
            step = (ser["time"][1] - ser["time"][0]).astype(int)
            # averages are given in whole steps only: less than one step of the record may be left
            mon.check(b < known <= times[-1] and (known - b).total_seconds() < step, "the running average is not there for a time of its record", lambda: "%s: %s..%s" % (known, a, b))
            return
        if len(ser) == 1 and known != a and len(times) > 1:
            return
        got = r.get_value(known)
        node = bool((ser["time"] == np.datetime64(known)).any())
        want = average(known) if node or len(times) == 1 else None
        if want is None:
            k = int(np.searchsorted(ser["time"], np.datetime64(known)))
            ta, tb = [ser["time"][q].astype("datetime64[s]").item() for q in (k - 1, k)]
            f = (known - ta).total_seconds() / (tb - ta).total_seconds()
            want = average(ta) * (1 - f) + average(tb) * f
        mon.check(abs(got[0] - want) <= TOL * (1 + hi) and abs(got[1]) < 1e-6, "running average asked for at a time", lambda: "%s %s: %s, expected %s" % (when, known, got, want))
        mon.event("running_average")

    judge("new", None)
    t = times[int(rng.integers(len(times)))]
    r.prepare_for_model_run(t)
    judge("prepared", t)
    r.prepare_for_model_step(t)
    judge("step", t)
    # a run through the record from there
    left = (times[-1] - t).total_seconds()
    if left > 0:
        dt_ = max(3600 * int(rng.choice([1, 5, 13])), int(left // 8) // 60 * 60)
        while t <= times[-1]:
            r.prepare_for_model_step(t)
            judge("run", t)
            t += sec(dt_)
        mon.event("running_average_long", int((times[-1] - times[0]).total_seconds() > 48 * 3600))
    if const and len(set(d for _, d in rt)) == 1:
        mon.check(bool(np.all(np.abs(r.timeseries["value"][:, 0] - sp[0]) < 1e-4)), "running average of a constant wind is not that wind", lambda: str(r.timeseries["value"][:4]))
    mon.state("average", rclass(len(times)), const, hours)


# constituents of a real station (San Juan), varied a little
AMP = [0.523, 0.068, 0.123, 0.294, 0, 0.253, 0, 0, 0, 0, 0.027, 0, 0.016, 0.017, 0.014, 0.004, 0.018, 0.016, 0.019, 0.024, 0.068, 0.179, 0, 0.046, 0.009, 0.046, 0.004, 0.001, 0.006, 0.094, 0, 0, 0.017, 0, 0.021, 0, 0, 0, 0, 0, 0, 0]
PHASE = [264.3, 286.6, 246.8, 167.8, 0, 171.6, 0, 0, 0, 0, 244.8, 0, 269.5, 236.2, 160.9, 274.6, 84.4, 203.2, 157.9, 332.9, 36.8, 186.8, 0, 348.5, 173.3, 159.1, 285.7, 287.6, 175.5, 170.2, 0, 0, 253.5, 0, 286.6, 0, 0, 0, 0, 0, 0, 0]
SHIO = """[StationInfo]
Type=H
Name=somewhere
Latitude=%s
Longitude=%s
[Constituents]
DatumControls.datum=8.3
DatumControls.FDir=0
DatumControls.EDir=0
DatumControls.L2Flag=0
DatumControls.HFlag=0
DatumControls.RotFlag=0
H=%s
kPrime=%s
[Offset]
HighTime=0.000000 1
LowTime=0.000000 1
HighHeight_Mult=1.000000 1
HighHeight_Add=0.000000 1
LowHeight_Mult=1.000000 1
LowHeight_Add=0.000000 1
"""


def shio_case(rng, mon):
    from gnome.environment import Tide
    from gnome.utilities.time_utils import date_to_sec
    f = rng.uniform(.8, 1.3, len(AMP)) * rng.uniform(.5, 4)
    h = ["%.4f" % x for x in f * AMP]
    kp = ["%.1f" % x for x in (np.array(PHASE) + rng.uniform(-10, 10, len(AMP))) % 360]
    with open("s.txt", "w") as fd:
        fd.write(SHIO % ("32.0333", "-81.0", " ".join(h), " ".join(kp)))
    td = Tide("s.txt")
    ts = [dt.datetime(int(rng.integers(2000, 2020)), int(rng.integers(1, 13)), int(rng.integers(1, 28)), int(rng.integers(24)), int(rng.integers(60))) for _ in range(6)]
    # the package works out four days at once with the year's data and the daylight saving rule of the first of
    # them, so only times that do not share such a window are judged
    far = []
    for t in ts:
        if all(abs((t - o).total_seconds()) > 864000 for o in far):
            far.append(t)
    ts = far
    ask = lambda tt, t: float(tt.cy_obj.get_time_value(date_to_sec(t))[0]["u"][0])
    first = [ask(td, t) for t in ts]
    for k in rng.permutation(len(ts)):
        mon.close(ask(td, ts[k]), first[k], "tide at a time depends on what was asked before", rtol=1e-12, atol=1e-12)
    for k in range(len(ts)):
        fresh = Tide("s.txt")
        mon.close(ask(fresh, ts[k]), first[k], "tide at a time depends on what was asked before", rtol=1e-12, atol=1e-12)
        mon.check(np.isfinite(first[k]), "tide is not finite", str(first[k]))
    mon.event("shio_order")
    mon.state("shio", len(set(t.year for t in ts)))


# speeds of the 37 standard constituents of the U.S. National Ocean Service, degrees per hour
SPEED = [28.9841042, 30.0, 28.4397295, 15.0410686, 57.9682084, 13.9430356, 86.9523127, 44.0251729, 60.0, 57.4238337, 28.5125831, 90.0, 27.9682084, 27.8953548, 16.1391017, 29.4556253, 15.0, 14.4966939, 15.5854433, .5443747, .0821373, .0410686, 1.0158958, 1.0980331, 13.4715145, 13.3986609, 29.9589333, 30.0410667, 12.8542862, 14.9589314, 31.0158958, 43.4761563, 29.5284789, 42.9271398, 30.0821373, 115.9364169, 58.9841042]
SHIO_C = SHIO.replace("Type=H", "Type=C").split("[Offset]")[0].replace("datum=8.3", "datum=%.4f").replace("HFlag=0", "HFlag=%d") + """[Offset]
MinBefFloodTime=0.000000 1
FloodTime=0.000000 1
MinBefEbbTime=0.000000 1
EbbTime=0.000000 1
FloodSpdRatio=1.000000 1
EbbSpdRatio=1.000000 1
MinBFloodSpd=0.000000 0
MinBFloodDir=0.000000 0
MaxFloodSpd=0.000000 0
MaxFloodDir=0.000000 0
MinBEbbSpd=0.000000 0
MinBEbbDir=0.000000 0
MaxEbbSpd=0.000000 0
MaxEbbDir=0.000000 0
"""


def daylight(d):
    """whether U.S. daylight saving time is in effect"""
    def sunday(m, n):
        x = dt.datetime(d.year, m, 1)
        return x + dt.timedelta((6 - x.weekday()) % 7 + 7 * (n - 1), hours=2)
    if d.year >= 2007:
        return sunday(3, 2) <= d < sunday(11, 1)
    end = dt.datetime(d.year, 10, 31)
    return sunday(4, 1) <= d < end - dt.timedelta((end.weekday() + 1) % 7) + dt.timedelta(hours=2)


def shio_curve_case(rng, mon):
    """a tide station: its extremes and slacks are those of the harmonic sum, in local time with daylight saving"""
    import gnome
    from gnome.environment import Tide
    from gnome.utilities.time_utils import date_to_sec
    n = len(SPEED)
    f = rng.uniform(.8, 1.3, n) * rng.uniform(.5, 4)
    H = np.round(f * AMP[:n], 4)
    kp = np.round((np.array(PHASE[:n]) + rng.uniform(-10, 10, n)) % 360, 1)
    hs, ks = " ".join("%.4f" % x for x in H), " ".join("%.1f" % x for x in kp)
    kind = str(rng.choice(["C", "C", "H"]))
    hydraulic = int(kind == "C" and rng.random() < .3)
    datum = round(float(rng.uniform(-.2, .2)), 3) if kind == "C" else 8.3
    with open("c.txt", "w") as fd:
        fd.write(SHIO_C % ("32.0", "-81.0", datum, hydraulic, hs, ks) if kind == "C" else SHIO % ("32.0", "-81.0", hs, ks))
    ask = lambda tt, t: float(tt.cy_obj.get_time_value(date_to_sec(t))[0]["u"][0])
    for near in (False, True):
        year = int(rng.integers(1985, 2024))
        if near:    # near a change of the clocks
            m, d = [(3, 15), (4, 8), (11, 5), (11, 5), (11, 9), (10, 28), (3, 11)][int(rng.integers(7))]
            t = dt.datetime(year, m, d) + dt.timedelta(int(rng.integers(-2, 3)))
        else:
            t = dt.datetime(year, int(rng.integers(1, 13)), int(rng.integers(1, 28)))
        t += dt.timedelta(hours=int(rng.integers(24)), minutes=int(rng.integers(60)))
        first, last = t - dt.timedelta(days=2.4), t + dt.timedelta(minutes=1500)
        if first.year != last.year or daylight(first) != daylight(last):
            continue        # the year's data and the clock of the first day of a stretch of days are used for all of it
        summer = daylight(t)
        # the clock
        td, plain, plain2 = Tide("c.txt"), Tide("c.txt"), Tide("c.txt")
        plain.cy_obj.daylight_savings_off = plain2.cy_obj.daylight_savings_off = True
        want = ask(plain2, t - dt.timedelta(hours=1)) if summer else ask(plain, t)
        mon.close(ask(td, t), want, "tide is not on the clock in effect that day", rtol=1e-5, atol=1e-5)
        mon.event("tide_clock")
        mon.event("tide_summer", int(summer))
        mon.event("tide_clock_change", int(near))
        # the curve
        y = np.array(open(os.path.join(os.path.dirname(gnome.__file__), "data", "yeardata", "#%d" % year)).read().split(), dtype=float).reshape(-1, 2)[:n]
        ss = [t + dt.timedelta(minutes=m) for m in range(1500)]
        T = np.array([(x - dt.datetime(year, 1, 1)).total_seconds() / 3600 for x in ss]) - int(summer)
        c = np.sum(y[:, 0] * H * np.cos(np.radians(np.outer(T, SPEED) + y[:, 1] - kp)), axis=1)
        if hydraulic:
            c = np.sign(c) * np.sqrt(abs(c))
        peaks = [j for j in range(1, 1499) if (c[j] - c[j - 1]) * (c[j + 1] - c[j]) <= 0 and c[j] != c[j - 1]]
        if kind == "C":
            c = (c + datum) * .5144
            span = float(c.max() - c.min())
            for j in peaks:
                mon.close(ask(td, ss[j]), float(c[j]), "speed of a tide at its strongest is not that of its constituents", rtol=0, atol=(.03 if hydraulic else .01) * span)
                mon.event("tide_peak")
            if not hydraulic:
                for j in np.flatnonzero(c[:-1] * c[1:] < 0):
                    mon.close(ask(td, ss[j]), 0., "tide is not slack when its constituents are", rtol=0, atol=.03 * span)
                    mon.event("tide_slack")
        else:
            span = max(abs(ask(td, x)) for x in ss[::15])
            for j in peaks:
                mon.close(ask(td, ss[j]), 0., "tide is not slack at high or low water", rtol=0, atol=.05 * span)
                mon.event("tide_turn")
        mon.state("tide", kind, hydraulic, summer, t.month)



def case(i, rng, mon):
    k = i % 12
    if k < 5:
        wind_case(rng, mon)
    elif k < 7:
        base_case(rng, mon)
    elif k == 7:
        tide_case(rng, mon)
    elif k < 10:
        data_case(rng, mon)
    elif k == 10:
        average_case(rng, mon)
    else:
        shio_case(rng, mon)
        shio_curve_case(rng, mon)
