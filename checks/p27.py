"""Times against calendar arithmetic."""
PROPERTY = "P27"
KIND = "plain"
N = {"quick": 1200, "thorough": 30000}
BUDGET = {"quick": 60, "thorough": 1500}
RULE = "(conversion, time zone of the machine, daylight saving, month, midnight hour, form of the argument)"
NEED = ["date_to_seconds", "seconds_to_date", "array", "datetime64", "native_to_date", "native_to_seconds", "daylight_saving", "daylight_saving_midnight", "leap_day", "year_end", "missing_hour", "repeated_hour",
        "other_zone", "infinite", "rounded", "parsed", "schema", "offset", "record_conversion"]
ASSUMES = ["the machine's time zone keeps one standard offset over the dates used", "dates from 1970-01-02 to 2037-12-31, fractions of seconds are dropped"]

import calendar
import datetime as dt
import os
import time
import numpy as np

ZONES = [("UTC0", 0), ("EST5EDT,M3.2.0,M11.1.0", -5), ("AEST-10AEDT,M10.1.0,M4.1.0/3", 10), ("IST-5:30", 5.5), ("NST3:30NDT,M3.2.0,M11.1.0", -3.5), ("AKST9AKDT,M3.2.0,M11.1.0", -9), ("XXX-13", 13), ("CST6", -6),
         ("WET0WEST,M3.5.0/1,M10.5.0", 0)]


def a_date(rng, mon):
    r = rng.random()
    if r < .5:
        d = dt.datetime(1970, 1, 2) + dt.timedelta(seconds=int(rng.integers(0, 2144000000)))
    elif r < .6:
        d = dt.datetime(int(rng.choice([1972, 1988, 2000, 2016, 2020, 2036])), 2, 29, int(rng.integers(24)), int(rng.integers(60)), int(rng.integers(60)))
        mon.event("leap_day")
    elif r < .7:
        y = int(rng.integers(1971, 2037))
        d = dt.datetime(y, 12, 31, 23, 59, 59) + dt.timedelta(seconds=int(rng.integers(0, 3)))
        mon.event("year_end")
    elif r < .85:
        d = dt.datetime(int(rng.integers(2007, 2030)), int(rng.integers(4, 10)), int(rng.integers(1, 29)), int(rng.choice([0, 23, 1])), int(rng.integers(60)), int(rng.integers(60)))
    else:               # the day of a change of clocks
        y = int(rng.integers(2008, 2030))
        w = int(rng.integers(2))
        m, k = ((3, 2), (11, 1))[w]
        first = dt.datetime(y, m, 1)
        d = first + dt.timedelta(days=(6 - first.weekday()) % 7 + 7 * (k - 1), hours=int(rng.integers(0, 5)), minutes=int(rng.integers(60)), seconds=int(rng.integers(60)))
        mon.event("missing_hour" if w == 0 else "repeated_hour")
    return d


def case(i, rng, mon):
    z, off = ZONES[int(rng.integers(len(ZONES)))]
    old = os.environ.get("TZ")
    os.environ["TZ"] = z
    time.tzset()
    try:
        convert(rng, mon, z, off)
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()
    objects(rng, mon)


def convert(rng, mon, z, off):
    from gnome.utilities import time_utils as U
    from gnome.cy_gnome.cy_helpers import CyDateTime
    from gnome.basic_types import date_rec
    n = int(rng.choice([1, 2, 5]))
    ds = [a_date(rng, mon) for _ in range(n)]
    want = [calendar.timegm(d.timetuple()) - int(off * 3600) for d in ds]
    if z != "UTC0":
        mon.event("other_zone")
    c = CyDateTime()
    for d, w in zip(ds, want):
        if w < 0:
            continue
        tag = "%s %s" % (z, d.isoformat())
        dst = time.localtime(w).tm_isdst
        g = U.date_to_sec(d)
        mon.check(g == w, "date to seconds", lambda: "%s: %s, expected %s" % (tag, g, w))
        g = U.date_to_sec(d.replace(microsecond=int(rng.integers(10 ** 6))))
        mon.check(g == w, "date with a fraction of a second to seconds", lambda: "%s: %s, expected %s" % (tag, g, w))
        g = U.date_to_sec(np.datetime64(d, "s"))
        mon.check(g == w, "datetime64 to seconds", lambda: "%s: %s, expected %s" % (tag, g, w))
        mon.event("date_to_seconds")
        for nm, f in (("sec_to_date", U.sec_to_date), ("sec_to_datetime", U.sec_to_datetime)):
            b = f(w)
            mon.check(b == d, "seconds to date", lambda: "%s %s: %s" % (nm, tag, b))
        mon.event("seconds_to_date")
        r = c.SecondsToDate(w)
        got = tuple(int(r[k]) for k in ("year", "month", "day", "hour", "minute", "second"))
        mon.check(got == d.timetuple()[:6], "seconds to date in the native code", lambda: "%s: %s" % (tag, got))
        mon.event("native_to_date")
        rec = np.zeros(1, dtype=date_rec)
        for k, v in zip(("year", "month", "day", "hour", "minute", "second"), d.timetuple()[:6]):
            rec[k] = v
        g = c.DateToSeconds(rec)
        mon.check(g == w, "date to seconds in the native code", lambda: "%s: %s, expected %s" % (tag, g, w))
        mon.event("native_to_seconds")
        if dst:
            mon.event("daylight_saving")
            if time.localtime(w).tm_hour == 0:
                mon.event("daylight_saving_midnight")
        mon.state("convert", z, dst, d.month, d.hour == 0)
    if all(w >= 0 for w in want):
        forms = dict(list=list(ds), array=np.array(ds, dtype=object), M8=np.array(ds, dtype="datetime64[s]"))
        for nm, a in forms.items():
            g = U.date_to_sec(a)
            mon.check(len(g) == n and [int(x) for x in g] == want, "dates to seconds (%s)" % nm, lambda: "%s: %s, expected %s" % (z, g, want))
            mon.event("datetime64" if nm == "M8" else "array")
        b = U.sec_to_date(np.array(want, dtype=np.uint32))
        b = [b] if n == 1 else [x.astype(dt.datetime) for x in b]
        mon.check(b == ds, "array of seconds to dates", lambda: "%s: %s, expected %s" % (z, b, ds))
        # records
        from gnome.utilities import convert as C
        from gnome.basic_types import datetime_value_2d, datetime_value_1d
        import gnome.basic_types as bt
        srt = sorted(set(ds))
        rec = np.zeros(len(srt), dtype=datetime_value_2d)
        rec["time"] = srt
        rec["value"] = rng.normal(0, 5, (len(srt), 2))
        t = C.to_time_value_pair(rec.copy(), in_ts_format=bt.ts_format.uv)
        mon.check([int(x) for x in t["time"]] == [calendar.timegm(d.timetuple()) - int(off * 3600) for d in srt], "times of a record converted for the native code")
        back = C.to_datetime_value_2d(t, bt.ts_format.uv)
        mon.check(list(back["time"].astype("datetime64[s]").astype(dt.datetime)) == srt, "times of a record converted back", lambda: "%s %s" % (back["time"], srt))
        mon.close(back["value"], rec["value"], "values of a record converted back", rtol=0, atol=1e-12)
        mon.event("record_conversion")
    try:
        U.date_to_sec("2012-01-01")
        mon.check(False, "a string was taken for a date")
    except TypeError:
        mon.check(True, "x")
    # rounding
    d = ds[0]
    to = int(rng.choice([60, 3600, 900, 10, 86400, 7]))
    g = U.round_time(d, to)
    day = dt.datetime(d.year, d.month, d.day)
    s = int((d - day).total_seconds())
    e = day + dt.timedelta(seconds=(s + to / 2) // to * to)
    mon.check(g == e, "rounded time", lambda: "%s to %d: %s, expected %s" % (d, to, g, e))
    ga = U.round_time(np.array(ds, dtype="datetime64[s]"), to)
    ga = [ga] if n == 1 else [x.astype(dt.datetime) for x in ga]
    mon.check(ga[0] == e and all(abs((x - y).total_seconds()) <= to / 2 for x, y in zip(ga, ds)), "rounded times", lambda: "%s %s" % (ga, ds))
    mon.event("rounded")
    # parsing
    for s in (d.isoformat(), d.strftime("%Y-%m-%d %H:%M:%S"), d.isoformat() + "Z", d.isoformat() + "-08:00"):
        g = U.asdatetime(s)
        mon.check(g == d and g.tzinfo is None, "parsed time", lambda: "%s: %r" % (s, g))
    f = d.replace(microsecond=int(rng.integers(1, 10 ** 6)))
    mon.check(U.asdatetime(f.isoformat()) == f, "parsed time with a fraction of a second", lambda: "%s: %r" % (f, U.asdatetime(f.isoformat())))
    mon.check(U.asdatetime(d) is d and U.asdatetime(None) is None, "parsing of a time that is one already")
    mon.event("parsed")


def objects(rng, mon):
    from gnome.utilities.inf_datetime import InfDateTime, InfTime, MinusInfTime
    from gnome.utilities.time_utils import TZOffset, TZOffsetSchema
    from gnome.persist.extend_colander import LocalDateTime
    from gnome.persist.base_schema import SchemaNode
    d = a_date(rng, mon)
    e = a_date(rng, mon)
    inf, ninf = InfDateTime("inf"), InfDateTime("-inf")
    x = InfDateTime(d.year, d.month, d.day, d.hour, d.minute, d.second)
    mon.check(x == d and (x < e) == (d < e) and (e < x) == (e < d), "finite time compares differently from the same date", lambda: "%s %s" % (d, e))
    order = [ninf, min(d, e), max(d, e), inf]
    for a in range(4):
        for b in range(4):
            p, q = order[a], order[b]
            same = a == b or (d == e and {a, b} <= {1, 2})
            r = ((p < q), (p <= q), (p == q), (p != q), (p >= q), (p > q))
            w = ((a < b and not same), (a <= b or same), same, not same, (a >= b or same), (a > b and not same))
            mon.check(tuple(map(bool, r)) == w, "order of infinite and finite times", lambda: "%s %s: %s, expected %s" % (p, q, r, w))
    mon.check(isinstance(-inf, MinusInfTime) and isinstance(-ninf, InfTime) and +inf == inf and InfTime() == inf and MinusInfTime() == ninf, "negated infinite times")
    for bad in ((1969, 12, 31), (2038, 2, 1), ("x", 1, 1)):
        try:
            InfDateTime(*bad)
            mon.check(False, "time out of range accepted", str(bad))
        except ValueError:
            mon.check(True, "x")
    mon.event("infinite")
    node = SchemaNode(LocalDateTime())
    for v in (d, inf, ninf, d.replace(microsecond=250000)):
        s = node.serialize(v)
        b = node.deserialize(s)
        mon.check(b == v and getattr(b, "tzinfo", None) is None, "time written and read back", lambda: "%r %r %r" % (v, s, b))
    mon.event("schema")
    # offsets
    m = int(rng.integers(-12 * 60, 14 * 60 + 1))
    for arg in (m / 60., dt.timedelta(minutes=m)):
        t = TZOffset(arg)
        mon.check(t.as_timedelta() == dt.timedelta(minutes=m), "offset of a time zone", lambda: "%s minutes: %s" % (m, t.as_timedelta()))
        s = t.as_iso_string()
        mon.check(s == "%s%02d:%02d" % ("-" if m < 0 else "+", abs(m) // 60, abs(m) % 60), "offset of a time zone as text", lambda: "%s minutes: %s" % (m, s))
        sch = TZOffsetSchema(name="tz")
        b = sch.deserialize(sch.serialize(t))
        mon.check(b == t, "offset of a time zone written and read back", lambda: "%r %r" % (t, b))
    mon.check(TZOffset().as_timedelta() == dt.timedelta(0) and TZOffset().as_iso_string() == "", "offset that is not given")
    mon.event("offset")
    mon.state("offset", m % 60 == 0, m % 15 == 0, m < 0)
