"""Every component kind: documents, rebuilding, saving and updating, compared setting by setting."""
PROPERTY = "P18"
KIND = "plain"
N = {"quick": 1500, "thorough": 16000}
BUDGET = {"quick": 120, "thorough": 1500}
RULE = ("distinct (component kind, set of settings given, step of the round trip, what differed) seen by the field-by-field comparator")
NEED = ["values_round_tripped", "round_trips", "settings_compared", "documents_again", "saved_and_loaded", "updates_of_one", "updates_of_all", "update_reports", "own_document"]
ASSUMES = ["documents pass through JSON text between writing and reading",
           "empty strings and None mean 'not given' in a document (except where recorded as a finding)",
           "numbers are compared to 1e-7 relative: array schemas round to 8 significant digits",
           "names made up by the library (Wind_12) and names derived from the file are not settings",
           "GridCurrent and the other classes on top of the missing gridded package are not built from files here"]

import json
import os

import numpy as np

import makers
from rt import AUTONAME, NAMEFREE, dsame, js, nodes, same, strip, tell
from vlib import blame, where

# settings that are tied to another one: setting the first legitimately moves the others
TIED = {
    ("Burn", "thickness"): {"active_range"}, ("Burn", "thickness_units"): {"active_range", "thickness"}, ("Burn", "active_range"): {"active_range"},
    ("Beaching", "timeseries"): {"active_range"}, ("Beaching", "active_range"): {"active_range"},
    ("Renderer", "viewport"): {"projection"},
    ("CatsMover", "tide"): {"scale_refpoint"},
}
RELEASE_TIES = {"release_time": {"end_release_time"}, "end_release_time": set(), "start_position": {"end_position", "custom_positions"}, "num_elements": {"num_per_timestep"},
                "num_per_timestep": {"num_elements"}, "custom_positions": {"num_elements"}, "polygons": {"thicknesses", "weights", "num_elements"}, "features": {"thicknesses", "weights", "polygons"},
                "thicknesses": {"weights"}, "release_mass": set()}
# kinds whose settings only make sense together: updated as a whole, not one at a time
WHOLE = {"GnomeOil", "Spill", "TimeseriesData", "TimeseriesVector", "Water"}
NOT_SETTABLE = {("GridRelease", "num_elements"), ("GridRelease", "custom_positions")}


def settings(o, kw):
    names = list(kw) + nodes(o)
    if "name" in kw and type(o).__name__ not in NAMEFREE:
        names.append("name")
    return [n for n in dict.fromkeys(names) if n != "name" or "name" in kw]


class Broke(Exception):
    pass


def attempt(mon, kind, what, f):
    """f() must not fail"""
    try:
        return f()
    except Exception as e:
        if blame(e) != "code":
            raise
        mon.violation("%s_fails" % what, "%s: %s failed with %s: %s (%s)" % (kind, what.replace("_", " "), type(e).__name__, str(e)[:300], where(e)))
        raise Broke


def compare(mon, kind, what, o, p, kw):
    if not mon.check(type(o) is type(p), "%s_other_class" % what, lambda: "%s: %s gives a %s" % (kind, what, type(p))):
        return
    bad = []
    for k in settings(o, kw):
        if not hasattr(o, k) or k == "name" and type(o).__name__ in NAMEFREE:
            continue
        mon.event("settings_compared")
        a = getattr(o, k)
        b = getattr(p, k, None)
        r = same(a, b, k)
        if r:
            bad.append(k)
            mech = "%s_loses_setting" % what
            if kind == "netcdf_out" and k == "surface_conc" and a is None:
                mech = "surface_conc_none"
            mon.violation(mech, "%s: the %s of a %s is %s, %s it is %s (%s)" % (kind, k, type(o).__name__, tell(a), what, tell(b), r))
    mon.state((kind, what, tuple(sorted(kw)), tuple(bad)))


def values(rng, mon):
    """the kinds of value that documents hold, one by one"""
    import datetime as dt
    from colander import SchemaNode
    from gnome.persist import extend_colander as X
    from gnome.persist import base_schema as B

    def trip(node, v):
        return node.deserialize(json.loads(json.dumps(node.serialize(v))))
    t = dt.datetime(int(rng.integers(1970, 2100)), int(rng.integers(1, 13)), int(rng.integers(1, 29)), *(int(x) for x in rng.integers(0, (24, 60, 60))), int(rng.choice([0, 250000, 123456])))
    node = SchemaNode(X.LocalDateTime())
    mon.check(trip(node, t) == t, "value_changed", lambda: "time %r read back as %r" % (t, trip(node, t)))
    for z in ("Z", "+00:00", "-08:00", "+05:30"):
        r = node.deserialize(t.isoformat() + z)
        mon.check(r == t and r.tzinfo is None, "value_changed", lambda: "local time %r written with zone %s read as %r" % (t, z, r))
    from gnome.utilities.inf_datetime import InfDateTime
    for v in ("inf", "-inf"):
        r = trip(node, InfDateTime(v))
        mon.check(type(r) is type(InfDateTime(v)), "value_changed", lambda: "%s read back as %r" % (v, r))
    d = dt.timedelta(days=int(rng.choice([-3, 0, 0, 400])), seconds=int(rng.integers(0, 86400)), microseconds=int(rng.choice([0, 500000, 1])))
    mon.check(trip(SchemaNode(X.TimeDelta()), d) == d, "value_changed", lambda: "time span %r read back as %r" % (d, trip(SchemaNode(X.TimeDelta()), d)))
    files = ["dir/f%d.nc" % k for k in rng.permutation(9)[:int(rng.integers(1, 5))]]
    r = trip(X.FilenameSchema(), files)
    mon.check(([r] if isinstance(r, str) else list(r)) == files, "value_changed", lambda: "files %r read back as %r" % (files, r))
    r = X.FilenameSchema().serialize(files, options=dict(raw_paths=False))
    mon.check(([r] if isinstance(r, str) else list(r)) == [os.path.basename(f) for f in files], "value_changed", lambda: "bare names of files %r: %r" % (files, r))
    pt = rng.uniform(-180, 180, 3)
    r = trip(B.WorldPointNumpy(), pt)
    mon.check(np.array_equal(r, pt), "value_changed", lambda: "position %r read back as %r" % (pt, r))
    a = rng.normal(0, 10 ** rng.uniform(-6, 6), (int(rng.integers(1, 5)), int(rng.integers(1, 4))))
    a[0, 0] = rng.choice([0., a[0, 0]])
    r = trip(X.NumpyArraySchema(), a)
    mon.check(r.shape == a.shape and bool((np.abs(r - a) <= 1e-7 * np.abs(a)).all()), "value_changed", lambda: "array %r read back as %r" % (a, r))
    # a list of components is replaced
    import gnome.environment.timeseries_objects_base as tb
    from gnome.environment.gridded_objects_base import Time
    when = Time(data=[t.replace(microsecond=0), t.replace(microsecond=0) + dt.timedelta(hours=1)])

    def vec(x):
        return tb.TimeseriesVector(variables=[tb.TimeseriesData(name=k, data=np.array([x, 2 * x]), time=when, units="m/s") for k in "uv"])
    o, q = vec(1.), js(vec(3.).serialize())
    r = o.update_from_dict(dict(obj_type=q["obj_type"], variables=q["variables"]))
    got = [float(v.data[1]) for v in o.variables]
    mon.check(got == [6., 6.], "update_not_made", lambda: "variables of a TimeseriesVector become %s" % got)
    mon.check(bool(r), "list_update_not_reported", lambda: "replacing the variables of a TimeseriesVector reports %r" % r)
    mon.event("values_round_tripped")
    mon.state(("values", t.microsecond > 0, d.microseconds > 0, d.days, len(files), a.shape))


def case(i, rng, mon):
    if i % 41 == 40:
        return values(rng, mon)
    kinds = list(makers.MAKERS)
    kind = kinds[i % len(kinds)]
    maker = makers.MAKERS[kind]
    path, kw = maker(rng)
    mon.ctx["kind"] = kind
    mon.ctx["settings"] = {k: tell(v) for k, v in kw.items()}
    try:
        o = attempt(mon, kind, "building", lambda: makers.resolve(path)(**kw))
        round_trip(kind, o, kw, rng, mon)
        if rng.random() < .5:
            saved(kind, o, kw, rng, mon)
        update(kind, o, maker, path, rng, mon)
    except Broke:
        pass


def round_trip(kind, o, kw, rng, mon):
    doc = attempt(mon, kind, "serialising", o.serialize)
    doc = attempt(mon, kind, "writing_as_json", lambda: js(doc))
    keep = json.dumps(doc)
    mon.check(str(doc.get("id")) == str(o.id), "document_without_id", lambda: "%s: the document's id is %r, the object's %r" % (kind, doc.get("id"), o.id))
    p = attempt(mon, kind, "rebuilding", lambda: type(o).deserialize(doc))
    mon.event("round_trips")
    mon.check(json.dumps(doc) == keep, "reading_changes_document", lambda: "%s: building an object from a document changed the document from %s to %s" % (kind, keep[:300], json.dumps(doc)[:300]))
    mon.check(p is not o, "rebuilt_is_the_same", lambda: "%s: rebuilding gave the very same object" % kind)
    compare(mon, kind, "rebuilt", o, p, kw)
    d2 = attempt(mon, kind, "serialising_again", lambda: js(p.serialize()))
    mon.event("documents_again")
    x, y = strip(json.loads(keep)), strip(d2)
    diff = [k for k in sorted(set(x) | set(y)) if not dsame({k: x.get(k)}, {k: y.get(k)})
            and not (k == "name" and (type(o).__name__ in NAMEFREE or AUTONAME.match(str(x.get(k)))))]
    for k in diff:
        mon.violation("surface_conc_none" if k == "surface_conc" and x.get(k) is None else "second_document_differs",
                      "%s: %s is %s in the document and %s in that of the object built from it" % (kind, k, tell(x.get(k)), tell(y.get(k))))
    # its own document changes nothing
    attempt(mon, kind, "updating_from_own_document", lambda: o.update_from_dict(json.loads(keep)))
    mon.event("own_document")
    d3 = strip(attempt(mon, kind, "serialising_after_update", lambda: js(o.serialize())))
    for k in sorted(set(x) | set(d3)):
        mon.check(dsame({k: x.get(k)}, {k: d3.get(k)}), "own_document_changes_setting",
                  lambda: "%s: its own document changed %s from %s to %s" % (kind, k, tell(x.get(k)), tell(d3.get(k))))


def saved(kind, o, kw, rng, mon):
    import zipfile
    where_to = os.path.abspath("saved_%d" % int(rng.integers(1e6)))
    form = ("zip", "folder", "open_archive", "unpacked")[int(rng.integers(4))]
    if form == "folder":
        os.mkdir(where_to)
    elif form == "open_archive":
        where_to = None
    else:
        where_to += ".zip"
    before = js(strip(o.serialize()))
    _, where_to, refs = attempt(mon, kind, "saving_as_" + form, lambda: o.save(where_to))
    mon.check(o.id in refs, "saved_without_reference", lambda: "%s: save does not return the object among those saved" % kind)
    if form == "unpacked":
        folder = where_to[:-4]
        os.mkdir(folder)
        with zipfile.ZipFile(where_to) as z:
            z.extractall(folder)
        where_to = folder
    q = attempt(mon, kind, "loading_from_" + form, lambda: type(o).load(where_to))
    mon.event("saved_and_loaded")
    if not mon.check(q is not None, "loading_gives_nothing", lambda: "%s: loading a saved one gives None" % kind):
        return
    compare(mon, kind, "loaded", o, q, kw)
    after = js(strip(o.serialize()))
    for k in sorted(set(before) | set(after)):
        mon.check(dsame({k: before.get(k)}, {k: after.get(k)}), "saving_changes_setting",
                  lambda: "%s: saving changed %s from %s to %s" % (kind, k, tell(before.get(k)), tell(after.get(k))))


def update(kind, o, maker, path, rng, mon):
    for _ in range(12):
        p2, kw2 = maker(rng)
        if p2 == path:
            break
    else:
        return
    b = attempt(mon, kind, "building", lambda: makers.resolve(p2)(**kw2))
    da, db = js(o.serialize()), js(b.serialize())
    sch = o._schema()
    upd = set(sch.get_nodes_by_attr("update"))
    ro = set(sch.get_nodes_by_attr("read_only"))
    cls = type(o).__name__
    keys = [k for k in db if k in upd and k not in ("name", "id", "obj_type") and db[k] not in (None, "") and (cls, k) not in NOT_SETTABLE and k not in ro]
    differ = [k for k in keys if not dsame(strip(da.get(k)), strip(db[k]))]
    mon.ctx["other"] = {k: tell(v) for k, v in kw2.items()}
    release = "release_time" in da
    if differ and cls not in WHOLE:
        k = differ[int(rng.integers(len(differ)))]
        doc = {k: js(db[k])}
        keep = json.dumps(doc)
        try:
            r = o.update_from_dict(doc)
        except ValueError:
            # refused: settings that contradict each other (an end before the start)
            mon.event("updates_refused")
            mon.check(release and k in ("release_time", "end_release_time") or (cls, k) in TIED or k in ("active_range", "timeseries"), "update_refused",
                      lambda: "%s: setting %s from %s to %s is refused" % (kind, k, tell(da.get(k)), tell(db[k])))
            return
        except Exception as e:
            if blame(e) != "code":
                raise
            mon.violation("updating_fails", "%s: updating %s from %s to %s failed with %s: %s (%s)" % (kind, k, tell(da.get(k)), tell(db[k]), type(e).__name__, str(e)[:200], where(e)))
            return
        mon.event("updates_of_one")
        mon.check(json.dumps(doc) == keep, "updating_changes_document", lambda: "%s: updating from a document changed the document %s to %s" % (kind, keep[:300], json.dumps(doc)[:300]))
        d2 = attempt(mon, kind, "serialising_after_update", lambda: js(o.serialize()))
        mon.event("update_reports")
        mon.check(r is True or (isinstance(r, np.bool_) and bool(r)), "update_not_reported", lambda: "%s: setting %s from %s to %s reports %r" % (kind, k, tell(da.get(k)), tell(db[k]), r))
        own = TIED.get((cls, k), set()) | (RELEASE_TIES.get(k, set()) if release else set())
        mon.check(k in own or dsame(strip(d2.get(k)), strip(db[k])), "update_not_made", lambda: "%s: %s was to become %s and is %s" % (kind, k, tell(db[k]), tell(d2.get(k))))
        mon.check(str(d2.get("id")) == str(da.get("id")), "update_changes_id", lambda: "%s: the id changed" % kind)
        for q in sorted(set(d2) | set(da)):
            if q != k and q not in own and q not in ro and q in upd:
                mon.check(dsame({q: strip(da.get(q))}, {q: strip(d2.get(q))}), "update_changes_another_setting",
                          lambda: "%s: setting %s also changed %s from %s to %s" % (kind, k, q, tell(da.get(q)), tell(d2.get(q))))
        mon.state((kind, "one", k))
    keep = json.dumps(db)
    doc = json.loads(keep)
    da = js(o.serialize())
    try:
        r = o.update_from_dict(doc)
    except ValueError:
        mon.event("updates_refused")
        mon.check(release or cls in ("Beaching", "Burn", "TimeseriesData"), "update_refused", lambda: "%s: updating from another's document is refused" % kind)
        return
    except Exception as e:
        if blame(e) != "code":
            raise
        mon.violation("updating_fails", "%s: updating from another's document failed with %s: %s (%s)" % (kind, type(e).__name__, str(e)[:200], where(e)))
        return
    mon.event("updates_of_all")
    mon.check(json.dumps(doc) == keep, "updating_changes_document", lambda: "%s: updating from a document changed the document %s to %s" % (kind, keep[:300], json.dumps(doc)[:300]))
    d3 = attempt(mon, kind, "serialising_after_update", lambda: js(o.serialize()))
    for q in sorted(set(d3) | set(da)):
        if q in keys:
            if q == "active_range" and cls in ("Burn", "Beaching"):
                continue
            mon.check(dsame(strip(d3.get(q)), strip(db[q])), "update_not_made", lambda: "%s: %s was to become %s (with all the others) and is %s" % (kind, q, tell(db[q]), tell(d3.get(q))))
        elif q not in upd and q not in ("id", "name") and q not in ro:
            mon.check(dsame({q: strip(d3.get(q))}, {q: strip(da.get(q))}), "update_changes_fixed_setting",
                      lambda: "%s: updating changed %s, which cannot be updated, from %s to %s" % (kind, q, tell(da.get(q)), tell(d3.get(q))))
    changed = [q for q in keys if not dsame(strip(da.get(q)), strip(db[q]))]
    if changed:
        mon.event("update_reports")
        mon.check(bool(r), "list_update_not_reported" if kind == "ts_vector" else "update_not_reported", lambda: "%s: updating %s reports %r" % (kind, changed, r))
    mon.state((kind, "all", tuple(changed)))
