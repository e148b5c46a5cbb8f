"""Models saved and loaded: settings, sharing, trace, archive contents; and damaged archives."""
PROPERTY = "P17"
KIND = "plain"
N = {"quick": 900, "thorough": 12000}
BUDGET = {"quick": 150, "thorough": 1800}
RULE = "distinct (form saved in, kinds of components, how the archive was damaged, outcome) seen by the round-trip and containment monitors"
NEED = ["models_saved", "settings_compared", "sharing_compared", "steps_compared", "saved_again", "damaged", "damaged_refused", "escape_attempts", "data_files_with_same_name", "midrun_saves", "persist_load", "data_file_flipped"]
ASSUMES = ["results are compared to 1e-5 relative (1e-6 degrees): array settings are written with 8 significant digits",
           "GridCurrent and FileGridCurrent need the missing gridded package and are not in the models",
           "a model on a bare RasterMap is a recorded finding: its land is not saved"]

import glob
import hashlib
import json
import os
import shutil
import tempfile
import zipfile

import numpy as np

import gn
import makers
from rt import AUTONAME, NAMEFREE, dsame, is_gnome, js, nodes, same, strip, tell
from vlib import blame, where

NAMES = ["wind", "a name with spaces", "Île d'Or", "50% wind", "x.y", "Model", "a/b", "c:d", "{0}", "q?*", "version", "<tag>", "wind"]


class Broke(Exception):
    pass


def attempt(mon, what, f):
    try:
        return f()
    except Exception as e:
        if blame(e) != "code":
            raise
        mon.violation("%s_fails" % what, "%s a model failed with %s: %s (%s)" % (what, type(e).__name__, str(e)[:300], where(e)))
        raise Broke


def components(rng, model, mon):
    """data files, outputters and names on top of the generated model"""
    kinds = []
    if rng.random() < .35:
        os.makedirs("one", exist_ok=True)
        os.makedirs("two", exist_ok=True)
        from gnome.movers import CatsMover
        kw = dict(scale_value=float(rng.uniform(.1, 1)))
        a = makers.cats_path(rng, "one")
        b = makers.cats_path(rng, "two")
        if rng.random() < .6:
            c = os.path.join(os.path.dirname(b), os.path.basename(a))
            os.rename(b, c)
            b = c
            mon.event("data_files_with_same_name")
            kinds.append("samename")
        tide = makers.make(rng, makers.tide) if rng.random() < .5 else None
        model.movers += CatsMover(filename=a, tide=tide, **kw)
        model.movers += CatsMover(filename=b, tide=tide, **kw)
        kinds.append("cats")
    if rng.random() < .2:
        model.movers += makers.make(rng, makers.grid_mover)
        kinds.append("grid")
    for m in ("netcdf_out", "weathering_out", "geojson_out", "kmz_out", "spill_json", "shape_out", "binary_out", "oil_budget"):
        if rng.random() < .15:
            kw = makers.MAKERS[m](rng)[1]
            if kw.get("surface_conc", "") is None:
                continue        # recorded under P18
            model.outputters += makers.resolve(makers.MAKERS[m](rng)[0])(**kw)
            kinds.append(m)
    # names people give: odd, and the same one twice
    if rng.random() < .6:
        objs = list(model.movers) + list(model.environment) + list(model.weatherers) + list(model.spills)
        for o in objs:
            if rng.random() < .5 and type(o).__name__ not in NAMEFREE:
                o.name = str(NAMES[int(rng.integers(len(NAMES)))])
        kinds.append("names")
    if rng.random() < .3:
        model.name = str(NAMES[int(rng.integers(len(NAMES)))])
    return kinds


def reach(o, path=(), out=None, depth=0):
    """every component reachable through the settings: [(path, object)]"""
    out = [] if out is None else out
    if depth > 8:
        return out
    if is_gnome(o):
        out.append((path, o))
        for n in nodes(o):
            v = getattr(o, n, None)
            if is_gnome(v):
                reach(v, path + (n,), out, depth + 1)
            elif hasattr(v, "__iter__") and not isinstance(v, (str, dict, np.ndarray)):
                try:
                    v = list(v)
                except Exception:
                    continue
                for k, x in enumerate(v):
                    if is_gnome(x):
                        reach(x, path + (n, k), out, depth + 1)
    return out


def sharing(model):
    objs = reach(model)
    first = {}
    return [(p, first.setdefault(id(o), p)) for p, o in objs]


def contents(path):
    """name -> content, documents without what legitimately differs"""
    out = {}
    with zipfile.ZipFile(path) as z:
        for n in z.namelist():
            b = z.read(n)
            if n.endswith(".json"):
                b = json.loads(b)
            else:
                b = hashlib.sha1(b).hexdigest()
            out[n] = b
    return out


def trace(model, n):
    model.rewind()
    out = []
    try:
        for _ in range(n):
            model.step()
            out.append(gn.snapshot(model))
    except StopIteration:
        pass
    return out


def without_outputters(m):
    for o in list(m.outputters):
        m.outputters.remove(o.id)


def compare_traces(mon, S, a, b):
    if not mon.check(len(a) == len(b), "loaded_run_of_other_length", lambda: "%d steps, loaded %d" % (len(a), len(b))):
        return
    for k, (x, y) in enumerate(zip(a, b)):
        for (u, arr, mb, t), (u2, arr2, mb2, t2) in zip(x, y):
            mon.event("steps_compared")
            if not mon.check(t == t2 and u == u2 and set(arr) == set(arr2), "loaded_run_differs_in_kind", lambda: "step %d: time %s and %s, arrays %s" % (k, t, t2, set(arr) ^ set(arr2))):
                return
            # elements with no oil left: whether exactly none is left is a matter of rounding
            left = np.ones(len(arr["positions"]), bool)
            if "init_mass" in arr and arr["mass"].shape == arr2["mass"].shape:
                left = (arr["mass"] > 1e-9 * arr["init_mass"]) & (arr2["mass"] > 1e-9 * arr["init_mass"])
            for name in arr:
                p, q = arr[name], arr2[name]
                if not mon.check(p.shape == q.shape, "loaded_run_differs", lambda: "step %d: %s has shape %s, in the loaded model %s" % (k, name, p.shape, q.shape)):
                    return
                if name not in ("positions", "spill_num", "id", "age", "status_codes"):
                    p, q = p[left], q[left]
                if name in ("positions", "next_positions", "init_positions"):
                    ok = np.allclose(p[:, :2], q[:, :2], rtol=0, atol=1e-6, equal_nan=True) and np.allclose(p[:, 2], q[:, 2], rtol=1e-5, atol=1e-4, equal_nan=True)
                elif p.dtype.kind == "f":
                    m = np.nanmax(np.abs(p[np.isfinite(p)])) if np.isfinite(p).any() else 0
                    ok = np.allclose(p, q, rtol=1e-5, atol=1e-7 * max(m, 1e-12), equal_nan=True)
                else:
                    ok = bool((p == q).all())
                if not mon.check(ok, "loaded_run_differs", lambda: "step %d: %s differs in the loaded model: %s / %s" % (k, name, tell(p), tell(q))):
                    return
            for name in mb:
                if name in ("avg_density", "avg_viscosity", "water_content") and not left.all():
                    continue
                p, q = mb[name], mb2.get(name)
                try:
                    ok = p == q or abs(p - q) <= 1e-5 * max(abs(p), mb.get("amount_released", 0) * 1e-3)
                except TypeError:
                    ok = p == q
                if not mon.check(ok or p != p and q != q, "loaded_run_differs", lambda: "step %d: balance %s is %r, in the loaded model %r" % (k, name, p, q)):
                    return


def case(i, rng, mon):
    kind = ["full", "full", "damage", "full"][i % 4]
    raster = kind == "full" and i % 32 == 1
    S = gn.random_spec(rng, land=bool(raster) if raster else None, nmax=15, nsteps=int(rng.integers(2, 6)))
    if not raster:
        S["map"] = str(rng.choice(["open", "bounds", "bna"]))
    mon.ctx["model"] = gn.brief(S)
    mon.ctx["raster"] = raster
    try:
        if S["map"] == "bna":
            S["map"] = "open"
            model = attempt(mon, "building", lambda: gn.build(S))
            model.map = makers_map(rng, S)
            S["map"] = "bna"
        else:
            model = attempt(mon, "building", lambda: gn.build(S))
        kinds = components(rng, model, mon)
        mon.ctx["components"] = kinds
        if kind == "full":
            full(S, model, kinds, rng, mon, raster)
        else:
            damage(S, model, kinds, rng, mon)
    except Broke:
        pass


def makers_map(rng, S):
    from gnome.maps import MapFromBNA
    n = os.path.abspath("map.bna")
    x, y = S["spills"][0]["c"]
    b = S["bounds"]
    with open(n, "w") as fd:
        for k in range(3):
            u, v = x + b * rng.uniform(.1, 1), y + b * rng.uniform(-1, 1)
            r = b * rng.uniform(.02, .2)
            p = [(u - r, v - r), (u - r, v + r), (u + r, v + r), (u + r, v - r), (u - r, v - r)]
            fd.write('"%d","1",%d\n' % (k, len(p)) + "".join("%.6f,%.6f\n" % q for q in p))
        q = [(x - b, y - b), (x - b, y + b), (x + b, y + b), (x + b, y - b), (x - b, y - b)]
        fd.write('"Map Bounds","1",5\n' + "".join("%.6f,%.6f\n" % k for k in q))
    return MapFromBNA(n, refloat_halflife=float(rng.choice([.5, 6., 0.])), raster_size=2**14)


def full(S, model, kinds, rng, mon, raster):
    form = ["zip", "gnome", "folder", "open", "unpacked", "wrapped"][int(rng.integers(6))]
    mon.ctx["form"] = form
    n = S["n"] + 1
    mid = rng.random() < .2
    if mid:
        without_outputters(model)
        attempt(mon, "running", lambda: trace(model, 2))
        mon.event("midrun_saves")
    before = js(strip(attempt(mon, "serialising", model.serialize)))
    loc = os.path.abspath({"zip": "m.zip", "gnome": "m.gnome", "unpacked": "m.zip", "wrapped": "m.zip"}.get(form, "save"))
    if form == "folder":
        os.mkdir(loc)
    files = set(os.listdir("."))
    _, where_to, refs = attempt(mon, "saving", lambda: model.save(None if form == "open" else loc))
    mon.event("models_saved")
    extra = set(os.listdir(".")) - files - {os.path.basename(loc)}
    mon.check(not extra, "saving_leaves_files", lambda: "saving as %s left %s behind" % (form, extra))
    after = js(strip(model.serialize()))
    mon.check(dsame(before, after), "saving_changes_model", lambda: "saving changed %s" % [k for k in before if not dsame(before[k], after.get(k))])
    archive = where_to if isinstance(where_to, str) else None
    load_from = where_to
    if form in ("unpacked", "wrapped"):
        os.mkdir("un")
        with zipfile.ZipFile(where_to) as z:
            z.extractall("un")
        load_from = os.path.abspath("un")
        if form == "wrapped":
            load_from = os.path.abspath("w.zip")
            with zipfile.ZipFile(load_from, "w") as z:
                z.writestr("my model/", "")
                for f in sorted(os.listdir("un")):
                    z.write(os.path.join("un", f), "my model/" + f)
                if rng.random() < .5:
                    z.writestr("__MACOSX/", "")
                    z.writestr("__MACOSX/._Model.json", b"\0\1binary")
    from gnome.model import Model
    q = attempt(mon, "loading", lambda: (Model.load_savefile if isinstance(load_from, str) and rng.random() < .5 else Model.load)(load_from))
    if not mon.check(isinstance(q, Model), "loading_gives_no_model", lambda: "loading gives %r" % (q,)):
        return
    for k in nodes(model):
        mon.event("settings_compared")
        a, b = getattr(model, k, None), getattr(q, k, None)
        r = same(a, b, k)
        mon.check(not r, "loaded_model_differs", lambda: "saved as %s: %s is %s, loaded it is %s (%s)" % (form, k, tell(a), tell(b), r))
    names(mon, model, q)
    mon.check(mid or q == model, "loaded_model_is_not_equal", lambda: "the loaded model does not compare equal to the saved one: %s" % tell(model._diff(q)))
    a, b = sharing(model), sharing(q)
    mon.event("sharing_compared")
    mon.check(a == b, "sharing_is_lost", lambda: "objects used in several places: %s; loaded: %s" % ([x for x in a if x not in b][:4], [x for x in b if x not in a][:4]))
    if archive and not mid:
        attempt(mon, "saving_the_loaded", lambda: q.save(os.path.abspath("again.zip")))
        mon.event("saved_again")
        x, y = contents(archive), contents("again.zip")
        auto = any(AUTONAME.match(os.path.splitext(k)[0]) for k in x)
        if mon.check(sorted(x) == sorted(y), "saved_again_other_files", lambda: "files %s, saved again %s" % (sorted(set(x) - set(y)), sorted(set(y) - set(x)))):
            for k in x:
                mon.check(dsame(strip(x[k]), strip(y[k])), "saved_again_other_contents", lambda: "%s is %s, saved again %s" % (k, tell(x[k]), tell(y[k])))
    if rng.random() < .6:
        for m in (model, q):
            without_outputters(m)
        if raster:
            mon.event("raster_models")
            if not np.array_equal(getattr(q.map, "raster", None), model.map.raster):
                mon.violation("raster_map_loses_land", "the loaded map has another raster (%s, was %s) and projection %s" % (q.map.raster.shape, model.map.raster.shape, q.map.projection))
                return
        ta = attempt(mon, "running", lambda: trace(model, n))
        tb = attempt(mon, "running_the_loaded", lambda: trace(q, n))
        compare_traces(mon, S, ta, tb)
    mon.state((form, tuple(sorted(set(kinds))), S["map"], mid, len(a)))


def names(mon, model, q):
    a = [(p, o.name) for p, o in reach(model) if type(o).__name__ not in NAMEFREE]
    b = [(p, o.name) for p, o in reach(q) if type(o).__name__ not in NAMEFREE]
    mon.check(len(a) == len(b) and all(x == y or AUTONAME.match(str(x[1])) for x, y in zip(a, b)), "names_are_lost", lambda: "names %s, loaded %s" % ([x for x in a if x not in b][:5], [y for y in b if y not in a][:5]))


def tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as fd:
                out[os.path.relpath(p, root)] = hashlib.sha1(fd.read()).hexdigest()
    return out


def legacy(root, bad, how, mon):
    """gnome.persist.load unpacks next to the archive, and nowhere else"""
    from gnome.persist import load
    home = os.path.join(root, "a", "d", "here")
    os.makedirs(home)
    mine = os.path.join(home, "bad.zip")
    shutil.copy(bad, mine)
    before = tree(root)
    old_cwd, old_tmp = os.getcwd(), tempfile.tempdir
    try:
        tempfile.tempdir = home
        os.chdir(home)
        try:
            load(mine)
        except BaseException as e:      # noqa: B902  (whatever it makes of it, only where it writes is judged)
            if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)) and blame(e) != "code":
                raise
    finally:
        os.chdir(old_cwd)
        tempfile.tempdir = old_tmp
    after = tree(root)
    rel = os.path.relpath(home, root) + os.sep
    out = {k for k in after if k not in before and not k.startswith(rel)} | {k for k in before if after.get(k) != before[k]}
    mon.check(not out, "loading_writes_outside", lambda: "loading an archive (%s) with persist.load wrote %s" % (how, sorted(out)))
    mon.event("persist_load")
    shutil.rmtree(home)


def damage(S, model, kinds, rng, mon):
    """everything hostile stays below the scratch folder: cwd and temporary files are three levels down"""
    from gnome.model import Model
    from gnome.persist import is_savezip_valid
    root = os.path.abspath("box")
    tmp = os.path.join(root, "a", "b", "tmp")
    work = os.path.join(root, "a", "c", "work")
    os.makedirs(tmp)
    os.makedirs(work)
    good = os.path.join(root, "good.zip")
    attempt(mon, "saving", lambda: model.save(good))
    with zipfile.ZipFile(good) as z:
        members = [(n, z.read(n)) for n in z.namelist()]
    docs = [k for k, (n, _) in enumerate(members) if n.endswith(".json")]
    how = str(rng.choice(["cut", "flip", "missing", "notjson", "emptydoc", "dotdot", "absolute", "nested", "noref", "version", "notzip", "otherclass", "hugejson", "bomb"]))
    mon.ctx["damage"] = how
    bad = os.path.join(work, "bad.zip")
    must = True
    data = open(good, "rb").read()
    if how == "cut":
        open(bad, "wb").write(data[:int(rng.integers(0, len(data)))])
    elif how == "flip":
        # inside the compressed bytes of one member
        with zipfile.ZipFile(good) as z:
            infos = [f for f in z.infolist() if f.compress_size > 20]
            other = [f for f in infos if not f.filename.endswith(".json")]
            if other and rng.random() < .5:
                infos = other
                mon.event("data_file_flipped")
            f = infos[int(rng.integers(len(infos)))]
            at = f.header_offset + 30 + len(f.filename.encode()) + 5 + int(rng.integers(f.compress_size - 10))
        d = bytearray(data)
        d[at] ^= 1 << int(rng.integers(8))
        open(bad, "wb").write(bytes(d))
    elif how == "notzip":
        open(bad, "wb").write(rng.integers(0, 256, int(rng.integers(0, 3000))).astype(np.uint8).tobytes())
    else:
        new = list(members)
        if how == "missing":
            k = docs[int(rng.integers(len(docs)))]
            del new[k]
        elif how == "notjson":
            k = docs[int(rng.integers(len(docs)))]
            new[k] = (new[k][0], new[k][1][:int(rng.integers(0, max(1, len(new[k][1]) - 2)))])
        elif how == "emptydoc":
            k = docs[int(rng.integers(len(docs)))]
            new[k] = (new[k][0], b"{}")
        elif how == "noref":
            k = docs[-1]
            d = json.loads(new[k][1])
            for key in ("map",):
                d[key] = "nothing here.json"
            new[k] = (new[k][0], json.dumps(d).encode())
        elif how == "otherclass":
            k = docs[int(rng.integers(len(docs)))]
            d = json.loads(new[k][1])
            d["obj_type"] = str(rng.choice(["os.system", "gnome.nothing.Here", "builtins.eval", "gnome.environment.Nothing"]))
            new[k] = (new[k][0], json.dumps(d).encode())
        elif how == "version":
            new = [(n, b if n != "version.txt" else [b"x", b"", b"-3", b"99", b"5\n", b"5"][int(rng.integers(6))]) for n, b in new]
            must = None
        elif how in ("dotdot", "absolute", "nested"):
            evil = {"dotdot": "../" * int(rng.integers(1, 3)) + "evil.txt", "absolute": os.path.join(root, "abs", "evil.txt"), "nested": "sub/dir/../../../evil.txt"}[how]
            os.makedirs(os.path.join(root, "abs"), exist_ok=True)
            new.insert(int(rng.integers(len(new) + 1)), (evil, b"owned"))
            must = False
            mon.event("escape_attempts")
        elif how == "hugejson":
            new.append(("big.json", json.dumps([int(x) for x in rng.integers(0, 10**9, 130000)]).encode()))
            must = None
        elif how == "bomb":
            size = 400000
            if rng.random() < .6:       # not extreme, but more than allowed
                size = int(400000 / rng.uniform(65, 400))
                new.append(("zeros.dat", rng.integers(0, 256, size).astype(np.uint8).tobytes() + b"\0" * (400000 - size)))
            else:
                new.append(("zeros.dat", b"\0" * size))
            must = None
        with zipfile.ZipFile(bad, "w", compression=zipfile.ZIP_DEFLATED) as z:
            for n, b in new:
                z.writestr(zipfile.ZipInfo(n) if n.startswith("/") else n, b)
    valid = None
    old_tmp, old_cwd = tempfile.tempdir, os.getcwd()
    before = tree(root)
    open_ok = zipfile.is_zipfile(bad)
    try:
        tempfile.tempdir = tmp
        os.chdir(work)
        valid = is_savezip_valid(bad)
        mon.check(is_savezip_valid(good) is True, "good_archive_called_invalid", lambda: "the archive as it was saved is called invalid")
        outcome, q, err = "loaded", None, None
        try:
            q = Model.load(bad)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)) and blame(e) != "code":
                raise
            outcome, err = type(e).__name__, e
    finally:
        tempfile.tempdir = old_tmp
        os.chdir(old_cwd)
    after = tree(root)
    mon.event("damaged")
    legacy(root, bad, how, mon)
    intmp = os.path.relpath(tmp, root) + os.sep + "gnome."
    new = {k for k in after if k not in before and not k.startswith(intmp)} | {k for k in before if after.get(k) != before[k]}
    mon.check(not new, "loading_writes_outside", lambda: "loading an archive (%s) wrote %s" % (how, sorted(new)))
    mon.check(not isinstance(err, (SystemExit, KeyboardInterrupt)), "loading_ends_the_process", lambda: "loading a damaged archive (%s) raises %r" % (how, err))
    if how in ("dotdot", "nested", "flip", "cut", "notzip", "hugejson", "bomb"):
        mon.check(valid is False, "bad_archive_called_valid", lambda: "an archive with damage %r is called valid" % how)
    if must:
        mon.event("damaged_refused")
        same_q = q is not None and isinstance(q, Model) and all(not same(getattr(model, k, None), getattr(q, k, None), k) for k in nodes(model))
        mon.check(outcome != "loaded" or same_q and how == "flip", "damaged_archive_is_loaded",
                  lambda: "an archive damaged by %r loads to %s" % (how, "an equal model" if same_q else repr(q)[:200]))
    elif must is False:
        same_q = q is not None and isinstance(q, Model) and all(not same(getattr(model, k, None), getattr(q, k, None), k) for k in nodes(model))
        mon.check(outcome != "loaded" or same_q, "unexpected_member_changes_model", lambda: "an archive with an extra member (%s) loads to another model" % how)
    mon.state(("damage", how, outcome, valid))
