"""Native code under AddressSanitizer and UndefinedBehaviorSanitizer: legal and hostile workloads, each in a process of its own."""
PROPERTY = "P24"
KIND = "asan"
N = {"quick": 1500, "thorough": 20000}
BUDGET = {"quick": 240, "thorough": 2400}
RULE = "(kind of workload, kind of file or call, kind of damage or of hostile argument, refused or carried out)"
NEED = ["process_watched", "legal_workload", "land_check_anywhere", "polygons_degenerate", "tide_damaged", "shio_damaged", "cats_damaged", "ptcur_damaged", "gridcur_damaged", "netcdf_damaged",
        "refused", "usable_after_refusal", "mover_no_elements", "mover_many_elements", "mover_uncertain", "cycle_mover", "component_mover", "reference_replaced", "grid_wind", "layered", "list_of_files", "long_path", "random_and_rise", "file_as_long_as_the_buffer", "ptcur_triangles_made", "topology_damaged", "cycle_patterns"]
ASSUMES = ["a path that no workload runs is not judged", "counts in damaged files are changed by little: what a request for more memory than there is does is not judged"]

import datetime as dt
import gc
import importlib
import json
import os
import re
import select
import signal
import time
import traceback
import warnings
import numpy as np
import gn
import curfiles
import vlib
from gn import T0

LEGAL = ["p04", "p09", "p10", "p11", "p12", "p13", "p14", "p25", "p31", "p07", "p05", "p03"]
LIMIT = 90


def log_dir():
    m = re.search(r"log_path=([^:]+)/asan", os.environ.get("ASAN_OPTIONS", ""))
    return m.group(1) if m else "."


def summary(pid):
    s = ""
    for n in ("asan", "ubsan"):
        try:
            s += open(os.path.join(log_dir(), "%s.%d" % (n, pid)), errors="replace").read()
        except OSError:
            pass
    s = s[max(0, s.find("ERROR: AddressSanitizer") - 100):]
    if not s:
        return "", ""
    m = re.search(r"SUMMARY: AddressSanitizer: (\S+)(?: .*? in (\S+))?", s)
    kind, func = (m.group(1), m.group(2)) if m else ("report", None)
    # the first frame within the package's sources
    fr = re.search(r"#\d+ 0x\w+ in (.+?) (?:\S*/)?(?:lib_gnome|cy_gnome|geometry)/", s)
    return "%s in %s" % (kind, (fr.group(1) if fr else func or "?").split("(")[0]), s[:3000]


def name_of(f):
    return f.__name__


def isolated(mon, what, f, *a):
    """f in a process of its own: it may raise, it may not be stopped by a sanitizer, crash or hang"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            m = vlib.Monitor()
            res = "carried out"
            try:
                with warnings.catch_warnings(), np.errstate(all="ignore"):
                    warnings.simplefilter("ignore")
                    res = f(m, *a) or res
            except Exception as e:
                if os.environ.get("P24_LOUD"):
                    traceback.print_exc()
                if vlib.blame(e) == "harness" and name_of(f) != "legal":
                    raise
                res = "error " + type(e).__name__
            b = json.dumps([res, dict(m.events), [list(x) if isinstance(x, tuple) else x for x in m.cstates]]).encode()
            while b:
                b = b[os.write(w, b):]
        except BaseException:
            os.write(w, traceback.format_exc()[-4000:].encode())
            code = 3
        os._exit(code)
    os.close(w)
    buf = b""
    end = time.time() + LIMIT
    hang = False
    while True:
        left = end - time.time()
        if left <= 0:
            hang = True
            os.kill(pid, signal.SIGKILL)
            break
        if select.select([r], [], [], left)[0]:
            b = os.read(r, 65536)
            if not b:
                break
            buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    mon.event("process_watched")
    if hang:
        mon.check(False, "native code does not end: " + what, "more than %d s" % LIMIT)
        return "hang"
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
        mon.check(True, "")
        res, ev, cs = json.loads(buf)
        for k, v in ev.items():
            if k != "verdicts":
                mon.event(k, v)
        return res
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 3:
        raise RuntimeError("harness: child failed: " + buf.decode())
    s, text = summary(pid)
    if re.search(r"#0 \S+ in \S+ \(\S*(libnetcdf|libhdf5)", text):
        # what the library makes of a damaged file is not the package's
        mon.event("stopped_in_library")
        return "library"
    why = s or ("signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "exit %d" % os.WEXITSTATUS(st))
    mon.check(False, "sanitizer: " + why, "%s\n%s" % (what, text))
    return "stopped"


# --- legal workloads: those of the other checks

def legal(m, name, i, seed):
    mod = importlib.import_module(name)
    rng = vlib.seed_all(seed, i)
    mod.case(i, rng, m)
    m.events.clear()


def legal_case(i, rng, mon):
    name = LEGAL[int(rng.integers(len(LEGAL)))]
    k = int(rng.integers(0, 100000))
    mon.ctx["what"] = "%s %d" % (name, k)
    res = isolated(mon, "case %d of %s" % (k, name), legal, name, k, int(rng.integers(1 << 30)))
    mon.event("legal_workload")
    mon.state("legal", name, res)


# --- land check and polygons

ODD = [np.nan, np.inf, -np.inf, 1e300, -1e300, 1e10, -1e10, 2.0 ** 31, -2.0 ** 31, 2.0 ** 31 - 1, 2.0 ** 63, 0., -0., -1e-12, 5e-324, 180., -180., 360., 90., -90.]
FAR = [0., -0., -1e-12, 5e-324, 180., -180., 360., 90., -90., 1e4, -1e4]


def odd(rng, a, p, of=ODD):
    a = np.array(a, dtype=float)
    k = rng.random(a.shape) < p
    a[k] = rng.choice(of, int(k.sum()))
    return a


def land(m, rng):
    from gnome.cy_gnome import cy_land_check as c
    r = gn.random_raster(rng)[1]
    how = int(rng.integers(3))
    if how == 0:
        h, w = r.shape
        n = int(rng.integers(0, 60))
        span = float(rng.choice([.5, 1.5, 100., 1e4]))
        s = (rng.random((n, 2)) - .5) * span * [h, w] + [h / 2., w / 2.]
        e = (rng.random((n, 2)) - .5) * span * [h, w] + [h / 2., w / 2.]
        s, e = (np.clip(x, -2.0 ** 31, 2.0 ** 31 - 1).astype(np.int32) for x in (s, e))
        st = np.full(n, 2, np.int16)
        c.check_land(np.ascontiguousarray(r, dtype=np.uint8), s, e, st, np.zeros((n, 2), np.int32))
    elif how == 1:
        hostile_map(rng, gn.raster_map(rng, r)[0])
    else:
        for _ in range(20):
            a, b = rng.integers(-5, 300, (2, 2))
            c.find_first_pixel(r, (int(a[0]), int(a[1])), (int(b[0]), int(b[1])))
            c.overlap_grid(r.shape[0], r.shape[1], (int(a[0]), int(a[1])), (int(b[0]), int(b[1])))


def hostile_map(rng, mp):
    n = int(rng.choice([1, 2, 50]))
    bb = np.array(mp.map_bounds if mp.map_bounds is not None else [[-1, -1], [1, 1]])
    lo, hi = bb.min(axis=0), bb.max(axis=0)
    q = np.zeros((n, 3))
    q[:, :2] = lo + (hi - lo) * (rng.random((n, 2)) * 3 - 1)
    sc = gn.sample_sc(n, q)
    p = float(rng.choice([0, .1, .5]))
    sc["next_positions"][:] = odd(rng, q + rng.normal(size=q.shape) * [1, 1, 0] * float(rng.choice([1e-3, 1, 100])), p, FAR)
    for _ in range(3):
        mp.beach_elements(sc)
        mp.refloat_elements(sc, 900.)
        sc["next_positions"][:] = odd(rng, q + rng.normal(size=q.shape) * [1, 1, 0] * float(rng.choice([1e-3, 1, 100])), p, FAR)
    x = odd(rng, [*((lo + (hi - lo) * rng.random(2)).tolist()), 0.], p)
    for f in (mp.on_map, mp.on_land, mp.in_water, mp.allowable_spill_position):
        try:
            f(x)
        except Exception:
            pass


def land_case(i, rng, mon):
    res = isolated(mon, "land check", land, rng)
    mon.event("land_check_anywhere")
    mon.state("land", res, i % 3)


def polys(m, rng):
    from gnome.utilities.geometry import cy_point_in_polygon as c
    from gnome.utilities.geometry.polygons import PolygonSet
    from gnome.utilities.geometry import PinP
    n = int(rng.choice([0, 1, 2, 3, 4, 50]))
    k = int(rng.choice([0, 1, 2, 7, 100]))
    P = odd(rng, rng.random((n, 2)) * 4 - 2, float(rng.choice([0, 0, .3])))
    if rng.random() < .3 and n > 2:
        P[-1] = P[0]
    if rng.random() < .2 and n:
        P[:] = P[0]
    Q = odd(rng, rng.random((k, 2)) * 4 - 2, float(rng.choice([0, .2])))
    calls = [lambda: c.point_in_poly(P, Q[0]), lambda: c.points_in_poly(P, Q), lambda: c.points_in_poly(P, np.column_stack([Q, Q[:, :1]])), lambda: c.points_in_poly(P, Q[0]),
             lambda: PinP.CrossingsTest(P, Q[0]), lambda: many(rng, c, Q), lambda: polyset(rng)]
    out = []
    for j in rng.permutation(len(calls)):
        try:
            calls[j]()
        except Exception as e:
            out.append(type(e).__name__)


def many(rng, c, Q):
    c.points_in_polys(rng.random((int(rng.integers(0, 9)), int(rng.integers(0, 9)), 2)) * 2, Q)


def polyset(rng):
    from gnome.utilities.geometry.polygons import PolygonSet
    s = PolygonSet()
    for _ in range(int(rng.integers(0, 5))):
        s.append(rng.random((int(rng.integers(0, 5)), 2)))
    for j in range(-7, 8):
        try:
            s[j]
        except IndexError:
            pass


def polys_case(i, rng, mon):
    res = isolated(mon, "point in polygon", polys, rng)
    mon.event("polygons_degenerate")
    mon.state("polygons", res)


# --- damaged files

TOKENS = ["", "x", "-1", "0", "1", "2", "99", "1e9", "-1e9", "nan", "inf", "-", ".", "1.5.2", "[TIME]", "Topology", "Vertices", "DAGTree", "BoundarySegments", "a" * 300, "b" * 5000, "9" * 30, "\t", "%s%n", "\x80\xff"]


def damage(rng, text):
    """one or two things wrong with a text file; returns what and the new text"""
    b = text
    what = []
    for _ in range(int(rng.choice([1, 1, 1, 2, 3]))):
        k = int(rng.integers(9))
        lines = b.split("\n")
        if k == 0:
            b = b[:int(rng.integers(0, len(b) + 1))]
            what.append("cut short")
        elif k == 1 and len(lines) > 1:
            j = int(rng.integers(len(lines)))
            del lines[j:j + int(rng.choice([1, 1, 2, 20]))]
            b = "\n".join(lines)
            what.append("lines missing")
        elif k == 2:
            j = int(rng.integers(len(lines)))
            lines[j:j] = [lines[j]] * int(rng.choice([1, 1, 20]))
            b = "\n".join(lines)
            what.append("lines twice")
        elif k == 3:
            j = int(rng.integers(len(lines) if rng.random() < .4 else min(len(lines), 14)))
            tk = re.split(r"([\s,]+)", lines[j])
            z = int(rng.integers(len(tk)))
            tk[z] = TOKENS[int(rng.integers(len(TOKENS)))]
            lines[j] = "".join(tk)
            b = "\n".join(lines)
            what.append("another word")
        elif k == 4:
            j = int(rng.integers(len(lines) if rng.random() < .4 else min(len(lines), 14)))
            nums = list(re.finditer(r"-?\d+", lines[j]))
            if nums:
                z = nums[int(rng.integers(len(nums)))]
                v = int(z.group())
                v = [v + 1, v - 1, -v, v * 3, 0, -1, v + 7][int(rng.integers(7))]
                lines[j] = lines[j][:z.start()] + str(v) + lines[j][z.end():]
            b = "\n".join(lines)
            what.append("another number")
        elif k == 5:
            j = int(rng.integers(len(lines)))
            lines.insert(j, ["", " ", "\r", "#", "some words", "1 2 3 4 5 6 7 8 9 10 11 12"][int(rng.integers(6))])
            b = "\n".join(lines)
            what.append("a line too many")
        elif k == 6:
            j = int(rng.integers(len(lines)))
            lines[j] = lines[j][:int(rng.integers(0, len(lines[j]) + 1))]
            b = "\n".join(lines)
            what.append("a line cut")
        elif k == 7 and len(b):
            j = int(rng.integers(len(b)))
            b = b[:j] + chr(int(rng.choice([0, 9, 10, 13, 32, 34, 48, 57, 65, 127, 200, 255]))) + b[j + 1:]
            what.append("another character")
        elif k == 8 and len(lines) > 2:
            a, z = sorted(int(x) for x in rng.integers(0, len(lines), 2))
            lines[a], lines[z] = lines[z], lines[a]
            b = "\n".join(lines)
            what.append("lines swapped")
    return "+".join(sorted(set(what))) or "nothing", b


def put(name, text):
    with open(name, "wb") as fd:
        fd.write(text if isinstance(text, bytes) else text.encode("latin-1", "replace"))


def attempt(m, f):
    try:
        f()
        return "carried out"
    except Exception as e:
        if os.environ.get("P24_LOUD"):
            traceback.print_exc()
        if vlib.blame(e) == "harness":
            raise
        m.event("refused")
        return "refused"


def tide_text(rng):
    n = int(rng.choice([1, 2, 10]))
    t = [T0 + dt.timedelta(hours=k) for k in range(n)]
    L = ["Some Station", "-75.26,39.14", str(rng.choice(["knots", "mps", "miles per hour", "cfs,HILL,1,1,1"]))]
    L += ["%d,%d,%d,%d,%d,%.3f,0" % (x.day, x.month, x.year, x.hour, x.minute, rng.normal()) for x in t]
    return "\n".join(L) + "\n"


def tide(m, rng):
    from gnome.environment import Tide
    ok = tide_text(rng)
    what, bad = damage(rng, ok)

    def use(f):
        t = Tide(f)
        for h in (-1000, 0, .5, 3, 1e5):
            t.cy_obj.get_time_value(int(1583020800 + h * 3600))
    put("a.ossm", bad)
    res = attempt(m, lambda: use("a.ossm"))
    put("b.ossm", ok.replace("cfs,HILL,1,1,1", "knots"))
    use("b.ossm")
    if res == "refused":
        m.event("usable_after_refusal")
    m.event("tide_damaged")
    return "%s: %s" % (what, res)


def shio_text(rng):
    import p11
    f = rng.uniform(.8, 1.3, len(p11.AMP)) * rng.uniform(.5, 4)
    s = p11.SHIO % ("32.0333", "-81.0", " ".join("%.4f" % x for x in f * p11.AMP), " ".join("%.1f" % x for x in p11.PHASE))
    if rng.random() < .6:
        s = s.replace("Type=H", "Type=C").split("HighTime")[0]
        for k in ("MinBefFloodTime", "FloodTime", "MinBefEbbTime", "EbbTime", "FloodSpdRatio", "EbbSpdRatio", "MinBFloodSpd", "MinBFloodDir", "MaxFloodSpd", "MaxFloodDir", "MinBEbbSpd", "MinBEbbDir", "MaxEbbSpd", "MaxEbbDir"):
            s += "%s=%s 1\n" % (k, "1.0" if "Ratio" in k else "0.0")
    return s


def shio(m, rng):
    from gnome.environment import Tide
    ok = shio_text(rng)
    what, bad = damage(rng, ok)

    def use(f, hours=(0, .5, 300, 1e4, 1e6, -1e6)):
        t = Tide(f)
        for h in hours:
            t.cy_obj.get_time_value(int(1583020800 + h * 3600))
    put("a.shio", bad)
    res = attempt(m, lambda: use("a.shio"))
    put("b.shio", ok)
    use("b.shio", (0, .5, 300))
    if res == "refused":
        m.event("usable_after_refusal")
    m.event("shio_damaged")
    return "%s: %s" % (what, res)


def drive(m, mv, rng, box, n=None, hours=(0,)):
    """run a mover over elements in and around a box"""
    n = int(rng.choice([0, 1, 2, 40, 3000])) if n is None else n
    none, n = n == 0, max(n, 1)
    q = np.zeros((n, 3))
    x0, y0, x1, y1 = box
    q[:, 0] = x0 + (x1 - x0) * (rng.random(n) * 1.6 - .3)
    q[:, 1] = y0 + (y1 - y0) * (rng.random(n) * 1.6 - .3)
    q[:, 2] = rng.choice([0., 0., 3., 5., 12., 200.], n)
    unc = bool(rng.random() < .5)
    sc = gn.sample_sc(n, q, uncertain=unc, arrays=("windages", "rise_vel"), windage_range=(.01, .04))
    if none:
        sc["status_codes"][:] = 12
        sc.model_step_is_done()
        n = 0
    st = sc["status_codes"]
    st[rng.random(n) < .1] = 3
    if n and rng.random() < .2:
        sc["positions"][:] = odd(rng, sc["positions"], .05)
    mv.prepare_for_model_run()
    h = int(rng.choice([900, 60, -900, 86400]))
    t = T0 + dt.timedelta(hours=float(rng.choice(list(hours) + [-50, 0, .5, 50])))
    for k in range(3):
        try:
            mv.prepare_for_model_step(sc, h, t)
            mv.get_move(sc, h, t)
        except Exception:
            m.event("step_refused")
        if n and k == 1 and rng.random() < .5:
            st[rng.random(n) < .3] = 12
        mv.model_step_is_done(sc)
        t += dt.timedelta(seconds=h)
    if n == 0:
        m.event("mover_no_elements")
    if n > 1000:
        m.event("mover_many_elements")
    if unc and n:
        m.event("mover_uncertain")


def asks(m, mv, rng, t):
    """what the display asks of a gridded mover"""
    for name, a in (("get_grid_data", ()), ("get_center_points", ()), ("get_scaled_velocities", (t,)), ("get_bounds", ()), ("get_cells", ()), ("get_points", ()), ("get_triangles", ()), ("get_ice_fields", (t,)),
                    ("get_ice_velocities", (t,)), ("get_movement_velocities", (t,))):
        g = getattr(mv, name, None)
        if g is None:
            continue
        try:
            g(*a)
            m.event("asked")
        except Exception:
            m.event("ask_refused")


BOX = (-70.5, 43.0, -70.0, 43.4)


def mesh(rng, n=None):
    while True:
        M = curfiles.Mesh(rng, int(rng.choice([4, 8, 30])) if n is None else n, BOX)
        try:
            return M, M.tree(rng)
        except ValueError:
            continue


def cats_text(rng):
    M, tr = mesh(rng)
    u, v = rng.normal(size=(2, len(M.t)))
    curfiles.cats("ok.cur", M, tr, u, v)
    return open("ok.cur").read()


def cats(m, rng):
    from gnome.movers import CatsMover, ComponentMover
    from gnome.environment import Tide, Wind
    ok = cats_text(rng)
    what, bad = damage(rng, ok) if rng.random() < .85 else ("nothing", ok)
    put("a.cur", bad)
    kind = int(rng.integers(3))

    def use(f):
        if kind == 2:
            mv = ComponentMover(f, filename2=f if rng.random() < .5 else None, wind=Wind(timeseries=[(T0, (5., 90.)), (T0 + dt.timedelta(hours=20), (9., 20.))], units="m/s"), scale_refpoint=(-70.25, 43.2, 0.))
            if rng.random() < .3:
                mv.use_averaged_winds = True
                mv.extrapolate = bool(rng.random() < .5)
                mv.past_hours_to_average = int(rng.choice([0, 3, 24]))
            m.event("component_mover")
        elif kind == 1:
            put("t.ossm", tide_text(rng).replace("cfs,HILL,1,1,1", "knots"))
            mv = CatsMover(f, tide=Tide("t.ossm"), scale=True, scale_refpoint=(-70.25, 43.2, 0.), scale_value=1.)
        else:
            mv = CatsMover(f)
        drive(m, mv, rng, BOX)
        asks(m, mv, rng, T0)
        if kind and rng.random() < .6:
            # what the mover referred to goes away
            if kind == 2:
                mv.wind = Wind(timeseries=[(T0, (3., 10.))], units="m/s") if rng.random() < .5 else None
            else:
                mv.tide = Tide("t.ossm") if rng.random() < .5 else None
            gc.collect()
            m.event("reference_replaced")
            drive(m, mv, rng, BOX)
            asks(m, mv, rng, T0)
    res = attempt(m, lambda: use("a.cur"))
    use("ok.cur")
    if res == "refused":
        m.event("usable_after_refusal")
    m.event("cats_damaged")
    return "%s: %s" % (what, res)


def grid_use(m, rng, f, wind=False, cycle=False, topo=None):
    from gnome.movers.c_current_movers import c_GridCurrentMover, CurrentCycleMover, IceMover
    from gnome.movers.c_wind_movers import c_GridWindMover
    ext = bool(rng.random() < .5)
    if wind:
        mv = c_GridWindMover(f, topology_file=topo, extrapolate=ext)
        m.event("grid_wind")
    elif cycle:
        from gnome.environment import Tide
        put("t.ossm", tide_text(rng).replace("cfs,HILL,1,1,1", "knots") if rng.random() < .3 else shio_text(rng))
        mv = CurrentCycleMover(f, topology_file=topo or f, tide=Tide("t.ossm"))
        m.event("cycle_mover")
    else:
        mv = c_GridCurrentMover(f, topology_file=topo, extrapolate=ext)
        mv.num_method = str(rng.choice(["Euler", "RK4"]))
    drive(m, mv, rng, BOX)
    asks(m, mv, rng, T0)
    if topo is None and not cycle and rng.random() < .3 and hasattr(mv, "export_topology"):
        mv.export_topology("topo.dat")


def times(rng):
    n = int(rng.choice([1, 2, 3]))
    return [T0 + dt.timedelta(hours=6. * k) for k in range(n)]


def ring(rng):
    """points on a ring, in order, and within it, for a file that leaves the triangles to the reader"""
    k, n = int(rng.integers(3, 20)), int(rng.integers(0, 15))
    a = np.arange(k) * 2 * np.pi / k
    x0, y0, x1, y1 = BOX
    q = np.concatenate([np.column_stack([np.cos(a), np.sin(a)]), rng.uniform(-.5, .5, (n, 2))])
    M = curfiles.Mesh.__new__(curfiles.Mesh)
    M.p = np.round((np.array([x0 + x1, y0 + y1]) / 2 + q * np.array([x1 - x0, y1 - y0]) / 2) * 1e6).astype(int)
    M.t = M.adj = np.zeros((0, 3), int)
    return M, k


def ptcur(m, rng):
    if rng.random() < .3:
        M, k = ring(rng)
        T = times(rng)
        U, V = rng.normal(size=(2, len(T), len(M.p)))
        curfiles.ptcur("ok.cur", M, None, T, U, V, bnd=[k])
        s = open("ok.cur").read().replace("Topology\t0\n", "WaterBoundaries\t2\t%d\n0\n%d\n" % (k, k - 1) if rng.random() < .5 else "")
        put("ok.cur", s)
        what, bad = damage(rng, s) if rng.random() < .85 else ("nothing", s)
        put("a.cur", bad)
        res = attempt(m, lambda: grid_use(m, rng, "a.cur"))
        attempt(m, lambda: grid_use(m, rng, "ok.cur"))
        m.event("ptcur_triangles_made")
        return "%s: %s" % (what, res)
    M, tr = mesh(rng)
    T = times(rng) if rng.random() < .8 else None
    U, V = rng.normal(size=(2, len(T or [0]), len(M.p)))
    curfiles.ptcur("ok.cur", M, tr if rng.random() < .7 else None, T, U, V)
    what, bad = damage(rng, open("ok.cur").read()) if rng.random() < .85 else ("nothing", open("ok.cur").read())
    put("a.cur", bad)
    cyc = rng.random() < .3
    res = attempt(m, lambda: grid_use(m, rng, "a.cur", cycle=cyc))
    attempt(m, lambda: grid_use(m, rng, "ok.cur", cycle=cyc))
    if res == "refused":
        m.event("usable_after_refusal")
    m.event("ptcur_damaged")
    return "%s: %s" % (what, res)


def gridcur(m, rng):
    R, C = int(rng.integers(2, 7)), int(rng.integers(2, 7))
    T = times(rng) if rng.random() < .8 else None
    U, V = rng.normal(size=(2, len(T or [0]), R, C))
    curfiles.gridcur("ok.cur", R, C, BOX, T, U, V, form=str(rng.choice(["corner", "bounds"])))
    wind = rng.random() < .3
    s = open("ok.cur").read()
    if wind:
        s = s.replace("[GRIDCURTIME]", "[GRIDWINDTIME]")
        put("ok.cur", s)
    if rng.random() < .1:
        # lengths at which a reader in pieces comes to the end of its buffer
        s = s.rstrip("\n")
        s += " " * (int(rng.choice([100000, 100256, 200000, 200256])) + int(rng.integers(-8, 9)) - len(s))
        put("ok.cur", s)
        m.event("file_as_long_as_the_buffer")
    what, bad = damage(rng, s) if rng.random() < .85 else ("nothing", s)
    put("a.cur", bad)
    res = attempt(m, lambda: grid_use(m, rng, "a.cur", wind=wind))
    attempt(m, lambda: grid_use(m, rng, "ok.cur", wind=wind))
    if res == "refused":
        m.event("usable_after_refusal")
    m.event("gridcur_damaged")
    return "%s: %s" % (what, res)


def netcdf(m, rng):
    import p12
    R, C = int(rng.integers(2, 7)), int(rng.integers(2, 7))
    hours = np.arange(int(rng.choice([1, 2, 3]))) * 6. + (T0 - p12.T0).total_seconds() / 3600 - 1
    U, V = rng.normal(size=(2, len(hours), R, C))
    x0, y0, x1, y1 = BOX
    lat, lon = np.linspace(y0, y1, R), np.linspace(x0, x1, C)
    wind = rng.random() < .3
    curvi = rng.random() < .5
    if curvi:
        yy, xx = np.meshgrid(lat, lon, indexing="ij")
        dy, dx = lat[1] - lat[0], lon[1] - lon[0]
        xx, yy = xx + .15 * dx * np.sin(yy * 9), yy + .15 * dy * np.cos(xx * 7)
        layers = None
        if rng.random() < .4:
            kind = str(rng.choice(["sigma", "roms", "levels"]))
            L = int(rng.choice([1, 2, 4]))
            lev = np.linspace(0, 1, L) if kind != "levels" else np.arange(L) * 5.
            layers = kind, lev, rng.uniform(0, 40, yy.shape) if rng.random() < .9 else None
            U, V = rng.normal(size=(2, len(hours), L, R, C))
            m.event("layered")
        p12.curv("ok.nc", yy, xx, hours, U, V, layers=layers)
    else:
        depths = None
        if rng.random() < .4:
            depths = np.arange(int(rng.choice([1, 2, 4]))) * 5.
            U, V = rng.normal(size=(2, len(hours), len(depths), R, C))
            m.event("layered")
        p12.reg("ok.nc", lat, lon, hours, U, V, names=("air_u", "air_v") if wind else ("water_u", "water_v"), fill=-999. if rng.random() < .5 else None, depths=depths)
    s = open("ok.nc", "rb").read()
    what, bad = ("cut short", s[:int(rng.integers(0, len(s)))]) if rng.random() < .3 else odd_netcdf(rng, curvi)
    put("a.nc", bad)
    res = attempt(m, lambda: grid_use(m, rng, "a.nc", wind=wind))
    attempt(m, lambda: grid_use(m, rng, "ok.nc", wind=wind))
    if curvi and rng.random() < .5:
        from gnome.movers.c_current_movers import c_GridCurrentMover
        attempt(m, lambda: c_GridCurrentMover("ok.nc").export_topology("top.dat"))
        if os.path.exists("top.dat"):
            m.event("topology_written")
            attempt(m, lambda: grid_use(m, rng, "ok.nc", topo="top.dat"))
            what, bad = damage(rng, open("top.dat", encoding="latin-1").read())
            put("top2.dat", bad)
            res = attempt(m, lambda: grid_use(m, rng, "ok.nc", topo="top2.dat"))
            what = "topology " + what
            m.event("topology_damaged")
    if rng.random() < .4:
        cycle_patterns(m, rng)
    if rng.random() < .4:
        # a list of files
        deep = "d" * 60 + "/"
        lines = ["NetCDF Files"] + ["[FILE] " + str(rng.choice(["ok.nc", "a.nc", "none.nc", "", "ok.nc", os.path.abspath("ok.nc"), "./" * 90 + "ok.nc", "n" * 300 + ".nc", "n" * 900 + ".nc", deep * 3 + "ok.nc"])) for k in range(int(rng.integers(0, 4)))]
        for k in range(1, len(lines)):
            if rng.random() < .15:
                lines[k] = str(rng.choice(["", "[FILE]", "[FILE", "x", "ok.nc"]))
        put("list.txt", "\n".join(lines) + str(rng.choice(["", "\n", "\n\n\n"])))
        res = attempt(m, lambda: grid_use(m, rng, "list.txt", wind=wind))
        what = "list " + what
        m.event("list_of_files")
    if rng.random() < .15:
        # a path that is longer than path variables in the native code
        attempt(m, lambda: grid_use(m, rng, "./" * int(rng.choice([110, 122, 125, 126, 127, 128, 140, 600])) + str(rng.choice(["ok.nc", "k.nc"])), wind=wind))
        m.event("long_path")
    if res == "refused":
        m.event("usable_after_refusal")
    m.event("netcdf_damaged")
    return "%s: %s" % (what, res)


def cycle_patterns(m, rng):
    """patterns for the stages of a tide, with a tide, without one, and after the last of them"""
    import p12
    from gnome.environment import Tide
    from gnome.movers.c_current_movers import c_GridCurrentMover, CurrentCycleMover
    M, _ = mesh(rng)
    M.ll = np.float32(M.p / 1e6)
    n = int(rng.choice([1, 2, 3, 4, 5, 12]))
    U, V = rng.normal(size=(2, n, len(M.p)))
    p12.tri("cyc.nc", M, np.arange(n) * 1., U, V, str(rng.choice(["cw", "ccw"])), False, rng)
    put("t.shio", shio_text(rng))

    def use():
        c_GridCurrentMover("cyc.nc").export_topology("cyc.dat")
        mv = CurrentCycleMover("cyc.nc", topology_file="cyc.dat", **({"tide": Tide("t.shio")} if rng.random() < .6 else {}))
        q = np.zeros((5, 3))
        q[:, :2] = M.ll.mean(axis=0)
        sc = gn.sample_sc(5, q)
        mv.prepare_for_model_run()
        for h in list(range(0, 16)) + [40, 70, 74, 100, 3, -60, 2000]:
            t = T0 + dt.timedelta(hours=float(h), minutes=float(rng.integers(0, 60)))
            try:
                mv.prepare_for_model_step(sc, 900, t)
                mv.get_move(sc, 900, t)
            except Exception:
                m.event("step_refused")
            mv.model_step_is_done(sc)
        asks(m, mv, rng, T0)
    attempt(m, use)
    m.event("cycle_patterns")


def odd_netcdf(rng, curvi):
    """a sound NetCDF file that lacks something or has too little of it"""
    import netCDF4
    dims = {"time": int(rng.choice([0, 1, 2])), "yc" if curvi else "lat": int(rng.choice([1, 2, 4])), "xc" if curvi else "lon": int(rng.choice([1, 2, 4]))}
    left = []
    with netCDF4.Dataset("odd.nc", "w", format="NETCDF3_CLASSIC") as d:
        if rng.random() < .8:
            d.grid_type = "curvilinear" if curvi else "regular"
        else:
            left.append("grid type")
        y, x = list(dims)[1:]
        for k, v in dims.items():
            d.createDimension(k, v)
        spec = [("time", ("time",))] + ([("latc", (y, x)), ("lonc", (y, x))] if curvi else [("lat", (y,)), ("lon", (x,))]) + [("water_u", ("time", y, x)), ("water_v", ("time", y, x))]
        for n, dd in spec:
            if rng.random() < .12:
                left.append(n)
                continue
            if rng.random() < .1:
                dd = dd[:-1] or dd
                left.append("dimension")
            v = d.createVariable(n, "f4" if n.startswith("water") else "f8", dd)
            if n == "time" and rng.random() < .9:
                v.units = str(rng.choice(["hours since 2020-03-01 00:00:00", "hours since 2020-03-01 00:00:00", "days since 2020-3-1", "since", "hours since", "fortnights since 2020-03-01", "hours since then", "hours-of-the-model-clock-as-counted since 2020-03-01", "hours starting-from-the-day 2020-03-01"]))
            elif rng.random() < .5:
                v.units = str(rng.choice(["m/s", "", "a very long unit " * 8]))
            shape = v.shape
            v[:] = (43. + np.arange(int(np.prod(shape))) * .1).reshape(shape) if n.startswith("lat") else (-70.5 + np.arange(int(np.prod(shape))) * .1).reshape(shape) if n.startswith("lon") else np.arange(int(np.prod(shape))).reshape(shape)
    return "odd: " + "+".join(sorted(set(left))), open("odd.nc", "rb").read()


def simple(m, rng):
    """movers without files"""
    from gnome.movers import RandomMover, RandomMover3D, RiseVelocityMover, SimpleMover
    from gnome.movers.c_wind_movers import PointWindMover
    from gnome.environment import Wind
    w = Wind(timeseries=[(T0 + dt.timedelta(hours=6 * k), (abs(rng.normal()) * 10, 90. * k)) for k in range(int(rng.choice([1, 2, 5])))], units="m/s")
    ms = [RandomMover(), RandomMover3D(), RiseVelocityMover(), PointWindMover(w)]
    for mv in ms:
        drive(m, mv, rng, BOX)
    m.event("random_and_rise")


KINDS = [("land", land_case), ("polygons", polys_case), ("legal", legal_case)]
FILES = [tide, shio, cats, ptcur, gridcur, netcdf]


def case(i, rng, mon):
    k = i % 12
    if k < 2:
        legal_case(i, rng, mon)
    elif k == 2:
        land_case(i, rng, mon)
    elif k == 3:
        polys_case(i, rng, mon)
    elif k == 4:
        mon.state("movers", isolated(mon, "movers", simple, rng))
    else:
        f = (FILES + [cats, ptcur, gridcur, netcdf])[int(rng.integers(10))]
        mon.ctx["what"] = f.__name__
        res = isolated(mon, f.__name__, f, rng)
        mon.state(f.__name__, res)
