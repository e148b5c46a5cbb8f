"""Workload building blocks shared by the checks (imports the package under test)."""
import datetime as dt
import os

import numpy as np

import gnome
from gnome.spill_container import SpillContainer
from gnome.spills import Spill
from gnome.spills.release import PointLineRelease
from gnome.basic_types import oil_status

T0 = dt.datetime(2020, 2, 28, 22, 47, 13)      # not a round time: runs cross midnight, a leap day and the end of a month
DATA = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "py_gnome", "tests", "unit_tests", "sample_data")


def sample_sc(n, positions=None, time=T0, uncertain=False, arrays=(), windage_range=None,
              windage_persist=None, substance=None, amount=0, time_step=900):
    """a real SpillContainer holding n released elements"""
    import gnome.array_types as at
    rel = PointLineRelease(release_time=time, start_position=(0., 0., 0.), num_elements=n)
    kw = {}
    if windage_range is not None:
        kw["windage_range"] = windage_range
    if windage_persist is not None:
        kw["windage_persist"] = windage_persist
    sp = Spill(release=rel, amount=amount, units="kg", **(dict(substance=substance) if substance is not None else {}))
    for k, v in kw.items():
        setattr(sp.substance, k, v)
    sc = SpillContainer(uncertain)
    sc.spills.add(sp)
    ats = dict(sp.all_array_types)
    for a in arrays:
        ats[a] = at.gat(a)
    sc.prepare_for_model_run(ats, time_step)
    sc.release_elements(time, time + dt.timedelta(seconds=time_step))
    if len(sc["positions"]) != n:
        raise RuntimeError("harness: %d elements instead of %d" % (len(sc["positions"]), n))
    if positions is not None:
        sc["positions"][:] = positions
        sc["next_positions"][:] = positions
        sc["last_water_positions"][:] = positions
    return sc


def random_raster(rng, wmax=220, wmin=8, style=None):
    w, h = (int(x) for x in rng.integers(wmin, wmax, 2))
    r = np.zeros((w, h), np.uint8)
    style = style or rng.choice(["islands", "specks", "diag", "ring", "coast", "noise", "walls"])
    if style in ("islands", "specks"):
        for _ in range(int(rng.integers(1, 14))):
            a, b = int(rng.integers(0, w)), int(rng.integers(0, h))
            s, u = (int(x) for x in (rng.integers(1, 14, 2) if style == "islands" else rng.integers(1, 3, 2)))
            r[a:a + s, b:b + u] = 1
    elif style == "diag":
        for _ in range(int(rng.integers(1, 4))):
            a, b = int(rng.integers(0, w)), int(rng.integers(0, h))
            sg = int(rng.choice([-1, 1]))
            for k in range(int(rng.integers(3, max(4, min(w, h))))):
                if 0 <= a + k < w and 0 <= b + sg * k < h:
                    r[a + k, b + sg * k] = 1
    elif style == "ring":
        a, b = w // 4, h // 4
        r[a:w - a, b:h - b] = 1
        if w - 2 * a > 4 and h - 2 * b > 4:
            r[a + 1:w - a - 1, b + 1:h - b - 1] = 0
    elif style == "coast":
        edge = np.clip(np.cumsum(rng.integers(-2, 3, w)) + h // 3, 1, h - 2)
        for k in range(w):
            r[k, :edge[k]] = 1
    elif style == "noise":
        r[:] = rng.random((w, h)) < rng.choice([.003, .02, .15])
    elif style == "walls":
        for _ in range(int(rng.integers(1, 5))):
            if rng.random() < .5:
                r[int(rng.integers(w)), :int(rng.integers(1, h + 1))] = 1
            else:
                r[:int(rng.integers(1, w + 1)), int(rng.integers(h))] = 1
    return style, r


def raster_map(rng, r, halflife=1., lat0=None, cell=None, **kw):
    """a RasterMap whose projection maps each raster cell to an equal box of degrees"""
    from gnome.maps import RasterMap
    from gnome.utilities.projections import GeoProjection
    w, h = r.shape
    cell = cell if cell is not None else float(rng.choice([0.001, 0.01, 0.03]))
    lon0 = float(rng.uniform(-150, 150))
    lat0 = float(rng.uniform(-55, 50)) if lat0 is None else lat0
    bb = ((lon0, lat0), (lon0 + w * cell, lat0 + h * cell))
    m = RasterMap(raster=r, projection=GeoProjection(bb, (w, h)), refloat_halflife=halflife, **kw)
    return m, bb, cell


def cellcoords(bb, cell, h, pos):
    """independent float cell coordinates (x right, y down from the top)"""
    x = (pos[:, 0] - bb[0][0]) / cell
    y = (bb[1][1] - pos[:, 1]) / cell
    return np.c_[x, y]


# ------------------------------------------------------------------ whole models
OILS = ["oil_gas", "oil_jetfuels", "oil_diesel", "oil_4", "oil_crude", "oil_6", "oil_benzene", "oil_ans_mp", "oil_bahia"]


def sec(s):
    return dt.timedelta(seconds=float(s))


def random_spec(rng, oil=None, weather=None, cleanup=None, land=None, uncertain=None, back=False, movers=None,
                nsteps=None, ts=None, kinds=None, nmax=40, nspills=None, random_movers=True, late=True):
    """a random model set-up as plain data (build() makes a Model of it, any number of times)"""
    S = dict(seed=int(rng.integers(1 << 30)))
    S["ts"] = ts = int(ts if ts is not None else rng.choice([300, 600, 900, 900, 1800, 3600, 3600, 977]))
    S["n"] = n = int(nsteps if nsteps is not None else rng.integers(4, 14))
    S["extra"] = int(rng.choice([0, 0, ts // 3]))          # duration is not a multiple of the step
    S["uncertain"] = bool(rng.random() < .3) if uncertain is None else uncertain
    S["back"] = back
    S["lat0"], S["lon0"] = float(rng.uniform(-55, 55)), float(rng.uniform(-170, 170))
    # map
    mk = rng.choice(["open", "bounds", "raster", "raster"]) if land is None else ("raster" if land else "open")
    S["map"] = mk = str(mk)
    S["cell"] = cell = float(rng.choice([.003, .01, .03]))
    S["style"], S["raster"] = random_raster(rng, 70, 12)
    S["halflife"] = float(rng.choice([.1, 1., 6., -1.]))
    w, h = S["raster"].shape
    S["bounds"] = float(rng.choice([.02, .1, .5]))
    centers = [(S["lon0"], S["lat0"])]
    if mk == "raster":
        wat = np.argwhere(S["raster"] == 0)
        centers = []
        for _ in range(4):
            c = wat[int(rng.integers(len(wat)))]
            centers.append((S["lon0"] + (c[0] + .5) * cell, S["lat0"] + (h - c[1] - .5) * cell))
    # substance
    isoil = bool(rng.random() < .5) if oil is None else oil
    S["oil"] = str(rng.choice(OILS)) if isoil else None
    a = float(rng.choice([.0, .01, .02]))
    S["windage"] = (a, a + float(rng.choice([0, .01, .03])))
    S["persist"] = int(rng.choice([-1, 900, 3600]))
    # spills
    S["spills"] = []
    for k in range(int(nspills if nspills is not None else rng.choice([1, 1, 2, 3]))):
        kind = str(rng.choice(kinds or ["point", "line", "moving", "polygon", "grid", "pertimestep", "contin", "custom", "subsurf", "contpoly"]))
        c = centers[int(rng.integers(len(centers)))]
        s = cell * .3 if mk == "raster" else S["bounds"] * .3
        start = 0 if back else float(rng.choice([0, 0, ts, ts * 1.5, ts * 2.3, 60.] + ([-ts * 1.4] if late == "early" else [])))
        dur = 0.
        if kind in ("moving", "pertimestep", "contin", "contpoly") and not back:
            dur = float(rng.choice([ts * 3, ts * .5, ts * 2.6, ts * 7.25, ts, 100.]))
        nst = max(1, int(np.ceil(dur / ts)))
        N = int(rng.integers(nst, max(nst + 1, nmax)))
        if rng.random() < .15:
            N = nst
        sp = dict(kind=kind, start=start, dur=dur, n=N, c=c, d=(float(rng.uniform(-s, s)), float(rng.uniform(-s, s))),
                  z=float(rng.choice([0, 0, 5., 20.])) if kind in ("point", "contin", "custom", "moving") else 10. if kind == "subsurf" else 0.,
                  amount=float(rng.choice([10., 1000., 3e4, 1.])), units=str(rng.choice(["kg", "ton", "bbl", "m^3", "gal"])),
                  on=bool(rng.random() > .08), s=s, per=int(rng.integers(1, 6)),
                  res=(int(rng.integers(2, 5)), int(rng.integers(2, 5))), pseed=int(rng.integers(1 << 30)), nco=int(rng.integers(1, 6)))
        S["spills"].append(sp)
    if not any(p["on"] for p in S["spills"]):
        S["spills"][0]["on"] = True
    # environment
    S["wind"] = [(float(t * 3600), float(rng.uniform(0, 16)), float(rng.uniform(0, 360))) for t in range(int(rng.choice([1, 1, 4])))]
    S["temp"] = float(rng.choice([1., 8., 15., 24., 30.]))
    S["salinity"] = float(rng.choice([35., 0., 20.]))
    S["waveheight"] = None if rng.random() < .7 else float(rng.choice([.2, 1.5, 3.]))
    S["sediment"] = float(rng.choice([5., 0.5, 50.]))
    # movers
    S["movers"] = []
    vel = cell * 111000 / ts if mk == "raster" else S["bounds"] * 111000 / ts / 3
    for m in (movers if movers is not None else ["simple", "random", "wind", "simple2", "pwind", "rand3d", "rise"]):
        if movers is None and rng.random() < .55:
            continue
        if m in ("random", "rand3d") and not random_movers:
            continue
        S["movers"].append((str(m), (float(rng.normal(0, vel)), float(rng.normal(0, vel)), float(rng.choice([0, 0, 1e-3]))),
                            float(rng.choice([1e3, 1e5])), (None if rng.random() < .7 else (float(rng.uniform(0, 3) * ts), float(rng.uniform(3, 9) * ts)))))
    # weatherers
    S["weatherers"] = []
    if isoil and weather is not False:
        for x in ["evaporation", "dispersion", "emulsification"]:
            if rng.random() < .5 if weather is None else x in weather:
                S["weatherers"].append((x, None if rng.random() < .85 else (float(rng.uniform(0, 3) * ts), float(rng.uniform(3, 9) * ts)), str(rng.choice(["D&S1988", "Li2017"]))))
        if cleanup is None or cleanup:
            for x in ["skim", "burn", "chem", "beach"]:
                if rng.random() < .2 if cleanup is None else x in cleanup:
                    st = float(rng.choice([ts, 1.5 * ts, .3 * ts, 0]))
                    ln = float(rng.choice([3 * ts, .4 * ts, 2.7 * ts]))
                    S["weatherers"].append((x, (st, st + ln), dict(amount=float(rng.choice([.1, 3., 200.])), eff=float(rng.choice([1., .5, .0, .3])), frac=float(rng.uniform(.05, 1)),
                                                                   area=float(rng.choice([5., 100.])), thick=float(rng.choice([.004, .02])), units=str(rng.choice(["kg", "bbl", "m^3"])))))
    return S


def build_map(S):
    from gnome.maps import GnomeMap, RasterMap
    from gnome.utilities.projections import GeoProjection
    if S["map"] == "open":
        return GnomeMap()
    if S["map"] == "bounds":
        b = S["bounds"]
        x, y = S["lon0"], S["lat0"]
        return GnomeMap(map_bounds=[(x - b, y - b), (x - b, y + b), (x + b, y + b), (x + b, y - b)])
    if S["map"] == "param":
        from gnome.maps import ParamMap
        return ParamMap((S["lon0"], S["lat0"]), S["shore"], S["bearing"], "m", refloat_halflife=S["halflife"])
    w, h = S["raster"].shape
    bb = ((S["lon0"], S["lat0"]), (S["lon0"] + w * S["cell"], S["lat0"] + h * S["cell"]))
    m = RasterMap(raster=S["raster"].copy(), projection=GeoProjection(bb, (w, h)), refloat_halflife=S["halflife"])
    m.map_bounds = [(bb[0][0], bb[0][1]), (bb[0][0], bb[1][1]), (bb[1][0], bb[1][1]), (bb[1][0], bb[0][1])]
    return m


def custom_positions(sp):
    r = np.random.default_rng(sp["pseed"])
    return [(sp["c"][0] + float(r.uniform(-1, 1)) * sp["s"], sp["c"][1] + float(r.uniform(-1, 1)) * sp["s"], sp["z"]) for _ in range(sp["nco"])]


def polygons(sp):
    import shapely.geometry as sg
    r = np.random.default_rng(sp["pseed"])
    out = []
    for k in range(1 + sp["nco"] % 3):
        cx, cy = sp["c"][0] + (k - 1) * sp["s"] * .8, sp["c"][1]
        th = np.sort(r.uniform(0, 2 * np.pi, 7))
        th = np.linspace(0, 2 * np.pi, 8)[:-1] + r.uniform(-.2, .2, 7)
        rad = r.uniform(.3, 1, 7) * sp["s"] * .3
        out.append(sg.Polygon(np.c_[cx + rad * np.cos(th), cy + rad * np.sin(th)]))
    return out


def build_spill(S, sp, substance):
    from gnome.spills import Spill
    from gnome.spills.release import PointLineRelease, PolygonRelease, GridRelease, Release, SubsurfaceRelease
    t = T0 + sec(sp["start"])
    e = t + sec(sp["dur"]) if sp["dur"] else None
    a = (sp["c"][0], sp["c"][1], sp["z"])
    b = (sp["c"][0] + sp["d"][0], sp["c"][1] + sp["d"][1], sp["z"])
    k = sp["kind"]
    if k == "point":
        rel = PointLineRelease(release_time=t, start_position=a, num_elements=sp["n"])
    elif k == "line":
        rel = PointLineRelease(release_time=t, start_position=a, end_position=b, num_elements=sp["n"])
    elif k in ("moving",):
        rel = PointLineRelease(release_time=t, end_release_time=e, start_position=a, end_position=b, num_elements=sp["n"])
    elif k == "contin":
        rel = PointLineRelease(release_time=t, end_release_time=e, start_position=a, num_elements=sp["n"])
    elif k == "pertimestep":
        rel = PointLineRelease(release_time=t, end_release_time=e, start_position=a, num_per_timestep=sp["per"])
    elif k in ("polygon", "contpoly"):
        rel = PolygonRelease(release_time=t, end_release_time=e, polygons=polygons(sp), num_elements=sp["n"])
    elif k == "grid":
        s = sp["s"]
        rel = GridRelease(t, ((a[0] - s, a[1] - s), (a[0] + s, a[1] + s)), sp["res"])
    elif k == "custom":
        rel = Release(release_time=t, custom_positions=custom_positions(sp), num_elements=sp["n"])
    elif k == "subsurf":
        from gnome.utilities.distributions import UniformDistribution
        rel = SubsurfaceRelease(distribution=UniformDistribution(1e-4, 1e-3), distribution_type="droplet_size",
                                release_time=t, start_position=a, num_elements=sp["n"])
    return Spill(release=rel, substance=substance, amount=sp["amount"], units=sp["units"], on=sp["on"])


def build_substance(S):
    from gnome.spills.gnome_oil import GnomeOil
    from gnome.spills.substance import NonWeatheringSubstance
    s = GnomeOil(S["oil"]) if S["oil"] else NonWeatheringSubstance()
    s.windage_range = S["windage"]
    s.windage_persist = S["persist"]
    return s


def build_env(S):
    from gnome.environment import Wind, Water, Waves
    from gnome.basic_types import datetime_value_2d
    ser = np.zeros(len(S["wind"]), dtype=datetime_value_2d)
    for k, (t, s, d) in enumerate(S["wind"]):
        ser["time"][k] = T0 + sec(t)
        ser["value"][k] = (s, d)
    wind = Wind(timeseries=ser, units="m/s", extrapolation_is_allowed=True)
    kw = {}
    if S["waveheight"] is not None:
        kw = dict(wave_height=S["waveheight"])
    water = Water(temperature=S["temp"], salinity=S["salinity"], sediment=S["sediment"],
                  units=dict(temperature="C", salinity="psu", sediment="mg/l", wave_height="m", fetch="m",
                             kinematic_viscosity="m^2/s", density="kg/m^3"), **kw)
    waves = Waves(wind, water)
    return wind, water, waves


def build_movers(S, wind):
    from gnome.movers import SimpleMover, RandomMover, RandomMover3D, RiseVelocityMover, PointWindMover, WindMover
    out = []
    for name, v, d, ar in S["movers"]:
        kw = {}
        if ar is not None:
            kw["active_range"] = (T0 + sec(ar[0]), T0 + sec(ar[1]))
        if name == "simple":
            m = SimpleMover((v[0], v[1], 0.), **kw)
        elif name == "simple2":
            m = SimpleMover((v[1] * .5, v[0] * .3, v[2]), **kw)
        elif name == "random":
            m = RandomMover(diffusion_coef=d, **kw)
        elif name == "rand3d":
            m = RandomMover3D(**kw)
        elif name == "rise":
            if not any(p["kind"] == "subsurf" for p in S["spills"]):
                continue
            m = RiseVelocityMover(**kw)
        elif name == "wind":
            m = PointWindMover(wind, **kw)
        elif name == "pwind":
            m = WindMover(wind, **kw)
        elif name == "cur":
            from gnome.movers.py_current_movers import CurrentMover
            from gnome.environment.environment_objects import SteadyUniformCurrent
            m = CurrentMover(SteadyUniformCurrent(float(np.hypot(v[0], v[1])), float(np.degrees(np.arctan2(v[0], v[1])) % 360)), uncertain_duration=2.5 * S["ts"], **kw)
        elif name == "cats":
            import curfiles
            from gnome.movers import CatsMover
            r = np.random.default_rng(S["seed"])
            while True:
                M = curfiles.Mesh(r, 14, (S["lon0"] - 3, S["lat0"] - 3, S["lon0"] + 3, S["lat0"] + 3), holes=0)
                try:
                    tr = M.tree(r)
                    break
                except ValueError:
                    continue
            curfiles.cats("gn.cur", M, tr, r.normal(0, 1, len(M.t)) * v[0], r.normal(0, 1, len(M.t)) * v[1])
            m = CatsMover("gn.cur", uncertain_duration=2.5 * S["ts"] / 3600, **kw)
        out.append(m)
    return out


def build_weatherers(S, wind, water, waves):
    from gnome import weatherers as W
    out = []
    for name, ar, o in S["weatherers"]:
        kw = {}
        if ar is not None:
            kw["active_range"] = (T0 + sec(ar[0]), T0 + sec(ar[1]))
        if name == "evaporation":
            w = W.Evaporation(water, wind, **kw)
        elif name == "dispersion":
            w = W.NaturalDispersion(waves, water, algorithm=o, **kw)
        elif name == "dissolution":
            w = W.Dissolution(waves, wind, **kw)
        elif name == "emulsification":
            w = W.Emulsification(waves, **kw)
        elif name == "biodegradation":
            w = W.Biodegradation(waves, **kw)
        elif name == "skim":
            w = W.Skimmer(amount=o["amount"], units=o["units"], efficiency=o["eff"], water=water, **kw)
        elif name == "burn":
            w = W.Burn(area=o["area"], thickness=o["thick"], efficiency=o["eff"], wind=wind, water=water, **kw)
        elif name == "chem":
            w = W.ChemicalDispersion(o["frac"], waves=waves, efficiency=o["eff"], **kw)
        elif name == "beach":
            w = W.Beaching(active_range=kw["active_range"], units=o["units"], water=water,
                           timeseries=[(kw["active_range"][0] + (kw["active_range"][1] - kw["active_range"][0]) / 2, o["amount"]),
                                       (kw["active_range"][1], o["amount"] * .7)])
        out.append(w)
    return out


def build(S, uncertain=None, cache=False, outputters=(), start=None):
    from gnome.model import Model
    sg = -1 if S["back"] else 1
    model = Model(start_time=start or T0, time_step=sg * S["ts"], duration=sec(sg * (S["ts"] * S["n"] + S["extra"])), map=build_map(S),
                  uncertain=S["uncertain"] if uncertain is None else uncertain, cache_enabled=cache)
    sub = build_substance(S)
    for sp in S["spills"]:
        model.spills += build_spill(S, sp, sub)
    wind, water, waves = build_env(S)
    if S["oil"] or any(m[0] in ("wind", "pwind") for m in S["movers"]):
        model.environment += [wind, water, waves]
    for m in build_movers(S, wind):
        model.movers += m
    for w in build_weatherers(S, wind, water, waves):
        model.weatherers += w
    for o in outputters:
        model.outputters += o
    return model


def seed_model(n):
    """as the random streams the model uses are seeded"""
    import gnome.utilities.rand as r
    r.seed(n % (1 << 31))


def snapshot(model):
    """deep copy of everything the model shows after a step: [(uncertain, arrays, mass balance, time)]"""
    out = []
    for sc in model.spills.items():
        out.append((sc.uncertain, {k: np.array(v) for k, v in sc.data_arrays.items()}, dict(sc.mass_balance), sc.current_time_stamp))
    return out


def brief(S):
    return "%s ts=%d map=%s/%s spills=%s movers=%s weatherers=%s T=%s u=%s" % (
        S["oil"], S["ts"], S["map"], S["style"], [(p["kind"], p["n"]) for p in S["spills"]], [m[0] for m in S["movers"]],
        [w[0] for w in S["weatherers"]], S["temp"], S["uncertain"])
