"""every kind of model component with settings drawn at random: (class, constructor arguments)"""
import datetime as dt
import os
import numpy as np
import gn
import curfiles
from gn import T0, sec


def pick(rng, *a):
    return a[int(rng.integers(len(a)))]


def num(rng, lo, hi, nd=None):
    """a number in a range, in the forms people write: round, with many digits, at an end"""
    u = rng.random()
    x = lo + (hi - lo) * rng.random()
    if u < .15:
        return float(lo)
    if u < .3:
        return float(hi)
    if u < .5:
        return float(min(hi, max(lo, round(x, 2))))
    return float(x)


def when(rng):
    s = int(rng.integers(0, 4 * 86400))
    if rng.random() < .6:
        s = s // 3600 * 3600
    return T0 + sec(s)


def some(rng, kw, **opts):
    """each of the optional settings with probability 1/2"""
    for k in opts:
        if rng.random() < .5:
            kw[k] = opts[k]() if callable(opts[k]) else opts[k]
    return kw


def process(rng, kw):
    from gnome.utilities.inf_datetime import InfDateTime
    u = rng.random()
    if u < .5:
        a = when(rng) if rng.random() < .7 else InfDateTime("-inf")
        b = (a if isinstance(a, dt.datetime) else T0) + sec(int(rng.integers(3600, 400000))) if rng.random() < .7 else InfDateTime("inf")
        kw["active_range"] = (a, b)
    return some(rng, kw, on=lambda: bool(rng.random() < .5))


def names(rng, kw):
    if rng.random() < .6:
        kw["name"] = pick(rng, "thing", "a name with spaces", "Île d'Or", "50% wind", "x.y", "a" * 60, "under_score-dash", "1", "{0}", "c:d")
    return kw


# ---------------------------------------------------------------- environment
WU = ("m/s", "knots", "mph", "km/hr")


def wind(rng, longest=3600):
    n = int(rng.integers(1, 7))
    t = [when(rng)]
    for _ in range(n - 1):
        t.append(t[-1] + sec(int(rng.integers(1, 40)) * pick(rng, 1, 60, longest)))
    ts = [(a, (num(rng, 0, 40), num(rng, 0, 359.9))) for a in t]
    kw = dict(timeseries=ts, units=pick(rng, *WU))
    some(rng, kw, latitude=lambda: num(rng, -80, 80), longitude=lambda: num(rng, -179, 179), speed_uncertainty_scale=lambda: num(rng, 0, 1),
         extrapolation_is_allowed=lambda: bool(rng.random() < .5), description=lambda: pick(rng, "Boston buoy", "été"), source_id=lambda: "44013", source_type=lambda: pick(rng, "manual", "buoy", "nws", "undefined"))
    return "gnome.environment.Wind", names(rng, kw)


def water(rng):
    kw = {}
    units = {}
    if rng.random() < .6:
        u = pick(rng, "K", "C", "F")
        units["temperature"] = u
        kw["temperature"] = {"K": num(rng, 272, 310), "C": num(rng, -1, 36), "F": num(rng, 30, 97)}[u]
    if rng.random() < .6:
        units["salinity"] = "psu"
        kw["salinity"] = num(rng, 0, 40)
    if rng.random() < .5:
        units["sediment"] = pick(rng, "kg/m^3", "mg/l", "part per thousand")
        kw["sediment"] = num(rng, 0, 10)
    if rng.random() < .5:
        units["wave_height"] = pick(rng, "m", "ft", "cm")
        kw["wave_height"] = num(rng, 0, 8)
    if rng.random() < .5:
        units["fetch"] = pick(rng, "m", "km", "mi", "ft")
        kw["fetch"] = num(rng, 1, 200)
    if units and rng.random() < .9:
        kw["units"] = dict(units)
    elif "temperature" in kw:
        kw["temperature"] = num(rng, 272, 310)
    return "gnome.environment.Water", names(rng, kw)


def tide(rng):
    n = "tide_%d.txt" % int(rng.integers(1e6))
    t = T0 - sec(86400)
    with open(n, "w") as fd:
        fd.write("Station\n-75.26,39.14\nknots\n")
        for i in range(6):
            fd.write("%d,%d,%d,%d,%d,%.2f,0\n" % (t.day, t.month, t.year, t.hour, t.minute, rng.uniform(-2, 2)))
            t += sec(86400)
    return "gnome.environment.Tide", names(rng, some(rng, dict(filename=os.path.abspath(n)), scale_factor=lambda: num(rng, .1, 3)))


def waves(rng):
    return "gnome.environment.Waves", names(rng, some(rng, {}, wind=lambda: make(rng, wind), water=lambda: make(rng, water)))


def short_wind(rng):
    return wind(rng, 360)


def running_average(rng):
    # the native running average takes time with the square of the number of hours, so the wind is short
    return "gnome.environment.RunningAverage", names(rng, some(rng, dict(wind=make(rng, short_wind)), past_hours_to_average=lambda: int(rng.integers(1, 20))))


def steady(rng):
    return "gnome.environment.environment_objects.SteadyUniformCurrent", dict(speed=num(rng, 0, 5), direction=num(rng, 0, 359), **({"units": pick(rng, "m/s", "knots", "cm/s")} if rng.random() < .5 else {}))


def times(rng, n):
    t = [when(rng)]
    for _ in range(n - 1):
        t.append(t[-1] + sec(int(rng.integers(1, 40)) * pick(rng, 1, 60, 3600)))
    return t


def time_obj(rng):
    return "gnome.environment.gridded_objects_base.Time", names(rng, dict(data=times(rng, int(rng.integers(1, 8)))))


def ts_scalar(rng, cls="gnome.environment.timeseries_objects_base.TimeseriesData", lo=-5, hi=300, units="m"):
    n = int(rng.integers(2, 7))
    from gnome.environment.gridded_objects_base import Time
    return cls, names(rng, dict(time=Time(data=times(rng, n)), data=np.array([num(rng, lo, hi) for _ in range(n)]), units=units))


def ts_vector(rng):
    from gnome.environment.gridded_objects_base import Time
    from gnome.environment.timeseries_objects_base import TimeseriesData
    n = int(rng.integers(2, 7))
    t = Time(data=times(rng, n))
    return "gnome.environment.timeseries_objects_base.TimeseriesVector", names(rng, dict(
        time=t, units="m/s", variables=[TimeseriesData(name=k, data=np.array([num(rng, -9, 9) for _ in range(n)]), time=t, units="m/s") for k in "uvw"[:int(rng.integers(2, 4))]]))


def temperature_ts(rng):
    return ts_scalar(rng, "gnome.environment.environment_objects.TemperatureTS", 272, 300, "K")


def wind_ts(rng):
    from gnome.environment.gridded_objects_base import Time
    from gnome.environment.timeseries_objects_base import TimeseriesData
    n = int(rng.integers(2, 7))
    t = Time(data=times(rng, n))
    return pick(rng, "gnome.environment.environment_objects.WindTS", "gnome.environment.environment_objects.CurrentTS"), names(rng, dict(
        time=t, units="m/s", variables=[TimeseriesData(name=k, data=np.array([num(rng, -9, 9) for _ in range(n)]), time=t, units="m/s") for k in "uv"]))


# ---------------------------------------------------------------- movers
def simple_mover(rng):
    return "gnome.movers.SimpleMover", process(rng, names(rng, some(rng, dict(velocity=tuple(num(rng, -2, 2) for _ in range(3))), uncertainty_scale=lambda: num(rng, 0, 1))))


def random_mover(rng):
    return "gnome.movers.RandomMover", process(rng, names(rng, some(rng, {}, diffusion_coef=lambda: num(rng, 0, 1e6), uncertain_factor=lambda: num(rng, 1, 5))))


def random3d(rng):
    return "gnome.movers.RandomMover3D", process(rng, names(rng, some(rng, {}, vertical_diffusion_coef_above_ml=lambda: num(rng, 0, 20), vertical_diffusion_coef_below_ml=lambda: num(rng, 0, 2), mixed_layer_depth=lambda: num(rng, 1, 50),
                                                                    horizontal_diffusion_coef_above_ml=lambda: num(rng, 0, 2e5), horizontal_diffusion_coef_below_ml=lambda: num(rng, 0, 2e3), surface_is_allowed=lambda: bool(rng.random() < .5))))


def rise_mover(rng):
    return "gnome.movers.RiseVelocityMover", process(rng, names(rng, {}))


def point_wind(rng):
    return "gnome.movers.PointWindMover", process(rng, names(rng, some(rng, dict(wind=make(rng, wind)), uncertain_duration=lambda: num(rng, .5, 48), uncertain_time_delay=lambda: num(rng, 0, 24), uncertain_speed_scale=lambda: num(rng, .1, 4), uncertain_angle_scale=lambda: num(rng, .1, 1))))


def py_wind(rng):
    return "gnome.movers.WindMover", process(rng, names(rng, some(rng, dict(wind=make(rng, wind)), uncertain_duration=lambda: num(rng, 600, 90000), uncertain_time_delay=lambda: num(rng, 0, 24000), uncertain_speed_scale=lambda: num(rng, .1, 4),
                                                                 uncertain_angle_scale=lambda: num(rng, .1, 1), scale_value=lambda: num(rng, .1, 3), default_num_method=lambda: pick(rng, "RK2", "RK4", "Euler"))))


def py_current(rng):
    return "gnome.movers.CurrentMover", process(rng, names(rng, some(rng, dict(current=make(rng, steady)), uncertain_duration=lambda: num(rng, 600, 90000), uncertain_time_delay=lambda: num(rng, 0, 24000), uncertain_along=lambda: num(rng, 0, 1),
                                                                    uncertain_cross=lambda: num(rng, 0, 1), scale_value=lambda: num(rng, .1, 3), default_num_method=lambda: pick(rng, "RK2", "RK4", "Euler"))))


BOX = (-.05, 39.95, .05, 40.08)


def cats_path(rng, folder="."):
    n = os.path.abspath(os.path.join(folder, "cats_%d.cur" % int(rng.integers(1e6))))
    while True:
        m = curfiles.Mesh(rng, int(rng.integers(6, 12)), BOX)
        try:
            tr = m.tree(rng)
        except ValueError:
            continue
        break
    curfiles.cats(n, m, tr, *rng.normal(size=(2, len(m.t))))
    return n


def grid_path(rng, folder="."):
    n = os.path.abspath(os.path.join(folder, "grid_%d.cur" % int(rng.integers(1e6))))
    r, c = int(rng.integers(3, 6)), int(rng.integers(3, 6))
    t = [T0 + sec(3600 * 6 * i) for i in range(-4, 20)]
    curfiles.gridcur(n, r, c, BOX, t, rng.uniform(-1, 1, (len(t), r, c)), rng.uniform(-1, 1, (len(t), r, c)))
    return n


# ---------------------------------------------------------------- weatherers
def evaporation(rng):
    return "gnome.weatherers.Evaporation", process(rng, names(rng, some(rng, {}, wind=lambda: make(rng, wind), water=lambda: make(rng, water))))


def natural_dispersion(rng):
    return "gnome.weatherers.NaturalDispersion", process(rng, names(rng, some(rng, {}, waves=lambda: make(rng, waves), water=lambda: make(rng, water), algorithm=lambda: pick(rng, "D&S1988", "Li2017"))))


def emulsification(rng):
    return "gnome.weatherers.Emulsification", process(rng, names(rng, some(rng, {}, waves=lambda: make(rng, waves))))


def window(rng, kw):
    a = when(rng)
    kw["active_range"] = (a, a + sec(int(rng.integers(1, 200)) * pick(rng, 60, 900, 3600)))
    return kw


def skimmer(rng):
    return "gnome.weatherers.Skimmer", window(rng, names(rng, some(rng, dict(amount=num(rng, 1, 5000), units=pick(rng, "kg", "bbl", "gal", "m^3", "ton")), efficiency=lambda: num(rng, 0, 1), water=lambda: make(rng, water), on=lambda: bool(rng.random() < .5))))


def burn(rng):
    return "gnome.weatherers.Burn", window(rng, names(rng, some(rng, dict(area=num(rng, 1, 5000), thickness=num(rng, .5, 5), area_units=pick(rng, "m^2", "ft^2", "km^2"), thickness_units=pick(rng, "m", "cm", "in")), efficiency=lambda: num(rng, 0, 1),
                                                              water=lambda: make(rng, water), wind=lambda: make(rng, wind), on=lambda: bool(rng.random() < .5))))


def chem(rng):
    return "gnome.weatherers.ChemicalDispersion", window(rng, names(rng, some(rng, dict(fraction_sprayed=num(rng, 0, 1)), efficiency=lambda: num(rng, 0, 1), waves=lambda: make(rng, waves), on=lambda: bool(rng.random() < .5))))


def beaching(rng):
    kw = window(rng, {})
    a, b = kw["active_range"]
    n = int(rng.integers(1, 4))
    ts = [(a + (b - a) * (i + 1) / n, num(rng, 1, 500)) for i in range(n)]
    ts = [(t.replace(microsecond=0), v) for t, v in ts]
    kw["timeseries"] = ts
    kw["active_range"] = (a, ts[-1][0])
    kw["units"] = pick(rng, "kg", "bbl", "m^3", "gal")
    return "gnome.weatherers.Beaching", names(rng, some(rng, kw, water=lambda: make(rng, water), on=lambda: bool(rng.random() < .5)))


def fay(rng):
    return "gnome.weatherers.FayGravityViscous", process(rng, names(rng, some(rng, {}, water=lambda: make(rng, water), thickness_limit=lambda: num(rng, 1e-5, 1e-3))))


def langmuir(rng):
    return "gnome.weatherers.Langmuir", process(rng, names(rng, some(rng, {}, water=lambda: make(rng, water), wind=lambda: make(rng, wind))))


def constant_area(rng):
    return "gnome.weatherers.ConstantArea", process(rng, names(rng, dict(area=num(rng, 1, 1e6))))


def half_life(rng):
    return "gnome.weatherers.HalfLifeWeatherer", process(rng, names(rng, dict(half_lives=tuple(num(rng, 60, 90000) for _ in range(int(rng.integers(1, 5)))))))


def roc_ts(rng):
    t = times(rng, 2 * int(rng.integers(1, 4)))
    return [(t[i], t[i + 1]) for i in range(0, len(t), 2)]


def roc_skim(rng):
    return "gnome.weatherers.roc.Skim", names(rng, dict(timeseries=roc_ts(rng), speed=num(rng, .1, 3), storage=num(rng, 10, 3000), swath_width=num(rng, 10, 300), group=pick(rng, "A", "B", "C"), throughput=num(rng, .1, 1), nameplate_pump=num(rng, 1, 900),
                                                      skim_efficiency_type=pick(rng, "meh", "high"), recovery=num(rng, .1, 1), recovery_ef=num(rng, .1, 1), decant=num(rng, .1, 1), decant_pump=num(rng, 1, 900), discharge_pump=num(rng, 1, 900),
                                                      rig_time=num(rng, 10, 90), transit_time=num(rng, 10, 90)))


def roc_burn(rng):
    return "gnome.weatherers.roc.Burn", names(rng, dict(timeseries=roc_ts(rng), offset=int(rng.integers(1, 5000)), boom_length=int(rng.integers(10, 3000)), boom_draft=int(rng.integers(1, 36)), speed=num(rng, .1, 2), throughput=num(rng, .5, 1), burn_efficiency_type=int(rng.integers(1, 4))))


# ---------------------------------------------------------------- outputters
def out(rng, kw):
    return names(rng, some(rng, kw, on=lambda: bool(rng.random() < .5), output_zero_step=lambda: bool(rng.random() < .5), output_last_step=lambda: bool(rng.random() < .5), output_single_step=lambda: bool(rng.random() < .3),
                           output_timestep=lambda: sec(int(rng.integers(1, 50)) * pick(rng, 60, 900, 3600)), output_start_time=lambda: when(rng)))


def fn(rng, ext):
    return os.path.abspath("out_%d%s" % (int(rng.integers(1e6)), ext))


def netcdf_out(rng):
    return "gnome.outputters.NetCDFOutput", out(rng, some(rng, dict(filename=fn(rng, ".nc")), zip_output=lambda: bool(rng.random() < .5), which_data=lambda: pick(rng, "standard", "most", "all"), compress=lambda: bool(rng.random() < .5), surface_conc=lambda: pick(rng, "kde", None)))


def renderer(rng):
    w = num(rng, -120, 100)
    s = num(rng, -60, 50)
    return "gnome.outputters.Renderer", out(rng, some(rng, dict(output_dir=os.getcwd()), image_size=lambda: (int(rng.integers(10, 900)), int(rng.integers(10, 900))), viewport=lambda: ((w, s), (w + num(rng, .1, 9), s + num(rng, .1, 9))),
                                                      draw_ontop=lambda: pick(rng, "forecast", "uncertain"), formats=lambda: pick(rng, ["png"], ["gif"], ["gif", "png"])))


def weathering_out(rng):
    return "gnome.outputters.WeatheringOutput", out(rng, {})


def oil_budget(rng):
    kw = out(rng, dict(filename=fn(rng, ".csv")))
    for k in ("output_zero_step", "output_last_step", "output_single_step", "output_start_time"):
        kw.pop(k, None)
    return "gnome.outputters.OilBudgetOutput", kw


def geojson_out(rng):
    return "gnome.outputters.TrajectoryGeoJsonOutput", out(rng, some(rng, {}, round_data=lambda: bool(rng.random() < .5), round_to=lambda: int(rng.integers(1, 9)), output_dir=os.getcwd()))


def spill_json(rng):
    return "gnome.outputters.SpillJsonOutput", out(rng, some(rng, {}, _additional_data=lambda: pick(rng, ["mass"], ["density", "viscosity"]), include_uncertain_bounds=lambda: bool(rng.random() < .5)))


def kmz_out(rng):
    return "gnome.outputters.KMZOutput", out(rng, dict(filename=fn(rng, ".kmz")))


def binary_out(rng):
    return "gnome.outputters.BinaryOutput", out(rng, some(rng, dict(filename=fn(rng, "")), zip_output=lambda: bool(rng.random() < .5)))


def shape_out(rng):
    b = lambda: bool(rng.random() < .5)
    return "gnome.outputters.ShapeOutput", out(rng, some(rng, dict(filename=fn(rng, "")), zip_output=b, include_certain_boundary=b, certain_boundary_separate_by_spill=b, certain_boundary_hull_ratio=lambda: num(rng, 0, 1), certain_boundary_hull_allow_holes=b,
                                                         include_uncertain_boundary=b, include_certain_in_uncertain_boundary=b, uncertain_boundary_separate_by_spill=b, uncertain_boundary_hull_ratio=lambda: num(rng, 0, 1), uncertain_boundary_hull_allow_holes=b))


def erma_out(rng):
    b = lambda: bool(rng.random() < .5)
    return "gnome.outputters.ERMADataPackageOutput", out(rng, some(rng, dict(filename=fn(rng, "")), base_folder_name="base", model_folder_name="mod", default_erma_styling=b, certain_layer_name="cl", include_certain_particles=b, uncertain_layer_name="ul",
                                                                  include_uncertain_particles=b, include_certain_boundary=b, certain_boundary_separate_by_spill=b, certain_boundary_hull_ratio=lambda: num(rng, 0, 1), certain_boundary_hull_allow_holes=b))


# ---------------------------------------------------------------- spills
def distribution(rng):
    return pick(rng, lambda: ("gnome.utilities.distributions.UniformDistribution", dict(low=num(rng, 0, .001), high=num(rng, .002, .1))),
                lambda: ("gnome.utilities.distributions.NormalDistribution", dict(mean=num(rng, .01, .1), sigma=num(rng, 1e-4, .002))),
                lambda: ("gnome.utilities.distributions.LogNormalDistribution", dict(mean=num(rng, -3, -1), sigma=num(rng, .1, .4))),
                lambda: ("gnome.utilities.distributions.WeibullDistribution", some(rng, dict(alpha=num(rng, .8, 3), lambda_=num(rng, 1e-4, .01)), min_=lambda: num(rng, 1e-6, 1e-5), max_=lambda: num(rng, .02, .1))))()


def place(rng, z=True):
    return (num(rng, -170, 170), num(rng, -80, 80), num(rng, 0, 100) if z and rng.random() < .5 else 0.)


def rel(rng, kw):
    kw["release_time"] = when(rng)
    if rng.random() < .5:
        kw["end_release_time"] = kw["release_time"] + sec(int(rng.integers(1, 300)) * 900)
    if rng.random() < .3:
        kw["num_per_timestep"] = int(rng.integers(1, 60))
    elif rng.random() < .7:
        kw["num_elements"] = int(rng.integers(1, 3000))
    if rng.random() < .4:
        kw["release_mass"] = num(rng, 1, 1e6)
    return names(rng, kw)


def point_release(rng):
    kw = rel(rng, dict(start_position=place(rng)))
    if rng.random() < .4:
        kw["end_position"] = place(rng)
    return "gnome.spills.release.PointLineRelease", kw


def plain_release(rng):
    return "gnome.spills.release.Release", rel(rng, dict(custom_positions=[place(rng) for _ in range(int(rng.integers(1, 6)))]))


def grid_release(rng):
    w, s = num(rng, -170, 100), num(rng, -80, 40)
    return "gnome.spills.release.GridRelease", some(rng, dict(release_time=when(rng), bounds=((w, s), (w + num(rng, .1, 2), s + num(rng, .1, 2))), resolution=int(rng.integers(2, 8))), release_mass=lambda: num(rng, 0, 1e5))


def subsurface_release(rng):
    return "gnome.spills.release.SubsurfaceRelease", rel(rng, dict(start_position=place(rng), distribution=make(rng, distribution), distribution_type=pick(rng, "droplet_size", "rise_velocity")))


def poly_release(rng):
    polys = []
    for _ in range(int(rng.integers(1, 4))):
        x, y, r = num(rng, -150, 150), num(rng, -60, 60), num(rng, .01, .5)
        a = np.sort(rng.random(int(rng.integers(3, 8)))) * 2 * np.pi
        polys.append(np.stack([x + r * np.cos(a), y + r * np.sin(a)], 1).tolist())
    from shapely.geometry import Polygon
    polys = [Polygon(p) for p in polys]
    kw = rel(rng, dict(polygons=polys))
    kw.pop("num_per_timestep", None)
    if rng.random() < .5:
        kw["thicknesses"] = [num(rng, 1e-4, .1) for _ in polys]
    return "gnome.spills.release.PolygonRelease", kw


RELEASES = [point_release, plain_release, grid_release, subsurface_release, poly_release]


def substance(rng):
    kw = {}
    if rng.random() < .7:
        lo = num(rng, 0, .05)
        kw["windage_range"] = (lo, lo + num(rng, 0, .05))
    if rng.random() < .6:
        kw["windage_persist"] = pick(rng, 900, -1, 3600)
    return kw


def nonweathering(rng):
    return "gnome.spills.substance.NonWeatheringSubstance", names(rng, some(rng, substance(rng), standard_density=lambda: num(rng, 700, 1100)))


def oil(rng):
    return "gnome.spills.gnome_oil.GnomeOil", dict(oil_name=pick(rng, *gn.OILS), **substance(rng))


def spill(rng):
    s = make(rng, pick(rng, oil, nonweathering))
    r = make(rng, pick(rng, point_release, plain_release, grid_release, poly_release, subsurface_release))
    return "gnome.spills.spill.Spill", names(rng, some(rng, dict(release=r, substance=s, amount=num(rng, 1, 1e5), units=pick(rng, "kg", "bbl", "m^3", "gal", "tons")), on=lambda: bool(rng.random() < .5), amount_uncertainty_scale=lambda: num(rng, 0, 1)))


# ---------------------------------------------------------------- maps, projections, initializers
def box(rng):
    w, s = num(rng, -170, 100), num(rng, -80, 40)
    e, n = w + num(rng, .1, 40), s + num(rng, .1, 30)
    return ((w, s), (w, n), (e, n), (e, s))


def plain_map(rng):
    return "gnome.maps.GnomeMap", names(rng, some(rng, {}, map_bounds=lambda: box(rng), spillable_area=lambda: [box(rng)]))


def bna_map(rng):
    n = os.path.abspath("map_%d.bna" % int(rng.integers(1e6)))
    w, s = num(rng, -150, 100), num(rng, -60, 40)
    with open(n, "w") as fd:
        for k in range(int(rng.integers(1, 4))):
            x, y, r = w + rng.random(), s + rng.random(), rng.uniform(.05, .4)
            p = [(x - r, y - r), (x - r, y + r), (x + r, y + r), (x + r, y - r), (x - r, y - r)]
            fd.write('"%d","1",%d\n' % (k, len(p)) + "".join("%.6f,%.6f\n" % q for q in p))
        b = [(w - 1, s - 1), (w - 1, s + 2), (w + 2, s + 2), (w + 2, s - 1), (w - 1, s - 1)]
        fd.write('"Map Bounds","1",5\n' + "".join("%.6f,%.6f\n" % q for q in b))
        if rng.random() < .5:
            fd.write('"SpillableArea","1",5\n' + "".join("%.6f,%.6f\n" % q for q in b))
    return "gnome.maps.MapFromBNA", names(rng, some(rng, dict(filename=n, raster_size=int(pick(rng, 2**14, 2**16, 2**18))), refloat_halflife=lambda: num(rng, 0, 24), shift_lons=lambda: pick(rng, 0, 360, 180)))


def projection(rng):
    w, s = num(rng, -170, 100), num(rng, -80, 40)
    return pick(rng, *("gnome.utilities.projections." + k for k in ("GeoProjection", "FlatEarthProjection", "RegularGridProjection"))), dict(
        bounding_box=((w, s), (w + num(rng, .1, 40), s + num(rng, .1, 30))), image_size=(int(rng.integers(10, 900)), int(rng.integers(10, 900))))


def init_windage(rng):
    return "gnome.spills.initializers.InitWindages", substance(rng)


def init_rise(rng):
    return pick(rng, "gnome.spills.initializers.InitRiseVelFromDist", "gnome.spills.initializers.InitRiseVelFromDropletSizeFromDist"), dict(distribution=make(rng, distribution))


def cats_mover(rng):
    sc = {} if rng.random() < .5 else dict(scale=bool(rng.random() < .7), scale_refpoint=(num(rng, -.02, .02), num(rng, 40.01, 40.03), 0.), scale_value=num(rng, -2, 2))
    return "gnome.movers.CatsMover", process(rng, names(rng, some(rng, dict(filename=cats_path(rng), **sc), tide=lambda: make(rng, tide), uncertain_duration=lambda: num(rng, 1, 90), uncertain_time_delay=lambda: num(rng, 0, 20), down_cur_uncertain=lambda: num(rng, -.9, -.1), up_cur_uncertain=lambda: num(rng, .1, .9),
                                                                   right_cur_uncertain=lambda: num(rng, .1, .9), left_cur_uncertain=lambda: num(rng, -.9, -.1), uncertain_eddy_diffusion=lambda: num(rng, 0, 10), uncertain_eddy_v0=lambda: num(rng, 0, .3))))


def grid_mover(rng):
    return "gnome.movers.c_GridCurrentMover", process(rng, names(rng, some(rng, dict(filename=grid_path(rng)), uncertain_duration=lambda: num(rng, 1, 90), uncertain_time_delay=lambda: num(rng, 0, 20), current_scale=lambda: num(rng, .1, 3), uncertain_along=lambda: num(rng, 0, 1),
                                                                           uncertain_cross=lambda: num(rng, 0, 1), extrapolate=lambda: bool(rng.random() < .5), time_offset=lambda: num(rng, -5, 5), num_method=lambda: pick(rng, "Euler", "RK4"))))


def component_mover(rng):
    return "gnome.movers.ComponentMover", process(rng, names(rng, some(rng, dict(filename1=cats_path(rng), scale_refpoint=(0.005, 40.015, 0.)), filename2=lambda: cats_path(rng), wind=lambda: make(rng, wind), pat1_angle=lambda: num(rng, 0, 359), pat1_speed=lambda: num(rng, 1, 20),
                                                                       pat1_speed_units=lambda: int(rng.integers(1, 4)), pat1_scale_to_value=lambda: num(rng, .01, 2), pat2_angle=lambda: num(rng, 0, 359), pat2_speed=lambda: num(rng, 1, 20), pat2_speed_units=lambda: int(rng.integers(1, 4)),
                                                                       pat2_scale_to_value=lambda: num(rng, .01, 2), scale_by=lambda: int(rng.integers(0, 2)))))


# ---------------------------------------------------------------- making them
def resolve(path):
    import importlib
    mod, _, cls = path.rpartition(".")
    return getattr(importlib.import_module(mod), cls)


def make(rng, maker):
    path, kw = maker(rng)
    return resolve(path)(**kw)


MAKERS = {k: v for k, v in list(globals().items()) if callable(v) and k in
          ("wind water tide waves running_average steady time_obj ts_scalar ts_vector simple_mover random_mover random3d rise_mover point_wind py_wind py_current cats_mover grid_mover component_mover "
           "evaporation natural_dispersion emulsification skimmer burn chem beaching fay langmuir constant_area half_life roc_skim roc_burn "
           "netcdf_out renderer weathering_out oil_budget geojson_out spill_json kmz_out binary_out shape_out erma_out "
           "distribution point_release plain_release grid_release subsurface_release poly_release nonweathering oil spill plain_map bna_map projection init_windage init_rise").split()}
