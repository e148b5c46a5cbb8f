"""The model completes its set-up as documented and refuses what it cannot run."""
PROPERTY = "P33"
KIND = "plain"
N = {"quick": 2400, "thorough": 40000}
BUDGET = {"quick": 75, "thorough": 1800}
RULE = "(kind of object, which of its references were given, allowed to take defaults, how many candidates the environment holds) and (condition of a spill or mover that has to be reported)"
NEED = ["kept", "attached_first", "left_alone", "refused_missing", "off_not_needed", "same_as_explicit", "same_in_any_order", "referenced_joined_environment", "spreading_added", "spreading_own", "second_run",
        "outside_map", "on_land", "late", "early_refused", "all_late", "no_spill", "nothing_to_report", "off_spill_ignored", "mover_elsewhere", "pour_point", "sinker_refused", "one_of_several_refused", "backward_weathering_refused",
        "check_changes_nothing", "query", "query_or", "query_float", "property_query", "add_env", "add_env_quash", "line_end"]
ASSUMES = ["Waves may be in a model without wind or water (documented); a run that uses such waves must end in an error, which one is not stated",
           "messages are recognised by the spill's name and the words of their kind"]

import numpy as np
import gn
from gn import sec, T0

REFS = {"Evaporation": ("water", "wind"), "NaturalDispersion": ("waves", "water"), "Emulsification": ("waves",), "Skimmer": ("water",), "Burn": ("water", "wind"),
        "ChemicalDispersion": ("waves",), "FayGravityViscous": ("water",), "Langmuir": ("water", "wind"), "PointWindMover": ("wind",)}
AREA = ("Evaporation", "NaturalDispersion", "FayGravityViscous", "Langmuir")


def env_objects(rng):
    """[(kind, seed, refs)]: winds, waters and waves that can be made any number of times"""
    out = []
    for kind in ("wind", "water", "waves"):
        for k in range(int(rng.choice([0, 1, 2, 2, 3], p=[.08, .32, .3, .2, .1]))):
            out.append([kind, k, int(rng.integers(1 << 30))])
    rng.shuffle(out)
    return out


def make_env(kind, seed):
    from gnome.environment import Water, Waves, constant_wind
    r = np.random.default_rng(seed)
    if kind == "wind":
        return constant_wind(float(r.uniform(1, 14)), float(r.uniform(0, 360)), "m/s")
    if kind == "water":
        return Water(temperature=float(r.uniform(283, 300)), salinity=float(r.uniform(25, 36)))
    return Waves()


def make_object(d, refs, ts):
    """d: (class, seed); refs: dict of references that are given"""
    from gnome import weatherers as W
    from gnome.movers import PointWindMover
    r = np.random.default_rng(d["seed"])
    a, b = sorted(float(x) for x in r.uniform(0, 8, 2))
    ar = (T0 + sec(a * ts), T0 + sec((b + .5) * ts))
    k = d["cls"]
    if k == "PointWindMover":
        o = PointWindMover(**refs)
    elif k == "Skimmer":
        o = W.Skimmer(amount=float(r.uniform(1, 50)), units="kg", efficiency=float(r.uniform(.1, 1)), active_range=ar, **refs)
    elif k == "Burn":
        o = W.Burn(area=float(r.uniform(5, 80)), thickness=.02, efficiency=float(r.uniform(.1, 1)), active_range=ar, **refs)
    elif k == "ChemicalDispersion":
        o = W.ChemicalDispersion(float(r.uniform(.1, 1)), efficiency=float(r.uniform(.1, 1)), active_range=ar, **refs)
    else:
        o = getattr(W, k)(**refs)
    o.on = d["on"]
    if not d["defaults"]:
        o.make_default_refs = False
    return o


def base(rng, S):
    from gnome.model import Model
    m = Model(start_time=T0, time_step=S["ts"], duration=sec(S["ts"] * S["n"]), uncertain=S["uncertain"])
    m.spills += gn.build_spill(S, S["spills"][0], gn.build_substance(S))
    return m


def refs_case(i, rng, mon):
    S = gn.random_spec(rng, oil=True, weather=False, cleanup=False, land=False, movers=[], nsteps=int(rng.integers(3, 7)), kinds=["point", "line", "contin"], nspills=1, nmax=12)
    S["oil"] = str(rng.choice(["oil_crude", "oil_diesel", "oil_jetfuels", "oil_gas"]))
    S["spills"][0].update(on=True, z=0., start=0.)
    S["windage"] = (.02, .02)
    E = env_objects(rng)
    have = {k: [e for e in E if e[0] == k] for k in ("wind", "water", "waves")}
    D = []
    for k in REFS:
        if rng.random() < .45:
            D.append(dict(cls=k, seed=int(rng.integers(1 << 30)), on=bool(rng.random() > .12), defaults=bool(rng.random() > .1)))
    if not D:
        return
    rng.shuffle(D)
    # which references are given: to one of the environment's, or to one of its own
    own = {}
    for d in D:
        d["given"] = {}
        for r in REFS[d["cls"]]:
            x = rng.random()
            if x < .2 and have[r]:
                d["given"][r] = ("env", int(rng.integers(len(have[r]))))
            elif x < .3:
                d["given"][r] = ("own", int(rng.integers(1 << 30)))
    wg = {}
    for e in have["waves"]:
        wg[e[1]] = {r: int(rng.integers(len(have[r]))) for r in ("wind", "water") if have[r] and rng.random() < .3}
    oilwater = int(rng.integers(len(have["water"]))) if have["water"] and rng.random() < .2 else None
    wl = [d for d in D if d["cls"] != "PointWindMover"]
    mon.ctx.update(objects=str([(d["cls"], d["given"], d["on"], d["defaults"]) for d in D]), env=str([e[:2] for e in E]), oil=S["oil"])

    def build(explicit=None, order=None):
        """explicit: {object index: {ref: key}} gives every reference by hand"""
        m = base(rng, S)
        keys, objs = {}, {}

        def get(key):
            if key not in objs:
                o = make_env(key[0], key[2])
                objs[key] = o
                keys[id(o)] = key
            return objs[key]
        for kind, k, seed in E:
            o = get((kind, "env", seed))
            if kind == "waves":
                for r, n in wg[k].items():
                    setattr(o, r, get((r, "env", have[r][n][2])))
        for kind, k, seed in E:
            m.environment += get((kind, "env", seed))
        if oilwater is not None:
            for sp in m.spills:
                sp.substance.water = get(("water", "env", have["water"][oilwater][2]))
        made = [None] * len(D)
        for j in (order if order is not None else range(len(D))):
            d = D[j]
            given = {r: get((r, g[0], have[r][g[1]][2] if g[0] == "env" else g[1])) for r, g in d["given"].items()}
            if explicit:
                for r, key in explicit[j].items():
                    if key is not None and r not in given:
                        given[r] = get(key)
            made[j] = make_object(d, given, S["ts"])
            if d["cls"] == "PointWindMover":
                m.movers += made[j]
            else:
                m.weatherers += made[j]
        return m, made, objs, keys

    m, made, objs, keys = build()
    # what the environment holds now: what was put there, then what the objects brought along
    order = [keys.get(id(o)) for o in m.environment]
    want = []
    for kind, k, s in E:
        for key in [(kind, "env", s)] + [(r, "env", have[r][wg[k][r]][2]) for r in ("wind", "water") if kind == "waves" and r in wg[k]]:
            if key not in want:
                want.append(key)
    for j, d in enumerate(D):
        for r in ("wind", "waves", "water"):
            if r in d["given"] and d["given"][r][0] == "own":
                key = (r, "own", d["given"][r][1])
                if key not in want:
                    want.append(key)
    mon.check(order == want, "environment does not hold what was added and what the processes refer to", lambda: "holds %s, expected %s" % (order, want))
    if len(want) > len(E):
        mon.event("referenced_joined_environment")
    first = {r: next((k for k in want if k[0] == r), None) for r in ("wind", "water", "waves")}
    # the oracle
    exp = []
    refused = False
    needs_env = set()
    used_waves = set()
    for j, d in enumerate(D):
        e = {}
        dflt = d["defaults"] and made[j].make_default_refs
        for r in REFS[d["cls"]]:
            if r in d["given"]:
                g = d["given"][r]
                e[r] = (r, g[0], have[r][g[1]][2] if g[0] == "env" else g[1])
            elif dflt and first[r] is not None:
                e[r] = first[r]
            else:
                e[r] = None
        exp.append(e)
    area = any(d["cls"] in AREA and d["on"] for d in wl)
    spread = [d for d in wl if d["cls"] == "FayGravityViscous"]
    lang = [d for d in wl if d["cls"] == "Langmuir"]
    # a model whose processes take defaults needs them in its environment
    for j, d in enumerate(D):
        on = area if d["cls"] in ("FayGravityViscous", "Langmuir") else d["on"] and d["cls"] != "ChemicalDispersion"
        if on and any(v is None for v in exp[j].values()):
            refused = True
    loose = area and (first["water"] is None or first["wind"] is None)
    try:
        m.step()
        ran = True
    except Exception as ex:      # noqa
        ran = False
        mon.ctx["refusal"] = repr(ex)[:200]
        if not refused and not loose:
            # waves whose own wind or water is missing end a run too; so does a process that asks for defaults where there are none
            waves_incomplete = any(True for kind, k, s in E if kind == "waves" and any(wg[k].get(r) is None and first[r] is None for r in ("wind", "water"))) \
                or any(d["given"].get("waves", ("",))[0] == "own" and (first["wind"] is None or first["water"] is None) for d in D)
            lacking = any((not d["on"]) is False and made[j].make_default_refs and any(first[r] is None for r in REFS[d["cls"]]) for j, d in enumerate(D))
            if waves_incomplete or lacking or first["water"] is None:
                mon.event("refused_other")
                return
            raise
    if refused:
        mon.check(not ran, "a run was started although a process lacks what it refers to", lambda: str([(d["cls"], e) for d, e in zip(D, exp)]))
        if not ran:
            mon.event("refused_missing")
            mon.state("refused", tuple(sorted((d["cls"], tuple(sorted(r for r, v in e.items() if v is None))) for d, e in zip(D, exp) if d["on"])))
        # the references are attached, or not, all the same
    if not ran and not refused:
        return
    for j, d in enumerate(D):
        dflt = d["defaults"]
        for r in REFS[d["cls"]]:
            got = getattr(made[j], r)
            gk = None if got is None else keys.get(id(got), "something else")
            mon.check(gk == exp[j][r], "a %s refers to the wrong %s" % (d["cls"], r), lambda: "%s, expected %s" % (gk, exp[j][r]))
            if r in d["given"]:
                mon.event("kept")
            elif exp[j][r] is not None:
                mon.event("attached_first")
            elif not dflt:
                mon.event("left_alone")
            mon.state(d["cls"], r, r in d["given"], dflt, d["on"], min(len(have[r]), 2))
        if not d["on"] and any(v is None for v in exp[j].values()):
            mon.event("off_not_needed")
    for kind, k, s in E:
        if kind == "waves":
            o = objs[(kind, "env", s)]
            for r in ("wind", "water"):
                w = (r, "env", have[r][wg[k][r]][2]) if r in wg[k] else first[r] if o.make_default_refs else None
                got = getattr(o, r)
                mon.check((None if got is None else keys.get(id(got))) == w, "waves refer to the wrong %s" % r, lambda: "%s, expected %s" % (keys.get(id(got)), w))
    for sp in m.spills:
        w = ("water", "env", have["water"][oilwater][2]) if oilwater is not None else first["water"]
        got = sp.substance.water
        mon.check((None if got is None else keys.get(id(got))) == w, "the oil refers to the wrong water", lambda: "expected %s" % (w,))
    if not ran:
        return
    # spreading and Langmuir circulation are there exactly when a process uses the area
    for cls, mine in (("FayGravityViscous", spread), ("Langmuir", lang)):
        on = [w for w in m.weatherers if type(w).__name__ == cls and w.on]
        mon.check(len(on) == (1 if area else 0), "%s is not on exactly when a process uses the area of the slick" % cls, lambda: "%d on, area used: %s" % (len(on), area))
        if area:
            mon.event("spreading_own" if mine else "spreading_added")
            for w in on:
                for r in REFS[cls]:
                    if not mine:
                        got = getattr(w, r)
                        mon.check((None if got is None else keys.get(id(got))) == first[r], "the %s the model adds refers to the wrong %s" % (cls, r))
    # run on, and compare with the same model given every reference by hand, and its processes in another order
    a = [gn.snapshot(m)]
    try:
        for _ in range(S["n"]):
            m.step()
            a.append(gn.snapshot(m))
    except Exception:       # noqa  (waves without wind or water)
        if any(v is None for kind, k, s in E if kind == "waves" for v in (objs[(kind, "env", s)].wind, objs[(kind, "env", s)].water)):
            mon.event("refused_other")
            return
        raise
    # wherever the model's own choice of objects was allowed for, the objects keep what they have in a second run
    before = [{r: id(getattr(o, r)) for r in REFS[d["cls"]] if e[r] is not None} for o, d, e in zip(made, D, exp)]
    newcomer = make_env("wind", 1)
    m.environment += newcomer
    m.rewind()
    b = run(m, S["n"])
    mon.check(before == [{r: id(getattr(o, r)) for r in REFS[d["cls"]] if e[r] is not None} for o, d, e in zip(made, D, exp)], "references were replaced in a second run")
    same(mon, a, b, "a second run, with one more wind at the end of the environment, differs")
    mon.event("second_run")
    if rng.random() < .6:
        full = [{r: e[r] for r in e} for e in exp]
        m2 = build(full)[0]
        same(mon, a, run(m2, S["n"]), "a run with references attached by the model differs from the run with the same references given")
        mon.event("same_as_explicit")
    if len(wl) > 1:
        # processes of their own bring their own environment along, in another order
        if not any(g[0] == "own" for d in D for g in d["given"].values()):
            o = [int(x) for x in rng.permutation(len(D))]
            m3 = build(None, o)[0]
            same(mon, a, run(m3, S["n"]), "the order in which processes were added to the model changes the result")
            mon.event("same_in_any_order")
    m.rewind()


def run(m, n):
    out = []
    for _ in range(n + 1):
        m.step()
        out.append(gn.snapshot(m))
    return out


def same(mon, a, b, mech):
    ok = len(a) == len(b)
    why = ""
    for s, (x, y) in enumerate(zip(a, b)):
        for p, q in zip(x, y):
            for k in set(p[1]) | set(q[1]):
                if k not in p[1] or k not in q[1] or p[1][k].shape != q[1][k].shape or not np.array_equal(p[1][k], q[1][k], equal_nan=p[1][k].dtype.kind == "f"):
                    ok, why = False, why or "step %d, %s" % (s, k)
            for k in set(p[2]) | set(q[2]):
                u, v = p[2].get(k), q[2].get(k)
                if not (u == v or (u != u and v != v)):
                    ok, why = False, why or "step %d, mass balance %s: %s and %s" % (s, k, u, v)
    mon.check(ok, mech, why)
    return ok


# ------------------------------------------------------------------------------------------------ what is reported
WORDS = dict(outside="outside of map bounds", land="on land", late="after model start time", early="before model start time")


def report_case(i, rng, mon):
    import warnings
    from gnome.model import Model
    from gnome.spills import Spill
    from gnome.spills.release import PointLineRelease
    from gnome.spills.gnome_oil import GnomeOil
    from gnome.movers import SimpleMover
    S = gn.random_spec(rng, oil=False, weather=False, cleanup=False, land=True, movers=[], nsteps=int(rng.integers(2, 6)), nspills=1)
    back = rng.random() < .2
    sg = -1 if back else 1
    mp = gn.build_map(S)
    w, h = S["raster"].shape
    c = S["cell"]
    m = Model(start_time=T0, time_step=sg * S["ts"], duration=sec(sg * S["ts"] * S["n"]), map=mp, uncertain=False)

    def place(kind):
        if kind == "outside":
            side = int(rng.integers(4))
            d = float(rng.uniform(.5, 20)) * c
            x = [S["lon0"] - d, S["lon0"] + w * c + d, S["lon0"] + float(rng.uniform(0, w)) * c, S["lon0"] + float(rng.uniform(0, w)) * c][side]
            y = [S["lat0"] + float(rng.uniform(0, h)) * c] * 2 + [S["lat0"] - d, S["lat0"] + h * c + d]
            return (x, y[side], 0.)
        cells = np.argwhere(S["raster"] == (1 if kind == "land" else 0))
        if not len(cells):
            return None
        k = cells[int(rng.integers(len(cells)))]
        return (S["lon0"] + (k[0] + float(rng.uniform(.2, .8))) * c, S["lat0"] + (h - k[1] - float(rng.uniform(.2, .8))) * c, 0.)

    expect = []
    n = int(rng.choice([0, 1, 1, 2, 3]))
    intersects, non = False, 0
    for k in range(n):
        a = place(str(rng.choice(["water", "water", "outside", "land"])))
        b = None
        if rng.random() < .4:
            b = place(str(rng.choice(["water", "outside", "land"])))
        if a is None:
            continue
        name = "spill no %d of the report" % (k + 11)
        off = float(rng.choice([0, 0, 0, S["ts"] * .5, S["ts"] * S["n"] * .99, S["ts"] * S["n"] * 1.01, S["ts"] * S["n"] * 3, -1., -S["ts"]], p=[.2, .15, .15, .15, .1, .08, .07, .05, .05]))
        t = T0 + sec(sg * off)
        on = bool(rng.random() > .15)
        rel = PointLineRelease(release_time=t, start_position=a, num_elements=5, **({"end_position": b} if b is not None else {}))
        sp = Spill(release=rel, on=on, name=name)
        m.spills += sp
        t = sp.release_time
        pts = [a] + ([b] if b is not None else [])
        inside = [S["lon0"] <= p[0] <= S["lon0"] + w * c and S["lat0"] <= p[1] <= S["lat0"] + h * c for p in pts]
        onland = []
        for p, ok in zip(pts, inside):
            cx, cy = int((p[0] - S["lon0"]) / c), int((S["lat0"] + h * c - p[1]) / c)
            onland.append(bool(ok and 0 <= cx < w and 0 <= cy < h and S["raster"][cx, cy]))
        if on:
            non += 1
            d = (t - T0).total_seconds() * sg
            expect.append((name, dict(outside=not all(inside), land=any(onland), late=d > 0, early=d < 0), b is not None and (not inside[-1] or onland[-1])))
            intersects |= d < S["ts"] * S["n"]
        else:
            expect.append((name, None, False))
            mon.event("off_spill_ignored")
    elsewhere = None
    if rng.random() < .3:
        elsewhere = Elsewhere(name="a mover of this case")
        d = float(rng.uniform(.1, 30))
        x0, y0, x1, y1 = S["lon0"], S["lat0"], S["lon0"] + w * c, S["lat0"] + h * c
        elsewhere.box = [((x1 + d, y0), (x1 + d + 1, y1)), ((x0 - d - 1, y0), (x0 - d, y1)), ((x0, y1 + d), (x1, y1 + d + 1)), ((x0, y0 - d - 1), (x1, y0 - d)),
                         ((x0 - 1, y0 - 1), (x0 + c, y0 + c)), ((x0 + c, y0 + c), (x1 - c, y1 - c))][int(rng.integers(6))]
        elsewhere.apart = not (elsewhere.box[0][0] <= x1 and elsewhere.box[1][0] >= x0 and elsewhere.box[0][1] <= y1 and elsewhere.box[1][1] >= y0)
        elsewhere.on = bool(rng.random() > .2)
        m.movers += elsewhere
    else:
        m.movers += SimpleMover((0., 0., 0.))
    mon.ctx.update(spills=str(expect), back=back, map=str((S["lon0"], S["lat0"], w, h, c)))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        msgs, valid = m.check_inputs()
    text = [str(x) for x in msgs]
    early = False
    for name, e, line in expect:
        for k, word in WORDS.items():
            got = any(name in x and word in x for x in text)
            want = bool(e and e[k])
            # a line that is already reported as off the map at its start needs no second report
            mon.check(got == want, "%s: %s" % ("not reported" if want else "reported without cause", k), lambda: "%s %s; messages %s" % (name, e, text))
            if want:
                mon.event({"outside": "outside_map", "land": "on_land", "late": "late", "early": "early_refused"}[k])
                mon.state("reported", k, line, back)
        if line:
            mon.event("line_end")
        early |= bool(e and e["early"])
    got = any("after the time interval" in x or "time interval being modeled" in x for x in text)
    want = non > 0 and not intersects
    mon.check(got == want, "spills after the end of the run: not reported as they are", lambda: str(text))
    if want:
        mon.event("all_late")
    mon.check(any("contains no spills" in x for x in text) == (len(m.spills) == 0), "absence of spills not reported as it is", lambda: str(text))
    if len(m.spills) == 0:
        mon.event("no_spill")
    got = any("does not overlap" in x for x in text)
    mon.check(got == bool(elsewhere is not None and elsewhere.on and elsewhere.apart), "mover that does not overlap the map: not reported as it is", lambda: "%s %s %s" % (elsewhere and (elsewhere.on, elsewhere.apart, elsewhere.box), got, text))
    if got:
        mon.event("mover_elsewhere")
    mon.check(bool(valid) == (not early), "set-up judged valid when it is not, or the other way round", lambda: "%s %s" % (valid, text))
    if not text:
        mon.event("nothing_to_report")
    try:
        m.step()
        ran = True
    except RuntimeError:
        ran = False
    mon.check(ran == (not early), "a run started although a spill is released before it, or a valid one was refused", lambda: str(text))
    mon.state("report", bool(valid), len(text) > 0, back)


class Elsewhere:
    pass


def _elsewhere():
    from gnome.movers import SimpleMover

    class Elsewhere_(SimpleMover):
        box = None

        def __init__(self, **kw):
            super().__init__((0., 0., 0.), **kw)

        def get_bounds(self):
            return self.box
    return Elsewhere_


# ------------------------------------------------------------------------------------------------ refusals of one spill among several
def among_case(i, rng, mon):
    import warnings
    from gnome.exceptions import GnomeRuntimeError
    from gnome.environment import Water
    from gnome.model import Model
    from gnome.movers import SimpleMover
    from gnome.spills import point_line_spill
    from gnome.spills.gnome_oil import GnomeOil
    kind = str(rng.choice(["plain", "sink", "back", "back"]))
    n = int(rng.integers(1, 4))
    bad = int(rng.integers(n))
    wrong = kind != "plain" and rng.random() < .7
    back = kind == "back"
    m = Model(start_time=T0, time_step=-900 if back else 900, duration=sec(-3600 if back else 3600), uncertain=bool(rng.random() < .3))
    m.movers += SimpleMover((.1, .2, 0))
    water = Water(float(rng.choice([280., 290.])))
    off = False
    sub, how = None, {}
    if kind == "sink":
        # one oil for all
        sub = GnomeOil(str(rng.choice(["oil_crude", "oil_ans_mp"])), water=water)
        how = dict(amount=10., units="kg", substance=sub)
        if wrong:
            sub.densities = np.array(sub.densities) * 1.4
    for k in range(n):
        t = T0 + sec((-1 if back else 1) * float(rng.choice([0, 900])))
        long = back and wrong and k == bad
        sp = point_line_spill(5, (0., 0., 0.), t, end_release_time=t + sec(float(rng.choice([1, 600, 5000]))) if long else None, **how)
        if k == bad and rng.random() < .35:
            sp.on = False
            off = True
        m.spills += sp
    off = off and (kind != "sink" or n == 1)
    err = None
    mon.ctx.update(kind=kind, n=n, bad=bad, wrong=wrong, off=off)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            m.step()
        except (GnomeRuntimeError, RuntimeError, ValueError) as e:
            err = e
    if wrong and not off:
        mon.check(err is not None, "a backward run with a continuous release was started" if back else "a run was started with one oil heavier than the water")
        mon.event("one_of_several_refused")
    elif not wrong:
        mon.check(err is None, "a valid run of several spills was refused", lambda: repr(err))
    mon.state("among", kind, n, bad, wrong, off)


# ------------------------------------------------------------------------------------------------ refusals by substance
def oil_case(i, rng, mon):
    import warnings
    from gnome.exceptions import GnomeRuntimeError
    S = gn.random_spec(rng, oil=True, weather=["evaporation"], cleanup=False, land=False, movers=["simple"], nsteps=3, kinds=["point"], nspills=1, random_movers=False)
    S["oil"] = str(rng.choice(["oil_crude", "oil_6", "oil_diesel", "oil_ans_mp", "oil_bahia"]))
    S["spills"][0].update(on=True, z=0., start=0., dur=0.)
    S["uncertain"] = False
    kind = str(rng.choice(["pour", "sink", "back", "plain"]))
    if kind == "back":
        S["back"] = True
    if kind == "pour":
        S["temp"] = float(rng.choice([.5, 2., 4.]))
        S["salinity"] = 35.
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = gn.build(S)
    water = [e for e in m.environment if type(e).__name__ == "Water"][0]
    sub = next(iter(m.spills)).substance
    if kind == "pour" and 273.5 < sub.pour_point < 320 and rng.random() < .7:
        # a little above or below
        water.set("temperature", float(sub.pour_point + rng.choice([-4., -.5, .5, 4.])), "K")
    if kind == "sink":
        if rng.random() < .5:
            sub.water = water
        sub.densities = np.array(sub.densities) * float(rng.uniform(1.0, 1.4))
    rho_w = water.get("density")
    T = water.get("temperature", "K")
    rho = float(np.asarray(sub.density_at_temp(T)).max())
    sinks = rho > rho_w
    mon.ctx.update(oil=S["oil"], kind=kind, T=T, rho=rho, rho_w=rho_w, pour=sub.pour_point)
    text = []
    err = None
    orig = m.check_inputs

    def spy():
        r = orig()
        text.extend(str(x) for x in r[0])
        return r
    m.check_inputs = spy
    try:
        m.step()
    except (GnomeRuntimeError, RuntimeError) as e:
        err = e
    if kind == "back":
        mon.check(err is not None, "a backward run with weathering was started")
        mon.event("backward_weathering_refused")
    elif sinks:
        mon.check(err is not None, "a run was started with oil heavier than the water")
        mon.event("sinker_refused")
    elif sub.standard_density > rho_w:
        mon.event("sinks_at_15C_only")       # spreading refuses these too
    else:
        mon.check(err is None, "a valid run was refused", lambda: repr(err))
        cold = T < sub.pour_point
        mon.check(any("pour point" in x for x in text) == cold, "water colder than the pour point of the oil: not reported as it is", lambda: "%s %s %s" % (T, sub.pour_point, text))
        if cold:
            mon.event("pour_point")
    mon.state("oil", kind, sinks, T < sub.pour_point)


def unchanged_case(i, rng, mon):
    """asking the model about its set-up changes nothing about the run"""
    import warnings
    S = gn.random_spec(rng, nmax=15, nsteps=int(rng.integers(2, 6)))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = gn.build(S)
        a.rewind()
        ra = run(a, S["n"])
        b = gn.build(S)
        b.rewind()
        b.setup_model_run() if rng.random() < .3 else None
        b.rewind()
        b.check_inputs()
        b.validate()
        rb = []
        for _ in range(S["n"] + 1):
            b.step()
            rb.append(gn.snapshot(b))
            if rng.random() < .5:
                b.check_inputs()
                b.validate()
                b.list_spill_properties()
                b.get_spill_property("mass")
    same(mon, ra, rb, "asking the model to check its inputs changes the run")
    mon.event("check_changes_nothing")
    mon.state("unchanged", S["map"], len(S["spills"]), bool(S["weatherers"]))


# ------------------------------------------------------------------------------------------------ questions about elements
def query_case(i, rng, mon):
    import operator
    import warnings
    S = gn.random_spec(rng, nmax=25, nsteps=int(rng.integers(2, 5)), uncertain=bool(rng.random() < .5))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = gn.build(S)
        for _ in range(S["n"]):
            m.step()
    OPS = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq}
    for _ in range(4):
        u = int(rng.integers(2)) if S["uncertain"] else 0
        sc = m.spills.items()[u]
        n = len(sc)
        if not n:
            continue
        names = [k for k, v in sc.data_arrays.items() if v.ndim == 1 and v.dtype.kind in "iuf"]
        phrases, mask = [], np.ones(n, bool)
        for _p in range(int(rng.integers(1, 4))):
            subs, pm = [], np.zeros(n, bool)
            for _s in range(int(rng.choice([1, 1, 2]))):
                p = str(rng.choice(["age", "status_codes", "spill_num", "id", "mass", "mass"] + names))
                op = str(rng.choice(list(OPS)))
                arr = sc[p]
                v = arr[int(rng.integers(n))]
                if not np.isfinite(v):
                    v = 0
                if arr.dtype.kind == "f" and rng.random() < .4:
                    v = float(v) * float(rng.uniform(.5, 1.5))
                s = repr(float(v)) if arr.dtype.kind == "f" else str(int(v))
                subs.append("%s %s %s" % (p, op, s))
                pm |= OPS[op](arr, float(s) if arr.dtype.kind == "f" else int(s))
                if arr.dtype.kind == "f":
                    mon.event("query_float")
            if len(subs) > 1:
                mon.event("query_or")
            phrases.append(" || ".join(subs))
            mask &= pm
        q = " && ".join(phrases)
        targets = [str(x) for x in rng.choice(["positions", "mass", "id", "status_codes", "age"], size=int(rng.integers(1, 4)), replace=False)]
        got = m.get_spill_data(targets, q, ("ucert" if rng.random() < .5 else 1) if u else 0)
        mon.ctx.update(query=q, targets=targets)
        mon.check(sorted(got) == sorted(targets), "a question about elements answers with other properties", lambda: str(got.keys()))
        for t in targets:
            mon.check(np.array_equal(np.array(got[t]).reshape((-1,) + sc[t].shape[1:]), sc[t][mask], equal_nan=sc[t].dtype.kind == "f"), "a question about elements gives other elements than those the condition holds for",
                      lambda: "%s: %s: %d elements, expected %d" % (q, t, len(got[t]), int(mask.sum())))
        mon.event("query")
        mon.state("query", len(phrases), q.count("||"), 0 < mask.sum() < n, u)
        k = str(rng.choice(list(sc.data_arrays)))
        mon.check(np.array_equal(m.get_spill_property(k, bool(u)), sc[k], equal_nan=sc[k].dtype.kind == "f"), "a property asked for is not the element data")
        mon.event("property_query")
    try:
        m.get_spill_property("no such thing")
        mon.check(False, "a property that does not exist was given")
    except ValueError:
        pass


def add_env_case(i, rng, mon):
    from gnome.model import Model
    m = Model(start_time=T0)
    ref = []
    for _ in range(int(rng.integers(2, 6))):
        new = []
        for _k in range(int(rng.integers(1, 4))):
            kind = str(rng.choice(["wind", "water"]))
            new.append((kind, make_env(kind, int(rng.integers(1 << 30)))))
        quash = bool(rng.random() < .5)
        m.add_env([o for _, o in new], quash=quash)
        for kind, o in new:
            at = next((k for k, (kk, _) in enumerate(ref) if kk == kind), None)
            if quash and at is not None:
                ref[at] = (kind, o)
                mon.event("add_env_quash")
            else:
                ref.append((kind, o))
                mon.event("add_env")
        mon.check([id(o) for o in m.environment] == [id(o) for _, o in ref], "add_env: the environment is not what was asked for",
                  lambda: "%s, expected %s" % ([type(o).__name__ for o in m.environment], [k for k, _ in ref]))
        mon.state("add_env", quash, len(ref), len(new))


CASES = [refs_case, refs_case, report_case, refs_case, report_case, query_case, oil_case, among_case, unchanged_case, report_case, add_env_case]


def case(i, rng, mon):
    global Elsewhere
    if Elsewhere.__module__ != "gnome" and not hasattr(Elsewhere, "get_bounds"):
        Elsewhere = _elsewhere()
    CASES[i % len(CASES)](i, rng, mon)
