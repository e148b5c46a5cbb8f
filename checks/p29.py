"""Bounds and laws of what is drawn at random."""
PROPERTY = "P29"
KIND = "plain"
N = {"quick": 640, "thorough": 12000}
BUDGET = {"quick": 60, "thorough": 1500}
RULE = "(distribution, bounds given, number drawn, stream, persistence class)"
NEED = ["uniform", "normal", "lognormal", "weibull", "weibull_min", "weibull_max", "weibull_both", "persistence", "persistence_infinite", "persistence_scaled", "reseed", "split", "rayleigh", "wind_shifted", "initialiser", "rejected", "no_draws", "fraction_below"]
ASSUMES = ["laws are judged by the Kolmogorov-Smirnov distance at a false alarm probability of 1e-9 per test"]

import datetime as dt
import math
import random
import signal
import numpy as np

DKW = math.sqrt(math.log(2 / 1e-9) / 2)          # distance times sqrt(n)


def ks(x, cdf):
    x = np.sort(x)
    n = len(x)
    F = cdf(x)
    return max(np.max(np.arange(1, n + 1) / n - F), np.max(F - np.arange(n) / n))


def law(x, cdf, mon, mech, what):
    d = ks(np.asarray(x), cdf)
    mon.check(d * math.sqrt(len(x)) < DKW, mech, lambda: "%s: distance %.4f for %d draws" % (what, d, len(x)))


class Alarm(Exception):
    pass


def within(seconds, f):
    """run f, raise Alarm when it does not come back (draws that never end)"""
    def h(*a):
        raise Alarm()
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(seconds)
    try:
        return f()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def make(rng):
    from gnome.utilities import distributions as D
    from scipy.special import ndtr
    k = str(rng.choice(["uniform", "normal", "lognormal", "weibull", "weibull_min", "weibull_max", "weibull_both"]))
    if k == "uniform":
        lo = float(rng.uniform(-2, 2))
        hi = lo + float(rng.choice([0., .1, 5., 1e-7]))
        cdf = (lambda x: np.clip((x - lo) / (hi - lo), 0, 1)) if hi > lo else None
        return k, D.UniformDistribution(lo, hi), (lo, hi), cdf, (lo, hi)
    if k == "normal":
        m, s = float(rng.uniform(-3, 3)), float(rng.uniform(.01, 3))
        return k, D.NormalDistribution(m, s), (-np.inf, np.inf), lambda x: ndtr((x - m) / s), (m, s)
    if k == "lognormal":
        m, s = float(rng.uniform(-3, 1)), float(rng.uniform(.01, 1.5))
        return k, D.LogNormalDistribution(m, s), (0, np.inf), lambda x: ndtr((np.log(x) - m) / s), (m, s)
    al, la = float(rng.uniform(.7, 4)), float(10. ** rng.uniform(-3.5, 1))
    W = lambda x: 1 - np.exp(-(np.asarray(x, float) / la) ** al)
    q = lambda f: la * (-math.log(1 - f)) ** (1 / al)
    mn = mx = None
    if k in ("weibull_min", "weibull_both"):
        mn = q(float(rng.choice([.01, .3, .7])))
    if k in ("weibull_max", "weibull_both"):
        mx = max(q(float(rng.choice([.75, .9, .999]))), 6e-5)
    lo, hi = mn or 0., mx if mx is not None else np.inf
    A, B = W(lo), (W(hi) if hi < np.inf else 1.)
    return k, D.WeibullDistribution(alpha=al, lambda_=la, min_=mn, max_=mx), (lo, hi), lambda x: np.clip((W(x) - A) / (B - A), 0, 1), (al, la, mn, mx)


def case(i, rng, mon):
    from gnome.utilities import rand
    from gnome.utilities import distributions as D
    from gnome.cy_gnome import cy_helpers
    if i % 4 < 2:
        k, d, (lo, hi), cdf, par = make(rng)
        n = int(rng.choice([0, 1, 10, 3000]))
        what = "%s%s" % (k, par)
        seed = int(rng.integers(1, 1 << 30))
        rand.seed(seed)
        a = np.full(n, np.nan)
        within(20, lambda: d.set_values(a))
        mon.check(bool(np.all((a >= lo) & (a <= hi))), "value drawn outside the bounds", lambda: "%s: %s" % (what, a[(a < lo) | (a > hi) | (a != a)][:4]))
        nxt = np.random.random()
        rand.seed(seed)
        b = np.zeros(n)
        d.set_values(b)
        mon.equal(b, a, "the same seed gives other draws", what)
        mon.check(np.random.random() == nxt, "the same seed leaves the stream elsewhere", what)
        if n >= 1000 and cdf is not None:
            law(a, cdf, mon, "draws do not follow the distribution (%s)" % k.split("_")[0], what)
        if n == 0:
            mon.event("no_draws")
        # filled in pieces
        if n:
            c = np.zeros(n)
            rand.seed(seed)
            p = 0
            while p < n:
                m = int(rng.integers(1, n - p + 1))
                d.set_values(c[p:p + m])
                p += m
            if k in ("uniform", "normal", "lognormal", "weibull"):
                mon.equal(c, a, "draws depend on how the elements are split into calls", what)
            else:
                mon.check(bool(np.all((c >= lo) & (c <= hi))), "value drawn outside the bounds", what)
                if n >= 1000:
                    law(c, cdf, mon, "draws in pieces do not follow the distribution", what)
            mon.event("split")
        # only the given elements are written
        e = np.full(n + 2, -77.)
        d.set_values(e[1:-1])
        mon.check(e[0] == -77 and e[-1] == -77, "values drawn outside the elements given")
        if n and np.isfinite(lo) and lo > -77:
            mon.check(bool(np.all(e[1:-1] != -77.)), "element left without a value", what)
        mon.event(k)
        mon.state(k, n)
    elif i % 4 == 2:
        n = int(rng.choice([1, 4, 3000]))
        low = rng.uniform(0, .03, n)
        high = low + rng.choice([0., .01, .05], n)
        mode = int(rng.integers(4))
        step = float(rng.choice([60, 300, 900, 1800, 3600, -900]))
        pers = None if mode == 0 else np.full(n, 900) if mode == 1 else rng.choice([-1, 900, 300], n) if mode == 2 else np.full(n, int(rng.choice([-1, 3600])))
        arr = rng.uniform(-1, 0, n)
        was = arr.copy()
        l0, h0 = low.copy(), high.copy()
        out = rand.random_with_persistance(low, high, array=arr, persistence=pers, time_step=step)
        mon.check(out is arr, "the array given is not the one filled")
        mon.check(np.array_equal(low, l0) and np.array_equal(high, h0), "bounds were changed")
        if pers is None:
            mon.check(bool(np.all((arr >= low) & (arr <= high))), "value drawn outside the bounds (persistence)", lambda: "%s" % arr[:3])
            sel = np.ones(n, bool)
            f = 1.
        else:
            sel = (pers > 0) & (pers <= 900)
            f = np.sqrt(np.where(sel, pers, 1.) / abs(step))
            mean, half = (low + high) / 2, (high - low) / 2 * f
            eps = 1e-12
            mon.check(bool(np.all(np.abs(arr - mean)[sel] <= half[sel] + eps)), "value drawn outside the scaled bounds", lambda: "%s" % ((arr - mean) / half)[sel][:4])
            fixed = ~sel & ~((low == high).all() & np.ones(n, bool))
            mon.check(np.array_equal(arr[fixed], was[fixed]), "value with infinite persistence was redrawn")
            if fixed.any():
                mon.event("persistence_infinite")
            if sel.any() and abs(step) != 900:
                mon.event("persistence_scaled")
        wide = sel & (high > low)
        if wide.sum() > 800:
            u = ((arr - (low + high) / 2) / ((high - low) * f))[wide] + .5
            law(u, lambda x: np.clip(x, 0, 1), mon, "values with persistence are not uniform about the middle of the range", "step %s" % step)
        mon.event("persistence")
        mon.state("persistence", mode, step, n)
        for bad in (dict(low=[1.], high=[0.]), dict(low=[0., 0.], high=[1.]), dict(low=[0.], high=[1.], persistence=[900, 900])):
            try:
                rand.random_with_persistance(**bad)
                mon.check(False, "impossible bounds accepted", str(bad))
            except ValueError:
                mon.check(True, "x")
    else:
        s = int(rng.integers(0, 1 << 31))

        def draw():
            return ([cy_helpers.rand() for _ in range(5)], [random.random() for _ in range(5)], np.random.random(5).tolist(), np.random.normal(size=3).tolist())
        rand.seed(s)
        a = draw()
        m = int(rng.integers(1, 40))
        for _ in range(m):
            draw()
        np.random.normal()
        rand.seed(s)
        b = draw()
        for nm, x, y in zip(("native", "python", "numpy", "numpy normal"), a, b):
            mon.check(x == y, "seeding does not reproduce the %s stream" % nm, lambda: "seed %d: %s %s" % (s, x[:2], y[:2]))
        rand.seed(s + 1 if s < (1 << 31) - 2 else 5)
        c = draw()
        mon.check(all(x != y for x, y in zip(a, c)), "different seeds give the same draws")
        mon.event("reseed")
        # Rayleigh
        sg = float(rng.uniform(.1, 10))
        f = rng.uniform(.001, .999, 7)
        R = D.RayleighDistribution
        x = R.quantile(f, sg)
        mon.close(R.cdf(x, sg), f, "quantile and cdf of the Rayleigh distribution are not inverse", rtol=1e-9)
        mon.close(x, sg * np.sqrt(-2 * np.log(1 - f)), "quantile of the Rayleigh distribution", rtol=1e-9)
        h = 1e-5 * sg
        mon.close((R.cdf(x + h, sg) - R.cdf(x - h, sg)) / (2 * h), R.pdf(x, sg), "density of the Rayleigh distribution", rtol=1e-4)
        mon.close(R.sigma_from_wind(sg) * math.sqrt(math.pi / 2), sg, "mean of the Rayleigh distribution", rtol=1e-9)
        mon.event("rayleigh")
        if rng.random() < .3:
            # a wind shifted by its speed uncertainty
            from gnome.environment import Wind
            t0 = dt.datetime(2021, 5, 2, 3)
            sp = rng.uniform(.5, 20, int(rng.integers(1, 5)))
            q = float(rng.uniform(.02, .45))
            u = str(rng.choice(["m/s", "knots", "mph"]))
            for way, s in (("up", 1), ("down", -1)):
                w = Wind(timeseries=[(t0 + dt.timedelta(hours=3 * k), (float(v), 10. * k)) for k, v in enumerate(sp)], units=u, speed_uncertainty_scale=q)
                mon.check(w.set_speed_uncertainty("sideways") is False and np.allclose(w.get_wind_data(units=u)["value"][:, 0], sp, rtol=1e-6), "wind shifted although no way was given", "")
                w.set_speed_uncertainty(way)
                got = w.get_wind_data(units=u)["value"]
                want = sp * np.sqrt(2 / np.pi) * np.sqrt(-2 * np.log(1 - (.5 + s * q)))
                mon.check(np.allclose(got[:, 0], want, rtol=1e-4, atol=1e-6), "wind shifted by its uncertainty is not the quantile asked for", lambda: "%s %s: %s, expected %s" % (way, q, got[:, 0], want))
                mon.check(np.allclose(got[:, 1], [10. * k for k in range(len(sp))], atol=1e-4), "direction of a wind shifted by its speed uncertainty", lambda: str(got))
            mon.event("wind_shifted")
        from gnome.utilities.compute_fraction import fraction_below_d
        al, la, dd = float(rng.uniform(.5, 4)), float(rng.uniform(1e-5, 1)), float(rng.uniform(0, 2))
        mon.close(fraction_below_d(dd, al, la), 1 - math.exp(-(dd / la) ** al), "fraction of drops below a size", rtol=1e-12)
        mon.event("fraction_below")
        for kw in (dict(alpha=None), dict(alpha=1.8, lambda_=.000248, min_=-1.), dict(alpha=1.8, lambda_=.000248, min_=.1), dict(alpha=1.8, lambda_=.000248, max_=0.), dict(alpha=1.8, lambda_=.000248, max_=1e-6),
                   dict(alpha=1.8, lambda_=.000248, min_=.0005, max_=.0003), dict(alpha=1.8, lambda_=.0003, min_=.0003, max_=.0003)):
            try:
                w = D.WeibullDistribution(**kw)
                within(5, lambda: w.set_values(np.zeros(3)))
                mon.check(False, "impossible bounds accepted", str(kw))
            except (TypeError, ValueError):
                mon.check(True, "x")
            except Alarm:
                mon.check(False, "bounds accepted for which drawing never ends", str(kw))
        mon.event("rejected")
        # initialiser
        from gnome.spills.initializers import InitRiseVelFromDist, InitWindages
        k, d, (lo, hi), cdf, par = make(rng)
        n = int(rng.integers(1, 30))
        da = dict(rise_vel=np.full(n + 4, -9.), windages=np.full(n + 4, -9.), windage_range=np.zeros((n + 4, 2)), windage_persist=np.zeros(n + 4))
        InitRiseVelFromDist(d).initialize(n, da, None)
        v = da["rise_vel"]
        mon.check(bool(np.all(v[:4] == -9.) and np.all((v[4:] >= lo) & (v[4:] <= hi))), "initial values outside the distribution or of other elements", lambda: "%s%s %s" % (k, par, v))
        wr = (float(rng.uniform(0, .02)), float(rng.uniform(.02, .05)))
        persist = int(rng.choice([900, -1]))
        InitWindages(wr, persist).initialize(n, da, None)
        w = da["windages"]
        mon.check(bool(np.all(da["windage_range"][:4] == 0) and np.all(da["windage_persist"][:4] == 0) and np.all(da["windage_persist"][4:] == persist)), "windage settings of other elements changed", lambda: "%s %s" % (da["windage_range"][:5], da["windage_persist"][:5]))
        mon.check(bool(np.all(w[:4] == -9.) and np.all((w[4:] >= wr[0]) & (w[4:] <= wr[1])) and np.all(da["windage_range"][4:] == wr)), "initial windages outside the range or of other elements", lambda: "%s %s" % (wr, w))
        mon.event("initialiser")
        mon.state("streams", s % 7)
