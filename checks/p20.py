"""What the cache returns is what was stored."""
PROPERTY = "P20"
KIND = "plain"
N = {"quick": 900, "thorough": 12000}
BUDGET = {"quick": 75, "thorough": 1800}
RULE = "(source: synthetic or model run, disk on/off, sets, read from memory or disk, elements present, order of reading)"
NEED = ["read_recent", "read_disk", "read_uncertain", "read_empty", "missing_step_refused", "after_rewind_refused", "reader_mutations", "two_caches", "model_run", "overwritten_step", "large_step_numbers", "disk_off", "shorter_second_run", "deleted_other_cache"]
ASSUMES = ["the surface concentration that an outputter adds to the most recent step is not part of what was stored"]

import datetime as dt
import gc
import numpy as np
import gn


def fake_pair(rng, uncertain, odd=True):
    from gnome.spill_container import SpillContainerData, SpillContainerPairData
    out = []
    n = int(rng.choice([0, 1, 7, 60]))
    t = gn.T0 + dt.timedelta(seconds=int(rng.integers(0, 10 ** 7)), microseconds=int(rng.choice([0, 123456])))
    stamped = rng.random() < .9
    for u in ([False, True] if uncertain else [False]):
        a = dict(positions=rng.uniform(-180, 180, (n, 3)), status_codes=rng.integers(0, 13, n).astype(np.int16), spill_num=rng.integers(0, 4, n).astype(np.uint16),
                 id=rng.integers(0, 1 << 30, n).astype(np.uint32), mass=rng.uniform(0, 10, n), age=rng.integers(0, 10 ** 5, n).astype(np.int32),
                 mass_components=rng.uniform(0, 1, (n, 5)))
        if odd and n:
            a["mass"][0] = np.nan
            a["positions"][0, 0] = -0.0
        if rng.random() < .3:
            a["extra_%d" % rng.integers(3)] = rng.integers(0, 2, n).astype(bool)
        sc = SpillContainerData(a, uncertain=u)
        if stamped:
            sc.current_time_stamp = t
        if rng.random() < .8:
            sc.mass_balance = {k: float(v) for k, v in zip(["evaporated", "floating", "amount_released"][:int(rng.integers(0, 4))], rng.uniform(0, 1e6, 3))}
        out.append(sc)
    return SpillContainerPairData(*out)


def freeze(pair):
    out = []
    for sc in pair.items():
        out.append((sc.uncertain, {k: np.array(v) for k, v in sc.data_arrays.items()}, dict(sc.mass_balance), sc.current_time_stamp))
    return out


def same(got, want, mon, what):
    items = got.items()
    if not mon.check(len(items) == len(want), "sets read are not those stored", lambda: "%s: %d, stored %d" % (what, len(items), len(want))):
        return
    for sc, (u, a, mb, t) in zip(items, want):
        mon.check(sc.uncertain == u, "set read is not the one stored", what)
        mon.check(sc.current_time_stamp == t, "time read is not the one stored", lambda: "%s: %r, stored %r" % (what, sc.current_time_stamp, t))
        if mon.check(set(sc.data_arrays) == set(a), "arrays read are not those stored", lambda: "%s: %s" % (what, set(sc.data_arrays) ^ set(a))):
            for k in a:
                b = np.asarray(sc[k])
                mon.check(b.dtype == a[k].dtype and b.shape == a[k].shape and b.tobytes() == a[k].tobytes(), "values read are not those stored", lambda: "%s: %s: %s %s" % (what, k, b[:4], a[k][:4]))
        mon.check(set(sc.mass_balance) == set(mb) and all(float(sc.mass_balance[k]) == float(mb[k]) or mb[k] != mb[k] for k in mb), "mass balance read is not the one stored",
                  lambda: "%s: %s, stored %s" % (what, dict(sc.mass_balance), mb))
        if u:
            mon.event("read_uncertain")
        if not len(a.get("positions", ())):
            mon.event("read_empty")


def spoil(pair, rng, mon):
    """what a careless reader may do with the result"""
    for sc in pair.items():
        for k in list(sc.data_arrays):
            x = sc[k]
            if x.size and x.flags.writeable:
                x[...] = x.dtype.type(1)
        sc.mass_balance["floating"] = -1.
        sc.current_time_stamp = gn.T0
        sc.data_arrays.pop("positions", None)
    mon.event("reader_mutations")


def refused(cache, k, mon, what, mech="step that is not there was returned"):
    from gnome.utilities.cache import CacheError
    try:
        cache.load_timestep(k)
        mon.check(False, mech, "%s: step %s" % (what, k))
    except CacheError:
        mon.check(True, mech)


def case(i, rng, mon):
    if i % 3 == 0:
        return model_case(i, rng, mon)
    from gnome.utilities.cache import ElementCache
    disk = bool(rng.random() < .8)
    caches = [ElementCache(enabled=disk) for _ in range(2)]
    ref = [{}, {}]
    unc = [bool(rng.random() < .5), bool(rng.random() < .5)]
    last = [None, None]
    K = int(rng.choice([1, 1, 10, 100, 1000, 10000, 100000]))      # step numbers of long runs too
    if K > 1:
        mon.event("large_step_numbers")
    for op in range(int(rng.integers(5, 40))):
        w = int(rng.integers(2))
        c = caches[w]
        if c is None:
            continue
        r = rng.random()
        what = "cache %d, disk %s" % (w, disk)
        if r < .45 or not ref[w]:
            k = K * int(rng.integers(0, 12)) if rng.random() < .8 or last[w] is None else last[w] + 1
            if k in ref[w]:
                mon.event("overwritten_step")
            p = fake_pair(rng, unc[w])
            c.save_timestep(k, p)
            if not disk:
                ref[w] = {}
            ref[w][k] = freeze(p)
            last[w] = k
            if rng.random() < .5:         # the run goes on with the same arrays
                for sc in p.items():
                    for n in sc.data_arrays:
                        if sc[n].size:
                            sc[n][...] = sc[n].dtype.type(0)
        elif r < .85:
            k = int(rng.choice(list(ref[w]))) if rng.random() < .8 else int(rng.choice([K, 1])) * int(rng.integers(0, 14))
            if k in ref[w]:
                g = c.load_timestep(k)
                same(g, ref[w][k], mon, what)
                mon.event("read_recent" if k == last[w] else "read_disk")
                mon.state("synthetic", disk, unc[w], "recent" if k == last[w] else "disk", len(ref[w][k][0][1]["positions"]) > 0)
                if rng.random() < .5:
                    spoil(g, rng, mon)
                    same(c.load_timestep(k), ref[w][k], mon, what + " after the reader changed its copy")
            else:
                refused(c, k, mon, what)
                mon.event("missing_step_refused")
        elif r < .93:
            old = list(ref[w])
            c.rewind()
            ref[w] = {}
            last[w] = None
            for k in old:
                refused(c, k, mon, what, "step of the run before the rewind was returned")
            mon.event("after_rewind_refused")
            mon.state("rewound", disk, unc[w], len(old))
        elif r > .985 and w == 1:
            caches[1] = None
            del c
            gc.collect()
            ref[1] = {}
            mon.event("deleted_other_cache")
        else:
            for k in ref[w]:
                same(c.load_timestep(k), ref[w][k], mon, what)
    for w in range(2):
        if caches[w] is not None:
            for k in sorted(ref[w], key=lambda _: rng.random()):
                same(caches[w].load_timestep(k), ref[w][k], mon, "final reading")
    mon.event("two_caches")
    if not disk:
        mon.event("disk_off")


def model_case(i, rng, mon):
    S = gn.random_spec(rng, nsteps=int(rng.integers(3, 8)), nmax=12)
    mon.ctx["spec"] = gn.brief(S)
    model = gn.build(S, cache=True)
    other = gn.build(gn.random_spec(rng, nsteps=3, nmax=8), cache=True)
    other.rewind()
    otr = []
    from gnome.outputters import Outputter
    out = Outputter()                   # an outputter that served another model before reads the cache of this one
    other.outputters += out
    other.outputters.remove(out.id)
    model.outputters += out

    def run(m, other_every=0):
        tr = []
        m.rewind()
        while True:
            try:
                m.step()
            except StopIteration:
                break
            tr.append(freeze(m.spills))
            if other_every and len(tr) % other_every == 0 and len(otr) < 4:
                other.step()
                otr.append(freeze(other.spills))
        return tr
    tr = run(model, 2)
    for k in rng.permutation(len(tr)):
        k = int(k)
        what = "step %d of a model run" % k
        g = model._cache.load_timestep(k)
        same(g, tr[k], mon, what)
        same(out.cache.load_timestep(k), tr[k], mon, what + " by an outputter")
        mon.state("model", S["uncertain"], k == len(tr) - 1, len(tr[k][0][1]["positions"]) > 0, S["oil"] is not None)
        mon.event("read_disk" if k < len(tr) - 1 else "read_recent")
        if rng.random() < .3:
            spoil(g, rng, mon)
            same(model._cache.load_timestep(k), tr[k], mon, what + " again")
    for k in range(len(otr)):
        same(other._cache.load_timestep(k), otr[k], mon, "step of the other model")
    refused(model._cache, len(tr), mon, "model")
    mon.event("missing_step_refused")
    # a shorter second run
    model.rewind()
    for k in range(len(tr)):
        refused(model._cache, k, mon, "model", "step of the run before the rewind was returned")
    mon.event("after_rewind_refused")
    for sp in model.spills:
        sp.amount = sp.amount * 2 + 1
    n2 = int(rng.integers(1, len(tr)))
    tr2 = []
    for _ in range(n2):
        model.step()
        tr2.append(freeze(model.spills))
    for k in range(n2):
        same(model._cache.load_timestep(k), tr2[k], mon, "step of the second run")
    for k in range(n2, len(tr)):
        refused(model._cache, k, mon, "model", "step of the run before the rewind was returned")
    for k in range(len(otr)):
        same(other._cache.load_timestep(k), otr[k], mon, "step of the other model after a rewind of this one")
    mon.event("shorter_second_run")
    mon.event("model_run")
