"""Ordered collections against a list model, over random operation histories."""
PROPERTY = "P19"
KIND = "plain"
N = {"quick": 1600, "thorough": 40000}
BUDGET = {"quick": 60, "thorough": 1500}
RULE = ("distinct (operation, how the element was named, collection size class, "
        "removed-before flag, outcome) seen by the list-model monitor")
NEED = ["op_add", "op_remove", "op_replace", "op_slice", "op_index", "op_get", "op_update", "callback_add",
        "callback_remove", "callback_replace", "model_histories", "with_waves"]
ASSUMES = ["an element is never put at two positions of one collection (replace by a present element is outside the contract)"]

from gnome.utilities.orderedcollection import OrderedCollection


class Plain(object):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "P%d" % self.n


class WithId(Plain):
    def __init__(self, n):
        self.n = n
        self.id = "id-%04d" % ((n * 7919) % 10007)


def key(e):
    return str(e.id) if hasattr(e, "id") else str(id(e))


def case(i, rng, mon):
    if i % 8 == 7:
        return model_case(i, rng, mon)
    cls = WithId if i % 2 else Plain
    pool = [cls(k) for k in range(200)]
    nxt = int(rng.integers(0, 6))
    init = pool[:nxt]
    oc = OrderedCollection(list(init), dtype=Plain) if nxt else OrderedCollection(dtype=Plain)
    ref = list(init)
    removed = []
    log, want = [], []
    evs = [("add", "remove", "replace"), "add", ("remove",), ("replace", "add")][i % 4]
    for ev in ("add", "remove", "replace"):
        oc.register_callback(lambda o, ev=ev: log.append((ev, o)), events=ev)
    log2, want2 = [], []
    oc.register_callback(lambda o: log2.append(o), events=evs)
    evset = (evs,) if isinstance(evs, str) else evs
    hist = []
    mon.ctx["history"] = hist

    def fire(ev, o):
        want.append((ev, o))
        if ev in evset:
            want2.append(o)
        mon.event("callback_" + ev)

    for step in range(int(rng.integers(5, 45))):
        op = rng.choice(["add", "addmany", "iadd", "remove", "replace", "get", "slice", "index",
                         "dup", "missing", "remake", "del", "set", "badtype", "clear", "update"],
                        p=[.12, .06, .05, .1, .1, .1, .12, .06, .04, .04, .04, .06, .06, .02, .01, .02])
        out = ""
        by = "-"
        if op == "add":
            e = pool[nxt]; nxt += 1
            (oc.add if rng.random() < .5 else oc.append)(e)
            ref.append(e); fire("add", e); mon.event("op_add")
        elif op in ("addmany", "iadd"):
            k = int(rng.integers(0, 4))
            es = pool[nxt:nxt + k]; nxt += k
            if ref and rng.random() < .3:
                es = es + [ref[0]]
            if removed and rng.random() < .3 and removed[-1] not in es:
                es = es + [removed.pop()]
            if op == "iadd":
                oc += es
            else:
                oc.add(es)
            for e in es:
                if e not in ref:
                    ref.append(e); fire("add", e)
            mon.event("op_add")
        elif op == "dup" and ref:
            oc.add(ref[int(rng.integers(len(ref)))])
        elif op in ("remove", "del", "replace", "set") and ref:
            k = int(rng.integers(len(ref)))
            by = ["index", "negative", "id"][int(rng.integers(3))]
            ident = {"index": k, "negative": k - len(ref), "id": key(ref[k])}[by]
            if op in ("remove", "del"):
                e = ref.pop(k)
                if op == "remove":
                    oc.remove(ident)
                else:
                    del oc[ident]
                removed.append(e); fire("remove", e); mon.event("op_remove")
            else:
                e = pool[nxt]; nxt += 1
                if op == "replace":
                    oc.replace(ident, e)
                else:
                    oc[ident] = e
                ref[k] = e; fire("replace", e); mon.event("op_replace")
        elif op == "get" and ref:
            k = int(rng.integers(-len(ref), len(ref)))
            by = "index"
            mon.check(oc[k] is ref[k], "get by index", lambda: "oc[%d]" % k)
            k = int(rng.integers(len(ref)))
            mon.check(oc[key(ref[k])] is ref[k] and oc.get(key(ref[k])) is ref[k], "get by id", "")
            mon.event("op_get")
        elif op == "slice":
            b = [None] + list(range(-len(ref) - 2, len(ref) + 3))
            s = slice(b[int(rng.integers(len(b)))], b[int(rng.integers(len(b)))],
                      [None, 1, 2, -1, -2, 3][int(rng.integers(6))])
            by = "neg" if (s.start or 0) < 0 or (s.stop or 0) < 0 else "nonneg"
            mon.check(list(oc[s]) == ref[s], "slice unlike a list", lambda: "%r of %r" % (s, ref))
            mon.event("op_slice")
        elif op == "index" and ref:
            k = int(rng.integers(len(ref)))
            mon.check(oc.index(ref[k]) == k and oc.index(key(ref[k])) == k, "index of element",
                      lambda: "%r != %d" % (oc.index(ref[k]), k))
            mon.event("op_index")
        elif op == "missing":
            e = removed[-1] if removed else pool[-1]
            mon.check(e not in oc, "removed element still contained")
            for f in (lambda: oc.index(e), lambda: oc[key(e)], lambda: oc.remove(key(e)),
                      lambda: oc.replace(key(e), pool[-2]), lambda: oc[len(ref)], lambda: oc[-len(ref) - 1]):
                try:
                    f()
                    mon.check(False, "operation on an absent element succeeds", "")
                except (KeyError, ValueError, IndexError, TypeError):
                    mon.check(True, "")
        elif op == "badtype":
            for f in (lambda: oc.add(3), lambda: oc.add([3]), lambda: oc.replace(0, "x") if ref else oc.add(3)):
                try:
                    f()
                    mon.check(False, "element of another type accepted", "")
                except TypeError:
                    mon.check(True, "")
        elif op == "remake":
            oc.remake()
        elif op == "clear":
            oc.clear(); removed += ref; ref = []
        elif op == "update":            # a list of the elements it is to hold from now on
            es = [ref[k] for k in rng.permutation(len(ref))[:int(rng.integers(len(ref) + 1))]]
            if rng.random() < .5:
                es.insert(int(rng.integers(len(es) + 1)), pool[nxt])
                nxt += 1
            removed += [e for e in ref if e not in es]
            oc.update(list(es))
            mon.check(all(("add", e) in log for e in es if e not in ref), "callbacks not exactly once and in order", "an element that came with an update")
            ref = es
            want[:], want2[:] = log, log2          # whether those that stay are announced again is not stated
            mon.event("op_update")
        hist.append((op, by))
        # the whole observable state after every operation
        got = list(oc)
        mon.check(len(got) == len(ref) and all(x is y for x, y in zip(got, ref)) and len(oc) == len(ref),
                  "order or content differs from the list model", lambda: "%r != %r" % (got, ref))
        mon.check(list(oc.values()) == ref, "values() differs", "")
        mon.check(all(e in oc for e in ref) and [d["id"] for d in oc.to_dict()] == [key(e) for e in ref],
                  "membership or ids differ", "")
        mon.check(log == want and log2 == want2, "callbacks not exactly once and in order",
                  lambda: "%r != %r" % (log, want))
        mon.state(op, by, min(len(ref), 6), bool(removed), cls.__name__)
        if log != want or list(oc) != ref:
            break
    o2 = OrderedCollection(list(ref), dtype=Plain)
    mon.check(o2 == oc and not (o2 != oc), "equality with a rebuilt collection")
    if len(ref) > 1:
        o3 = OrderedCollection(ref[1:] + ref[:1], dtype=Plain)
        mon.check(o3 != oc, "order ignored by equality")
    mon.event("histories")


def model_case(i, rng, mon):
    """the collections of a model: what is added to it brings its environment along"""
    from gnome.model import Model
    from gnome.movers import RandomMover, SimpleMover, WindMover, PointWindMover
    from gnome.environment import Wind, Water, Waves, constant_wind
    from gnome.weatherers import Evaporation, Emulsification, NaturalDispersion
    from gnome.outputters import WeatheringOutput
    m = Model()
    ref = {"movers": [], "weatherers": [], "environment": [], "outputters": []}

    def mk():
        k = rng.integers(8)
        if k == 0:
            return "movers", RandomMover(), []
        if k == 1:
            return "movers", SimpleMover((1, 0, 0)), []
        if k == 2:
            w = constant_wind(3, 20)
            return "movers", PointWindMover(w), [w]
        if k == 3:
            w = constant_wind(5, 200); wt = Water(300.)
            return "weatherers", Evaporation(water=wt, wind=w), [wt, w]
        if k == 4:
            return "environment", Water(290.), []
        if k in (5, 6):
            wd = constant_wind(5, 200)
            wt = Water(300.)
            wv = Waves(wd, wt)
            mon.event("with_waves")
            return ("environment", wv, [wd, wt]) if k == 6 else ("weatherers", Emulsification(wv) if rng.random() < .5 else NaturalDispersion(waves=wv, water=wt), [wv, wd, wt])
        return "outputters", WeatheringOutput(), []

    for _ in range(int(rng.integers(3, 14))):
        which = rng.choice(["add", "add", "add", "remove", "replace"])
        if which == "add":
            coll, o, envs = mk()
            c = getattr(m, coll)
            c += o
            ref[coll].append(o)
            for e in envs:
                mon.check(any(x is e for x in m.environment), "environment of an added object is not in the model", repr(e))
            mon.event("env_refs", len(envs))
        else:
            coll = str(rng.choice(list(ref)))
            if not ref[coll]:
                continue
            k = int(rng.integers(len(ref[coll])))
            c = getattr(m, coll)
            if which == "remove":
                c.remove(ref[coll][k].id)
                ref[coll].pop(k)
        for coll in ("movers", "outputters"):
            got = list(getattr(m, coll))
            mon.check(len(got) == len(ref[coll]) and all(a is b for a, b in zip(got, ref[coll])),
                      "model collection order", coll)
        mon.state("model", which, min(4, len(ref["movers"])), min(4, len(list(m.environment))))
    mon.event("model_histories")
