"""The clock, the order of calls and the number of steps of a run."""
PROPERTY = "P08"
KIND = "plain"
N = {"quick": 2400, "thorough": 30000}
BUDGET = {"quick": 75, "thorough": 1800}
RULE = "(direction, remainder of the duration, sets, way of running, kind of interruption, on/off and spill state)"
NEED = ["steps_traced", "calls_traced", "ages_judged", "rewinds_judged", "backward", "uncertain", "late_spill", "iter", "full_run", "continued", "duration_longer", "setter", "time_step_none", "steps_of_days", "interval_step"]
ASSUMES = ["the age of an element is judged to half a step: releases happen at the middle or the ends of a step"]

import datetime as dt
import numpy as np
import gn
from gn import sec


def probes(log):
    from gnome.movers import Mover
    from gnome.weatherers import Weatherer
    from gnome.environment import Environment
    from gnome.outputters import Outputter

    class PMover(Mover):
        def prepare_for_model_run(self):
            log.append(("mover", "run", None, None, None))

        def prepare_for_model_step(self, sc, ts, t):
            super().prepare_for_model_step(sc, ts, t)
            log.append(("mover", "prepare", sc.uncertain, ts, t))

        def get_move(self, sc, ts, t):
            log.append(("mover", "move", sc.uncertain, ts, t))
            return np.zeros_like(sc["positions"])

        def model_step_is_done(self, sc=None):
            log.append(("mover", "done", sc.uncertain, None, None))

        def post_model_run(self):
            log.append(("mover", "post", None, None, None))

    class PWeath(Weatherer):
        def prepare_for_model_run(self, sc):
            log.append(("weatherer", "run", sc.uncertain, None, None))

        def prepare_for_model_step(self, sc, ts, t):
            super().prepare_for_model_step(sc, ts, t)
            log.append(("weatherer", "prepare", sc.uncertain, ts, t))

        def weather_elements(self, sc, ts, t):
            log.append(("weatherer", "weather", sc.uncertain, ts, t))

        def model_step_is_done(self, sc=None):
            log.append(("weatherer", "done", sc.uncertain, None, None))

    class PEnv(Environment):
        def prepare_for_model_run(self, t):
            log.append(("env", "run", None, None, t))

        def prepare_for_model_step(self, t):
            log.append(("env", "prepare", None, None, t))

    class POut(Outputter):
        def prepare_for_model_run(self, **kw):
            super().prepare_for_model_run(**kw)
            log.append(("out", "run", None, kw.get("model_time_step"), kw.get("model_start_time")))

        def prepare_for_model_step(self, ts, t):
            super().prepare_for_model_step(ts, t)
            log.append(("out", "prepare", None, ts, t))

        def model_step_is_done(self):
            log.append(("out", "done", None, None, None))

        def write_output(self, step_num, islast_step=False):
            super().write_output(step_num, islast_step)
            log.append(("out", "write", None, step_num, islast_step))

    return PMover(), PWeath(), PEnv(), POut()


ORDER = {"prepare": 0, "move": 1, "weather": 2, "done": 3, "write": 4}


def case(i, rng, mon):
    if i % 25 == 24:
        return auto_step(rng, mon)
    back = bool(rng.random() < .3)
    S = gn.random_spec(rng, back=back, oil=False, movers=["simple"] if rng.random() < .3 else [], nmax=6, nsteps=int(rng.integers(1, 9)), weather=False)
    if rng.random() < .15 and not any(p["dur"] for p in S["spills"]):     # steps of a day and more
        for p in S["spills"]:
            p["start"] = 0
        S["ts"] = int(rng.choice([86400, 90000, 259200]))
        mon.event("steps_of_days")
    ts = S["ts"]
    S["extra"] = int(rng.choice([0, 0, 1, ts // 2, ts - 1]))
    S["uncertain"] = bool(rng.random() < .4)
    if not back:
        for sp in S["spills"]:
            if rng.random() < .5:
                sp["start"] = float(rng.integers(0, max(1, S["n"] * ts)))
    mon.ctx["spec"] = gn.brief(S) + " n=%d extra=%d back=%s starts=%s" % (S["n"], S["extra"], back, [p["start"] for p in S["spills"]])
    model = gn.build(S)
    if rng.random() < .4:
        model.time_step = sec(-ts if back else ts)     # as an interval instead of a number of seconds
        mon.check(model.time_step == (-ts if back else ts) and model.num_time_steps == S["n"] + 1, "time step given as an interval", lambda: "%s" % model.time_step)
        mon.event("interval_step")
    log = []
    pm, pw, pe, po = probes(log)
    weath = not back
    model.movers += pm
    if weath:
        model.weatherers += pw
    model.environment += pe
    model.outputters += po
    W = World(model, S, log, weath, mon)
    how = str(rng.choice(["step", "iter", "full_run", "continued"]))
    interrupt = str(rng.choice(["none", "rewind", "setter", "longer", "shorter"])) if how == "step" else "none"
    mon.ctx["how"] = how + "/" + interrupt
    W.restart()
    if how == "iter":
        for r in model:
            W.after_step(r)
        W.ended()
        mon.event("iter")
    elif how == "full_run":
        R = model.full_run()
        W.whole(R)
        mon.event("full_run")
    elif how == "continued":
        model.rewind()
        k = int(rng.integers(1, S["n"] + 2))
        for _ in range(k):
            W.after_step(model.step())
        R = model.full_run(rewind=False)
        mon.check([r["step_num"] for r in R] == list(range(k, S["n"] + 1)), "continued run has other steps", lambda: str([r["step_num"] for r in R]))
        mon.event("continued")
    else:
        model.rewind()
        if interrupt != "none":
            k = int(rng.integers(1, S["n"] + 2))
            for _ in range(k):
                W.after_step(model.step())
            if interrupt == "rewind":
                model.rewind()
                W.rewound("rewind()")
            elif interrupt == "setter":
                W.setter(rng)
                mon.event("setter")
            elif interrupt == "longer":
                S["n"] += 3
                sg = -1 if back else 1
                model.duration = sec(sg * (S["n"] * ts + S["extra"]))
                W.N = S["n"]
                mon.check(model.num_time_steps == S["n"] + 1, "number of steps after a longer duration", lambda: str(model.num_time_steps))
                mon.event("duration_longer")
            elif interrupt == "shorter" and S["n"] > 1:
                S["n"] -= 1
                sg = -1 if back else 1
                model.duration = sec(sg * (S["n"] * ts + S["extra"]))
                W.N = S["n"]
                W.rewound("a shorter duration")
        while True:
            try:
                r = model.step()
            except StopIteration:
                break
            if W.k > W.N + 5:
                mon.check(False, "run does not stop", "")
                return
            W.after_step(r)
        W.ended()
        for _ in range(2):
            try:
                model.step()
                mon.check(False, "a finished run makes another step", "")
            except StopIteration:
                mon.check(True, "a finished run makes another step")
    if back:
        mon.event("backward")
    if S["uncertain"]:
        mon.event("uncertain")
    if any(p["start"] > 0 for p in S["spills"]):
        mon.event("late_spill")
    mon.state(back, S["extra"] > 0, S["uncertain"], how, interrupt, any(p["start"] > 0 for p in S["spills"]), len(S["movers"]) > 0)


class World(object):
    """what a run must look like, followed step by step"""
    def __init__(self, model, S, log, weath, mon):
        self.model, self.S, self.log, self.weath, self.mon = model, S, log, weath, mon
        self.N = S["n"]
        self.ts = S["ts"] * (-1 if S["back"] else 1)
        self.t0 = gn.T0
        self.restart()

    def restart(self):
        self.k = -1
        self.ages = {}
        del self.log[:]

    def rewound(self, why):
        self.mon.check(self.model.current_time_step == -1 and self.model.model_time == self.model.start_time, "model not rewound after a change",
                       lambda: "%s: at step %s, %s" % (why, self.model.current_time_step, self.model.model_time))
        self.mon.event("rewinds_judged")
        self.restart()

    def setter(self, rng):
        from gnome.movers import SimpleMover
        from gnome.maps import GnomeMap
        m = self.model
        k = str(rng.choice(["time_step", "start_time", "map", "uncertain", "add_mover", "replace_mover", "add_env", "run_backwards"]))
        self.mon.ctx["setter"] = k
        if k == "time_step":
            m.time_step = self.ts
        elif k == "start_time":
            if any(p["start"] for p in self.S["spills"]) or self.S["back"]:
                m.start_time = self.t0
            else:
                self.t0 = self.t0 - sec(self.ts * 2)
                m.start_time = self.t0
        elif k == "map":
            m.map = m.map
        elif k == "uncertain":
            m.uncertain = not m.uncertain
        elif k in ("add_mover", "replace_mover"):
            x = SimpleMover((0., 0., 0.))
            m.movers += x
            if k == "replace_mover":
                m.rewind()
                del self.log[:]
                self.restart()
                self.after_step(m.step())
                m.movers[x.id] = SimpleMover((0., 0., 0.))
        elif k == "add_env":
            m.environment += probes([])[2]
        elif k == "run_backwards":
            if self.S["back"]:
                m.run_backwards = True
            else:
                m.run_backwards = True
                m.run_backwards = False
        self.rewound(k)

    def time(self, k):
        return self.t0 + sec(k * self.ts)

    def whole(self, R):
        mon = self.mon
        mon.check([r["step_num"] for r in R] == list(range(self.N + 1)), "full run has other steps", lambda: str([r["step_num"] for r in R]))
        mon.check([r["step_time"] for r in R] == [self.time(k).isoformat(timespec="minutes") for k in range(self.N + 1)], "full run has other times", lambda: str([r["step_time"] for r in R]))
        w = [(e[3], e[4]) for e in self.log if e[:2] == ("out", "write")]
        mon.check(w == [(k, k == self.N) for k in range(self.N + 1)], "output not asked for exactly once per step", lambda: str(w))
        for who, what in (("mover", "move"), ("weatherer", "weather"), ("mover", "prepare"), ("out", "prepare"), ("env", "prepare")):
            t = [e[4] for e in self.log if e[0] == who and e[1] == what and not e[2]]
            exp = [self.time(k) for k in range(self.N)]
            if what == "move":      # no call while no element is out
                exp = [e for e in exp if e in t]
            elif who == "weatherer" and not self.weath:
                exp = []
            mon.check(t == exp, "%s %s not once per step with the right time" % (who, what), lambda: "%s, expected %s" % (t, exp))
        mon.event("steps_traced", self.N + 1)
        self.k = self.N
        self.ended()

    def ended(self):
        self.mon.check(self.k == self.N, "run ended after another number of steps", lambda: "last step %d, expected %d" % (self.k, self.N))
        self.mon.check(self.model.num_time_steps == self.N + 1, "number of steps announced is not the number made", "")
        if not any(e[1] == "post" for e in self.log):
            self.mon.check(False, "end of the run not announced to the components", "")

    def after_step(self, r):
        mon, m = self.mon, self.model
        self.k += 1
        k = self.k
        log = list(self.log)
        del self.log[:]
        mon.check(m.current_time_step == k and r["step_num"] == k, "step number", lambda: "%s %s expected %d" % (m.current_time_step, r["step_num"], k))
        mon.check(m.model_time == self.time(k), "model time", lambda: "%s at step %d, expected %s" % (m.model_time, k, self.time(k)))
        mon.check(r["step_time"] == self.time(k).isoformat(timespec="minutes"), "reported time of the step", lambda: r["step_time"])
        for sc in m.spills.items():
            mon.check(sc.current_time_stamp == self.time(k), "time stamp of the elements", lambda: "%s expected %s" % (sc.current_time_stamp, self.time(k)))
        mon.event("steps_traced")
        mon.event("calls_traced", len(log))
        sets = [False] + ([True] if m.uncertain else [])
        if k == 0:
            runs = [e for e in log if e[1] == "run"]
            mon.check(sorted(e[0] for e in runs) == sorted(["mover", "env", "out"] + (["weatherer"] if self.weath else [])), "start of the run not announced once to each component", lambda: str(runs))
            for e in runs:
                if e[4] is not None:
                    mon.check(e[4] == self.t0, "component told another start time", lambda: str(e))
                if e[3] is not None:
                    mon.check(e[3] == self.ts, "component told another time step", lambda: str(e))
            rest = [e for e in log if e[1] != "run"]
            mon.check(rest == [("out", "write", None, 0, self.N == 0)], "step zero does more than put out the initial state", lambda: str(rest))
        else:
            exp = []
            t = self.time(k - 1)
            for u in sets:
                exp.append(("mover", "prepare", u, self.ts, t))
                exp.append(("mover", "done", u, None, None))
                if self.had[u]:
                    exp.append(("mover", "move", u, self.ts, t))
                if self.weath:
                    exp.append(("weatherer", "done", u, None, None))
            if self.weath:
                exp += [("weatherer", "prepare", False, self.ts, t), ("weatherer", "weather", False, self.ts, t)]
            exp += [("env", "prepare", None, None, t), ("out", "prepare", None, self.ts, t), ("out", "done", None, None, None), ("out", "write", None, k, k == self.N)]
            # the movers see elements of this step's first half too: accept a move when none were there before
            got = [e[:3] + (int(e[3]) if isinstance(e[3], float) and e[3] == int(e[3]) else e[3],) + e[4:] for e in log]
            for u in sets:
                e = ("mover", "move", u, self.ts, t)
                if not self.had[u] and e in got:
                    exp.append(e)
            mon.check(sorted(map(str, got)) == sorted(map(str, exp)), "calls of a step", lambda: "step %d: missing %s, extra %s" % (k, [e for e in exp if e not in got], [e for e in got if e not in exp or got.count(e) > exp.count(e)]))
            ph = [ORDER[e[1]] for e in got if e[1] in ORDER]
            mon.check(ph == sorted(ph), "order of the phases of a step", lambda: str([e[:2] for e in got]))
        self.had = {}
        for sc in m.spills.items():
            self.had[sc.uncertain] = len(sc["id"]) > 0
            for j, a, n in zip(sc["id"], sc["age"], sc["spill_num"]):
                key = (sc.uncertain, int(j))
                if key in self.ages:
                    mon.check(a == self.ages[key] + abs(self.ts), "age does not grow by the step", lambda: "element %s: %s after %s" % (key, a, self.ages[key]))
                else:
                    mon.check(a in ((0,) if k == 0 else (0, abs(self.ts))), "age of a new element", lambda: "%s at step %d" % (a, k))
                self.ages[key] = a
                sp = self.S["spills"][int(n)]
                if sp["dur"] == 0:
                    true = abs((self.time(k) - gn.T0).total_seconds() - sp["start"])
                    mon.check(abs(a - true) <= abs(self.ts) / 2 + 1e-6, "age is not the time since release", lambda: "%s, released %s ago" % (a, true))
            mon.event("ages_judged", len(sc["id"]))


def auto_step(rng, mon):
    """no time step given: 900 s with movers, 3600 s when only weathering"""
    from gnome.model import Model
    from gnome.movers import SimpleMover
    d = float(rng.integers(3600, 5 * 3600))
    m = Model(start_time=gn.T0, time_step=None, duration=sec(d))
    mv, we = bool(rng.random() < .5), bool(rng.random() < .5)
    if mv:
        m.movers += SimpleMover((1., 0, 0))
    if we:
        m.weatherers += probes([])[1]
    n = len(m.full_run())
    ts = 900 if mv or not we else 3600
    mon.check(m.time_step == ts and n == int(d // ts) + 1, "time step chosen by the model", lambda: "%s, %d steps, expected %d of %d s" % (m.time_step, n, int(d // ts) + 1, ts))
    mon.event("time_step_none")
    mon.state("auto", mv, we)
