"""Sessions of fits with failures (C26)."""

import json
import random
from fractions import Fraction as Q

import numpy as np

import common
import fit_cases as fc
import sim_cases as sim
from common import Recorder
from heap_cases import Contents


class Boom(Exception):
    pass


class Fault:
    """Counts the evaluations of materials and fails at one of them."""

    def __init__(self):
        self.count, self.at, self.exc, self.fired = 0, None, Boom, False

    def arm(self, at=None, exc=Boom):
        self.count, self.at, self.exc, self.fired = 0, at, exc, False

    def wrap(self, material):
        fault = self

        class Material:
            def __init__(self, inner):
                self.inner = inner

            def gradient(self, x):
                fault.count += 1
                if fault.count == fault.at:
                    fault.fired = True
                    raise fault.exc("failure injected")
                return self.inner.gradient(x)

        return lambda **kw: Material(material(**kw))


def protect(fun, *args, **kwargs):
    try:
        return fun(*args, **kwargs), ""
    except (Exception, KeyboardInterrupt, SystemExit) as e:
        return None, type(e).__name__


def unbounded(a, kind):
    """Infinite covariances and errors as large finite numbers, which can be told from undefined ones."""
    a = np.asarray(a, dtype=float)
    return np.where(np.isposinf(a), 1e150 if kind == "errors" else 1e300, a) if kind in ("errors", "pcov") else a


METHODS = [{}, {"method": "lm"}, {"method": "trf"}, {"method": "dogbox"}, {"method": "trf", "ftol": 1e-12, "xtol": 1e-12, "gtol": 1e-12}]


class Session:
    def __init__(self, r, spec, spname, own, share):
        from hyperelastic import lab

        self.r, self.lab = r, lab
        labels, _, _, _, maker, _ = spec
        self.order = r.sample(labels, len(labels))
        self.np = len(labels)
        self.fault = Fault()
        self.material = self.fault.wrap(maker(sim.space_of(spname)))
        loads = r.sample(fc.LOADS, 3)

        def experiment(name, load, n):
            length, area = float(r.choice([1, 2, Q(1, 4), 25])), float(r.choice([1, 2, Q(3, 4), 25]))
            x = np.array(sorted(r.uniform(0.6, 2.2) for _ in range(n)))
            d, f = (x - 1) * length, np.array([r.uniform(-5, 5) for _ in range(n)])
            return lab.Experiment(name, d if r.random() < 0.6 else d.tolist(), f if r.random() < 0.6 else f.tolist(),
                                  area=area, length=length), load

        m = self.np + 2
        e1, e2 = experiment("one", loads[0], m + r.randrange(3)), experiment("two", loads[1], m + r.randrange(3))
        self.exact = not share and r.random() < 0.4  # as many data points as parameters: the covariance is infinite
        e3 = e2 if share else experiment("three", loads[1], self.np if self.exact else m + 1)
        self.exps = {"O": [e1[0], e2[0]], "U": [e3[0]]}
        self.names = {"O": ["S", "T"], "U": ["T"]}
        self.load = {"S": loads[0], "T": loads[1]}
        self.masks = {"O": r.choice([None, [slice(None, None, 2), slice(None)], [slice(1, None), np.arange(m)[::-1]]]),
                      "U": None if self.exact else r.choice([None, [slice(1, None)]])}
        kind = r.choice(["array", "array", "list", "tuple", "int"])
        p0 = [float(r.choice([1, 2, -1, 0.5])) for _ in range(self.np)]
        self.p0 = {"array": np.array(p0), "list": list(p0), "tuple": tuple(p0), "int": np.array([1] * self.np)}[kind]
        self.kind = kind
        if own == "p0" and kind not in ("tuple", "list"):
            init = {"S": self.p0, "T": self.p0}
        else:
            init = {q: np.array([r.uniform(0.5, 2) for _ in p0]) for q in "ST"}
        self.own_sim = own == "own"
        self.init = init
        self.stretch = {q: np.array([r.uniform(0.7, 2) for _ in range(r.choice([1, 2, 3]))]) for q in "ST"}
        self.sims = {q: lab.Simulation(fc.load_class(self.load[q])(), self.stretch[q], self.order, self.material,
                                       parameters=init[q] if own == "own" or init[q] is self.p0 else None)
                     for q in "ST"}
        self.opts = {o: lab.Optimize(experiments=self.exps[o], simulations=[self.sims[q] for q in self.names[o]],
                                     parameters=self.p0, mask=self.masks[o]) for o in "OU"}
        self.kept, self.mtol = [], 5

    def design(self, load, x):
        """Design matrix from fresh simulations."""
        return np.array([self.lab.Simulation(fc.load_class(load)(), x, self.order, self.material, row).stress()
                         for row in np.eye(self.np)]).T

    def points(self, o):
        n = len(self.exps[o])
        return [(self.load[q], e.stretch[m], e.stress()[m]) for q, e, m in
                zip(self.names[o], self.exps[o], self.masks[o] or [slice(None)] * n)]

    def setup(self, rec):
        A, y = {}, {}
        for o in "OU":
            pts = self.points(o)
            A[o] = np.concatenate([self.design(ld, x) for ld, x, _ in pts])
            y[o] = np.concatenate([v for *_, v in pts])
            if A[o].shape[0] < self.np + (0 if self.exact and o == "U" else 1) or np.linalg.cond(A[o] / np.maximum(abs(A[o]).max(0), 1e-300)) > 1e3:
                return None
        return {"np": self.np, "A": {o: rec.arr(A[o]) for o in A}, "y": {o: rec.arr(y[o]) for o in y},
                "AS": {q: rec.arr(self.design(self.load[q], self.stretch[q])) for q in "ST"}}

    def copies(self, o):
        """A copy of the optimization on fresh objects, in its present state."""
        lab = self.lab
        sims = [lab.Simulation(fc.load_class(self.load[q])(), self.stretch[q].copy(), self.order, self.material,
                               np.array(self.opts[o].parameters)) for q in self.names[o]]
        exps = [lab.Experiment(e.label, np.array(e.displacement), np.array(e.force), area=e.area, length=e.length)
                for e in self.exps[o]]
        return lab.Optimize(experiments=exps, simulations=sims, parameters=np.array(self.opts[o].parameters), mask=self.masks[o])

    def fit(self, o, outcome):
        kw = dict(self.r.choice(METHODS))
        at, exc = None, self.r.choice([Boom, ValueError, RuntimeError, FloatingPointError, np.linalg.LinAlgError])
        ns = len(self.names[o])
        if outcome == "method":
            kw = self.r.choice([{"method": "none"}, {"bounds": ([10.0] * self.np, [-10.0] * self.np)}, {"nonsense": 1},
                                {"p0": None, "x": 1}])
        elif outcome == "maxfev":
            kw = {"maxfev": 1}
        elif outcome != "ok":
            self.fault.arm()
            _, err = protect(self.copies(o).curve_fit, **kw)
            total = self.fault.count
            if err or total < 2 * ns + 2:
                return None, "dry run: " + err, False
            at = {"init-first": 1, "init-last": ns, "search-first": ns + 1, "search-mid": self.r.randrange(ns + 1, total - ns + 1),
                  "search-last": total - ns, "interrupt": self.r.randrange(1, total + 1), "final-first": total - ns + 1,
                  "final-last": total}[outcome]
            if outcome == "interrupt":
                exc = KeyboardInterrupt
        self.mtol = fc.optimality(kw)
        self.fault.arm(at, exc)
        out, err = protect(self.opts[o].curve_fit, **kw)
        fired = self.fault.fired or outcome in ("maxfev", "method")
        self.fault.arm()
        return out, err, fired

    def state(self, con):
        arr = lambda obj, k: con(unbounded(getattr(obj, k), k)) if getattr(obj, k, None) is not None else 0  # noqa: E731
        own = [con(v) for o in "OU" for e in self.exps[o] for v in (e.displacement, e.force, e.stretch)]
        own += [con(self.stretch[q]) for q in "ST"]
        own += [con(v) for q, v in self.init.items() if v is not self.p0]
        own += [con(m) for o in "OU" for m in self.masks[o] or [] if not isinstance(m, slice)]
        return {"par": {o: arr(self.opts[o], "parameters") for o in "OU"},
                "resid": {o: arr(self.opts[o], "residuals") for o in "OU"},
                "err": {o: arr(self.opts[o], "errors") for o in "OU"},
                "sim": {q: con(np.asarray(self.sims[q].parameters, dtype=float)) for q in "ST"},
                "p0": con(np.asarray(self.p0, dtype=float)), "own": own,
                "kept": [{"o": o, "p": con(p), "v": con(unbounded(v, "pcov"))} for o, p, v in self.kept]}


def replay(rec, con, r, name, spec, spname, hist, setups):
    init = hist[0]
    s = None
    for attempt in range(20):
        s = Session(r, spec, spname, init["x"], r.random() < 0.5)
        u = s.setup(rec)
        if u is not None:
            break
    else:
        return
    setups.append(u)
    shared = "p0" if any(v is s.p0 for v in s.init.values()) else "own"
    steps = [dict(a="init", x=shared, y="-", exc="", fault=0, ret=[], **s.state(con))]
    for st in hist[1:]:
        a, x, y = st["a"], st["x"], st["y"]
        out, exc, fault, ret = None, "", False, []
        if a == "fit":
            out, exc, fault = s.fit(x, y)
            if not exc:
                ret = [con(out[0]), con(unbounded(out[1], "pcov"))]
        elif a == "stress":
            out, exc = protect(s.sims[x].stress)
            ret = [] if exc else [con(out)]
        elif a == "edit":
            if isinstance(s.p0, tuple):
                continue
            s.p0[0] = s.p0[0] + 3
        elif a == "restart":
            s.opts[x].parameters[:] = [r.uniform(0.5, 2) for _ in range(s.np)]
        if a == "fit" and not exc:
            s.kept.append((x, *out))
        steps.append(dict(st, exc=exc, fault=int(fault), ret=ret, mtol=s.mtol + common.SHARPEN, **s.state(con)))
        if exc.startswith("dry run"):
            break
    rec.add(setup=len(setups), steps=steps, tol=10 + common.SHARPEN, exc="",
            what="%s (%s), labels %s, initial parameters as %s, simulations of %s arrays: %s"
                 % (name, spname, s.order, s.kind, shared, " ".join("%s(%s %s)" % (q["a"], q["x"], q["y"]) for q in hist[1:])))


def controls(rec, con):
    out = set()
    for kind in ("par", "resid", "err", "sim", "p0", "own", "keptv", "pcov", "stress", "failed"):
        found = 0
        for c in rec.cases[:: max(1, len(rec.cases) // 300)]:
            steps = json.loads(json.dumps(c["steps"]))
            s = steps[-1]
            if len(steps) < 3:
                continue
            fit = s["a"] == "fit"
            o = s["x"]
            if kind in ("par", "resid", "err") and fit and not s["exc"]:
                ref, key = s[kind], o
            elif kind == "pcov" and fit and not s["exc"]:
                ref, key = s["ret"], 1
            elif kind == "stress" and s["a"] == "stress":
                ref, key = s["ret"], 0
            elif kind == "failed" and fit and s["exc"]:
                ref, key = s["par"], o
            elif kind == "sim":
                ref, key = s["sim"], "S"
            elif kind == "p0" and s["a"] != "edit":
                ref, key = s, "p0"
            elif kind == "own":
                ref, key = s["own"], 0
            elif kind == "keptv" and len(s["kept"]) > (1 if fit and not s["exc"] else 0):
                ref, key = s["kept"][0], "v"
            else:
                continue
            if not ref[key]:
                continue
            old = con.list[ref[key] - 1]
            vals = [rec.value(i) for i in old["d"]]
            if any(v is None for v in vals) or not vals:
                continue
            m = max(range(len(vals)), key=lambda i: abs(vals[i]))
            if kind == "pcov":
                m = 0
            if kind == "own" and abs(vals[m]) < Q(1, 100):
                continue
            if not vals[m]:
                continue
            con.list.append({"s": old["s"], "d": [rec.num(vals[m] * Q(11, 10)) if q == m else v for q, v in enumerate(old["d"])]})
            ref[key] = len(con.list)
            out.add(rec.add(**{**{k: v for k, v in c.items() if k != "id"}, "steps": steps})["id"])
            found += 1
            if found == 3:
                break
        if not found:
            raise common.MachineryError("no corrupted control of kind " + kind)
    return out


def check(prop, tier):
    import warnings

    import torch

    warnings.simplefilter("ignore")
    torch.set_default_dtype(torch.float64)
    torch.set_num_threads(1)
    ck = common.Check(prop, tier)
    for bad in ("OptSessionEarly", "OptSessionAlias"):
        if "is violated" not in common.tlc("OptSession", bad + ".cfg", workers=1).out:
            raise common.MachineryError("the defective design is not detected: " + bad)
    four = ck.generate("OptSession", "OptSession4.cfg")
    five = ck.generate("OptSession", "OptSession5.cfg", heap="8g") if ck.thorough() else []
    models = fc.linear_models()
    names = ["third order deformation, some labels", "reused object", "user invariants", "Ogden", "third order deformation"]
    for part in range(5 if ck.thorough() else 1):
        r = random.Random(common.SEED * 100 + part)
        rec = Recorder()
        con = Contents(rec)
        setups = []
        # every step of every kind is the last one of some history: all crash points
        last = {}
        for x in four:
            last.setdefault((x[-1]["a"], x[-1]["x"], x[-1]["y"], x[0]["x"]), []).append(x)
        pool = [r.choice(v) for _ in range(6 if ck.thorough() else 3) for v in last.values()]
        pool += r.sample(four, 600 if ck.thorough() else 100)
        pool += r.sample(five, 600) if five else []
        for k, x in enumerate(pool):
            name = names[k % len(names)]
            replay(rec, con, r, name, models[name], r.choice(["deformation", "distortional"]), x, setups)
        rec.extra = {"contents": con.list, "setups": setups}
        rec.states = lambda rr: sum(len(c["steps"]) for c in rr.cases)
        ck.validate("TraceOpt", rec, name="TraceOpt%d" % part, control=lambda rr, con=con: controls(rr, con), heap="12g")
    return ck.finish()
