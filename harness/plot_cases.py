"""Sessions of plots (C28)."""

import json
import random
import re
from fractions import Fraction as Q

import numpy as np

import common
import fit_cases as fc
import sim_cases as sim
from common import Recorder, call
from heap_cases import Contents

NUM = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)")


class Session:
    def __init__(self, r, con, rec, long=0):
        import matplotlib.pyplot as plt
        from hyperelastic import lab

        plt.close("all")
        self.r, self.con, self.rec, self.plt, self.lab = r, con, rec, plt, lab
        models = fc.linear_models()
        labels, _, _, _, maker, _ = models[r.choice(["third order deformation, some labels", "user invariants", "Ogden", "reused object"])]
        self.order = r.sample(labels, len(labels))
        material = maker(sim.space_of(r.choice(["deformation", "distortional"])))
        self.exps, self.sims = [], []
        own = []
        loads = r.sample(fc.LOADS, 3)[: r.choice([1, 2, 2, 3])]
        if r.random() < 0.2:
            loads = [r.choice(fc.LOADS) for _ in range(r.choice([4, 5, 7]))]
        name = r.choice(["experiment %d"] * 4 + ["same%.0d"] * 2 + ["$\\lambda_{%d}$", "%d", "C10 = %d"])
        for k, ld in enumerate(loads):
            n = long or len(labels) + 2 + r.randrange(3)
            x = np.array([r.uniform(0.6, 2.2) for _ in range(n)])
            if r.random() < 0.5:  # holding times: repeated points, also a cycle
                x = np.repeat(x, 2)
                if r.random() < 0.5:
                    x = np.concatenate([x, x[::-1]])
                n = len(x)
            length, area = r.choice([1.0, 2.0, 25.0]), r.choice([1.0, 0.5, 10.0])
            d, f = (x - 1) * length, np.array([r.uniform(-5, 5) for _ in x]) * r.choice([1e-3, 1, 1e3])
            if r.random() < 0.2:
                d, f = np.arange(1, n + 1), np.array([r.randrange(-5, 5) for _ in x])
            if r.random() < 0.4:
                d, f = d.tolist(), f.tolist()
            e = lab.Experiment(name % (k if "same" not in name else 0), d, f, area=area, length=length)
            self.exps.append(e)
            given = r.choice([[], [], ["load %d" % k], [""], ["Uniaxial Tension"], ["$F$"]])
            case = fc.load_class(ld)(label=given[0]) if given else r.choice([fc.load_class(ld), lambda ld=ld: fc.load_class(ld)(None)])()
            own.append({"load": ld, "given": given, "case": case})
            self.sims.append(lab.Simulation(case, e.stretch if r.random() < 0.5 else np.linspace(0.8, 2, r.choice([1, 2, 6, long + 1])) if r.random() < 0.5
                                            else np.array([2.0, 1.5, 1.5, 1.0, 1.0, 1.0, 0.5, 1.5, 2.0]),
                                            self.order, material))
        self.opt = lab.Optimize(experiments=self.exps, simulations=self.sims, parameters=[1.0] * len(labels))
        self.opt.curve_fit()
        fig, axs = plt.subplots(1, 2)
        self.axes = list(axs)
        if r.random() < 0.5:
            plt.figure()
        self.e, self.s = self.exps[0], self.sims[0]
        self.count = 0
        # labels of the load cases and of the simulations made with them
        self.own = [{"load": q["load"], "given": q["given"], "label": str(q["case"].label), "sim": str(s.label)} for q, s in zip(own, self.sims)]
        self.own += [{"load": "", "given": [name % (k if "same" not in name else 0)], "label": str(e.label), "sim": str(e.label)}
                     for k, e in enumerate(self.exps)]

    def c(self, a):
        return self.con(np.asarray(a, dtype=float))

    def data(self, o):
        d = {"ss": {"x": self.c(o.stretch), "y": self.c(o.stress())}, "label": str(o.label)}
        if isinstance(o, self.lab.Experiment):
            d["fd"] = {"x": self.c(o.displacement), "y": self.c(o.force)}
        return d

    def fit_data(self, ax):
        o, num = self.opt, self.rec.num
        lines = [x for t in ax.texts for x in t.get_text().split("\n")]
        text = []
        for x in lines:
            label, eq, rest = x.partition("=")
            nums = NUM.findall(rest.replace("\\pm", " "))
            if eq and len(nums) >= 2:
                text.append({"label": label.strip(), "p": num(_q(nums[0])), "s": num(_q(nums[1]))})

        def report(word):
            nums = [NUM.findall(x.partition("=")[2]) for x in lines if word in x]
            return num(_q(nums[0][0])) if nums and nums[0] else 0

        legend = ax.get_legend()
        return {"pairs": [{"label": str(e.label), "s": self.data(s), "e": self.data(e)} for s, e in zip(self.sims, self.exps)],
                "labels": list(self.order), "par": self.con(o.parameters), "err": self.con(o.errors), "resid": self.con(o.residuals),
                "text": text, "norm": report("Norm"), "mean": report("Deviation"),
                "legend": [t.get_text() for t in legend.get_texts()] if legend else []}

    def axes_state(self):
        from matplotlib.colors import to_hex

        return [{"curves": [{"x": self.c(q.get_xdata()), "y": self.c(q.get_ydata()), "label": _label(q),
                             "lw": repr(float(q.get_linewidth())), "color": to_hex(q.get_color())} for q in ax.get_lines()],
                 "xl": ax.get_xlabel(), "yl": ax.get_ylabel(), "title": ax.get_title()} for ax in self.axes]

    def state(self):
        obj = {"E": self.data(self.e), "S": self.data(self.s),
               "O": {k: self.con(getattr(self.opt, k)) for k in ("parameters", "errors", "residuals")}}
        return {"axes": self.axes_state(), "obj": obj}

    def step(self, st):
        from matplotlib.colors import to_hex

        r, plt = self.r, self.plt
        rec = dict(st, exc="", label=[], style=[], xl=[], yl=[], title=[], ax=0, figok=0, extra=0, fit=0)
        before = set(plt.get_fignums())
        known = [a.get_figure() for a in self.axes]
        if st["a"] == "change":
            _, rec["exc"] = call(self.change, st)
            return rec
        kw, args = {}, []
        if st["a"] == "fit":
            if st["l"] == "title":
                t = r.choice(["A title", "Fit $x$"])
                kw["title"], rec["title"] = t, [t]
            fun = self.opt.plot
        else:
            o = self.e if st["o"] == "E" else self.s
            fun = o.plot_stress_stretch if st["k"] == "ss" else o.plot_force_displacement
            if st["l"] == "given":
                kw["label"] = r.choice(["given", "", "other one", "_hidden"])
                rec["label"] = [kw["label"]]
            if st["w"] != "new":
                kw["ax"] = {"m1": self.axes[0], "m2": self.axes[1], "last": self.axes[-1]}[st["w"]]
            if r.random() < 0.4:
                c, lw = r.choice(["C3", "k", "C5"]), r.choice([0.5, 2.5, 4.0])
                rec["style"] = [{"lw": repr(lw), "color": to_hex(c)}]
                kw["lw"] = lw
                args = [c]
            if r.random() < 0.25:
                kw["xlabel"], rec["xl"] = "own x", ["own x"]
            if r.random() < 0.25:
                kw["ylabel"], rec["yl"] = "own y", ["own y"]
        out, rec["exc"] = call(fun, *args, **kw)
        if rec["exc"]:
            return rec
        try:
            fig, ax = out
        except Exception:  # noqa: BLE001
            rec["exc"] = "no pair (figure, axes)"
            return rec
        if not any(ax is a for a in self.axes):
            if not hasattr(ax, "get_lines"):
                rec["exc"] = "no axes returned"
                return rec
            self.axes.append(ax)
        rec["ax"] = [q for q, a in enumerate(self.axes) if a is ax][-1] + 1
        rec["figok"] = int(fig is ax.get_figure() and (st["w"] != "new" or not any(fig is f for f in known)))
        rec["extra"] = len(set(plt.get_fignums()) - before)
        if st["a"] == "fit":
            rec["fit"] = self.fit_data(ax)
        return rec

    def change(self, st):
        r = self.r
        self.count += 1
        o, k = st["o"], st["k"]
        if k == "label":
            t = self.e if o == "E" else self.s
            t.label = "changed %d" % self.count
        elif k == "data":
            if r.random() < 0.5 and isinstance(self.e.force, np.ndarray):
                self.e.force[0] += 2
                self.e.stretch[-1] += 1
            else:
                self.e.force = np.asarray(self.e.force) * 3.0 + 1
                if r.random() < 0.4:
                    self.e.force[r.randrange(len(self.e.force))] = r.choice([np.nan, np.inf])
                self.e.displacement = [v + 1 for v in self.e.displacement]
        elif k == "parameters":
            self.s.parameters = r.choice([list, tuple, np.array])([r.uniform(-1, 2) for _ in self.order])
            if r.random() < 0.3:
                self.s.stretch = np.linspace(0.9, 1.7, 4)
        else:
            self.opt.mask = [slice(self.count % 2, None)] * len(self.exps)
            if r.random() < 0.3:  # a fit which fails: the errors are not known
                call(self.opt.curve_fit, maxfev=1)
            else:
                call(self.opt.curve_fit)


def _label(line):
    """An empty label is shown by matplotlib as a numbered child."""
    t = str(line.get_label())
    return "" if t.startswith("_child") else t


def _q(s):
    return float(s) if "n" in s else Q(s)


def replay(rec, con, r, hist, long=0):
    s = Session(r, con, rec, long)
    steps = [{"a": "init", "own": s.own, **s.state()}]
    for st in hist:
        x = s.step(st)
        try:
            steps.append({**x, **s.state()})
        except Exception as e:  # noqa: BLE001
            steps.append({**x, "exc": x["exc"] or type(e).__name__, "axes": [], "obj": {}})
        if steps[-1]["exc"]:
            break
    rec.add(steps=steps, exc="", what="plots: " + "; ".join("%s %s %s on %s, %s" % (q["a"], q["o"], q["k"], q["w"], q["l"]) for q in hist))
    s.plt.close("all")


def controls(rec, con):
    out = set()
    for kind in ("x", "y", "label", "xl", "ax", "p", "s", "norm", "mean", "obj", "early", "title", "legend", "own"):
        found = 0
        for c in rec.cases[:: max(1, len(rec.cases) // 100)]:
            steps = json.loads(json.dumps(c["steps"]))
            s = steps[-1]
            if s["exc"] or s["a"] == "change" or s["a"] != "fit" and kind in ("p", "s", "norm", "mean", "title", "legend"):
                continue
            if kind in ("s", "mean") and rec.value(s["fit"]["mean"]) is None:
                continue
            a = s["axes"][s["ax"] - 1]
            if kind in ("x", "y"):
                old = con.list[a["curves"][-1][kind] - 1]
                con.list.append({"s": old["s"], "d": [rec.num((rec.value(old["d"][0]) + 1) * Q(11, 10))] + old["d"][1:]})
                a["curves"][-1][kind] = len(con.list)
            elif kind == "label":
                a["curves"][-1]["label"] += "."
            elif kind in ("xl", "title"):
                a[kind] += "."
            elif kind == "ax":
                s["ax"] += 1
            elif kind in ("p", "s"):
                t = s["fit"]["text"][-1]
                t[kind] = rec.num(rec.value(t[kind]) * Q(12, 10))
            elif kind in ("norm", "mean"):
                s["fit"][kind] = rec.num(rec.value(s["fit"][kind]) * Q(11, 10) + Q(1, 10))
            elif kind == "obj":
                s["obj"]["E"]["label"] += "."
            elif kind == "own":
                steps[0]["own"][0]["sim"] += "."
            elif kind == "legend":
                s["fit"]["legend"] = s["fit"]["legend"][:-1]
            elif kind == "early":
                other = [q for q in range(len(s["axes"])) if q != s["ax"] - 1]
                s["axes"][other[0]]["title"] = "x"
            out.add(rec.add(**{**{k: v for k, v in c.items() if k != "id"}, "steps": steps})["id"])
            found += 1
            if found == 3:
                break
        if not found:
            raise common.MachineryError("no corrupted control of kind " + kind)
    return out


def check(prop, tier):
    import warnings

    import torch

    warnings.simplefilter("ignore")
    torch.set_default_dtype(torch.float64)
    torch.set_num_threads(1)
    ck = common.Check(prop, tier)
    if "is violated" not in common.tlc("PlotSession", "PlotSessionGca.cfg", workers=1).out:
        raise common.MachineryError("the defective design is not detected by PlotSession")
    three = ck.generate("PlotSession", "PlotSession3.cfg")
    four = ck.generate("PlotSession", "PlotSession4.cfg", heap="8g") if ck.thorough() else []
    for part in range(4 if ck.thorough() else 1):
        r = random.Random(common.SEED * 100 + part)
        rec = Recorder()
        con = Contents(rec)
        last = {}
        for x in three:
            last.setdefault(json.dumps(x[-1]), []).append(x)
            if x[1]["a"] == "change":
                last.setdefault(json.dumps(x[1:]), []).append(x)
        pool = [r.choice(v) for v in last.values()]
        pool += r.sample(three, 600 if ck.thorough() else 60)
        pool += r.sample(four, 400) if four else []
        for x in pool:
            replay(rec, con, r, x)
        for n in (300, 1100, 3000) if not ck.thorough() else (300, 600, 1100, 2100, 5001):  # long measurements
            for x in r.sample(three, 2):
                replay(rec, con, r, x, n)
        rec.extra = {"contents": con.list}
        rec.states = lambda rr: sum(len(c["steps"]) for c in rr.cases)
        ck.validate("TracePlot", rec, name="TracePlot%d" % part, control=lambda rr, con=con: controls(rr, con), heap="12g")
    return ck.finish()
