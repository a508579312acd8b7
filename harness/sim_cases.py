"""Simulations over time (C24)."""

import itertools
import json
import random
from fractions import Fraction as Q

import numpy as np

import common
import energies as en
from common import Recorder, call
from heap_cases import Contents

SPACES = ["deformation", "distortional", "dilatational"]
TOD = ["C10", "C01", "C11", "C20", "C30"]


def lterm(label, **kw):
    """A term with a label as coefficient."""
    return {**en.term(0, **kw), "c": label}


def small(r, k):
    return [Q(r.choice([-3, -2, -1, 1, 2, 3, 4, 5]), r.choice([4, 8])) for _ in range(k)]


def user(comp):
    import hyperelastic

    def mat(space):
        def f(**kw):
            c = {"t": [{**t, "c": kw[t["c"]]} for t in comp["t"]], "ln": 0}
            return space(hyperelastic.InvariantsFramework(en.UserInvariants(c)))

        return f

    return mat


def materials():
    """name -> (labels, energy template, list of measures, root index, material(space)(**labels), values maker)"""
    import hyperelastic as h

    inv, ge, st = h.InvariantsFramework, h.GeneralizedInvariantsFramework, h.StretchesFramework
    mi, g = h.models.invariants, h.models.generalized
    tod = mi.ThirdOrderDeformation

    def tod_t(a):
        return [lterm("C10", i=1, a1=a, a2=a), lterm("C01", j=1, a1=a, a2=a), lterm("C11", i=1, j=1, a1=a, a2=a),
                lterm("C20", i=2, a1=a, a2=a), lterm("C30", i=3, a1=a, a2=a)]

    def reused(space):
        model = tod(1, 1)
        obj = space(inv(model))

        def mat(C10, C01):
            model.C10, model.C01 = C10, C01
            return obj

        return mat

    ucomp = {"k": "inv", "t": [lterm("a", i=1), lterm("b", j=1), lterm("c", i=1, j=1), lterm("d", k=1, e=0), lterm("e", i=2, e=-4)],
             "ln": Q(0)}
    names = ["zeta", "m10", "m9", "B", "alpha", "m1", "Z", "beta", "_c", "a"]
    many = {"k": "inv", "t": [lterm(x, **kw) for x, kw in zip(names, [
        dict(i=1), dict(j=1), dict(i=1, j=1), dict(i=2), dict(i=2, e=-4), dict(k=1), dict(i=1, k=1), dict(j=1, k=1),
        dict(i=3, a1=Q(3)), dict(j=2, a2=Q(3))])], "ln": Q(0)}
    out = {
        "ten labels": (names, [many], [], 1, user(many), lambda r: small(r, 10)),
        "third order deformation": (TOD, [{"k": "inv", "t": tod_t(3), "ln": Q(0)}], [], 1,
                                    lambda sp: lambda **kw: sp(inv(tod(**kw))), lambda r: small(r, 5)),
        "third order deformation, some labels": (["C11", "C10"], [{"k": "inv", "t": [tod_t(3)[0], tod_t(3)[2]], "ln": Q(0)}], [], 1,
                                                 lambda sp: lambda **kw: sp(inv(tod(**kw))), lambda r: small(r, 2)),
        "reused object": (["C10", "C01"], [{"k": "inv", "t": tod_t(3)[:2], "ln": Q(0)}], [], 1, reused, lambda r: small(r, 2)),
        "user invariants": (["a", "b", "c", "d", "e"], [ucomp], [], 1, user(ucomp), lambda r: small(r, 5)),
        "torch": (["a", "b", "c"], [{"k": "inv", "t": [lterm("a", i=1), lterm("b", j=1), lterm("c", i=2, a1=Q(3))], "ln": Q(0)}],
                  [], 1, lambda sp: lambda **kw: sp(inv(mi.TorchModel(
                      lambda I1, I2, I3, a, b, c: a * I1 + b * I2 + c * (I1 - 3) ** 2, **kw))), lambda r: small(r, 3)),
        "Ogden": (["mu1", "mu2", "mu3"], [{"k": "ogden", "t": [{"mu": "mu1", "q": 4}, {"mu": "mu2", "q": -3}, {"mu": "mu3", "q": 1}]}],
                  [], 2, lambda sp: lambda mu1, mu2, mu3: sp(st(h.models.stretches.Ogden([mu1, mu2, mu3], [2.0, -1.5, 0.5]))),
                  lambda r: small(r, 3)),
        "user stretches": (["c"], [{"k": "gen", "m": en.measure([(1, 1)], norm=0), "t": [lterm("c", i=1)], "ln": Q(0)}], [], 1,
                           lambda sp: lambda c: sp(st(en.LinearStretch(c, "scalar"))), lambda r: small(r, 1)),
    }
    for name, fun, meas, a, exps in (("generalized strain", g.strain, en.seth_hill, 0, [2, 1, -1, -3, 4]),
                                     ("generalized deformation", g.deformation, en.deformation, 3, [2, 1, -1, 3])):
        out[name] = (["C10", "C01", "C20", "exponent"],
                     [{"k": "gen", "m": meas(4, 2), "t": [tod_t(a)[0], tod_t(a)[1], tod_t(a)[3]], "ln": Q(0)}],
                     [{"q": q, "m": meas(q, 2)} for q in exps], 2,
                     lambda sp, fun=fun, a=a: lambda exponent, **kw: sp(ge(tod(**kw, strain=a == 0), fun, exponent=exponent)),
                     lambda r, exps=exps: small(r, 3) + [Q(r.choice(exps), 2)])
    return out


class Attrs:
    """Containers of parameter values which can be changed in place (or not)."""


def container(kind, values):
    """(object, function changing it in place)"""
    v = [float(x) for x in values]
    if kind == "integers":
        a = np.array([int(x) for x in values])
        return a, lambda new: a.__setitem__(slice(None), new)
    if kind == "array":
        a = np.array(v)
        return a, lambda new: a.__setitem__(slice(None), new)
    if kind == "strided":
        a = np.zeros(2 * len(v))[::2]
        a[:] = v
        return a, lambda new: a.__setitem__(slice(None), new)
    if kind == "list":
        a = list(v)
        return a, lambda new: a.__setitem__(slice(None), new)
    if kind == "dict values":
        d = {"k%d" % k: x for k, x in enumerate(v)}
        return d.values(), lambda new: d.update({"k%d" % k: x for k, x in enumerate(new)})
    if kind == "2d row":
        a = np.zeros((2, len(v)))
        a[1] = v
        return a[1], lambda new: a.__setitem__(1, new)
    return tuple(v), None


KINDS = ["array", "list", "strided", "dict values", "2d row", "tuple", "default", "integers"]


def space_of(name):
    import hyperelastic as h

    return {"deformation": h.DeformationSpace, "distortional": h.DistortionalSpace, "dilatational": h.DilatationalSpace}[name]


def replay(rec, con, r, name, spec, spname, kind, order, hist, npoints):
    from hyperelastic import lab

    labels, tmpl, meas, n, maker, values = spec
    labels = list(order(r, labels))
    unit = Q(2) ** r.choice([-60, -45, 45, 60]) if r.random() < 0.25 else Q(1)  # any system of units
    pick = lambda v: [v[spec[0].index(x)] * (1 if x == "exponent" else unit) for x in labels]  # noqa: E731
    nver = 3
    vals = {c: [pick(values(r)) for _ in range(nver)] for c in "PQ"}
    for v in [v for c in "PQ" for v in vals[c]]:  # parameters which are zero
        q = r.randrange(len(v))
        if r.random() < 0.25 and labels[q] != "exponent":
            v[q] = Q(0)
    if kind == "default":
        one = [Q(1)] * len(labels)
        vals = {c: [one] + vals[c][1:] for c in "PQ"}
    if kind == "integers":
        vals = {c: [[Q(r.choice([-3, -2, -1, 1, 2, 3, 4])) for _ in labels] for _ in range(nver)] for c in "PQ"}
    fit = pick(values(r))
    den = 8
    steps = [5, 6, 7, 8, 9, 10, 11, 12] + r.choice([[], [], [], [3, 4, 15, 16], [1, 2, 24, 32]])
    ts = {x: [Q(r.choice(steps), den) for _ in range(npoints[x])] for x in ("s", "t")}
    xs = {x: [t ** (2 * n) for t in ts[x]] for x in ts}
    stretch = {x: np.array([float(v) for v in xs[x]]) for x in xs}
    if r.random() < 0.3:
        base = np.zeros(3 * len(stretch["t"]))
        base[::3] = stretch["t"]
        stretch["t"] = base[::3]
    material = maker(space_of(spname))
    loads = {"uniaxial": lab.Uniaxial, "planar": lab.Planar, "biaxial": lab.Biaxial}
    init = hist[0]
    cons = {c: container(kind if kind != "default" else "array", vals[c][0]) for c in "PQ"}
    first = {"A": init["x"], "B": init["y"]}
    sims = {}
    for s, l in (("A", "uniaxial"), ("B", "planar")):
        kw = {} if kind == "default" else {"parameters": cons[first[s]][0]}
        sims[s] = lab.Simulation(loads[l](), stretch["s"], labels, material, **kw)
    if kind == "default":
        for s in "AB":
            a = sims[s].parameters
            cons[first[s]] = (a, lambda new, a=a: a.__setitem__(slice(None), new))
    steps, results, version = [dict(init, exc="", res=0, par={}, str={}, prev=[])], [], {"P": 0, "Q": 0}
    for st in hist[1:]:
        a, x, y = st["a"], st["x"], st["y"]

        def run():
            if a == "stress":
                return sims[x].stress()
            if a == "fit":
                return sims[x].stress_curve_fit(stretch[y], *[float(v) for v in fit])
            if a == "mutate":
                version[x] += 1
                cons[x][1]([float(v) for v in vals[x][version[x]]])
            elif a == "assign":
                sims[x].parameters = cons[y][0]
            elif a == "stretch":
                sims[x].stretch = stretch[y]
            elif a == "load":
                sims[x].loadcase = loads[y]()

        res, exc = call(run)
        prev = [con(v) for v in results]
        rid = 0
        if a in ("stress", "fit") and not exc:
            rid = con(res)
            results.append(res)
        steps.append(dict(st, exc=exc, res=rid, prev=prev, par={c: con(list(cons[c][0])) for c in cons},
                          str={q: con(stretch[q]) for q in stretch}))
        if exc:
            break
    rec.add(steps=steps, labels=labels, en=en.encode(rec, tmpl), meas=en.encode(rec, meas), space=spname, n=n,
            ts={q: rec.mat(ts[q]) for q in ts}, xs={q: rec.mat(xs[q]) for q in xs},
            vals={c: rec.mat(vals[c]) for c in vals}, fit=rec.mat(fit), tol=11 + common.SHARPEN, exc="",
            what="%s, labels %s, %s space, parameters as %s: %s"
                 % (name, labels, spname, kind, " ".join("%s(%s %s)" % (s["a"], s["x"], s["y"]) for s in hist)))


def controls(rec, con):
    out = set()
    for kind in ("res", "par", "str", "prev"):
        found = 0
        for c in rec.cases[:: max(1, len(rec.cases) // 40)]:
            if c["space"] == "dilatational" and kind == "res":
                continue
            steps = json.loads(json.dumps(c["steps"]))
            s = steps[-1]
            if s["exc"]:
                continue
            old = {"res": s["res"], "par": s["par"].get("Q"), "str": s["str"].get("t"), "prev": (s["prev"] or [0])[0]}[kind]
            if not old or not con.list[old - 1]["d"]:
                continue
            o = con.list[old - 1]
            vals = [rec.value(i) for i in o["d"]]
            m = max(range(len(vals)), key=lambda i: abs(vals[i] or 0))
            if not vals[m] or abs(vals[m]) < Q(1, 100):
                continue
            con.list.append({"s": o["s"], "d": [rec.num(vals[m] * Q(11, 10)) if q == m else v for q, v in enumerate(o["d"])]})
            new = len(con.list)
            if kind == "res":
                s["res"] = new
            elif kind == "prev":
                s["prev"][0] = new
            else:
                s[kind]["Q" if kind == "par" else "t"] = new
            out.add(rec.add(**{**{k: v for k, v in c.items() if k != "id"}, "steps": steps})["id"])
            found += 1
            if found == 3:
                break
    return out


def check(prop, tier):
    import torch

    torch.set_default_dtype(torch.float64)
    torch.set_num_threads(1)
    ck = common.Check(prop, tier)
    hists = ck.generate("LabSim", "LabSim.cfg")
    fixed = ck.generate("LabSim", "LabSimFixed.cfg")
    deep = ck.thorough()
    orders = [lambda r, v: v, lambda r, v: v[::-1], lambda r, v: r.sample(v, len(v))]
    for part in range(8 if deep else 1):
        r = random.Random(common.SEED * 100 + part)
        rec = Recorder()
        con = Contents(rec)
        for name, spec in materials().items():
            for k, (spname, kind) in enumerate(itertools.product(SPACES, KINDS)):
                pool = fixed if kind == "tuple" else hists
                if kind == "default":
                    pool = [x for x in hists if x[0]["y"] == "Q"]
                for q in range(6 if deep else 2):
                    if kind == "integers" and "exponent" in spec[0]:
                        continue
                    replay(rec, con, r, name, spec, spname, kind, orders[(k + q) % 3], r.choice(pool),
                           {"s": r.choice([1, 2, 3, 4]) if r.random() < 0.95 else 33, "t": r.choice([1, 2, 3, 5])})
        rec.extra = {"contents": con.list}
        rec.states = lambda rr: sum(len(c["steps"]) for c in rr.cases)
        ck.validate("TraceSim", rec, name="TraceSim%d" % part, control=lambda rr, con=con: controls(rr, con), heap="12g")
    return ck.finish()
