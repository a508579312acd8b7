"""Fits of parameters (C27)."""

import random
from fractions import Fraction as Q

import numpy as np

import common
import energies as en
import sim_cases as sim
from common import Recorder, call

LOADS = ["uniaxial", "planar", "biaxial"]


def load_class(name):
    from hyperelastic import lab

    return {"uniaxial": lab.Uniaxial, "planar": lab.Planar, "biaxial": lab.Biaxial}[name]


def linear_models():
    m = sim.materials()
    labels, (comp,), *rest = m["user invariants"]
    # the third invariant does not change on the load paths
    part = {**comp, "t": [t for t in comp["t"] if t["c"] != "d"]}
    m["user invariants"] = (["a", "b", "c", "e"], [part], [], 1, sim.user(part), lambda r: sim.small(r, 4))
    return {k: m[k] for k in ("third order deformation", "third order deformation, some labels", "reused object",
                              "user invariants", "torch", "Ogden", "user stretches")}


def random_mask(r, n, least):
    """(mask, descriptor): the mask selects at least `least` points if possible"""
    while True:
        k = r.choice(["all", "slice", "slice", "bool", "index", "index"])
        if k == "all":
            return slice(None), {"k": "all"}
        if k == "slice":
            a = r.choice([None, 0, 1, 2, -3, -n, -n - 2])
            b = r.choice([None, n, n - 1, -1, n + 3])
            s = r.choice([1, 1, 2, 3])
            sel = list(range(n))[slice(a, b, s)]
            if len(sel) >= least:
                return slice(a, b, s), {"k": "slice", "a": [] if a is None else [a], "b": [] if b is None else [b], "s": s}
        elif k == "bool":
            d = [r.choice([0, 1, 1]) for _ in range(n)]
            if sum(d) >= least:
                return np.array(d, dtype=bool), {"k": "bool", "d": d}
        else:
            d = [r.randrange(-n, n) for _ in range(r.randrange(max(least, 1), n + 2))]
            if len(set(x % n for x in d)) >= least:
                return (np.array(d) if r.random() < 0.5 else list(d)), {"k": "index", "d": d}


def experiment(r, n, load, npoints, stress=None, units=1):
    """(object, record): displacement such that the stretches are exact"""
    from hyperelastic import lab

    length, area = r.choice([1, 2, Q(1, 4), 128, 64]), r.choice([1, 2, Q(3, 4), 25, Q(1, 8)])
    ts = [Q(r.choice([4, 5, 6, 7, 8, 9, 10, 11, 12]), 8) for _ in range(npoints)]
    xs = [t ** (2 * n) for t in ts]
    d = np.array([float((x - 1) * length) for x in xs])
    f = units * np.array([r.uniform(-8, 8) for _ in xs]) if stress is None else stress(load, np.array([float(x) for x in xs])) * float(area)
    dd, ff = (d, f) if r.random() < 0.6 else (d.tolist(), f.tolist())
    e = lab.Experiment("E", dd, ff, area=float(area), length=float(length))
    return e, {"load": load, "ts": ts, "xs": xs, "d": [Q(v) for v in d.tolist()], "f": [Q(v) for v in f.tolist()],
               "area": Q(area), "length": Q(length)}


def optimality(kw):
    """Digits of the normal equations to be expected: solvers with their default tolerances stop at a relative
    decrease of 1e-8 of the sum of squares, i.e. at a gradient of 1e-4 relative to the residuals."""
    if kw.get("method", "trf" if "bounds" in kw else "lm") == "lm" or "gtol" in kw:
        return 4
    return 3


def fit(rec, r, name, spec, spname, truth=None, linear=True, p0=None, rtol=6, what="", kw=None):
    from hyperelastic import lab

    labels, tmpl, meas, n, maker, values = spec
    order = list(labels) if truth is not None and not linear else r.sample(labels, len(labels))
    np_ = len(labels)
    material = maker(sim.space_of(spname))
    gen = None
    if truth is not None:
        vals = dict(zip(order, truth))

        def gen(load, x):
            s = lab.Simulation(load_class(load)(), x, order, material, [float(vals[q]) for q in order])
            return s.stress()

    units = 1 if truth is not None else r.choice([1, 1, 1, 1e-3, 1e3])
    nexp = r.choice([1, 2, 2, 3, 4, 6]) if linear else r.choice([2, 3])
    exps, recs, masks = [], [], []
    for k in range(nexp):
        m = r.randrange(max(4, np_), np_ + 6) if r.random() < 0.97 else r.choice([40, 40, 130, 260])
        load = LOADS[(k + r.randrange(3)) % 3] if linear else ["uniaxial", "biaxial", "planar"][k]
        e, c = experiment(r, n, load, m, gen, units)
        mask, desc = random_mask(r, m, min(m, np_ + 1) if nexp == 1 or k == 0 or not linear else 1)
        exps.append(e)
        recs.append({**c, "mask": desc})
        masks.append(mask)
    if r.random() < 0.2:
        for c in recs:
            c["mask"] = {"k": "all"}
        masks = None
    sims = [lab.Simulation(load_class(c["load"])(), r.choice([e.stretch, None, np.array([1.5])]), order, material)
            for e, c in zip(exps, recs)]
    kw = dict(kw or {})
    args = kw.pop("args", ())
    sigma = kw.pop("sigma", None)
    start = p0 if p0 is not None else [1.0] * np_
    start = r.choice([np.array, list, tuple])(start)

    # an earlier fit with other data points (also as many of them) or other data
    before = []
    if linear and r.random() < 0.5:
        for c, k in zip(recs, masks or [slice(None)] * nexp):
            size = len(c["ts"])
            sel = np.arange(size)[k if k is not None else slice(None)]
            before.append(r.choice([list(sel[::-1]), [r.randrange(size) for _ in sel], list(range(len(sel))), slice(None), [q for q in range(size) for _ in (0, 1)],
                                    k if k is not None else slice(None)]))
    change = r.choice(["mask", "mask", "force", "experiments", "simulations"])

    def run():
        o = lab.Optimize(experiments=exps, simulations=sims, parameters=start, mask=masks)
        if before:
            final = o.mask
            if change == "force":
                keep = [e.force for e in exps]
                for e in exps:
                    e.force = np.asarray(e.force) * 2.0 + 1
            elif change == "experiments":
                o.experiments = [lab.Experiment("other", e.displacement, np.asarray(e.force)[::-1], area=e.area, length=e.length) for e in exps]
            elif change == "simulations":
                o.simulations = [lab.Simulation(load_class(LOADS[(LOADS.index(c["load"]) + 1) % 3])(), e.stretch, order[::-1], material)
                                 for e, c in zip(exps, recs)]
            o.mask = before
            call(o.curve_fit)
            o.mask, o.experiments, o.simulations = final, exps, sims
            if change == "force":
                for e, f in zip(exps, keep):
                    e.force = f
            o.parameters = np.array(start, dtype=float)
        p, pcov = o.curve_fit(*args, **kw)
        return o, p, pcov

    # identifiability: the design matrix has full rank
    if linear:
        A = np.concatenate([np.array([lab.Simulation(load_class(c["load"])(), e.stretch[k if k is not None else slice(None)], order,
                                                     material, row).stress() for row in np.eye(np_)]).T
                            for e, c, k in zip(exps, recs, masks or [slice(None)] * nexp)])
        if A.shape[0] <= np_ or np.linalg.cond(A / np.maximum(abs(A).max(0), 1e-300)) > 1e3:
            return False
    weights = []
    if sigma is not None:  # standard deviations of the selected data points
        size = sum(np.arange(len(c["ts"]))[k if k is not None else slice(None)].size for c, k in zip(recs, masks or [slice(None)] * nexp))
        weights = [Q(1, 2) ** r.choice([-3, -1, 0, 0, 1, 2]) for _ in range(size)]
        if r.random() < 0.5:
            weights = weights[:1] * size
        if size <= np_:
            return False
        kw["sigma"] = sigma([float(1 / w) for w in weights])
    # bounds of the parameters, some of them active
    lower, upper, best = [None] * np_, [None] * np_, np.ones(np_)
    if linear:
        y = np.concatenate([e.stress()[k if k is not None else slice(None)] for e, k in zip(exps, masks or [slice(None)] * nexp)])
        W = np.array([float(w) for w in weights] or [1.0] * len(A))
        best = np.linalg.lstsq(A * W[:, None], y * W, rcond=None)[0]
    if kw.get("bounds") == "active":
        if not linear or np.linalg.cond(A / np.maximum(abs(A).max(0), 1e-300)) > 40:
            return False
        size, begin = np.abs(best).max(), [float(v) for v in start]
        for q, b in enumerate(best):
            kind = r.choice(["lower", "upper", "none", "wide", "narrow"])
            gap = float(size * r.choice([0.1, 0.5, 2.0]))
            if kind in ("lower", "narrow"):
                lower[q] = float(b) + gap
            if kind == "narrow":
                upper[q] = lower[q] + gap
            if kind == "upper":
                upper[q] = float(b) - gap
            if kind == "wide":
                lower[q], upper[q] = float(b) - gap, float(b) + gap
            lo, up = -np.inf if lower[q] is None else lower[q], np.inf if upper[q] is None else upper[q]
            begin[q] = lo + 0.4 * (up - lo) if np.isfinite(up - lo) else lo + gap if np.isfinite(lo) else up - gap if np.isfinite(up) else begin[q]
        start = type(start)(begin) if not isinstance(start, np.ndarray) else np.array(begin)
        kw["bounds"] = ([-np.inf if v is None else v for v in lower], [np.inf if v is None else v for v in upper])
        before = []
    out, exc = call(run)
    # the solvers differentiate numerically, with steps relative to the parameters: the covariance of ill-conditioned
    # problems and of parameters which contribute almost nothing is not accurate
    regular = False
    if linear and A.shape[0] > np_:
        W = A * np.array([float(w) for w in weights] or [1.0] * len(A))[:, None]
        regular = np.linalg.cond(W / np.maximum(abs(W).max(0), 1e-300)) < 40
        share = abs(best) * abs(A).max(0)
        regular = regular and share.min() > 1e-2 * share.max()
    absolute = int(bool(kw.get("absolute_sigma", False)))
    case = dict(lower=[[] if v is None else [rec.num(v)] for v in lower], upper=[[] if v is None else [rec.num(v)] for v in upper], weights=[rec.num(w) for w in weights], absolute=absolute, ptol=2 + common.SHARPEN,
                covar=int(regular and (truth is None or absolute == 1)),labels=order, en=en.encode(rec, tmpl), meas=en.encode(rec, meas), space=spname, n=n, zero=rec.num(0),
                one=rec.num(1), exps=[], exc=exc, linear=int(linear), exact=int(linear), truth=[],
                tol=10 + common.SHARPEN, mtol=optimality(kw) + common.SHARPEN, rtol=rtol + common.SHARPEN)
    for c in recs:
        case["exps"].append({**{k: c[k] for k in ("load", "mask")}, **{k: rec.mat(c[k]) for k in ("ts", "xs", "d", "f", "area", "length")}})
    if truth is not None and not any(v is not None for v in lower + upper):
        case["truth"] = rec.mat([Q(v) for v in truth])
    if not exc:
        o, p, pcov = out
        case.update(p=rec.arr(p), pcov=rec.arr(pcov), par=rec.arr(o.parameters), errs=rec.arr(o.errors),
                    resid=rec.arr(o.residuals), norm=rec.num(o.norm_residuals()), mean=rec.num(o.mean_relative_std()))
    rec.add(**case, what="fit of %s (labels %s, %s space%s) to %s, masks %s" % (
        name, order, spname, what + (", after a fit with another %s" % change if before else ""), [c["load"] for c in recs],
        [c["mask"]["k"] for c in recs]))
    return True


def c27(rec, deep, r):
    import hyperelastic as h

    lin = linear_models()
    methods = [{}, {"method": "lm"}, {"method": "trf"}, {"method": "dogbox"}, {"maxfev": 5000}, {"bounds": (-1e7, 1e7)}, {"absolute_sigma": True}, {"args": (None, False)},
               {"sigma": np.array}, {"sigma": np.array, "absolute_sigma": True}, {"sigma": list, "absolute_sigma": True, "method": "trf"},
               {"method": "trf", "ftol": 1e-12, "xtol": 1e-12, "gtol": 1e-12},
               {"bounds": "active", "method": "trf", "ftol": 1e-14, "xtol": 1e-14, "gtol": 1e-14, "max_nfev": 5000},
               {"x_scale": "jac", "method": "trf"}]
    k = 0
    for rep in range(8 if deep else 4):
        for name, spec in lin.items():
            for spname in ("deformation", "distortional"):
                for kind in ("noise", "noise", "generated"):
                    for attempt in range(10):
                        truth = None if kind == "noise" else [float(v) for v in spec[5](r)]
                        if fit(rec, r, name, spec, spname, truth, kw=methods[k % len(methods)],
                               what=", %s, %s" % (kind, methods[k % len(methods)])):
                            break
                    k += 1
    # parameters which enter the energy in a nonlinear way: recovery of generated data
    for rep in range(10 if deep else 4):
        for name, fun, strain in (("generalized strain", h.models.generalized.strain, True),
                                  ("generalized deformation", h.models.generalized.deformation, False)):
            def maker(sp, fun=fun, strain=strain):
                return lambda C10, C01, exponent: sp(h.GeneralizedInvariantsFramework(
                    h.models.invariants.ThirdOrderDeformation(C10=C10, C01=C01, strain=strain), fun, exponent=exponent))

            spec = (["C10", "C01", "exponent"], [], [], 1, maker, None)
            truth = [r.uniform(0.3, 0.6), r.uniform(0.1, 0.2), r.uniform(1.5, 2.5)]
            fit(rec, r, name, spec, "distortional", truth, False, [0.4, 0.15, 2.0], 5, ", generated")
        spec = (["mu", "alpha"], [], [], 1,
                lambda sp: lambda mu, alpha: sp(h.StretchesFramework(h.models.stretches.Ogden([mu], [alpha]))), None)
        fit(rec, r, "Ogden", spec, "deformation", [r.uniform(0.5, 1.5), r.uniform(1.4, 3.0)], False, [1.0, 2.0], 5, ", generated")


def check(prop, tier):
    import warnings

    import torch

    warnings.simplefilter("ignore")
    torch.set_default_dtype(torch.float64)
    torch.set_num_threads(1)
    ck = common.Check(prop, tier)
    for part in range(6 if ck.thorough() else 1):
        rec = Recorder()
        c27(rec, ck.thorough(), random.Random(common.SEED * 1000 + part))
        ck.validate("TraceFit", rec, name="TraceFit%d" % part, control=("p", "pcov", "par", "errs", "resid"), heap="12g")
    return ck.finish()
