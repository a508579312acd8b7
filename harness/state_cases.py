"""Steppings of materials with state variables (C21)."""

import json
from fractions import Fraction as Q

import numpy as np

import common
import energies as en
import space_cases as sc
from common import Recorder, call
from energies import term
from heap_cases import Contents
from history_cases import _copy, ids

MIX = [term(Q(1, 2), 1, 0, 0), term(Q(1, 5), 1, 1, 0), term(Q(1, 7), 0, 1, 1), term(Q(1, 9), 0, 0, 2)]


def first(z):
    """The number (or one per point) by which the energy is scaled."""
    while isinstance(z, (list, tuple)):
        z = z[0]
    if z is None:
        return 1.0
    return 1.0 + np.asarray(z)[0] if np.asarray(z).size else 1.0


def advance(z, k):
    """New state variables of the same structure."""
    if isinstance(z, (list, tuple)):
        return type(z)(advance(v, k) for v in z)
    if z is None:
        return None
    z = np.asarray(z)
    if z.dtype.kind == "i":  # counters
        return z + 1 + k % 3
    z = z.astype(float)
    return z * 0.5 + 0.125 * (1 + k % 3) + np.arange(z.size, dtype=float).reshape(z.shape) / 8


class Stateful:
    """A material whose energy is the one of `inner` times (1 + z[0]); logs its calls."""

    def __init__(self, inner, state=True):
        self.inner, self.state, self.log, self.count = inner, state, [], 0

    def _scale(self, values, s):
        if isinstance(values, np.ndarray):
            return values * s
        return [None if v is None else v * s for v in values]

    def gradient(self, *args, **kwargs):
        z = args[-1]
        seen = _copy(z)
        out = self.inner.gradient(*args, **kwargs)
        if not self.state:
            self.log.append(("gradient", seen, _copy(out[-1])))
            return out
        self.count += 1
        s = first(seen)
        new = advance(seen, self.count)
        self.log.append(("gradient", seen, _copy(new)))
        if len(out) == 2:
            return self._scale(out[0], s), new
        return (*self._scale(out[:-1], s), new)

    def hessian(self, *args, **kwargs):
        z = args[-1]
        seen = _copy(z)
        self.log.append(("hessian", seen, None))
        out = self.inner.hessian(*args, **kwargs)
        return out if not self.state else self._scale(out, first(seen))


class UserFramework:
    """A user material formulated in C (passed directly to a space)."""

    def __init__(self, fw, nstatevars=0):
        self.fw = fw
        self.x = [np.eye(3), np.zeros(nstatevars)]

    def gradient(self, C, statevars):
        return self.fw.gradient(C, statevars)

    def hessian(self, C, statevars):
        return self.fw.hessian(C, statevars)


def routes():
    """name -> (inner model, framework from a (logging) material and a number of state variables, stateful)."""
    import hyperelastic as h

    g = h.models.generalized
    fr, ge, st = h.InvariantsFramework, h.GeneralizedInvariantsFramework, h.StretchesFramework
    tod, og, T = h.models.invariants.ThirdOrderDeformation, h.models.stretches.Ogden, h.models.invariants.TorchModel
    ui = lambda style: en.UserInvariants(en.inv(*MIX), style)  # noqa: E731
    us = lambda style: en.UserStretch(en.gen(en.measure([(1, 2)], b=0, norm=0), *MIX), 1, style)  # noqa: E731
    # no declared number of state variables: the default is none
    nv = lambda n: {} if n is None else {"nstatevars": n}  # noqa: E731
    ps = lambda n: () if n is None else (n,)  # noqa: E731
    return {
        "invariants, user": (lambda: ui("none"), lambda m, n: fr(m, **nv(n)), True),
        "invariants, user (zeros)": (lambda: ui("zeros"), lambda m, n: fr(m, *ps(n)), True),
        "stretches, user array": (lambda: us("array"), lambda m, n: st(m, **nv(n)), True),
        "stretches, user list": (lambda: us("list"), lambda m, n: st(m, *ps(n)), True),
        "generalized, user": (lambda: ui("none"), lambda m, n: ge(m, g.strain, **nv(n), exponent=1.5), True),
        "generalized, user (parallel)": (lambda: ui("none"),
                                         lambda m, n: ge(m, g.deformation, *([0] if n is None else [n]), True, exponent=-2), True),
        "third order deformation": (lambda: tod(0.5, 0.2, 0.1, 0.1, 0.1), lambda m, n: fr(m, **nv(n)), False),
        "torch": (lambda: T(lambda a, b, c: a * b + c), lambda m, n: fr(m, **nv(n)), False),
        "Ogden": (lambda: og([1.0, 0.5], [1.7, -2]), lambda m, n: st(m, **nv(n)), False),
        "generalized, third order deformation": (lambda: tod(0.5, 0.2, strain=True),
                                                 lambda m, n: ge(m, g.strain, **nv(n), exponent=2), False),
    }


def user_material(inner, n):
    """A stateful user material of C: logging around a stateless framework."""
    import hyperelastic as h

    m = Stateful(h.InvariantsFramework(inner))
    u = UserFramework(m, n)
    return m, u


LEVELS = ["deformation", "distortional", "dilatational", "framework"]
STATES = ["vector", "points", "list", "empty", "matrix", "counters", "none", "nested", "tuple"]


def start_state(kind, n, trail):
    if kind == "vector":
        return np.zeros(n)
    if kind == "points":
        return np.zeros((n, *trail))
    if kind == "matrix":
        return np.zeros((n, 2, *trail))[:, 0] if False else np.zeros((n, *([1] * len(trail))))
    if kind == "counters":
        return np.zeros((n, *trail), dtype=int)
    if kind == "none":
        return None
    if kind == "nested":
        return [(np.zeros((n, *trail)), np.ones((2, 3))), np.arange(4)]
    if kind == "tuple":
        return np.zeros((n, *trail)), np.zeros((3, 3, *trail), dtype="float32")
    if kind == "list":
        return [np.zeros((n, *trail)), np.ones((6, *trail))]
    return np.zeros(0)


def plan(level, name, k, hists, rec, con, depth_cases):
    inner, make, stateful = routes().get(name) or (None, None, True)
    n = [1, 3, 2][k % 3]
    trail = [(2,), (1, 2), ()][k % 3]
    kind = STATES[k % len(STATES)]
    if name == "user material":
        m, fw = user_material(routes()["invariants, user"][0](), n)
        ref_fw = lambda: routes()["invariants, user"][1](routes()["invariants, user"][0](), 0)  # noqa: E731
    else:
        m = Stateful(inner(), stateful)
        if kind in ("none", "empty"):
            n = None
        fw = make(m, n)
        ref_fw = lambda: make(inner(), 0)  # noqa: E731
    kw = [dict(), dict(force=0), dict(area=None), dict(finalize=False), dict(force=0, area=None), dict(parallel=True)][k % 6]
    obj = fw if level == "framework" else sc.space_class(level)(fw, **kw)
    ref = ref_fw() if level == "framework" else sc.space_class(level)(ref_fw(), **kw)
    r = np.random.RandomState(common.SEED * 100 + k)
    pts = {}
    for p in "pq":
        F = np.eye(3).reshape(3, 3, *[1] * len(trail)) + r.uniform(-0.3, 0.3, size=(3, 3, *trail))
        C = np.einsum("ki...,kj...->ij...", F, F)
        pts[p] = (F, np.ascontiguousarray(C[[0, 1, 2, 0, 1, 0], [0, 1, 2, 1, 2, 2]]))
    n = n or 0
    z0 = start_state(kind, n, trail)
    what = "%s, %s, %d state variables (%s), %s" % (level, name, n, kind, kw)

    def evaluate(o, a, p, z):
        if level == "framework":
            out = getattr(o, a)(pts[p][1], z)
            return (out, None) if a == "hessian" else (out[0], out[1])
        x = [pts[p][0], z] if k % 4 else (pts[p][0], z)
        out = getattr(o, a)(x)
        return (out[0], None) if a == "hessian" else (out[0], out[1])

    refs = {(a, p): evaluate(ref, a, p, np.zeros(0))[0] for a in ("gradient", "hessian") for p in "pq"}
    for h in hists:
        committed = trial = z0
        steps = []
        for s in h:
            a = s["a"]
            if a == "accept":
                committed = trial
            elif a == "reject":
                trial = committed
            elif a == "restart":
                committed = trial = z0
            if a in ("accept", "reject", "restart"):
                steps.append({"a": a})
                continue
            m.log = []
            z = _copy(committed)
            zid = ids(con, z)
            before = ids(con, [pts[s["p"]], z])
            out, exc = call(evaluate, obj, a, s["p"], z)
            after = ids(con, [pts[s["p"]], z])
            step = {"a": a, "p": s["p"], "z": zid, "exc": exc, "before": before, "after": after, "zout": [], "res": [],
                    "ref": [], "log": [{"m": x[0], "z": ids(con, x[1]), "new": [] if x[0] == "hessian" else ids(con, x[2])}
                                       for x in m.log]}
            if not exc:
                step["res"] = ids(con, out[0])
                factor = first(committed) if stateful else 1.0
                step["ref"] = ids(con, refs[a, s["p"]] * factor)
                if a == "gradient":
                    step["zout"] = ids(con, out[1])
                    trial = _copy(out[1])
            steps.append(step)
            if exc:
                break
        x = fw.x if level == "framework" else obj.x
        rec.add(steps=steps, start=ids(con, z0), x0=con(x[0]), eye=con(np.eye(3)), xz=con(x[-1]), zeros=con(np.zeros(n)),
                exc="", what="%s: %s" % (what, " ".join(s["a"] + s["p"] for s in h)))
    # the initial variables can be passed directly
    m.log = []
    x = fw.x if level == "framework" else obj.x
    steps = []
    for a in ("gradient", "hessian"):
        m.log = []
        C0 = np.array([1.0, 1, 1, 0, 0, 0])
        z = x[-1]
        zid = ids(con, z)
        before = ids(con, list(x))
        if level == "framework":
            out, exc = call(lambda: getattr(obj, a)(C0, z))
            out = out if a == "gradient" else (out, None)
        else:
            out, exc = call(lambda: getattr(obj, a)(x))
            out = out if a == "gradient" else ((out[0], None) if out else None)
        after = ids(con, list(x))
        F0 = np.eye(3)
        rr, _ = call(lambda: getattr(ref, a)(C0, np.zeros(0)) if level == "framework" else getattr(ref, a)([F0, np.zeros(0)]))
        step = {"a": a, "p": "-", "z": zid, "exc": exc, "before": before, "after": after, "zout": [], "res": [], "ref": [],
                "log": [{"m": y[0], "z": ids(con, y[1]), "new": [] if y[0] == "hessian" else ids(con, y[2])} for y in m.log]}
        if not exc:
            step["res"] = ids(con, out[0])
            step["ref"] = ids(con, rr[0] if (level != "framework" or a == "gradient") else rr)
            if a == "gradient":
                step["zout"] = ids(con, out[1])
        steps.append(step)
        if exc:
            break
    rec.add(steps=steps, start=ids(con, np.zeros(n)), x0=con(x[0]), eye=con(np.eye(3)), xz=con(x[-1]),
            zeros=con(np.zeros(n)), exc="", what=what + ": evaluations at the initial variables")


def controls(rec, con):
    out = set()
    for kind in ("z", "zout", "after", "res", "x0"):
        found = 0
        for c in rec.cases[:: max(1, len(rec.cases) // 30)]:
            steps = json.loads(json.dumps(c["steps"]))
            new = {k: v for k, v in c.items() if k != "id"}
            s = next((s for s in steps if s["a"] == "gradient" and not s["exc"]), None)
            if s is None:
                continue
            lst = {"z": s["log"][0]["z"] if s["log"] else [], "zout": s["zout"], "after": s["after"], "res": s["res"],
                   "x0": [c["x0"]]}[kind]
            pos = [q for q, i in enumerate(lst) if i and con.list[i - 1]["d"]]
            if not pos:
                continue
            old = con.list[lst[pos[0]] - 1]
            con.list.append({"s": old["s"], "d": [rec.num(rec.value(old["d"][0]) + Q(1, 10))] + old["d"][1:]})
            lst[pos[0]] = len(con.list)
            if kind == "x0":
                new["x0"] = lst[0]
            out.add(rec.add(**{**new, "steps": steps})["id"])
            found += 1
            if found == 2:
                break
    return out


def check(prop, tier):
    import random

    import torch

    torch.set_default_dtype(torch.float64)
    torch.set_num_threads(1)
    ck = common.Check(prop, tier)
    hists = ck.generate("StateVars", "StateVars.cfg")
    r = random.Random(common.SEED)
    names = list(routes()) + ["user material"]
    for part in range(12 if ck.thorough() else 1):
        rec = Recorder()
        con = Contents(rec)
        k = part * 7
        for level in LEVELS:
            for name in names:
                if level == "framework" and name == "user material":
                    continue
                for rep in range(2):
                    k += 1
                    plan(level, name, k, r.sample(hists, 40 if not ck.thorough() else 400), rec, con, None)
        rec.extra = {"contents": con.list, "tol": 11 + common.SHARPEN}
        rec.states = lambda r: sum(2 + len(c["steps"]) for c in r.cases)
        ck.validate("TraceState", rec, name="TraceState%d" % part, control=lambda r, con=con: controls(r, con), heap="12g")
    return ck.finish()
