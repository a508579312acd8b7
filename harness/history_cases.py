"""Evaluation histories on shared object graphs (C20)."""

import copy
import json
import multiprocessing as mp
import random
import threading
from fractions import Fraction as Q

import numpy as np

import common
import energies as en
from common import Recorder, call
from energies import term
from heap_cases import Contents


class Boom(Exception):
    pass


class Switch(threading.local):
    on = False


INSIDE = Switch()


def guarded(fun):
    """A user function which on request raises."""

    def g(*a, **k):
        if INSIDE.on:
            raise Boom()
        return fun(*a, **k)

    return g


class Faulty:
    """A material which on request raises in or after its evaluation, or evaluates other, independent objects."""

    def __init__(self, inner):
        self.inner, self.armed, self.other, self.count = inner, "-", None, 0

    def inside(self, fun, *a, **k):
        """Every other failure of a model with a user function is one of this function."""
        self.count += 1
        INSIDE.on = hasattr(self.inner, "fun") and self.count % 2 == 1
        try:
            fun(*a, **k)
        finally:
            INSIDE.on = False
        raise Boom()

    def gradient(self, *a, **k):
        if self.armed == "ng":
            self.other()
        if self.armed == "mg":
            self.inside(self.inner.gradient, *a, **k)
        r = self.inner.gradient(*a, **k)
        if self.armed == "ng":
            self.other()
        return r

    def hessian(self, *a, **k):
        if self.armed == "nh":
            self.other()
        if self.armed == "mh":
            self.inside(self.inner.hessian, *a, **k)
        r = self.inner.hessian(*a, **k)
        if self.armed == "nh":
            self.other()
        return r


def models():
    """name -> (model factory, two framework factories)."""
    import hyperelastic as h

    g = h.models.generalized
    fr, ge, st = h.InvariantsFramework, h.GeneralizedInvariantsFramework, h.StretchesFramework
    tod, og, T = h.models.invariants.ThirdOrderDeformation, h.models.stretches.Ogden, h.models.invariants.TorchModel
    mix = [term(Q(1, 2), 1, 0, 0), term(Q(1, 5), 1, 1, 0), term(Q(1, 7), 0, 1, 1), term(Q(1, 9), 0, 0, 2)]
    two = lambda f: (f, f)  # noqa: E731
    return {
        "third order deformation": (lambda: tod(0.5, 0.2, 0.1, -0.05, 0.02), *two(fr)),
        "user invariants": (lambda: en.UserInvariants(en.inv(*mix, ln=Q(1, 3)), "none"), *two(fr)),
        "user invariants, first only": (lambda: en.UserInvariants(en.inv(term(1, 2)), "none"), *two(fr)),
        "torch": (lambda: T(guarded(lambda a, b, c, k: k * a * b + c * b + a**2), k=0.7), *two(fr)),
        "generalized, third order deformation": (lambda: tod(0.5, 0.2, 0.1, -0.05, 0.02, strain=True),
                                                 lambda m: ge(m, guarded(g.strain), exponent=1.5),
                                                 lambda m: ge(m, g.deformation, exponent=-0.7)),
        "generalized, user": (lambda: en.UserInvariants(en.inv(*mix), "none"),
                              lambda m: ge(m, guarded(g.deformation), exponent=2),
                              lambda m: ge(m, g.strain, exponent=3)),
        "Ogden": (lambda: og([1.0, 0.3], [1.7, -2.2]), *two(st)),
        "user stretches": (lambda: en.UserStretch(en.gen(en.measure([(1, 2)], b=0, norm=0), *mix), 1, "array"), *two(st)),
        "quadratic stretches": (lambda: en.QuadStretch(0.6, 0.2), *two(st)),
        # materials which keep their derivatives and return the same arrays again
        "user stretches, stored": (lambda: en.Stored(en.UserStretch(en.gen(en.measure([(1, 2)], b=0, norm=0), *mix), 1, "array")), *two(st)),
        "generalized, stored": (lambda: en.Stored(en.UserInvariants(en.inv(*mix), "zeros")),
                                lambda m: ge(m, g.deformation, exponent=2), fr),
    }


class Graph:
    def __init__(self, name, variant, isolated=""):
        import hyperelastic as h

        make, fa, fb = models()[name]
        self.m = Faulty(make())
        self.obj = {"m": self.m, "f": fa(self.m), "g": fb(self.m)}
        kw = [dict(), dict(area=None), dict(force=0), dict(finalize=False), dict(parallel=True),
              dict(force=0, area=None)]
        s = h.spaces if hasattr(h, "spaces") else h
        import space_cases as sc

        for k, (o, sp, fw) in enumerate([("d", "deformation", "f"), ("u", "distortional", "f"),
                                         ("o", "dilatational", "f"), ("e", "deformation", "g")]):
            self.obj[o] = sc.space_class(sp)(self.obj[fw], **kw[(variant + k) % len(kw)])
        del s
        self.m.other = lambda: nested(name, variant)


INNER = {}


def nested(name, variant):
    """Evaluations of another object graph at other points, in the middle of a call."""
    key = name, variant, threading.get_ident()
    if key not in INNER:
        INNER[key] = Graph(name, variant), [v for k, v in points(variant + 50).items() if k in "pqs"]
    g, pts = INNER[key]
    p = pts[len(INNER[key][1]) % 2]
    for o in "ud":
        g.obj[o].gradient([p["F"], p["z"]])
        g.obj[o].hessian([pts[0]["F"], pts[0]["z"]])


def points(variant):
    """Arguments of the calls at the points p and q for every kind of object."""
    r = np.random.RandomState(common.SEED * 100 + variant)
    out = {}
    shapes = {"p": (2,), "q": [(2,), (3,), (1, 2), ()][variant % 4], "s": (2,)}
    for p, t in shapes.items():
        F = np.eye(3).reshape(3, 3, *[1] * len(t)) + r.uniform(-0.3, 0.3, size=(3, 3, *t))
        C = np.einsum("ki...,kj...->ij...", F, F)
        out[p] = {"F": F, "C": np.ascontiguousarray(C[[0, 1, 2, 0, 1, 0], [0, 1, 2, 1, 2, 2]]),
                  "I": [r.uniform(3.1, 4, size=t), r.uniform(3.1, 4, size=t), r.uniform(0.7, 1.3, size=t)],
                  "l": np.sort(r.uniform(0.6, 1.6, size=(3, *t)), axis=0), "z": np.zeros(0)}
    # the values of p in another shape, and nearly the values of p
    near = lambda v: v * (1 + 3e-7 * np.cos(np.arange(v.size)).reshape(v.shape))  # noqa: E731
    for p, f in (("t", lambda v: v.reshape(*v.shape[:-1], 2, 1)), ("u", near)):
        a = out["p"]
        out[p] = {k: [f(v) for v in w] if k == "I" else w.copy() if k == "z" else f(w) for k, w in a.items()}
    # exact deformations with the same invariants to the last bit: other axes, other order of the points
    F = np.eye(3).reshape(3, 3, 1) * np.array([1.0, 1.25]) + r.randint(-4, 5, size=(3, 3, 2)) / 16
    I = [r.randint(50, 64, size=2) / 16, r.randint(50, 64, size=2) / 16, r.randint(12, 20, size=2) / 16]
    lam = np.sort(r.randint(10, 26, size=(3, 2)) / 16, axis=0)
    k = [2, 0, 1]
    for p, F, I, lam in (("v", F, I, lam), ("w", F[k][:, k], [I[1], I[0], I[2]], lam[k]),
                         ("x", F[..., ::-1].copy(), [v[::-1].copy() for v in I], lam[..., ::-1].copy()),
                         ("y", F.transpose(1, 0, 2).copy(), [I[0], I[2], I[1]], lam[[0, 2, 1]])):
        C = np.einsum("ki...,kj...->ij...", F, F)
        out[p] = {"F": F, "C": np.ascontiguousarray(C[[0, 1, 2, 0, 1, 0], [0, 1, 2, 1, 2, 2]]), "I": I, "l": lam, "z": np.zeros(0)}
    return out


def stretchy(name):
    return "stretches" in name or name == "Ogden"


def precision(name, reuse, p):
    """Torch models compute with the default precision at the time of the call."""
    import torch

    torch.set_default_dtype(torch.float32 if name == "torch" and reuse and p == "q" else torch.float64)


def run(graph, name, reuse, c, args):
    o = graph.obj[c["o"]]
    precision(name, reuse, c["p"])
    fun = o.gradient if c["m"] == "g" else o.hessian
    graph.m.armed = c["f"]
    if c["f"] in ("mg", "mh") and name.startswith("generalized"):  # sometimes the strain measure fails
        graph.m.count += 1
        INSIDE.on = graph.m.count % 3 == 1
    try:
        return call(fun, *args)
    finally:
        graph.m.armed = "-"
        INSIDE.on = False


def arguments(c, name, pts):
    a = pts[c["p"]]
    if c["o"] in "duoe":
        return ([a["F"], a["z"]],)
    if c["o"] in "fg":
        return a["C"], a["z"]
    if stretchy(name):
        return a["l"], a["z"]
    return (*a["I"], a["z"])


def flat(x):
    if x is None:
        return []
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


def ids(con, x):
    """Contents of a (nested) result; absent entries as 0."""
    if x is None:
        return [0]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in ids(con, y)]
    return [con(x)]


class Buffer:
    """The caller's own argument memory: refilled before every call (variant), or one array per point."""

    def __init__(self, name, pts, reuse):
        self.name, self.pts, self.reuse, self.mem = name, pts, reuse, {}

    def __call__(self, c):
        args = arguments(c, self.name, self.pts)
        if not self.reuse:
            return args
        key = ("duoe" if c["o"] in "duoe" else "fg" if c["o"] in "fg" else "m",
               tuple(np.shape(v) for v in flat(list(args))))
        if key not in self.mem:
            self.mem[key] = _copy(args)
        else:
            for dst, src in zip(flat(list(self.mem[key])), flat(list(args))):
                dst[...] = src
        return self.mem[key]


def _copy(x):
    if isinstance(x, (list, tuple)):
        return type(x)(_copy(v) for v in x)
    return None if x is None else np.array(x, copy=True)


def fresh_worker(job):
    name, variant, reuse, c = job
    _torch()
    pts = points(variant)
    g = Graph(name, variant)
    return run(g, name, reuse, {**c, "f": "-"}, arguments(c, name, pts))


def _torch():
    import torch

    torch.set_num_threads(1)
    torch.set_default_dtype(torch.float64)


def replay(job):
    """All histories of one graph: (contents, cases)."""
    name, variant, hists, reuse = job[:4]
    if len(job) > 4:
        return threaded(job)
    _torch()
    base = points(variant)
    arrays, cases = [], []

    class C(Contents):
        pass

    con = _Con(arrays)
    for h in hists:
        pts = {p: {k: _copy(v) for k, v in a.items()} for p, a in base.items()}
        g = Graph(name, variant)
        buf = Buffer(name, pts, reuse)
        steps, results = [], []
        graphs, r = [g], random.Random(len(cases))
        for c in h:
            if len(h) > 5 and r.random() < 0.3:  # the caller copies all objects, or continues with an earlier copy
                graphs += [copy.deepcopy(g)] if r.random() < 0.6 and len(graphs) < 4 else []
                g = r.choice(graphs)
            args = buf(c)
            lists = [x for x in args if isinstance(x, list)]
            members = [[id(v) for v in x] for x in lists]
            before = ids(con, args)
            kept_before = [r[0] for r in results]
            res, exc = run(g, name, reuse, c, args)
            after = ids(con, args)
            if [[id(v) for v in x] for x in lists] != members:
                after = [0] + after
            kept = [ids(con, r[1]) if r[1] is not None else [] for r in results]
            del kept_before
            rid = [] if exc else ids(con, res)
            steps.append({**c, "copy": graphs.index(g), "exc": exc, "res": rid, "before": before, "after": after, "kept": kept})
            # state variables are passed through by these models: own copies, the caller's argument may be refilled
            results.append((rid, None if exc else _own(res, args)))
        cases.append(steps)
    return arrays, cases


def threaded(job):
    """The histories replayed by several threads at once, each with its own objects."""
    import sys

    name, variant, hists, _, count = job
    out, old = [None] * count, sys.getswitchinterval()
    start = threading.Barrier(count)

    def work(k):
        start.wait()
        out[k] = replay((name, variant, hists[k::count], False))

    threads = [threading.Thread(target=work, args=(k,)) for k in range(count)]
    sys.setswitchinterval(1e-6)
    try:
        [t.start() for t in threads]
        [t.join() for t in threads]
    finally:
        sys.setswitchinterval(old)
    arrays, cases = [], []
    for a, cs in out:
        m = len(arrays)
        sh = lambda x: [i + m if i else 0 for i in x]  # noqa: B023,E731
        arrays += a
        for steps in cs:
            cases.append([{**s, "res": sh(s["res"]), "before": sh(s["before"]), "after": sh(s["after"]),
                           "kept": [sh(k) for k in s["kept"]]} for s in steps])
    return arrays, cases


def _own(res, args):
    """The result with the parts which are the caller's own argument objects copied."""
    mine = flat(list(args))
    if isinstance(res, (list, tuple)):
        return [_own(v, args) for v in res]
    if isinstance(res, np.ndarray) and any(res is a for a in mine):
        return res.copy()
    return res


class _Con:
    def __init__(self, arrays):
        self.arrays, self.index = arrays, {}

    def __call__(self, a):
        a = np.asarray(a)
        if a.dtype == object:
            key = repr(a)
        else:
            key = (a.shape, a.dtype.str, a.tobytes())
        i = self.index.get(key)
        if i is None:
            self.arrays.append(a.copy())
            i = self.index[key] = len(self.arrays)
        return i


def describe(c):
    return "%s: %s" % (c["graph_name"], "; ".join(
        "%s%s.%s(%s)%s" % (s["o"], " (copy %d)" % s["copy"] if s["copy"] else "", {"g": "gradient", "h": "hessian"}[s["m"]], s["p"],
                         "" if s["f"] == "-" else " [material evaluates another object]" if s["f"] in ("ng", "nh")
                         else " [material fails: %s]" % s["f"]) for s in c["steps"]))


def collect(ck, hists, variants, names, name, both=False, threads=0):
    import hyperelastic  # noqa: F401  (imported once, before the processes are forked)
    import space_cases  # noqa: F401

    _torch()
    rec = Recorder()
    con = Contents(rec)
    fresh = []
    jobs = [(n, v, hists, reuse) for i, n in enumerate(names) for v in variants
            for reuse in ([False, True] if both else [(i + v) % 2 == 1 and not threads])]
    calls = sorted({(c["o"], c["m"], c["p"]) for h in hists for c in h})
    ctx = mp.get_context("fork")
    with ctx.Pool(8, maxtasksperchild=1) as pool:
        runs = pool.map_async(replay, [(*j, threads) for j in jobs] if threads else jobs, chunksize=1)
        fjobs = [(n, v, b, dict(o=o, m=m, p=p)) for n, v, _, b in jobs for o, m, p in calls]
        fr = pool.map(fresh_worker, fjobs, chunksize=1)
        runs = runs.get()
    table = {}
    for (n, v, b, c), (res, exc) in zip(fjobs, fr):
        if exc:
            ck.violation("raised " + exc, "%s: %s.%s at %s on fresh objects" % (n, c["o"], c["m"], c["p"]))
            res = None
        t = table.setdefault((n, v, b), {}).setdefault(c["o"], {}).setdefault(c["m"], {})
        t[c["p"]] = ids(con, res) if not exc else [0]
    for j, (arrays, cases) in zip(jobs, runs):
        m = [0] + [con(a) for a in arrays]
        tr = lambda x: [m[i] for i in x]  # noqa: E731
        fresh.append(table[j[0], j[1], j[3]])
        for steps in cases:
            rec.add(graph=len(fresh), graph_name="%s, variant %d%s" % (j[0], j[1], ", reused buffers" if j[3] else ""),
                    exc="", steps=[{**s, "res": tr(s["res"]), "before": tr(s["before"]), "after": tr(s["after"]),
                                    "kept": [tr(k) for k in s["kept"]]} for s in steps])
    rec.extra = {"contents": con.list, "fresh": fresh, "tol": 12 + common.SHARPEN}
    rec.states = lambda r: sum(1 + len(c["steps"]) for c in r.cases)
    ck.validate("TraceHistory", rec, name=name, describe=describe, control=lambda r: controls(r, con), heap="12g")


def controls(rec, con):
    out = set()
    good = [c for c in rec.cases if not c["steps"][-1]["exc"]]
    for kind in ("argument", "kept", "result"):
        for c in good[:: max(1, len(good) // 3)][:3]:
            steps = json.loads(json.dumps(c["steps"]))
            s = steps[-1]
            lst = {"argument": s["after"], "kept": next((k for k in s["kept"] if k), None), "result": s["res"]}[kind]
            if not lst:
                continue
            pos = [q for q, i in enumerate(lst) if i and con.list[i - 1]["d"]]
            if not pos:
                continue
            old = con.list[lst[pos[0]] - 1]
            vals = [rec.value(i) for i in old["d"]]
            m = max(range(len(vals)), key=lambda i: abs(vals[i]))
            con.list.append({"s": old["s"], "d": [rec.num(v * Q(11, 10)) if k == m else old["d"][k]
                                                  for k, v in enumerate(vals)]})
            if not vals[m]:
                continue
            lst[pos[0]] = len(con.list)
            out.add(rec.add(**{**{k: v for k, v in c.items() if k != "id"}, "steps": steps})["id"])
    return out


def check(prop, tier):
    ck = common.Check(prop, tier)
    for cfg in ("CallHistoryBad.cfg", "CallHistoryShared.cfg"):
        if "Invariant Pure is violated" not in common.tlc("CallHistory", cfg, workers=1).out:
            raise common.MachineryError("the defective design is not detected by CallHistory, " + cfg)
    names = list(models())
    two = ck.generate("CallHistory", "CallHistory2.cfg") + ck.generate("CallHistory", "CallHistoryNest.cfg")
    three = ck.generate("CallHistory", "CallHistory3.cfg")
    if ck.thorough():
        collect(ck, two, range(8), names, "two", both=True)
        collect(ck, ck.simulate("CallHistory", "CallHistoryLong.cfg", 120, 400), range(4, 8), names, "long", both=True)
        collect(ck, ck.simulate("CallHistory", "CallHistoryTwin.cfg", 150, 400), range(2, 6), names, "twin", both=True)
        collect(ck, ck.simulate("CallHistory", "CallHistoryLong.cfg", 240, 400), range(8, 12), names, "threads", threads=4)
        for part in range(0, len(three), 4000):
            collect(ck, three[part:part + 4000], [part // 4000], names, "three%d" % part)
    else:
        collect(ck, two, [0], names, "two", both=True)
        collect(ck, ck.simulate("CallHistory", "CallHistoryLong.cfg", 10, 400), [3], names, "long", both=True)
        collect(ck, ck.simulate("CallHistory", "CallHistoryTwin.cfg", 8, 400), [4, 5], names, "twin")
        collect(ck, random.Random(common.SEED).sample(two, 200), [7], names, "threads", threads=4)
        collect(ck, random.Random(common.SEED).sample(three, 250), [1, 2], names, "three")
    return ck.finish()
