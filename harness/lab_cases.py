"""Load cases (C23) and experiments (C25)."""

import itertools
import random

import numpy as np

import common
from common import Recorder, call


def loadcases():
    from hyperelastic import lab

    return {"uniaxial": lab.Uniaxial, "planar": lab.Planar, "biaxial": lab.Biaxial}


def c23(rec, deep):
    r = random.Random(common.SEED)
    base = [0.1, 0.5, 0.7, 0.9, 1.0, 1.0 + 2.0**-30, 1.25, 1.7, 2.0, 3.3, 6.0, 25.0, 1e-3, 1e3, 1e-8, 3e-5, 1e8, 7e4, 1 - 2.0**-53, 1e-20, 1e20]
    stretches = [np.array(base), np.float64(1.7), 0.6, 2, np.array(1.3), np.array([1, 2, 3, 7]), np.array([[0.5, 2.0], [1.0, 4.0]]),
                 np.array(base)[::-2], np.array([1.5]), np.linspace(0.2, 5, 61), np.linspace(5, 0.2, 700), np.array([2.0, 0.5, 2.0, 2.0, 0.5]),
                 np.array([[[1.5]], [[0.5]]]), np.array(5e-4), np.float64(2e4), np.logspace(-12, 12, 49)]
    for _ in range(40 if deep else 6):
        stretches.append(np.array([r.uniform(0.05, 8) for _ in range(r.randrange(1, 30))]))
    for name, cls in loadcases().items():
        for k, x in enumerate(stretches):
            obj = cls() if k % 2 else cls(label="some label")
            x0 = np.array(x, copy=True)
            F, exc = call(obj.defgrad, x)
            if not exc and not np.array_equal(x0, x):
                exc = "changed argument"
            rec.add(kind="defgrad", load=name, x=rec.arr(x0), r=[rec.arr(F)] if not exc else [], exc=exc,
                    tol=14 + common.SHARPEN, what="%s.defgrad of %s" % (name, type(x).__name__ + str(np.shape(x))))
            # force per undeformed area of the deformation gradients of the load case
            if np.shape(x0) == () and not isinstance(x, np.ndarray):
                continue
        axes = [(0, -1), (0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1), (1, -1), (-1, 0), (-2, -1), (None, None), (1, None),
                (None, 1)]
        for q, (i, j) in enumerate(axes * (6 if deep else 1)):
            for src in ("path", "diagonal"):
                trail = [(4,), (1,), (2, 3), (), (5,)][(q + (src == "path")) % 5]
                m = int(np.prod(trail, dtype=int))
                if src == "path":
                    F = cls().defgrad(np.array([r.uniform(0.2, 4) for _ in range(m)]).reshape(trail))
                else:
                    F = np.zeros((3, 3, *trail))
                    for a in range(3):
                        F[a, a] = np.array([r.uniform(0.2, 4) for _ in range(m)]).reshape(trail)
                P = np.array([r.uniform(-5, 5) for _ in range(9 * m)]).reshape(3, 3, *trail)
                if q % 3 == 0 and j is not None:
                    P[j, j] = 0
                kw = {}
                if i is not None:
                    kw["axis"] = i
                if j is not None:
                    kw["traction_free"] = j
                ii, jj = (0 if i is None else i) % 3, (-1 if j is None else j) % 3
                if ii == jj:
                    continue
                keep = [F.copy(), P.copy()]
                s, exc = call(cls().stress, F, P, **kw)
                if not exc and not (np.array_equal(F, keep[0]) and np.array_equal(P, keep[1])):
                    exc = "changed argument"
                what = "%s.stress(%s) on %s deformation, points %s" % (name, kw, src, trail)
                rec.add(kind="stress", a=[rec.arr(v) for v in keep], i=ii + 1, j=jj + 1, r=[rec.arr(s)] if not exc else [],
                        exc=exc, tol=13 + common.SHARPEN, what=what)
                for p in (1.0, -37.5, 1e6):
                    Pp = P.copy()
                    for a in range(3):
                        Pp[a, a] += p / F[a, a]
                    s2, exc2 = call(cls().stress, F, Pp, **kw)
                    scale = 1 + np.max(np.abs(Pp)) * (1 + np.max(np.abs(F[jj, jj] / F[ii, ii])))
                    c = rec.add(kind="pressure", r=[rec.arr(s), rec.arr(s2)] if not (exc or exc2) else [], exc=exc or exc2,
                                scale=rec.num(float(scale)), tol=13 + common.SHARPEN, what=what + ", pressure %g" % p)
                    c["nocontrol"] = 1


def c25(rec, deep):
    from hyperelastic import lab

    r = random.Random(common.SEED)
    n = 7
    d = [0.0, 0.5, 1.25, -0.75, 3.0, 100.0, 1e-3]
    f = [0.0, 10.0, 25.5, -12.0, 1e4, 3.3, -1e-4]
    kinds = {
        "list": lambda v: list(v), "tuple": lambda v: tuple(v), "array": lambda v: np.array(v),
        "strided array": lambda v: np.repeat(np.array(v), 2)[::2], "int array": lambda v: np.array(v).astype(int),
        "int list": lambda v: [int(x) for x in v], "range": lambda v: range(0, 3 * n, 3),
        "readonly": lambda v: _ro(np.array(v)), "2d": lambda v: np.array([v, v]), "scalar": lambda v: 4.5,
        "long array": lambda v: np.linspace(-3, 12, 1200), "other long array": lambda v: np.linspace(5, -2, 1200) ** 3,
        "missing values": lambda v: np.where(np.arange(n) % 3 == 1, np.nan, np.array(v)), "missing value in a list": lambda v: [*v[:-1], float("nan")],
        "float32": lambda v: np.array([1.0, 2.0, 0.5, 8.0, 3.0, 0.25, 7.0], dtype=np.float32),
    }
    sizes = [(1.0, 1.0), (25, 100), (0.5, 2.0), (3, 7), (176.71458676442586, 100), (1e-6, 1e-3), (np.float64(2.5), np.int64(3))]
    per_point = [1.5, 2.0, 0.3, 4.0, 1.0, 77.0, 0.01]
    sizes += [(np.array(per_point), 100), (25, np.array(per_point)[::-1]), (np.array(per_point) * 3, np.array(per_point)), (3, np.array(2.0)),
              (np.array([4.0]), np.array([2.5]))]
    for _ in range(60 if deep else 4):
        sizes.append((r.uniform(0.01, 300), r.uniform(0.01, 300)))
    for (kd, gd), (kf, gf) in itertools.product(kinds.items(), kinds.items()):
        if "long" in kd + kf and not deep and r.random() < 0.7:
            continue
        for area, length in (sizes if deep and "long" not in kd + kf else r.sample(sizes, 2)):
            dd, ff = gd(d), gf(f)
            d0, f0 = np.array(dd, copy=True), np.array(ff, copy=True)
            kw = {"area": area, "length": length}
            if np.ndim(area) + np.ndim(length) == 0 and (area, length) == (1.0, 1.0):
                kw = {}
            if np.size(area) * np.size(length) > 1 and not np.shape(dd)[-1:] == np.shape(ff)[-1:] == (7,):
                continue
            if np.ndim(area) + np.ndim(length) and () in (np.shape(dd), np.shape(ff)):
                continue
            sizes0 = [np.array(area, copy=True), np.array(length, copy=True)]
            if r.random() < 0.3:
                kw.update(time=np.arange(7.0), temperature=[20.0] * 7)

            def run():
                e = lab.Experiment("label", dd, ff, **kw)
                s1 = e.stress()
                s2 = np.array(e.stress(), copy=True)
                res = np.array(s1, copy=True) if np.array_equal(s1, s2, equal_nan=True) else np.array(np.nan), np.array(e.stretch)
                # a caller who works on the returned stress does not work on the recorded data
                if isinstance(s1, np.ndarray) and s1.flags.writeable and s1.ndim:
                    s1[...] = -99
                    if not np.array_equal(e.stress(), s2, equal_nan=True):
                        res = np.array(np.nan), res[1]
                return e, *res

            out, exc = call(run)
            kept, res = 0, []
            if not exc:
                e, s, x = out
                res = [rec.arr(np.nan_to_num(x)), rec.arr(np.nan_to_num(s))]
                eq = lambda v, w: np.array_equal(np.asarray(v, dtype=float), w, equal_nan=True)  # noqa: E731
                same = (eq(dd, d0) and eq(ff, f0) and eq(e.displacement, d0) and eq(e.force, f0) and np.array_equal(e.area, sizes0[0]) and np.array_equal(e.length, sizes0[1]) and e.label == "label")
                same = same and np.array_equal(e.time, kw["time"]) and list(e.temperature) == kw["temperature"] \
                    if "time" in kw else same and e.time is None and e.temperature is None
                kept = int(bool(same))
            gaps = [[] if exc and k > 1 else [int(q) for q in np.flatnonzero(np.isnan(np.asarray(v, dtype=float)))]
                    for k, v in enumerate((d0, f0, *((x, s) if not exc else (0, 0))))]
            case = rec.add(kind="experiment", a=[rec.arr(np.nan_to_num(v)) for v in (d0, f0)], r=res, gaps=gaps,
                    area=[rec.num(v) for v in np.ravel(area)], length=[rec.num(v) for v in np.ravel(length)],
                    kept=kept, exc=exc, tol=6 if "float32" in (kd, kf) else 14 + common.SHARPEN,
                    what="experiment with displacement as %s, force as %s, area %s, length %s" % (kd, kf, area, length))
            if any(gaps):
                case["nocontrol"] = 1


def _ro(a):
    a.flags.writeable = False
    return a


def check(prop, tier):
    ck = common.Check(prop, tier)
    rec = Recorder()
    {"C23": c23, "C25": c25}[prop](rec, ck.thorough())
    ck.validate("TraceLab", rec, control=("r",))
    return ck.finish()
