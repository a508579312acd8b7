"""Recorded calls of the material models (C06-C09)."""

from fractions import Fraction as Q

import numpy as np

import common
import energies as en
import points as pt
import space_cases as sc
from common import Recorder, call
from energies import term

TRAILS = [(), (1,), (3,), (2, 2), (1, 3), (2, 1, 2)]


def entry(rec, a):
    return {"none": 1, "a": rec.arr(0.0)} if a is None else {"none": 0, "a": rec.arr(a)}


def root_of(v):
    """Exact sixth root for spec terms with fractional powers, None if there is none."""
    return v


def inv_values(P, trail, rooted):
    """Arrays I1, I2, I3 (floats, exact) and the sixth roots of I3."""
    n = sc.nprod(trail)
    r = [P.r.choice([Q(1), Q(3, 4), Q(5, 4), Q(1, 2), Q(3, 2)]) for _ in range(n)]
    i3 = [x**6 for x in r] if rooted else [Q(P.r.randrange(20, 300), 64) for _ in range(n)]
    i1 = [Q(P.r.randrange(100, 800), 64) for _ in range(n)]
    i2 = [Q(P.r.randrange(100, 900), 64) for _ in range(n)]
    arr = [np.array([float(v) for v in x]).reshape(trail) for x in (i1, i2, i3)]
    return arr, (r if rooted else [Q(1)] * n)


def record_invariants(rec, model, comp, x, roots, tol=11, what="", want=(), seen=lambda: (), trail=None, sv=None):
    sv = np.array([0.25, -3.0]) if sv is None else sv
    trail = np.broadcast_shapes(*[np.shape(v) for v in x]) if trail is None else trail
    keep = [np.array(v, copy=True) for v in x]

    def run():
        if len(rec.cases) % 2:  # the second derivatives first
            h = model.hessian(*x, sv)
            return model.gradient(*x, sv), h
        g = model.gradient(*x, sv)
        h = model.hessian(*x, sv)
        return g, h

    out, exc = call(run)
    g, h = out if not exc else ([None] * 4, [None] * 6)
    ok = exc or (len(g) == 4 and np.array_equal(np.asarray(g[3]), sv))
    if tol < 8:
        rec.floor[len(rec.cases) + 1] = 10**30
    rec.add(kind="invariants", n=1, en=en.encode(rec, comp), x=[rec.arr(v) for v in keep],
            root=[rec.num(v) for v in roots], trail=list(trail), g=[entry(rec, v) for v in g[:3]],
            h=[entry(rec, v) for v in h], tol=tol + common.SHARPEN, exc=exc, what=what,
            want=["statevars returned", *map(str, want)],
            seen=["statevars returned" if ok else "statevars changed", *map(str, seen() if not exc else want)])


def stretch_values(P, n, trail, kind="generic"):
    mus = []
    for _ in range(sc.nprod(trail)):
        if kind == "one":
            m = [Q(1)] * 3
        elif kind == "equal":
            m = [P.r.choice([Q(4, 5), Q(6, 5)])] * 3
        elif kind == "small":  # roots of moderate stretches for small exponents
            m = [1 + Q(P.r.choice([-7, -4, 3, 5, 8]), 8 * n) for _ in range(3)]
        elif kind == "extreme":
            m = [P.r.choice([Q(1, 4), Q(1, 2), Q(2), Q(5, 2)]) for _ in range(3)]
        else:
            m = [Q(P.r.randrange(28, 60), 40) for _ in range(3)]
        mus.append(m)
    lam = np.array([[float(m[k] ** n) for m in mus] for k in range(3)]).reshape(3, *trail)
    return lam, mus


def record_stretches(rec, model, comp, n, lam, mus, trail, tol=11, what="", kind="stretches", want=(), seen=lambda: (), control=True):
    sv = np.array([0.5])

    def run():
        if len(rec.cases) % 2:
            h = model.hessian(lam, sv)
            return model.gradient(lam, sv), h
        g = model.gradient(lam, sv)
        h = model.hessian(lam, sv)
        return g, h

    out, exc = call(run)
    g, h = out if not exc else (([None] * 3, sv), [None] * 6)
    ok = exc or np.array_equal(np.asarray(g[1]), sv)
    rec.add(kind=kind, n=n, en=en.encode(rec, comp), x=rec.mat(mus), trail=list(trail),
            g=[entry(rec, v) for v in g[0]], h=[entry(rec, v) for v in h], tol=tol + common.SHARPEN, exc=exc,
            what=what, want=["statevars returned", *want],
            seen=["statevars returned" if ok else "statevars changed", *(seen() if not exc else want)], **({} if control else {"nocontrol": 1}))


class Tiled:
    """A model evaluated on a large batch, with the results at some of its points.

    The points of the small batch (one trailing axis) are repeated along the last axis; the result of each of them is
    taken from one of its repetitions, anywhere in the batch."""

    def __init__(self, model, shape, P):
        self.model, self.shape, self.r = model, shape, P.r

    def _large(self, v, k, pos):
        v = np.asarray(v)
        out = np.empty((*v.shape[:-1], *self.shape))
        flat = out.reshape(*v.shape[:-1], -1)
        flat[...] = v[..., np.arange(flat.shape[-1]) % k]
        assert np.array_equal(flat[..., pos], v)
        return out

    def _small(self, v, pos):
        if v is None or np.ndim(v) == 0:
            return v
        if np.shape(v)[np.ndim(v) - len(self.shape):] != tuple(self.shape):
            return np.full((1, 1, 1), np.nan)  # not the shape of the batch
        return np.asarray(v).reshape(*np.shape(v)[: np.ndim(v) - len(self.shape)], -1)[..., pos]

    def call(self, name, *x):
        k, n = np.shape(x[0])[-1], int(np.prod(self.shape))
        rep = n // k
        pos = np.array([p + k * self.r.choice([0, rep // 2, rep - 1, self.r.randrange(rep)]) for p in range(k)])
        pos[0] = (n - 1) // k * k
        if (n - 1) % k:
            pos[(n - 1) % k] = n - 1
        fun = self.model if name == "call" else getattr(self.model, name)
        out = fun(*[self._large(v, k, pos) for v in x[:-1]], *x[-1:]) if name != "call" else fun(self._large(x[0], k, pos))
        return out, pos

    def gradient(self, *x):
        out, pos = self.call("gradient", *x)
        if len(out) == 2:  # stretches
            return [self._small(v, pos) for v in out[0]], out[1]
        return [*[self._small(v, pos) for v in out[:3]], out[3]]

    def hessian(self, *x):
        out, pos = self.call("hessian", *x)
        return [self._small(v, pos) for v in out]

    def __call__(self, x):
        out, pos = self.call("call", x)
        return [self._small(v, pos) for v in out]


LARGE = [(1400,), (9, 170), (4999,), (71, 71), (2, 3, 250)]


# ------------------------------------------------------------------ properties


def c06(rec, P, deep):
    names = ["C10", "C01", "C11", "C20", "C30"]
    for strain in (False, True):
        for mask in range(32):
            for rep in range(3 if deep else 1):
                par = {c: (Q(P.r.choice([-9, -5, -2, 1, 3, 4, 8]), 7) if mask >> k & 1 else Q(0))
                       for k, c in enumerate(names)}
                comp = en.inv(*en.tod_terms(**par, strain=strain))
                for trail in (TRAILS if deep else TRAILS[mask % 6:][:1] + [()]):
                    x, roots = inv_values(P, trail, False)
                    record_invariants(rec, en.tod_model(strain=strain, **par), comp, x, roots,
                                      what="third-order deformation %s, strain=%s, points %s"
                                           % ({k: str(v) for k, v in par.items() if v}, strain, trail))
        # special values of the invariants: undeformed state, values between, signs; defaults for parameters
        par = dict(C10=Q(1, 2), C01=Q(-1, 5), C11=Q(1, 10), C20=Q(-1, 20), C30=Q(1, 40))
        comp = en.inv(*en.tod_terms(**par, strain=strain))
        x = [np.array([3.0, 0.0, 2.5, -1.0, 100.0, 1e-3]), np.array([3.0, 0.0, 3.5, -2.0, 1e4, 3.0]), np.ones(6)]
        record_invariants(rec, en.tod_model(strain=strain, **par), comp, x, [Q(1)] * 6,
                          what="third-order deformation at special invariants, strain=%s" % strain)
    import hyperelastic as h

    T = h.models.invariants.ThirdOrderDeformation
    x = [np.array([4.0, 5.0]), np.array([3.5, 6.0]), np.array([1.0, 2.0])]
    record_invariants(rec, T(), en.inv(*en.tod_terms()), x, [Q(1)] * 2, what="third-order deformation, no parameters")
    for c in names:
        for value in (2, 1, -1, 3):
            record_invariants(rec, T(**{c: value}), en.inv(*en.tod_terms(**{c: value})), x, [Q(1)] * 2,
                              what="third-order deformation, only %s=%s, default strain" % (c, value))
    record_invariants(rec, T(1, 2, 3, 4, 5), en.inv(*en.tod_terms(1, 2, 3, 4, 5)), x, [Q(1)] * 2,
                      what="third-order deformation, positional parameters")
    record_invariants(rec, T(1, 2, 3, 4, 5, True), en.inv(*en.tod_terms(1, 2, 3, 4, 5, strain=True)), x, [Q(1)] * 2,
                      what="third-order deformation, positional parameters and strain")
    # coefficients which cancel or repeat each other
    for m in range(243) if deep else [n for n in range(243) if n % 3 == P.r.randrange(3)]:
        unit = P.r.choice([Q(1, 4), Q(1)])
        par = {c: [0, unit, -unit][m // 3**k % 3] for k, c in enumerate(names)}
        strain = bool(P.r.randrange(2))
        record_invariants(rec, en.tod_model(strain=strain, **par), en.inv(*en.tod_terms(**par, strain=strain)), x, [Q(1)] * 2,
                          what="third-order deformation %s, strain=%s" % ({k: str(v) for k, v in par.items() if v}, strain))
    for strain in (False, True):  # long batches
        par = dict(C10=Q(1, 2), C01=Q(-1, 5), C11=Q(1, 10), C20=Q(-1, 20), C30=Q(1, 40))
        for trail in ((130,), (3, 70)) if not deep else ((130,), (3, 70), (1025,), (40, 40)):
            v, roots = inv_values(P, trail, False)
            record_invariants(rec, en.tod_model(strain=strain, **par), en.inv(*en.tod_terms(**par, strain=strain)), v, roots,
                              what="third-order deformation, strain=%s, points %s" % (strain, trail))
        for shape in LARGE:
            x, roots = inv_values(P, (13,), False)
            record_invariants(rec, Tiled(en.tod_model(strain=strain, **par), shape, P), en.inv(*en.tod_terms(**par, strain=strain)),
                              x, roots, what="third-order deformation, strain=%s, points of a batch %s" % (strain, shape))
    # invariants given as integers, as numbers and of different kinds
    ints = [(np.array([3, 4]), np.array([3, 5]), np.array([1, 2])), (4, 5, 1), (3, 3, 1), (np.int64(4), np.float64(3.5), 1.0),
            (np.array([[4, 7]]), np.array([[3.5, 6.25]]), np.array([[1, 1]])), (np.array([4], dtype=np.int32), np.array([5.5]), np.array([1])),
            (np.float32(4.5), np.float32(3.5), np.float32(1)), (4.5, 3, 2)]
    for strain in (False, True):
        for m in (1, 2, 4, 8, 16, 3, 9, 12, 20, 31, 6, 24) if not deep else range(32):
            par = {c: (Q(P.r.choice([-7, -3, 1, 3, 5]), 8) if m >> k & 1 else Q(0)) for k, c in enumerate(names)}
            for v in ints:
                trail = np.broadcast_shapes(*[np.shape(a) for a in v])
                full = [np.broadcast_to(a, trail) for a in v]
                model = en.tod_model(strain=strain, **par)

                class Given:
                    def gradient(self, I1, I2, I3, z, v=v, model=model):
                        return model.gradient(*v, z)

                    def hessian(self, I1, I2, I3, z, v=v, model=model):
                        return model.hessian(*v, z)

                record_invariants(rec, Given(), en.inv(*en.tod_terms(**par, strain=strain)), full, [Q(1)] * sc.nprod(trail),
                                  what="third-order deformation %s, strain=%s, invariants %s"
                                       % ({k: str(q) for k, q in par.items() if q}, strain, [str(a) for a in v]))
    # numpy numbers as parameters, tiny moduli
    x = [np.array([4.0, 5.0]), np.array([3.5, 6.0]), np.array([1.0, 2.0])]
    for s in (1e-12, 1e-300, 1e12):
        par = {c: Q(s) * (k + 1) for k, c in enumerate(names)}
        record_invariants(rec, T(**{c: np.float64(float(v)) for c, v in par.items()}),
                          en.inv(*en.tod_terms(**{c: Q(float(v)) for c, v in par.items()})), x, [Q(1)] * 2,
                          what="third-order deformation, moduli of magnitude %g" % s)


def c07(rec, P, deep):
    import hyperelastic as h

    T = h.models.stretches.Ogden
    lists = [(1, []), (1, [(1, 2)])]
    exps = {1: [2, -2, 1, -1, 4, 3, -5, 10], 2: [1, -1, 3, -3, 5, 2, -4, 6], 4: [1, -1, 3, 5, -7, 4, 8, -2],
            5: [1, -3, 7, 11, 2]}
    for n, qs in exps.items():
        for q in qs:
            lists.append((n, [(Q(P.r.choice([-3, 1, 2, 5]), 4), q)]))
        for k in range(2, 7 if deep else 5):
            lists.append((n, [(Q(P.r.choice([-3, 1, 2, 5]), 4), P.r.choice(qs)) for _ in range(k)]))
    for m, (n, terms) in enumerate(lists):
        comp = en.ogden(*terms)
        for kind in ("generic", "one", "extreme", "equal"):
            for trail in (TRAILS if deep else [TRAILS[m % 6]]):
                lam, mus = stretch_values(P, n, trail, kind)
                mu, al = [float(Q(t[0])) for t in terms], [t[1] / n for t in terms]
                cont = [list, tuple, np.array][m % 3]
                mine = cont(mu), cont(al)  # the caller's own containers, for two models
                first, second = T(mu=mine[0], alpha=mine[1]), T(mu=mine[0], alpha=mine[1])
                same = lambda v=mine, w=(mu, al): [  # noqa: E731
                    "parameters" if all(list(a) == list(b) for a, b in zip(v, w)) else "parameters of the caller changed"]
                record_stretches(rec, second if kind in ("one", "equal") else first, comp, n, lam, mus, trail, tol=11,
                                 want=["parameters"], seen=same, what="Ogden mu=%s alpha=%s, %s stretches, points %s" % (mu, al, kind, trail))
    # other exponents, many terms, long batches
    more = [(10, [(1, 17)]), (10, [(Q(1, 2), 1), (Q(1, 3), -13)]), (3, [(1, 1), (2, -2), (3, 5)]), (1, [(Q(1, 50), 24)]),
            (1, [(Q(1, 50), -20), (1, 2)]), (7, [(1, 3), (1, -3)]), (1, [(1, 2), (-1, 2)]),
            (2, [(1, 3), (Q(1, 2), 3), (-1, -3)]), (1, [(Q(k + 1, 9), k - 6) for k in range(13) if k != 6])]
    for n, terms in more:
        comp = en.ogden(*terms)
        for kind, trail in (("generic", (2,)), ("one", ()), ("equal", (1, 2)), ("generic", ())):
            lam, mus = stretch_values(P, n, trail, kind)
            mu, al = [float(Q(t[0])) for t in terms], [t[1] / n for t in terms]
            record_stretches(rec, T(mu=mu, alpha=al), comp, n, lam, mus, trail, tol=11,
                             what="Ogden mu=%s alpha=%s, %s stretches, points %s" % (mu, al, kind, trail))
    for trail in ((70,), (2, 40)) if not deep else ((70,), (2, 40), (600,), (25, 30)):
        terms = [(Q(3, 4), 3), (Q(1, 4), -2)]
        lam, mus = stretch_values(P, 2, trail)
        record_stretches(rec, T([0.75, 0.25], [1.5, -1]), en.ogden(*terms), 2, lam, mus, trail, tol=11,
                         what="Ogden, points %s" % (trail,))
    for shape in LARGE:
        for terms in ([(Q(3, 4), 3), (Q(1, 4), -2)], [(Q(3, 4), 2)]):
            lam, mus = stretch_values(P, 2, (13,))
            record_stretches(rec, Tiled(T([float(t[0]) for t in terms], [t[1] / 2 for t in terms]), shape, P), en.ogden(*terms), 2,
                             lam, mus, (13,), tol=11, what="Ogden, points of a batch %s" % (shape,))
    comp = en.ogden((1, 2), (0, 3), (Q(1, 2), 2))
    lam, mus = stretch_values(P, 1, (2,))
    record_stretches(rec, T([1, 0, 0.5], [2, 3, 2]), comp, 1, lam, mus, (2,), what="Ogden with integer parameters")


class Spy:
    """Inner model which notes the invariants it receives."""

    def gradient(self, I1, I2, I3, statevars):
        self.x = [np.array(v, copy=True) for v in (I1, I2, I3)]
        return np.ones_like(I1), None, None, statevars

    def hessian(self, I1, I2, I3, statevars):
        self.x = [np.array(v, copy=True) for v in (I1, I2, I3)]
        return [None] * 6


def c08(rec, P, deep):
    import hyperelastic as h

    g = h.models.generalized
    exps = [(10, 1), (10, -1), (10, 23), (10, -17), (4, 1), (4, -3), (7, 9), (1, 20), (1, -15)]
    exps += [(100, 1), (200, -1), (512, 1)]  # small exponents
    exps += [(n, q) for n in (1, 2, 3, 5) for q in (-7, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 10)]
    for m, (n, q) in enumerate(exps):
        for name, fun, meas in (("strain", g.strain, en.seth_hill(q, n)),
                                ("deformation", g.deformation, en.deformation(q, n))):
            for trail in (TRAILS if deep else [TRAILS[m % 6], (2,)]):
                for kind in ("generic", "one", "extreme")[: 2 if n > 6 else 3]:
                    if n > 20:
                        if kind == "generic":
                            kind = "small"
                        trail = (2,)
                    lam, mus = stretch_values(P, n, trail, kind)
                    lam, mus = lam[0], [[m3[0]] * 3 for m3 in mus]
                    ex = q / n if (q % n or m % 2) else q // n
                    out, exc = call(fun, lam, ex)
                    out = [None] * 6 if exc else list(out)
                    rec.add(kind="measure", n=n, en=en.encode(rec, en.gen(meas)), x=rec.mat(mus), trail=list(trail),
                            g=[entry(rec, v) for v in out], h=[], tol=11 + common.SHARPEN, exc=exc, want=[], seen=[],
                            what="%s measure, exponent %s, %s stretches, points %s" % (name, ex, kind, trail))
    for shape in LARGE:
        for name, fun, meas in (("strain", g.strain, en.seth_hill), ("deformation", g.deformation, en.deformation)):
            n, q = P.r.choice([(2, 3), (1, 2), (1, 1), (2, -1), (1, 3)])
            lam, mus = stretch_values(P, n, (13,), "generic")
            lam, mus = lam[0], [[m3[0]] * 3 for m3 in mus]
            out, exc = call(Tiled(lambda v: fun(v, q / n), shape, P), lam)
            out = [None] * 6 if exc else list(out)
            rec.add(kind="measure", n=n, en=en.encode(rec, en.gen(meas(q, n))), x=rec.mat(mus), trail=[13],
                    g=[entry(rec, v) for v in out], h=[], tol=11 + common.SHARPEN, exc=exc, want=[], seen=[],
                    what="%s measure, exponent %s, points of a batch %s" % (name, q / n, shape))
    # invariants seen by the inner model
    pool = [(2, *m) for m in sc.measure_pool(2)] + [(1, *m) for m in sc.measure_pool(1)[:12]]
    rand = [sc.random_measure(P.r, n) for n in (1, 2, 3) for _ in range(40 if deep else 6)]
    nr = [n for n in (1, 2, 3) for _ in range(40 if deep else 6)]
    kws = [{}, {"exponent": 2}, {"exponent": 1}, {"exponent": 0}, {"k": 2}, {"order": (1, 2)}, {"exponent": -2.0, "scale": 0}]
    pool += [(n, "random measure with keywords %s" % kw, en.user_measure(m, n), kw, m)
             for n, m, kw in zip(nr, rand, [kws[k % 7] for k in range(len(nr))])]
    for n, name, fun, kw, meas in pool:
        for kind in ("one", "generic", "extreme", "equal"):
            for which in ("gradient", "hessian"):
                trail = P.r.choice(TRAILS)
                lam, mus = stretch_values(P, n, trail, kind)
                spy = Spy()

                def run():
                    mod = h.models.stretches.GeneralizedInvariantsModel(spy, fun, **kw)
                    getattr(mod, which)(lam, None)
                    return spy.x

                out, exc = call(run)
                rec.add(kind="normal", n=n, en=en.encode(rec, en.gen(meas)), x=rec.mat(mus), trail=list(trail),
                        g=[entry(rec, v) for v in (out or [None] * 3)], h=[], tol=11 + common.SHARPEN, exc=exc,
                        want=[], seen=[], what="invariants of %s, %s stretches (%s)" % (name, kind, which))
    # initial stiffness
    for n, m in zip(nr, rand):
        a = float(sum(t["a"] for t in m["t"]) + m["b"])
        comp = en.gen(m, term(1, 1), term(Q(1, 3), 0, 1), term(Q(1, 7), 1, 1), term(Q(1, 9), 2, a1=Q(3 * a)), term(2, 3, a1=1))

        def run():
            fw = h.GeneralizedInvariantsFramework(en.UserInvariants(comp), en.user_measure(m, n))
            g = h.DistortionalSpace(fw).hessian([np.eye(3).reshape(3, 3, 1), None])[0][..., 0]
            return g

        out, exc = call(run)
        rec.add(kind="stiffness", n=n, en=en.encode(rec, comp), x=[], trail=[], g=[entry(rec, out)], h=[],
                tol=10 + common.SHARPEN, exc=exc, want=[], seen=[], what="initial stiffness, random measure")
    for n in (1, 2, 3):
        for q in (-6, -4, -3, -2, -1, 1, 2, 3, 4, 6, 8):
            for name, fun, meas in (("strain", g.strain, en.seth_hill(q, n)),
                                    ("deformation", g.deformation, en.deformation(q, n))):
                a = 0 if name == "strain" else 3
                for terms in ([term(1, 1), term(Q(1, 3), 0, 1)], [term(1, 1)], [term(1, 0, 1)],
                              [term(Q(1, 2), 1, a1=a, a2=a), term(Q(1, 5), 0, 1, a1=a, a2=a),
                               term(Q(1, 7), 1, 1, a1=a, a2=a), term(Q(1, 9), 2, a1=a), term(2, 3, a1=a)]):
                    comp = en.gen(meas, *terms)

                    def run():
                        fw = h.GeneralizedInvariantsFramework(en.UserInvariants(comp), fun, exponent=q / n)
                        sp = h.DistortionalSpace(fw)
                        return sp.hessian([np.eye(3).reshape(3, 3, 1), None])[0][..., 0]

                    out, exc = call(run)
                    rec.add(kind="stiffness", n=n, en=en.encode(rec, comp), x=[], trail=[],
                            g=[entry(rec, out)], h=[], tol=10 + common.SHARPEN, exc=exc, want=[], seen=[],
                            what="initial stiffness, %s exponent %s" % (name, q / n))


def torch_pool(P, deep):
    """Energies with every subset of used invariants and every kind of coupling."""
    out = [en.inv(term(1, 1)), en.inv(term(1, 0, 1)), en.inv(term(1, 0, 0, 1)),
           en.inv(term(Q(1, 2), 1), term(Q(1, 3), 0, 1)), en.inv(term(1, 1), term(2, 0, 0, 1)),
           en.inv(term(1, 1), term(1, 0, 1), term(1, 0, 0, 1)),
           en.inv(term(1, 2, a1=3)), en.inv(term(1, 0, 2, a2=3)), en.inv(term(1, 0, 0, 2, a3=1)),
           en.inv(term(1, 1, 1)), en.inv(term(1, 0, 1, 1)), en.inv(term(1, 1, 0, 1)), en.inv(term(1, 1, 1, 1)),
           en.inv(term(1, 3, a1=3)), en.inv(term(1, 1, 2)), en.inv(term(1, 2, 0, 1), term(1, 0, 1)),
           en.inv(term(1, 0, 1), term(1, 1, 0, 1)), en.inv(term(2, 1), ln=-1), en.inv(ln=1),
           en.inv(term(Q(1, 2), 1, e=-2)), en.inv(term(Q(1, 2), 1, e=-2), term(Q(1, 4), 0, 1, e=-4), term(1, 0, 0, 2, a3=1)),
           en.inv(term(1, 2, 2, a1=3, a2=3), term(1, 0, 0, 1)), en.inv(), sc.inv_comp()]
    for _ in range(30 if deep else 8):
        out.append(en.inv(*[term(Q(P.r.choice([-3, -1, 1, 2]), 4), P.r.randrange(3), P.r.randrange(3), P.r.randrange(3))
                            for _ in range(P.r.randrange(1, 4))], ln=P.r.choice([0, 0, 1])))
    return [c for c in out if distinct(c)]


def distinct(c):
    keys = [(t["i"], t["j"], t["k"], t["e"]) for t in c["t"]]
    return len(keys) == len(set(keys))


def c09(rec, P, deep):
    import hyperelastic as h
    import torch

    T = h.models.invariants.TorchModel
    for dt, tol in ((torch.float64, 11), (torch.float32, 5)):
        torch.set_default_dtype(dt)
        try:
            for m, comp in enumerate(torch_pool(P, deep)):
                for trail in (TRAILS if deep else [TRAILS[m % 6], TRAILS[(m + 3) % 6]]) + ([(150,)] if m % 10 == 3 else []):
                    rooted = any(t["e"] for t in comp["t"])
                    x, roots = inv_values(P, trail, rooted)
                    log = []
                    scale, tag = 1.5, object()

                    def fun(I1, I2, I3, scale=1.0, tag=None, **more):
                        log.append((scale, tag, sorted(more)))
                        base = en.torch_fun(comp)(I1, I2, I3)
                        return base * (scale / 1.5)

                    dts = []

                    class Probe(T):
                        pass

                    model = Probe(fun, scale=scale, tag=tag)
                    g0 = call(lambda: [*model.gradient(*x, None)[:3], *model.hessian(*x, None)])[0] or []
                    dts = sorted({str(np.asarray(v).dtype) for v in g0 if v is not None and np.any(v)})
                    name = str(dt).split(".")[1]

                    def seen():
                        return ["kwargs" if all(a == scale and b is tag and not c for a, b, c in log) and log else "other",
                                "dtype" if set(dts) <= {name} else "dtype %s instead of %s" % (dts, name)]

                    record_invariants(rec, model, comp, x, roots, tol=tol, seen=seen, want=["kwargs", "dtype"],
                                      what="torch (%s) %s, points %s" % (name, [
                                          (str(t["c"]), t["i"], t["j"], t["k"], t["e"]) for t in comp["t"]], trail))
        finally:
            torch.set_default_dtype(torch.float32)
    # keyword parameters of any value reach the function unchanged
    torch.set_default_dtype(torch.float64)
    try:
        for shape in LARGE:
            comp = en.inv(term(Q(1, 2), 2, a1=3), term(1, 1, 1), term(Q(1, 2), 0, 0, 2), term(Q(1, 3), 0, 1, 1))
            xs, roots = inv_values(P, (13,), False)
            record_invariants(rec, Tiled(T(en.torch_fun(comp)), shape, P), comp, xs, roots, what="torch, points of a batch %s" % (shape,))
        values = [0, 0.0, False, None, "", [], (), {}, 1, -1.5, True, "text", [1, 2], (3,), {"a": 1}, np.array([1.0, 2.0]), np.float32(2),
                  np.zeros(3), torch.tensor(2.0), torch.zeros(2), float("inf"), 10**30, 1e-300, print, int, object()]
        names = ["scale", "tag", "I0", "x", "statevars", "C10", "dtype"]
        base = en.inv(term(1, 2, a1=3), term(1, 1, 1), term(Q(1, 2), 0, 0, 2))
        for m, v in enumerate(values):
            kw = {names[m % len(names)]: v, "other": values[(m + 3) % len(values)]}
            log = []

            def fun(I1, I2, I3, scale=7, tag=7, **more):
                log.append({**({"scale": scale} if "scale" in kw else {}), **({"tag": tag} if "tag" in kw else {}), **more})
                return en.torch_fun(base)(I1, I2, I3)

            def seen():
                ok = log and all(set(q) == set(kw) and all(q[k] is kw[k] for k in kw) for q in log)
                return ["kwargs" if ok else "other keyword parameters"]

            xs, roots = inv_values(P, (2,), False)
            record_invariants(rec, T(fun, **kw), base, xs, roots, want=["kwargs"], seen=seen,
                              what="torch with keyword parameters %s" % sorted((k, type(q).__name__) for k, q in kw.items()))
        # numbers as parameters of the energy, also zero against another default
        for a, b in ((0, 0), (0.0, 2), (1, 0), (0, 1.5), (3, -1)):
            comp = en.inv(term(a, 2, a1=3), term(b, 0, 1, a2=3), term(1, 1))
            xs, roots = inv_values(P, (3,), False)
            record_invariants(rec, T(lambda I1, I2, I3, a=5.0, b=3.0: a * (I1 - 3) ** 2 + b * (I2 - 3) + I1, a=a, b=b), comp, xs, roots,
                              what="torch with parameters a=%s, b=%s" % (a, b))
    finally:
        torch.set_default_dtype(torch.float32)
    # derivatives which vanish at all or some points of the batch
    torch.set_default_dtype(torch.float64)
    try:
        still = [("(I1-3)^2", lambda a, b, c: (a - 3) ** 2, en.inv(term(1, 2, a1=3))),
                 ("(I2-3)^2", lambda a, b, c: (b - 3) ** 2, en.inv(term(1, 0, 2, a2=3))),
                 ("(I3-1)^2", lambda a, b, c: (c - 1) ** 2 / 2, en.inv(term(Q(1, 2), 0, 0, 2, a3=1))),
                 ("(I1-3) (I2-3)", lambda a, b, c: (a - 3) * (b - 3), en.inv(term(1, 1, 1, a1=3, a2=3))),
                 ("(I1-3) (I3-1)", lambda a, b, c: (a - 3) * (c - 1), en.inv(term(1, 1, 0, 1, a1=3, a3=1))),
                 ("(I2-3) (I3-1)", lambda a, b, c: (b - 3) * (c - 1), en.inv(term(1, 0, 1, 1, a2=3, a3=1))),
                 ("(I1-3)^3 + I2", lambda a, b, c: (a - 3) ** 3 + b, en.inv(term(1, 3, a1=3), term(1, 0, 1))),
                 ("(I1-3)^2 (I2-3) + (I3-1)^2", lambda a, b, c: (a - 3) ** 2 * (b - 3) + (c - 1) ** 2,
                  en.inv(term(1, 2, 1, a1=3, a2=3), term(1, 0, 0, 2, a3=1))),
                 ("(I1-3)^2 (I2-3)^2 + I1 I3", lambda a, b, c: (a - 3) ** 2 * (b - 3) ** 2 + a * c,
                  en.inv(term(1, 2, 2, a1=3, a2=3), term(1, 1, 0, 1)))]
        for name, fun, comp in still:
            for trail in TRAILS:
                for p in (1, Q(1, 2), 0):  # probability of an undeformed point
                    n = sc.nprod(trail)
                    at = [[Q(3), Q(3), Q(1)] if P.r.random() < p else [P.r.choice([Q(3), Q(7, 2), Q(5)]), P.r.choice([Q(3), Q(13, 4)]),
                                                                     P.r.choice([Q(1), Q(5, 4)])] for _ in range(n)]
                    xs = [np.array([float(v[k]) for v in at]).reshape(trail) for k in range(3)]
                    record_invariants(rec, T(fun), comp, xs, [Q(1)] * n, what="torch, %s at %s" % (name, "undeformed points" if p == 1 else "stationary points"))
    finally:
        torch.set_default_dtype(torch.float32)
    # one model, functions whose energy changes between the calls
    torch.set_default_dtype(torch.float64)
    try:
        c1, c2 = en.inv(term(1, 2, a1=3), term(1, 1, 1)), en.inv(term(Q(1, 2), 0, 2), term(3, 0, 1, 1), term(1, 1))
        f1, f2 = en.torch_fun(c1), en.torch_fun(c2)
        now, log = {"k": 0, "p": torch.tensor(2.0, requires_grad=True)}, []

        def branch(I1, I2, I3):
            return f1(I1, I2, I3) if float(I1.max()) < 7 else f2(I1, I2, I3)

        def closure(I1, I2, I3):
            return (f1, f2)[now["k"]](I1, I2, I3)

        def counted(I1, I2, I3):
            log.append(len(log))
            return f1(I1, I2, I3)

        def masked(I1, I2, I3):
            return torch.where(I1 < 7, f1(I1, I2, I3), f2(I1, I2, I3))

        def learned(I1, I2, I3, p):
            return p * I1 * I2 + p**2 * I3 + I1

        cl = en.inv(term(2, 1, 1), term(4, 0, 0, 1), term(1, 1))
        parts = {"branch": T(branch), "closure": T(closure), "counted": T(counted), "learned": T(learned, p=now["p"])}
        for q in range(12 if deep else 4):
            for trail in ((2,), (), (2, 2)):
                xs, roots = inv_values(P, trail, False)
                for low in (1, 0, 1):
                    y = [np.where(xs[0] < 7, xs[0], 5) if low else np.where(xs[0] < 7, 9, xs[0]), *xs[1:]]
                    now["k"] = 1 - low
                    for name, c in (("branch", c1 if low else c2), ("closure", c1 if low else c2), ("counted", c1), ("learned", cl)):
                        record_invariants(rec, parts[name], c, y, roots, what="torch, energy depends on the call (%s)" % name)
                    model = T(masked)
                    record_invariants(rec, model, c1 if low else c2, y, roots, what="torch, pointwise choice")
        # results as tensors, invariants as tensors
        for name, comp in (("c1", c1), ("c2", c2)):
            model = T(en.torch_fun(comp))

            class Tensors:
                def gradient(self, I1, I2, I3, z):
                    g = model.gradient(I1, I2, I3, z, numpy=False)
                    return (*[None if v is None else v.detach().numpy() for v in g[:3]], g[3])

                def hessian(self, I1, I2, I3, z):
                    return [None if v is None else v.detach().numpy() for v in model.hessian(I1, I2, I3, z, numpy=False)]

            class Given(Tensors):
                def gradient(self, I1, I2, I3, z):
                    x = [torch.tensor(v, requires_grad=True) for v in (I1, I2, I3)]
                    return model.gradient(*x, z, tensor=True)

            for kind in (Tensors, Given):
                xs, roots = inv_values(P, (3,), False)
                record_invariants(rec, kind(), comp, xs, roots, what="torch, %s" % kind.__name__)
    finally:
        torch.set_default_dtype(torch.float32)
    # a function which ignores the graph: constant number of points, functions built of sums and products
    torch.set_default_dtype(torch.float64)
    try:
        for name, fun, comp in [
            ("repeated use", lambda a, b, c: (a - 3) * (a - 3) + (b * a - b * 0) * 1.0 + c * c / 2,
             en.inv(term(1, 2, a1=3), term(1, 1, 1), term(Q(1, 2), 0, 0, 2))),
            ("intermediate variables", lambda a, b, c: torch.stack([a, 2 * b, c * a]).sum(dim=0),
             en.inv(term(1, 1), term(2, 0, 1), term(1, 1, 0, 1))),
            ("in-place", lambda a, b, c: (a * b).add_(c), en.inv(term(1, 1, 1), term(1, 0, 0, 1))),
            ("square root", lambda a, b, c: torch.sqrt(c), en.inv(term(1, e=3))),
            ("powers", lambda a, b, c: torch.pow(a, 2) * torch.pow(b, 1) + torch.exp(torch.log(c)),
             en.inv(term(1, 2, 1), term(1, 0, 0, 1))),
        ]:
            for trail in TRAILS:
                x, roots = inv_values(P, trail, True)
                record_invariants(rec, T(fun), comp, x, roots, tol=10, what="torch, %s, points %s" % (name, trail))
    finally:
        torch.set_default_dtype(torch.float32)


def c12(rec, P, deep):
    """The generalized invariants as a model of the principal stretches, in any order of the stretches."""
    import hyperelastic as h

    M = h.models.stretches.GeneralizedInvariantsModel
    k = 0
    for name, fun, kw, meas in sc.measure_pool():
        monos = [(i, j, l) for i in range(4) for j in range(4 - i) for l in range(4 - i - j) if i + j + l]
        inner = [sc.gen_inner(x) for x in ("full", "I3", "linear")] + [
            [term(Q(3, 4), *m, a1=Q(1, 2), a2=Q(1, 3), a3=Q(1, 4))] for m in (monos if deep else P.r.sample(monos, 4))]
        for ts in inner:
            comp = en.gen(meas, *ts)
            for kind in ("generic", "extreme", "equal", "one", "pair"):
                k += 1
                if not deep and kind in ("equal", "one", "pair") and k % 2:
                    continue
                trail = TRAILS[k % len(TRAILS)]
                lam, mus = stretch_values(P, 2, trail, "generic" if kind == "pair" else kind)
                if kind == "pair":
                    i, j = P.r.sample(range(3), 2)
                    for m in mus:
                        m[i] = m[j]
                    lam[i] = lam[j]
                style = sc.STYLES[k % len(sc.STYLES)]
                record_stretches(rec, M(en.UserInvariants(comp, style), fun, **kw), comp, 2, lam, mus, trail, tol=10, control=kind != "extreme",
                                 what="model of generalized invariants, %s, %d terms (%s), %s stretches, points %s" % (name, len(ts), style, kind, trail))


def check(prop, tier):
    ck = common.Check(prop, tier)
    P = pt.Points(common.SEED * 1000 + int(prop[1:]))
    rec = Recorder()
    {"C06": c06, "C07": c07, "C08": c08, "C09": c09}[prop](rec, P, ck.thorough())
    ck.validate("TraceModel", rec, control=("h", "g"))
    return ck.finish()
