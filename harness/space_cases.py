"""Recorded evaluations of frameworks and spaces against the definitional response (C10-C17, C22)."""

from fractions import Fraction as Q

import numpy as np

import common
import energies as en
import points as pt
from common import Recorder, call
from energies import term

SPACES = ["deformation", "distortional", "dilatational"]


def space_class(name):
    import hyperelastic as h

    return {"deformation": h.DeformationSpace, "distortional": h.DistortionalSpace,
            "dilatational": h.DilatationalSpace}[name]


def frameworks():
    import hyperelastic as h

    return h


def magnitude(comps):
    return max([abs(t.get("c", t.get("mu"))) for c in comps for t in c["t"]] + [abs(c.get("ln", 0)) for c in comps])


class Large:
    """A large batch of repeated points in random order; some places of it are recorded: the ends, around powers of two
    and other block sizes, random ones, and those which deviate most from the same point elsewhere."""

    def __init__(self, r, pts, trail):
        self.r, self.base, self.trail = r, pts, tuple(trail)
        self.size = sc_prod(trail)
        self.index = np.array([r.randrange(len(pts)) for _ in range(self.size)])

    def tile(self, a, lead):
        a = a.reshape(*a.shape[:lead], -1)
        return np.ascontiguousarray(a[..., self.index]).reshape(*a.shape[:lead], *self.trail)

    def sample(self, results, ranks):
        """Places, results there, shapes of the results."""
        m = self.size
        shapes = [list(np.shape(v)) for v in results]
        flats = []
        for v, k in zip(results, ranks):
            try:
                flats.append(np.broadcast_to(v, (*v.shape[:k], *self.trail)).reshape(-1, m))
            except ValueError:
                return [0], [np.zeros((*np.shape(v)[:k], 1)) for v, k in zip(results, ranks)], shapes
        pick = {0, m - 1, *self.r.sample(range(m), min(m, 2))}
        pick.add(self.r.choice([2**i for i in range(1, 13) if 2**i < m and (i > 3 or m < 40)]) - self.r.randrange(2))
        pick.add(self.r.choice([b * (m // b) for b in (10, 50, 64, 100, 128, 256, 500, 512, 1000, 1024) if b < m] or [3]) % m)
        dev = np.zeros(m)
        with np.errstate(all="ignore"):
            for f in flats:
                for b in range(len(self.base)):
                    at = np.flatnonzero(self.index == b)
                    if len(at):
                        d = np.abs(f[:, at] - np.median(f[:, at], axis=1, keepdims=True)).max(0)
                        dev[at] = np.maximum(dev[at], np.nan_to_num(d, nan=1e300, posinf=1e300))
        pick |= set(np.argsort(dev)[-2:].tolist())
        pick = sorted(pick)
        return pick, [f[:, pick].reshape(*np.shape(v)[:k], len(pick)) for f, v, k in zip(flats, results, ranks)], shapes


def sc_prod(t):
    return int(np.prod(t, dtype=int))


def record_space(rec, space, comps, fw, pts, n=1, trail=(1,), force=1, area=0, fin=1, parallel=False, dirs=None,
                 tol=10, what="", order="C", kwargs_default=False, big=None, twice=False):
    F = pt.batch(pts, (len(pts),) if big else trail)
    if big:
        F = big.tile(F, 2)
    if order == "F":
        F = np.asfortranarray(F)
    elif order == "strided":
        big = np.zeros((3, 3, *[2 * t for t in trail]))
        view = big[(slice(None), slice(None), *[slice(None, None, 2) for _ in trail])]
        view[...] = F
        F = view

    def run():
        kw = dict(parallel=parallel, finalize=bool(fin), force=None if force else 0, area=None if area else 0)
        if kwargs_default:
            kw = {}
        umat = space_class(space)(fw, **kw)
        if twice:
            umat.gradient([F, np.zeros(0)])
            umat.hessian([F, np.zeros(0)])
        other = F * np.array([1.25, 0.875, 1.0625]).reshape(3, *[1] * (F.ndim - 1))
        return in_turn(lambda x: umat.gradient([x, np.zeros(0)])[0], lambda x: umat.hessian([x, np.zeros(0)])[0], F, other, len(rec.cases))

    out, exc = call(run)
    g, h = out if not exc else (np.zeros(0), np.zeros(0))
    full, pts, trail, g, h = reduce(big, pts, trail, g, h, (2, 4) if fin else (1, 2), exc)
    rec.floor[len(rec.cases) + 1] = magnitude(comps) / 10**4
    rec.add(full=full, lvl="space", space=space, force=force, area=area, fin=fin, n=n, en=en.encode(rec, comps), tol=tol + common.SHARPEN,
            pts=pt.encode(rec, pts), trail=list(trail), dirs=[[rec.mat(d[0]), rec.mat(d[1])] for d in dirs],
            g=rec.arr(g), h=rec.arr(h), hess=1, exc=exc, what=what, **({"nocontrol": 1} if tol < 9 else {}))


def in_turn(gradient, hessian, x, other, k):
    """Both results: the gradient or the hessian first, on fresh objects or after an evaluation at another deformation."""
    order = "ghGhgHGHgh"[(k + k // 10) % 10]
    if order == "G":
        gradient(other)
    if order == "H":
        hessian(other)
    if order == "g":
        g = gradient(x)
        return g, hessian(x)
    h = hessian(x)
    return gradient(x), h


def reduce(big, pts, trail, g, h, ranks, exc):
    if big is None:
        return [], pts, trail, g, h
    if exc:
        return [[], [], []], pts[:1], (1,), g, h
    pick, (g, h), shapes = big.sample([np.asarray(g), np.asarray(h)], ranks)
    return [*shapes, list(big.trail)], [pts[big.index[i]] for i in pick], (len(pick),), g, h


def record_framework(rec, comps, fw, pts, n=1, trail=(1,), dirs=None, tol=10, what="", big=None, twice=False):
    C = pt.batch6(pts, (len(pts),) if big else trail)
    if big:
        C = big.tile(C, 1)

    def run():
        if twice:  # the second evaluation gets the stored arrays of the material
            fw.gradient(C, np.zeros(0))
            fw.hessian(C, np.zeros(0))
        other = C * np.array([1.25, 1.5, 1.125, 1, 1, 1]).reshape(6, *[1] * (C.ndim - 1))
        return in_turn(lambda x: fw.gradient(x, np.zeros(0))[0], lambda x: fw.hessian(x, np.zeros(0)), C, other, len(rec.cases))

    out, exc = call(run)
    g, h = out if not exc else (np.zeros(0), np.zeros(0))
    full, pts, trail, g, h = reduce(big, pts, trail, g, h, (1, 2), exc)
    rec.floor[len(rec.cases) + 1] = magnitude(comps) / 10**4
    rec.add(full=full, lvl="framework", space="deformation", force=1, area=0, fin=1, n=n, en=en.encode(rec, comps), tol=tol + common.SHARPEN,
            pts=pt.encode(rec, pts), trail=list(trail), dirs=[[rec.mat(d[0]), rec.mat(d[1])] for d in dirs],
            g=rec.arr(g), h=rec.arr(h), hess=1, exc=exc, what=what, **({"nocontrol": 1} if tol < 9 else {}))


# ------------------------------------------------------------------ formulations


class Form:
    """A formulation: energy components, factory of a fresh framework, kind of points, denominator n."""

    def __init__(self, name, comps, make, n=1, kind="inv", tol=10):
        self.name, self.comps, self.make, self.n, self.kind, self.tol = name, comps, make, n, kind, tol

    def point(self, P, space, kind="generic", level="space", **kw):
        if self.kind == "inv" and kind == "generic":
            p = P.inv_point()
        elif self.kind == "inv" and kind == "strong":
            p = P.inv_point(strong=True)
        else:
            p = P.stretch_point(self.n, space, kind, **kw)
        if level == "framework":
            p = dict(p)
            if self.kind != "inv" or kind not in ("generic", "strong"):
                p = P.stretch_point(self.n, "deformation", kind, rot=(1, 0, 0, 0), **kw)
            p["F"] = pt.mm(pt.tr(p["F"]), p["F"])
        return p


def _q(x):
    return Q(x).limit_denominator(10**6)


def inv_comp(s=1):
    """Terms in all invariants, all couplings, with offsets and fractional powers."""
    return en.inv(term(s * Q(1, 2), 1, 0, 0, 3, 3), term(s * Q(1, 3), 0, 1, 0, 3, 3), term(s * Q(1, 7), 1, 1, 0, 3, 3),
                  term(s * Q(1, 9), 2, 0, 0, 3, 3), term(s * Q(-1, 11), 0, 2, 0, 3, 3), term(s * Q(1, 5), 0, 0, 2, a3=1),
                  term(s * Q(1, 13), 1, 0, 1, 3, 3, 1), term(s * Q(1, 15), 0, 1, 1, 3, 3, 1),
                  term(s * Q(1, 17), 1, 0, 0, e=-2), ln=s * Q(-3, 8))


def inv_forms(s=1):
    import hyperelastic as h

    f = lambda v: float(s * Q(v))  # noqa: E731
    c = inv_comp(s)
    out = []
    for style in ("none", "zeros", "mixed"):
        out.append(Form("user invariants (%s)" % style, [c],
                        lambda style=style: h.InvariantsFramework(en.UserInvariants(c, style))))
    nh = en.inv(term(s * Q(1, 2), 1, a1=3))
    out.append(Form("Neo-Hooke I1", [nh], lambda: h.InvariantsFramework(en.UserInvariants(nh))))
    vol = en.inv(term(s * Q(5, 2), 0, 0, 2, a3=1))
    out.append(Form("I3 only", [vol], lambda: h.InvariantsFramework(en.UserInvariants(vol))))
    nhv = en.inv(term(s * Q(1, 2), 1, e=-2), term(s * 2, 0, 0, 1), term(s * -4, 0, 0, 0, e=3), term(2 * s))
    out.append(Form("compressible Neo-Hooke", [nhv], lambda: h.InvariantsFramework(en.UserInvariants(nhv))))
    # stress-free undeformed state, no rounding
    free = en.inv(term(s * Q(1, 4), 2, a1=3), term(s * Q(1, 3), 0, 0, 2, a3=1), term(s * Q(1, 2), 0, 2, a2=3))
    out.append(Form("quadratic in the invariants", [free], lambda: h.InvariantsFramework(en.UserInvariants(free))))
    par = dict(C10=s * Q(1, 2), C01=s * Q(1, 5), C11=s * Q(1, 10), C20=s * Q(-1, 20), C30=s * Q(1, 40))
    tod = en.inv(*en.tod_terms(**par))
    out.append(Form("third order deformation", [tod], lambda: h.InvariantsFramework(en.tod_model(**par))))
    mr = dict(C10=s * Q(1, 2), C01=s * Q(1, 5))
    tmr = en.inv(*en.tod_terms(**mr))
    out.append(Form("Mooney-Rivlin", [tmr], lambda: h.InvariantsFramework(en.tod_model(**mr))))
    return out


def torch_forms(s=1):
    import hyperelastic as h

    c = inv_comp(s)

    def make():
        import torch

        torch.set_default_dtype(torch.float64)
        return h.InvariantsFramework(h.models.invariants.TorchModel(en.torch_fun(c)))

    return [Form("torch", [c], make)]


def measure_pool(n=2):
    """(name, library function, kwargs, measure)"""
    import hyperelastic as h

    g = h.models.generalized
    um = en.measure([(Q(3, 4), 3), (Q(-1, 2), -2)], b=Q(-1, 4), ref=(0, 1, 1))
    ud = en.measure([(Q(1, 2), 3), (Q(1, 2), 4)], b=0, ref=(1, 2, 2))
    out = []
    for q in (4, 3, 2, 1, -2, -3):
        out.append(("strain %g" % (q / n), g.strain, {"exponent": q / n}, en.seth_hill(q, n)))
        out.append(("deformation %g" % (q / n), g.deformation, {"exponent": q / n}, en.deformation(q, n)))
    out.append(("user strain", en.user_measure(um, n), {"scale": 2.0}, um))
    out.append(("user deformation", en.user_measure(ud, n), {"exponent": 2}, ud))
    # other values than 0 and 1 at the undeformed state, other reference values
    for name, m in (("user measure A", en.measure([(Q(3, 2), 2), (Q(1, 4), -2)], b=-3, ref=(Q(1, 2), Q(-3, 2), Q(1, 3)))),
                    ("user measure B", en.measure([(Q(5, 4), 3), (Q(1, 3), 1)], b=Q(7, 6), ref=(Q(-2, 3), 2, Q(1, 5))))):
        out.append((name, en.user_measure(m, n), {"k": 2, "exponent": 2.0} if name[-1] == "A" else {}, m))
    return out


def random_measure(r, n):
    """A user measure with arbitrary undeformed and reference values and a regular normalization."""
    while True:
        m = en.measure([(Q(r.choice([-3, -2, -1, 1, 2, 3, 5]), r.choice([1, 2, 3, 4])), q)
                        for q in r.sample([-4, -3, -2, -1, 1, 2, 3, 4, 6], r.choice([1, 2, 2, 3]))],
                       b=Q(r.randrange(-12, 13), 4), ref=[Q(r.randrange(-8, 9), r.choice([1, 2, 3])) for _ in range(3)])
        k = [(t["a"], Q(t["q"], n)) for t in m["t"]]
        e, d, h = sum(a for a, _ in k) + m["b"], sum(a * q for a, q in k), sum(a * q * (q - 1) for a, q in k)
        low1, low2 = h + d, 2 * e * (h + d) - d * d
        if abs(low1) > Q(1, 4) and abs(low2) > Q(1, 4):
            return m


def gen_inner(kind, s=1):
    """Inner energies of generalized invariants: (comp terms, ln)"""
    if kind == "tod":
        return [term(s * Q(1, 2), 1), term(s * Q(1, 5), 0, 1), term(s * Q(1, 10), 1, 1), term(s * Q(-1, 20), 2),
                term(s * Q(1, 40), 3)]
    if kind == "I3":
        return [term(s * Q(1, 2), 0, 0, 2, a3=Q(1, 2)), term(s * Q(1, 3), 0, 0, 1)]
    if kind == "linear":
        return [term(s * Q(1, 2), 1), term(s * Q(-1, 3), 0, 1), term(s * Q(2, 3), 0, 0, 1)]
    return [term(s * Q(1, 2), 1), term(s * Q(1, 3), 0, 1), term(s * Q(1, 7), 1, 1, 0), term(s * Q(1, 9), 2),
            term(s * Q(-1, 11), 0, 2), term(s * Q(1, 5), 0, 0, 2, a3=1), term(s * Q(1, 13), 1, 0, 1),
            term(s * Q(1, 15), 0, 1, 1), term(s * Q(1, 8), 0, 0, 1)]


def gen_form(meas, inner, s=1, n=2, style="none"):
    import hyperelastic as h

    name, fun, kw, m = meas
    comp = en.gen(m, *gen_inner(inner, s))
    if inner == "tod":
        def make():
            inn = en.tod_model(C10=s * Q(1, 2), C01=s * Q(1, 5), C11=s * Q(1, 10), C20=s * Q(-1, 20), C30=s * Q(1, 40),
                               strain=True)
            return h.GeneralizedInvariantsFramework(inn, fun, **kw)
    else:
        def make():
            return h.GeneralizedInvariantsFramework(en.UserInvariants(comp, style), fun, **kw)
    return Form("generalized %s (%s)" % (name, inner), [comp], make, n, "stretch")


def gen_forms(s=1, n=2):
    ms = measure_pool(n)
    return [gen_form(ms[0], "tod", s), gen_form(ms[1], "full", s), gen_form(ms[7], "full", s),
            gen_form(ms[10], "I3", s, style="zeros"), gen_form(ms[12], "full", s), gen_form(ms[13], "linear", s)]


def ogden_forms(s=1):
    import hyperelastic as h

    out = []
    for n, terms in ((1, [(Q(3, 2), 2)]), (2, [(Q(3, 2), 3), (Q(1, 4), -4), (Q(1, 5), 1)]),
                     (1, [(Q(1), 1)]), (1, [(Q(2, 3), 4), (Q(-1, 5), -2)])):
        comp = en.ogden(*[(s * m, q) for m, q in terms])
        out.append(Form("Ogden %s" % [q / n for _, q in terms], [comp],
                        lambda comp=comp, n=n: h.StretchesFramework(en.ogden_model(comp, n)), n, "stretch"))
    return out


def plain(*terms):
    """Measure E(l) = l without normalization."""
    return en.gen(en.measure([(1, 1)], b=0, ref=(0, 1, 1), norm=0), *terms)


def stretch_forms(s=1):
    import hyperelastic as h

    out = []
    for style in ("list", "array"):
        m = en.measure([(Q(1), 3), (Q(1, 2), -2)], b=Q(-1, 2), ref=(0, 1, 1), norm=0)
        comp = en.gen(m, *gen_inner("full", s))
        out.append(Form("user stretches, coupled (%s)" % style, [comp],
                        lambda comp=comp, style=style: h.StretchesFramework(en.UserStretch(comp, 2, style)),
                        2, "stretch"))
    for style in ("none", "zero", "array"):
        comp = plain(term(s * Q(7, 5), 1))
        out.append(Form("linear in the stretches (%s)" % style, [comp],
                        lambda style=style: h.StretchesFramework(en.LinearStretch(float(s * Q(7, 5)), style)),
                        1, "stretch"))
    # derivatives of the pairs only, constant ones as numbers or absent
    for style in ("absent", "numbers"):
        for name, terms in (("pairs", [term(s * Q(3, 5), 0, 1)]), ("product", [term(s * Q(2, 5), 0, 0, 1)]),
                            ("pairs and squares", [term(s * Q(3, 5), 0, 1), term(s * Q(1, 3), 2)])):
            comp = plain(*terms)
            out.append(Form("%s of the stretches (%s)" % (name, style), [comp],
                            lambda comp=comp, style=style: h.StretchesFramework(en.UserStretch(comp, 1, style)), 1, "stretch"))
    # c sum l^2 + d (l1 l2 + ..) = c J1^2 + (d - 2 c) J2
    for c, d in ((Q(1, 2), Q(0)), (Q(1, 2), Q(3, 4))):
        comp = plain(term(s * c, 2), term(s * (d - 2 * c), 0, 1))
        out.append(Form("quadratic in the stretches (d=%s)" % d, [comp],
                        lambda c=c, d=d: h.StretchesFramework(en.QuadStretch(float(s * c), float(s * d))),
                        1, "stretch"))
        for style in ("array", "tuple"):
            out.append(Form("quadratic in the stretches (d=%s, %s)" % (d, style), [comp],
                            lambda c=c, d=d, style=style: h.StretchesFramework(
                                en.QuadStretch(float(s * c), float(s * d), style)), 1, "stretch"))
    return out


def stored_forms():
    """Materials which return the same arrays on every evaluation."""
    import hyperelastic as h

    out = []
    c = inv_comp()
    for style in ("none", "zeros"):
        out.append(Form("user invariants (%s), stored" % style, [c],
                        lambda style=style: h.InvariantsFramework(en.Stored(en.UserInvariants(c, style)))))
    par = dict(C10=Q(1, 2), C01=Q(1, 5), C11=Q(1, 10), C20=Q(-1, 20), C30=Q(1, 40))
    out.append(Form("third order deformation, stored", [en.inv(*en.tod_terms(**par))],
                    lambda: h.InvariantsFramework(en.Stored(en.tod_model(**par)))))
    for style in ("list", "array"):
        m = en.measure([(Q(1), 3), (Q(1, 2), -2)], b=Q(-1, 2), ref=(0, 1, 1), norm=0)
        comp = en.gen(m, *gen_inner("full"))
        out.append(Form("user stretches (%s), stored" % style, [comp],
                        lambda comp=comp, style=style: h.StretchesFramework(en.Stored(en.UserStretch(comp, 2, style))),
                        2, "stretch"))
    og = en.ogden((Q(3, 2), 3), (Q(1, 4), -4))
    out.append(Form("Ogden, stored", [og], lambda: h.StretchesFramework(en.Stored(en.ogden_model(og, 2))), 2, "stretch"))
    for k, m in enumerate(measure_pool()[::5]):
        comp = en.gen(m[3], *gen_inner("full"))
        out.append(Form("generalized %s, stored" % m[0], [comp],
                        lambda comp=comp, m=m, k=k: h.GeneralizedInvariantsFramework(
                            en.Stored(en.UserInvariants(comp, ("none", "zeros")[k % 2])), en.stored(m[1]), **m[2]), 2, "stretch"))
    return out


def all_forms(s=1):
    return inv_forms(s) + torch_forms(s) + stretch_forms(s) + ogden_forms(s) + gen_forms(s)


# ------------------------------------------------------------------ generators

TRAILS = [(), (1,), (2,), (1, 2), (2, 1)]
KINDS = {"inv": ["generic", "strong", "one", "double", "equal"],
         "stretch": ["generic", "strong", "double", "equal", "one"]}
TOL = {"strong": 9, "volume": 8, "nearone": 8, "axes": 8, "bulk": 8}
EXTREME = ["diag", "axes", "bulk", "plane"]


MIXED = [(3,), (4,), (2, 2), (1, 3), (3, 1), (6,)]


def nprod(t):
    return int(np.prod(t, dtype=int))


def batch_of(P, f, space, kind, k, level="space"):
    """Points and shape of a batch; mixed: different kinds of points, one of them undeformed."""
    if kind != "mixed":
        trail = TRAILS[k % len(TRAILS)]
        return [f.point(P, space, kind, level) for _ in range(nprod(trail))], trail
    trail = MIXED[k % len(MIXED)]
    kinds = [P.r.choice(["generic", "generic", "double", "equal", "diag"]) for _ in range(nprod(trail))]
    kinds[P.r.choice([0, 0, -1, P.r.randrange(len(kinds))])] = P.r.choice(["one", "unit"])
    return [f.point(P, space, x, level) for x in kinds], trail


LARGE = [(700,), (1025,), (3, 700), (4097,), (2, 3, 111), (5000,), (1600,), (257, 8)]
TENSOR = [(3, 3), (6, 6), (3, 3, 3, 3), (6, 6, 3), (9,), (1, 3, 3), (3, 6), (3, 3, 1), (6, 3)]  # as many points as components


def large(rec, P, forms, ndirs, space=None, configs=((1, 0, 1),), parallels=(False,), reps=1, tol=8):
    """Large batches of repeated points."""
    k = 0
    for f in forms:
        for force, area, fin in configs:
            for par in parallels:
                for _ in range(2 * reps):
                    trail = LARGE[k // 2 % len(LARGE)] if "torch" not in f.name else [(130,), (3, 70), (257,)][k % 3]
                    if k % 2:
                        trail = TENSOR[k // 2 % len(TENSOR)]
                    k += 1
                    kinds = [P.r.choice(["generic", "generic", "double", "equal", "diag", "one"]) for _ in range(4)]
                    lvl = "space" if space else "framework"
                    pts = [f.point(P, space or "deformation", x, lvl) for x in kinds]
                    big = Large(P.r, pts, trail)
                    what = "%s, large batch %s" % (f.name, trail)
                    if space:
                        record_space(rec, space, f.comps, f.make(), pts, f.n, trail, force, area, fin, par, P.dirs(ndirs), tol,
                                     "%s space, %s, force=%s area=%s finalize=%s parallel=%s" % (
                                         space, what, "None" if force else 0, "None" if area else 0, bool(fin), par), big=big)
                    else:
                        record_framework(rec, f.comps, f.make(), pts, f.n, trail, P.dirs(ndirs), tol, what, big=big)


def c_framework(rec, P, forms, ndirs, kinds=None, tol=None, reps=1, twice=False):
    k = 0
    for f in forms:
        for kind in kinds or KINDS[f.kind]:
            for _ in range(reps):
                pts, trail = batch_of(P, f, "deformation", kind, k, "framework")
                k += 1
                record_framework(rec, f.comps, f.make(), pts, f.n, trail, P.dirs(ndirs), tol or TOL.get(kind, f.tol),
                                 "%s, %s point" % (f.name, kind), twice=twice)


def c_space(rec, P, spaces, forms, ndirs, kinds=None, configs=((1, 0, 1),), reps=1, parallel=False, what="",
            default=False, tol=None, twice=False):
    k = 0
    for space in spaces:
        for f in forms:
            for kind in kinds or KINDS[f.kind]:
                for force, area, fin in configs:
                    for _ in range(reps):
                        pts, trail = batch_of(P, f, space, kind, k)
                        k += 1
                        record_space(rec, space, f.comps, f.make(), pts, f.n, trail, force, area, fin,
                                     parallel, P.dirs(ndirs), tol or TOL.get(kind, f.tol),
                                     "%s space, %s, %s point, force=%s area=%s finalize=%s%s"
                                     % (space, f.name, kind, "None" if force else 0, "None" if area else 0,
                                        bool(fin), what), kwargs_default=default, twice=twice)


def monomials(P, style):
    import hyperelastic as h

    out = []
    for i in range(4):
        for j in range(4 - i):
            for k in range(4 - i - j):
                if i + j + k:
                    c = en.inv(term(Q(P.r.randrange(1, 9), 7), i, j, k, P.r.choice([0, 3]), P.r.choice([0, 3]),
                                    P.r.choice([0, 1])))
                    out.append(Form("I1^%d I2^%d I3^%d (%s)" % (i, j, k, style), [c],
                                    lambda c=c: h.InvariantsFramework(en.UserInvariants(c, style))))
    for e in (1, -2, 3, 5):
        c = en.inv(term(Q(3, 4), 1, 0, 0, e=e), term(Q(2, 3), 0, 0, 0, e=e))
        out.append(Form("I3^(%d/6) (%s)" % (e, style), [c],
                        lambda c=c: h.InvariantsFramework(en.UserInvariants(c, style))))
    return out


def symmetric(r, kind):
    """A structural tensor: a fibre, a pure shear, a sparse or a full one."""
    z = [[Q(0)] * 3 for _ in range(3)]
    if kind == "fibre":
        v = [Q(r.randrange(-4, 5), 3) for _ in range(3)]
        v[r.randrange(3)] = Q(1)
        return [[a * b for b in v] for a in v]
    places = [(i, j) for i in range(3) for j in range(i, 3)]
    picks = {"shear": [r.choice([(0, 1), (1, 2), (0, 2)])], "single": [r.choice(places)], "sparse": r.sample(places, 3)}.get(kind, places)
    for i, j in picks:
        z[i][j] = z[j][i] = Q(r.choice([-3, -2, -1, 1, 2, 3]), r.choice([1, 2, 3]))
    return z


def structural_forms(r, count, s=1):
    """Anisotropic user materials, alone and together with the frameworks; their hessians couple all components."""
    import hyperelastic as h

    out = []
    kinds = ["fibre", "shear", "single", "sparse", "full"]
    for k in range(count):
        pick = [kinds[k % 5], *r.sample(kinds, 2)]
        S = [symmetric(r, x) for x in pick]
        a = [r.choice([Q(0), sum(x[i][i] for i in range(3)), Q(1, 2)]) for x in S]
        c = [s * Q(r.choice([-2, -1, 1, 2, 3]), r.choice([2, 3, 5])) for _ in range(4)]
        form = ["linear", "quadratic", "product", "cubic", "full", "quadratic", "product"][k % 7]
        terms = {"linear": [(c[0], [(S[0], 0, 1)])],
                 "quadratic": [(c[0], [(S[0], a[0], 2)])],
                 "product": [(c[0], [(S[0], a[0], 1), (S[1], a[1], 1)])],
                 "cubic": [(c[0], [(S[0], a[0], 3)]), (c[1], [(S[1], a[1], 1), (S[2], a[2], 2)])],
                 "full": [(c[0], [(S[0], a[0], 2)]), (c[1], [(S[1], a[1], 1)]), (c[2], [(S[0], a[0], 1), (S[1], a[1], 1), (S[2], a[2], 1)]),
                          (c[3], [(S[2], a[2], 4)])]}[form]
        comp = en.structural(*terms)
        style = ("array", "unit")[(k // 2) % 2]
        name = "anisotropic, %s in %s (%s)" % (form, pick, style)
        turn = lambda q, terms=terms: en.structural(*[(c, [(pt.mm(pt.mm(q, A), pt.tr(q)), a, p) for A, a, p in f]) for c, f in terms])  # noqa: E731
        if k % 3 == 2:
            iso = en.inv(term(s * Q(1, 2), 1, e=-2), term(s * 2, 0, 0, 1), term(s * -4, 0, 0, 0, e=3))
            make = lambda comp, style=style, iso=iso: en.SumOf(h.InvariantsFramework(en.UserInvariants(iso)), en.Structural(comp, style))  # noqa: E731
            f = Form(name + " and Neo-Hooke", [comp, iso], lambda comp=comp, make=make: make(comp))
        else:
            make = lambda comp, style=style: en.Structural(comp, style)  # noqa: E731
            f = Form(name, [comp], lambda comp=comp, make=make: make(comp))
        f.rotated = lambda q, turn=turn, make=make: lambda: make(turn(q))
        out.append(f)
    return out


STYLES = ["none", "zeros", "mixed", "gnone", "hnone"]


def check(prop, tier):
    ck = common.Check(prop, tier)
    deep = ck.thorough()
    P = pt.Points(common.SEED * 1000 + int(prop[1:]))
    rec = Recorder()
    nd = 3 if not deep else 6
    reps = 1 if not deep else 4
    if prop == "C10":
        for style in STYLES:
            c_framework(rec, P, monomials(P, style), 2 if not deep else 4,
                        kinds=["generic", "mixed"] if not deep else KINDS["inv"] + ["mixed"])
        c_framework(rec, P, inv_forms(), nd, reps=2 * reps)
        c_framework(rec, P, inv_forms(), nd, kinds=["mixed"], reps=2 * reps)
        c_framework(rec, P, inv_forms(), 1 if not deep else nd, kinds=["volume", "nearone", *EXTREME], reps=reps)
        c_framework(rec, P, [f for f in stored_forms() if f.kind == "inv"], nd, kinds=["generic", "mixed"], reps=reps, twice=True)
        isochoric(rec, P, inv_forms() + torch_forms(), 1, deep)
        large(rec, P, inv_forms() + torch_forms(), 1, reps=reps)
        c_framework(rec, P, shifted_forms(), nd, kinds=["unit", "one", "generic"], reps=reps)
        cuts(rec, P, "inv", nd, deep)
        for mask in range(32):
            par = {c: (Q(2 * k - 3, 7) if mask >> k & 1 else 0)
                   for k, c in enumerate(["C10", "C01", "C11", "C20", "C30"])}
            comp = en.inv(*en.tod_terms(**par))
            import hyperelastic as h

            f = Form("third order deformation %s" % [c for c in par if par[c]], [comp],
                     lambda par=par: h.InvariantsFramework(en.tod_model(**par)))
            c_framework(rec, P, [f], nd, kinds=["generic"])
    elif prop == "C11":
        forms = stretch_forms() + ogden_forms()
        c_framework(rec, P, forms, nd, reps=reps)
        c_framework(rec, P, forms, nd, kinds=["mixed"], reps=2 * reps)
        c_framework(rec, P, forms, 1 if not deep else nd, kinds=["volume", "nearone", *EXTREME], tol=8, reps=reps)
        near(rec, P, forms, ndirs=2 if not deep else 4, deep=deep)
        c_framework(rec, P, [f for f in stored_forms() if f.kind == "stretch" and "gen" not in f.name], nd,
                    kinds=["generic", "mixed"], reps=reps, twice=True)
        isochoric(rec, P, forms, 1, deep)
        large(rec, P, forms, 1, reps=reps)
        c_framework(rec, P, shifted_stretch_forms(), nd, kinds=["unit", "one", "generic", "plane"], reps=reps)
        cuts(rec, P, "stretch", nd, deep)
    elif prop == "C12":
        forms = []
        for k, m in enumerate(measure_pool()):
            for inner in ("full", "I3", "linear", "tod"):
                if inner == "tod" and "strain" not in m[0]:
                    continue
                forms.append(gen_form(m, inner, style=STYLES[k % len(STYLES)]))
        c_framework(rec, P, forms, 2 if not deep else nd,
                    kinds=["generic", "mixed"] if not deep else ["generic", "strong", "double", "equal", "one", "mixed"],
                    reps=reps)
        c_framework(rec, P, forms[::3] if not deep else forms, 1, kinds=["volume", "nearone", *EXTREME], tol=8, reps=reps)
        c_framework(rec, P, [f for f in stored_forms() if "generalized" in f.name], nd, kinds=["generic", "mixed"],
                    reps=reps, twice=True)
        isochoric(rec, P, forms[:: 1 if deep else 3], 1, deep)
        large(rec, P, forms[:: 1 if deep else 4], 1, reps=reps)
        c_framework(rec, P, shifted_forms(measure_pool() if deep else P.r.sample(measure_pool(), 5), P), 1 if not deep else nd,
                    kinds=["unit", "plane", "generic"], reps=reps)
        monos = [(i, j, k) for i in range(4) for j in range(4 - i) for k in range(4 - i - j) if i + j + k]
        for style in ("none", "zeros", "gnone", "hnone"):
            import hyperelastic as h

            ms = measure_pool()
            for x, (i, j, k) in enumerate(monos):
                m = ms[(x + 3 * STYLES.index(style)) % len(ms)]
                comp = en.gen(m[3], term(Q(3, 4), i, j, k, a1=Q(1, 2), a2=Q(1, 3), a3=Q(1, 4)))
                f = Form("generalized %s, J1^%d J2^%d J3^%d (%s)" % (m[0], i, j, k, style), [comp],
                         lambda comp=comp, m=m, style=style: h.GeneralizedInvariantsFramework(
                             en.UserInvariants(comp, style), m[1], **m[2]), 2, "stretch")
                c_framework(rec, P, [f], 1 if not deep else 3, kinds=["generic"])
    elif prop in ("C14", "C15", "C16"):
        space = SPACES[int(prop[1:]) - 14]
        design(ck, space[:3].capitalize(), deep)
        c_space(rec, P, [space], all_forms(), nd, reps=reps)
        c_space(rec, P, [space], all_forms(), nd, kinds=["mixed"], reps=reps)
        c_space(rec, P, [space], all_forms(), nd, kinds=["generic"], default=True, what=" (default arguments)")
        c_space(rec, P, [space], all_forms(), 1 if not deep else 2, kinds=["volume", "nearone", *EXTREME], reps=reps)
        isochoric(rec, P, all_forms(), 1 if not deep else 2, deep, space)
        near(rec, P, stretch_forms()[:2] + gen_forms()[1:3], 1, deep, space)
        sh = shifted_forms() + shifted_stretch_forms() + shifted_forms(P.r.sample(measure_pool(), 2), P)
        c_space(rec, P, [space], sh if deep else P.r.sample(sh, 12), 1 if not deep else nd, kinds=["unit", "plane"], reps=reps)
        cuts(rec, P, "inv", 1, deep, space)
        cuts(rec, P, "stretch", 1, deep, space)
        fs = all_forms()
        stored = [Form(f.name, f.comps, lambda f=f: en.Stored(f.make()), f.n, f.kind, f.tol)
                  for f in (fs if deep else P.r.sample(fs, 6))]
        for par in (False, True):
            c_space(rec, P, [space], stored, nd, kinds=["generic"], reps=reps, twice=True, parallel=par,
                    configs=((1, 0, 1), (1, 1, 1), (0, 0, 1), (1, 0, 0)) if deep else ((1, 0, int(par)),),
                    what=", framework which keeps its results, parallel=%s" % par)
        c_space(rec, P, [space], stored_forms()[:: 1 if deep else 3], nd, kinds=["generic"], reps=reps, twice=True)
        large(rec, P, fs if deep else P.r.sample(fs, 8), 1, space, reps=reps, parallels=(False, True))
        an = structural_forms(P.r, 42 if deep else 21)
        c_space(rec, P, [space], an, nd, kinds=["generic", "strong", "one", "mixed", "bulk"] if deep else ["generic", "mixed"], reps=reps)
        c_space(rec, P, [space], an[::4], nd, kinds=["generic"], reps=reps, parallel=True, what=", parallel")
        large(rec, P, an[::5], 1, space, reps=reps)
    elif prop == "C17":
        configs = [(f, a, z) for f in (0, 1) for a in (0, 1) for z in (0, 1)]
        forms = [inv_forms()[0], inv_forms()[3], inv_forms()[4], inv_forms()[7], ogden_forms()[1], gen_forms()[1],
                 stretch_forms()[2]]
        for par in (False, True):
            c_space(rec, P, SPACES, forms if not deep else all_forms(), 2 if not deep else 4,
                    kinds=["generic"] if not deep else None, configs=configs, parallel=par,
                    what=", parallel" if par else "")
        for k, space in enumerate(SPACES):
            fs = [forms[0], ogden_forms()[1], gen_forms()[1]]
            large(rec, P, fs if deep else [fs[k]], 1, space, configs=configs, parallels=(False, True) if deep else (k % 2 == 0,))
        c_space(rec, P, SPACES, forms[:1] + forms[4:5], 2, kinds=["one", "mixed"], configs=configs)
        for k, f in enumerate(structural_forms(P.r, 21 if deep else 6)):
            c_space(rec, P, SPACES if deep else [SPACES[k % 3]], [f], 2, kinds=["generic"], configs=configs, parallel=k % 4 == 3,
                    what=", parallel" if k % 4 == 3 else "")
        c_space(rec, P, SPACES, forms[:1] + forms[4:6], 1 if not deep else 3, kinds=["diag", "bulk"], configs=configs)
    elif prop == "C22":
        for e in ([-15, -12, -9, -6, -3, 3, 6, 9, 12, 15] if not deep else range(-18, 19, 1)):
            s = Q(10) ** e
            forms = all_forms(s)
            sub = forms if deep else [f for k, f in enumerate(forms) if k % 4 == (e // 3) % 4]
            c_space(rec, P, SPACES, sub, 1, kinds=["generic", "one"], what=" (moduli x 1e%d)" % e)
            c_space(rec, P, SPACES, structural_forms(P.r, 7 if deep else 2, s), 1, kinds=["generic"], what=" (moduli x 1e%d)" % e)
    else:
        raise common.MachineryError("no generator for " + prop)
    ck.detail["domain"] = DOMAIN.get(prop, "")
    ck.validate("TraceSpace", rec, control=("g", "h"))
    if prop == "C12":
        import model_cases

        rel = Recorder()
        model_cases.c12(rel, P, deep)
        ck.validate("TraceModel", rel, control=("h", "g"))
    if prop == "C22":
        import relation_cases

        rel = Recorder()
        relation_cases.c22(rel, P, deep)
        ck.validate("TraceRelation", rel, control=("r",))
    return ck.finish()


def design(ck, space, deep):
    """The closed forms of the design against the definitions, and defective closed forms, which TLC has to refute."""
    for cfg in {"Def": ("DefBad", "DefIso"), "Dis": ("DisBad", "DisProj"), "Dil": ("DilBad",)}[space]:
        if "Invariant Holds is violated" not in common.tlc("MCResponse", "MCResponse%s.cfg" % cfg, workers=2).out:
            raise common.MachineryError("the defective design is not detected by MCResponse" + cfg)
    ck.design("MCResponse", "MCResponse%s%d.cfg" % (space, 3 if deep else 2))


def isochoric(rec, P, forms, ndirs, deep, space=None):
    """Batches of nearly isochoric and nearly undeformed points only, of all orders of magnitude."""
    k = 0
    for f in forms:
        for kind in ("volume", "nearone"):
            for _ in range(3 if not deep else 12):
                g, k = 3 + k % 7, k + 1
                trail = P.r.choice([(), (1,), (2,), (1, 2)])
                lvl = "space" if space else "framework"
                pts = [f.point(P, space or "deformation", kind, lvl, gap=P.r.choice([-1, 1]) * Q(P.r.choice([1, 2, 3, 8]), 10**g)) for _ in range(nprod(trail))]
                tol = f.tol if f.kind == "inv" or kind == "volume" else 8
                what = "%s, %s points with gap 1e-%d" % (f.name, kind, g)
                if space:
                    record_space(rec, space, f.comps, f.make(), pts, f.n, trail, dirs=P.dirs(ndirs), tol=tol,
                                 what=space + " space, " + what)
                else:
                    record_framework(rec, f.comps, f.make(), pts, f.n, trail, P.dirs(ndirs), tol, what)


def shifted(invariants, e0=1, s=1):
    """Energies whose derivatives vanish in part at the undeformed state."""
    a = dict(a1=3 * e0, a2=3 * e0**2, a3=e0**3)
    t = lambda c, *p: term(s * c, *p, **a)  # noqa: E731
    c12, c23, c13 = t(Q(2, 3), 1, 1), t(Q(3, 4), 0, 1, 1), t(Q(-4, 5), 1, 0, 1)
    out = [("couplings", [c12, c23, c13]), ("squares", [t(1, 2), t(Q(1, 2), 0, 2), t(Q(1, 3), 0, 0, 2)]),
           ("I1 and I2 I3", [t(Q(1, 2), 1), c23]), ("I2 and I1 I3", [t(Q(1, 2), 0, 1), c13]), ("I3 and I1 I2", [t(Q(1, 2), 0, 0, 1), c12]),
           ("I1, I2 and I2 I3", [t(Q(1, 2), 1), t(Q(1, 5), 0, 1), c23]), ("I1, I2^2, I3^2", [t(Q(1, 2), 1), t(1, 0, 2), t(2, 0, 0, 2)]),
           ("cubes", [t(1, 3), t(1, 0, 3), t(1, 0, 0, 3), t(1, 1, 1, 1)])]
    return [(n, x) for n, x in out if not invariants or n not in ("cubes",)]


def shifted_forms(gen=None, P=None):
    """Forms in the invariants, the generalized invariants (gen: measures) or the stretches, with styles of absence."""
    import hyperelastic as h

    out = []
    for k, style in enumerate(("pointwise", "none", "zeros")):
        if gen is None:
            for name, terms in shifted(True):
                c = en.inv(*terms)
                out.append(Form("%s, shifted (%s)" % (name, style), [c], lambda c=c, style=style: h.InvariantsFramework(en.UserInvariants(c, style))))
        else:
            for m in gen:
                e0 = sum(t["a"] for t in m[3]["t"]) + m[3]["b"]
                pool = shifted(False, e0)
                for name, terms in pool if style == "pointwise" else P.r.sample(pool, 2):
                    c = en.gen(m[3], *terms)
                    out.append(Form("generalized %s, %s, shifted (%s)" % (m[0], name, style), [c],
                                    lambda c=c, m=m, style=style: h.GeneralizedInvariantsFramework(en.UserInvariants(c, style), m[1], **m[2]),
                                    2, "stretch"))
    return out


def shifted_stretch_forms():
    import hyperelastic as h

    out = []
    for style in ("absent", "numbers", "list", "array"):
        for name, terms in shifted(False)[:: 1 if style == "absent" else 3]:
            c = plain(*terms)
            out.append(Form("stretches, %s, shifted (%s)" % (name, style), [c],
                            lambda c=c, style=style: h.StretchesFramework(en.UserStretch(c, 1, style)), 1, "stretch"))
    return out


def effective(p, space, level):
    """Invariants of the deformation tensor of the space, exact."""
    C = p["F"] if level == "framework" else pt.mm(pt.tr(p["F"]), p["F"])
    if space == "distortional":
        C = pt.scale(1 / p["r"] ** 2, C)
    elif space == "dilatational":
        C = pt.scale(p["r"] ** 2, pt.I3)
    D = pt.mm(C, C)
    i1, i11 = sum(C[i][i] for i in range(3)), sum(D[i][i] for i in range(3))
    det = sum(C[0][i] * (C[1][(i + 1) % 3] * C[2][(i + 2) % 3] - C[1][(i + 2) % 3] * C[2][(i + 1) % 3]) for i in range(3))
    return [i1, (i1 * i1 - i11) / 2, det]


def between(r, values):
    """A threshold in the largest gap, or a random one, or below / above all of the values."""
    v = sorted(set(values))
    mids = [(a + b) / 2 for a, b in zip(v, v[1:])] + [v[0] - Q(1, 2), v[-1] + Q(1, 2)]
    gaps = [b - a for a, b in zip(v, v[1:])]
    if gaps and r.random() < 0.5:
        return mids[max(range(len(gaps)), key=lambda k: gaps[k])].limit_denominator(1000)
    return r.choice(mids).limit_denominator(1000)


def cuts(rec, P, which, ndirs, deep, space=None, reps=1):
    """Piecewise energies, inactive at some points of a batch (or, for some components, at all of them)."""
    import hyperelastic as h

    r, lvl, n = P.r, "space" if space else "framework", 1
    for k in range(reps * (40 if deep else 14)):
        trail = r.choice([(2,), (3,), (4,), (2, 2), (1,), (6,)])
        kinds = [r.choice(["generic", "generic", "diag", "strong", "one", "equal", "double", "bulk"]) for _ in range(nprod(trail))]
        if which == "stretch" and k % 2:  # coinciding stretches on the one side, distinct ones on the other side
            kinds = ["big" if x in ("one", "equal", "double", "bulk") else x for x in kinds]
        proto = Form("", [], None, n, "stretch" if which == "stretch" else "inv")
        pts = [proto.point(P, space or "deformation", x, lvl) for x in kinds]
        if which == "stretch":
            lam = [m**n for p in pts for m in p["mu"]]
            terms = [(Q(r.choice([1, 2, 3]), 2), between(r, lam), r.choice([-1, 1]), r.choice([3, 3, 4])) for _ in range(r.choice([1, 1, 2]))]
            comp, style = en.cut_stretch(*terms), r.choice(["list", "array", "absent", "numbers"])
            make = lambda: h.StretchesFramework(en.CutStretch(comp, style))  # noqa: E731,B023
            what = "piecewise in the stretches %s (%s)" % ([(str(a), s) for _, a, s, _ in terms], style)
        else:
            I = [effective(p, space, lvl) for p in pts]
            terms = [(i, Q(r.choice([1, 2, -3]), 2 * i * i), between(r, [x[i - 1] for x in I]), r.choice([3, 3, 4]))
                     for i in r.sample([1, 2, 3], r.choice([1, 2, 3]))]
            comp, style = en.cut_inv(*terms), r.choice(["pointwise", "none", "zeros", "gnone", "hnone"])
            make = lambda: h.InvariantsFramework(en.CutInvariants(comp, style))  # noqa: E731,B023
            what = "piecewise in the invariants %s (%s)" % ([(i, str(a)) for i, _, a, _ in terms], style)
        what += ", %s points" % kinds
        if space:
            record_space(rec, space, [comp], make(), pts, n, trail, dirs=P.dirs(ndirs), tol=8, what=space + " space, " + what)
        else:
            record_framework(rec, [comp], make(), pts, n, trail, P.dirs(ndirs), 8, what)


def near(rec, P, forms, ndirs, deep, space=None):
    """Nearly equal principal stretches: gaps from 1e-1 down to 1e-14."""
    for f in forms:
        for g in (range(1, 15) if deep or space is None else (2, 5, 7, 9, 12)):
            for kind in ("near", "near3"):
                gap = Q(1, 10**g)
                tol = 10 if g <= 5 else 9 if g == 6 else 8  # a difference quotient loses g digits
                if space is None:
                    p = f.point(P, "deformation", kind, "framework", gap=gap)
                    record_framework(rec, f.comps, f.make(), [p], f.n, (1,), P.dirs(ndirs), tol,
                                     "%s, %s point with gap 1e-%d" % (f.name, kind, g))
                else:
                    p = f.point(P, space, kind, gap=gap)
                    record_space(rec, space, f.comps, f.make(), [p], f.n, (1,), dirs=P.dirs(ndirs), tol=tol,
                                 what="%s space, %s, %s point with gap 1e-%d" % (space, f.name, kind, g))


DOMAIN = {}
