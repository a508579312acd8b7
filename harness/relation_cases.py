"""Relations between results of the real code: C13, C18, C19 and part of C22."""

from fractions import Fraction as Q

import numpy as np

import common
import energies as en
import points as pt
import space_cases as sc
from common import Recorder, call
from energies import term

CONFIGS = [(f, a, z) for f in (1, 0) for a in (0, 1) for z in (1, 0)]


TURN = [0]


def evaluate(space, fw, F, force=1, area=0, fin=1, parallel=False, reverse=None):
    if reverse is None:  # every third time the elasticity is evaluated before the stress
        TURN[0] += 1
        reverse = TURN[0] % 3 == 0
    umat = sc.space_class(space)(fw, parallel=parallel, finalize=bool(fin), force=None if force else 0,
                                 area=None if area else 0)
    x = [F, np.zeros(0)]
    if reverse:
        h = umat.hessian(x)[0]
        return umat.gradient(x)[0], h
    return umat.gradient(x)[0], umat.hessian(x)[0]


def leads(fin):
    return ([3, 3], [3, 3, 3, 3]) if fin else ([6], [6, 6])


def add(rec, kind, lead, trail, results, exc="", tol=9, ref=1, what="", **kw):
    rec.floor[len(rec.cases) + 1] = Q(ref) / 100
    rec.add(kind=kind, lead=list(lead), trail=list(trail), r=[rec.arr(v) for v in results], exc=exc,
            tol=tol + common.SHARPEN, ref=rec.num(Q(ref)), what=what, **kw)


def conf(space, force, area, fin):
    return "%s space, force=%s area=%s finalize=%s" % (space, "None" if force else 0, "None" if area else 0, bool(fin))


def defgrad(r, kind):
    """A floating point deformation gradient with positive determinant."""
    while True:
        if kind == "identity":
            return np.eye(3)
        if kind == "spherical":
            return np.eye(3) * r.choice([0.8, 1.3])
        if kind == "double":
            a, b = r.choice([(1.2, 0.9), (0.7, 1.5), (1.1, 1.100001)])
            F = np.diag([a, a, b][:: r.choice([1, -1])])
        elif kind == "uniaxial":
            a = r.choice([0.5, 1.7, 2.5])
            F = np.diag([a, a**-0.5, a**-0.5])
        elif kind == "diagonal":
            F = np.diag([r.uniform(0.5, 2), r.uniform(0.5, 2), r.uniform(0.5, 2)])
        elif kind == "shear":  # simple shear in a coordinate plane
            F = np.eye(3)
            i, j = r.sample(range(3), 2)
            F[i, j] = r.choice([-1, 1]) * r.choice([0.5, 1, 2, 0.1])
        elif kind == "turned":  # a rotation by a right angle about an axis, with equal stretches or none
            F = np.roll(np.eye(3), 1, axis=0) * r.choice([1, 1, 1.25])
        elif kind == "plane":  # one principal stretch (or two, or the volume ratio) is exactly one
            a = r.choice([1.25, 0.75, 2.0, 0.5, 1.1])
            F = np.diag(r.sample([1.0, a, r.choice([1 / a, 1.0, 1.3])], 3))
        elif kind == "coincide":  # values of the squared stretches which belong together
            a = r.choice([0.25, 0.36, 0.5, 0.75, 0.3])
            b = r.choice([1 - a, 1 - a, 1 / a, 2 - a, 3 - a, a])
            F = np.diag(r.sample([a**0.5, b**0.5, r.choice([1.5, 1.2, 2 - a if 2 - a != b else 0.9, 1.0]) ** 0.5], 3))
        elif kind == "large":
            F = np.diag([r.uniform(2, 5), r.uniform(0.2, 0.6), r.uniform(0.4, 3)])
        elif kind == "huge":
            F = np.diag(r.sample([r.uniform(8, 15), r.uniform(0.25, 0.5), r.uniform(0.5, 2)], 3))
        elif kind == "close":
            a, g = r.uniform(0.5, 2), 10.0 ** -r.randrange(1, 10)
            F = np.diag(r.sample([a, a * (1 + g), r.choice([a * (1 - g / 2), r.uniform(0.5, 2)])], 3))
        elif kind == "volume":  # nearly isochoric
            a, b = r.uniform(0.6, 1.6), r.uniform(0.6, 1.6)
            F = np.diag([a, b, (1 + r.choice([-1, 0, 1]) * 10.0 ** -r.randrange(3, 10)) / a / b])
        elif kind == "small":
            F = np.eye(3) * 0.3 + np.array([[r.uniform(-0.05, 0.05) for _ in range(3)] for _ in range(3)])
        elif kind == "tiny":  # nearly undeformed
            F = np.eye(3) + 1e-7 * np.array([[r.uniform(-1, 1) for _ in range(3)] for _ in range(3)])
        else:
            F = np.eye(3) + np.array([[r.uniform(-0.5, 0.5) for _ in range(3)] for _ in range(3)])
        if np.linalg.det(F) > 0.02:
            return F


PLAIN = ["diagonal", "shear", "turned", "plane", "coincide"]  # special placements which are not rotated


def place(P, kind):
    """A deformation gradient of this kind, rotated arbitrarily unless it is special."""
    if kind in PLAIN:
        return defgrad(P.r, kind)
    return pt_rot(P) @ defgrad(P.r, kind) @ pt_rot(P)


FKINDS = ["generic", "double", "uniaxial", "identity", "large", "generic", "spherical", "small", "tiny", "volume", "close",
          *PLAIN]


# points of one batch differ in size by orders of magnitude
BKINDS = ["generic", "double", "huge", "close", "uniaxial", "identity", "close", "large", "generic", "close", "spherical", "small", "close",
          "tiny", "volume", *PLAIN]


def stack(Fs, trail):
    return np.moveaxis(np.array(Fs), 0, -1).reshape(3, 3, *trail)


# ------------------------------------------------------------------ C13


def groups():
    """Lists of (name, factory) of one and the same energy; flag: only equal for unit determinant."""
    import hyperelastic as h

    g = h.models.generalized
    fr, ge, st = h.InvariantsFramework, h.GeneralizedInvariantsFramework, h.StretchesFramework
    T = h.models.invariants.TorchModel
    tod = h.models.invariants.ThirdOrderDeformation
    og = h.models.stretches.Ogden
    ui = lambda *t, ln=0: en.UserInvariants(en.inv(*t, ln=ln))  # noqa: E731
    out = []
    c = 0.5
    out.append(("Neo-Hooke", False, [
        ("third order deformation", lambda: fr(tod(C10=c))),
        ("user invariants", lambda: fr(ui(term(Q(1, 2), 1)))),
        ("torch", lambda: fr(T(lambda a, b, d: c * (a - 3)))),
        ("Ogden alpha=2", lambda: st(og(mu=[2 * c], alpha=[2]))),
        ("generalized deformation exponent 2", lambda: ge(tod(C10=c), g.deformation, exponent=2)),
        ("generalized strain exponent 2", lambda: ge(tod(C10=2 * c, strain=True), g.strain, exponent=2)),
        ("generalized deformation, torch", lambda: ge(T(lambda a, b, d: c * (a - 3)), g.deformation, exponent=2)),
        ("user material", lambda: en.Structural(en.structural((Q(1, 2), [(pt.I3, 3, 1)])), "unit")),
        ("stretches", lambda: st(en.QuadStretch(c, 0.0)))]))
    out.append(("power of the first invariant", False, [
        ("third order deformation", lambda: fr(tod(C10=0.5, C20=0.3, C30=0.1))),
        ("user material", lambda: en.Structural(en.structural(*[(x, [(pt.I3, 3, p)]) for x, p in ((Q(1, 2), 1), (Q(3, 10), 2), (Q(1, 10), 3))]))),
        ("user invariants", lambda: fr(ui(term(Q(1, 2), 1, a1=3), term(Q(3, 10), 2, a1=3), term(Q(1, 10), 3, a1=3))))]))
    out.append(("Mooney-Rivlin", False, [
        ("third order deformation", lambda: fr(tod(C10=0.5, C01=0.2))),
        ("generalized deformation exponent 2", lambda: ge(tod(C10=0.5, C01=0.2), g.deformation, exponent=2)),
        # I1 - 3 = 2 J1, I2 - 3 = 4 J2 + 4 J1
        ("generalized strain exponent 2",
         lambda: ge(tod(C10=1.0 + 0.8, C01=0.8, strain=True), g.strain, exponent=2)),
        ("torch", lambda: fr(T(lambda a, b, d, k: 0.5 * (a - 3) + k * (b - 3), k=0.2)))]))
    out.append(("Mooney-Rivlin, isochoric", True, [
        ("third order deformation", lambda: fr(tod(C10=0.5, C01=0.2))),
        ("Ogden alpha=2,-2", lambda: st(og(mu=[1.0, 0.4], alpha=[2, -2]))),
        ("Ogden alpha=-2,2", lambda: st(og(mu=[0.4, 1.0], alpha=[-2, 2])))]))
    par = dict(C10=0.5, C01=0.2, C11=0.1, C20=-0.05, C30=0.02)
    out.append(("third order deformation", False, [
        ("third order deformation", lambda: fr(tod(**par))),
        ("generalized deformation exponent 2", lambda: ge(tod(**par), g.deformation, exponent=2)),
        ("user invariants", lambda: fr(en.UserInvariants(en.inv(*en.tod_terms(
            **{k: Q(str(v)) for k, v in par.items()})), "zeros"))),
        ("torch", lambda: fr(T(lambda a, b, d: 0.5 * (a - 3) + 0.2 * (b - 3) + 0.1 * (a - 3) * (b - 3)
                               - 0.05 * (a - 3) ** 2 + 0.02 * (a - 3) ** 3)))]))
    vol = [term(Q(1, 2), 0, 0, 2, a3=1), term(Q(1, 4), 1, 0, 1), term(Q(1, 5), 0, 1, 1)]
    out.append(("third invariant", False, [
        ("user invariants", lambda: fr(ui(*vol))),
        ("generalized deformation exponent 2", lambda: ge(ui(*vol), g.deformation, exponent=2)),
        ("generalized deformation, torch", lambda: ge(T(en.torch_fun(en.inv(*vol))), g.deformation, exponent=2)),
        ("torch", lambda: fr(T(en.torch_fun(en.inv(*vol))))),
        ("user stretches", lambda: st(en.UserStretch(en.gen(en.measure([(1, 2)], b=0, norm=0), *vol), 1)))]))
    # Saint Venant - Kirchhoff: mu tr(E^2) + lam/2 tr(E)^2 = (mu + lam/2) J1^2 - 2 mu J2, J1 = (I1-3)/2,
    # J2 = (I2 - 2 I1 + 3)/4
    mu, lam = Q(3, 4), Q(1, 2)
    svk = [term(mu + lam / 2, 2), term(-2 * mu, 0, 1)]
    svi = [term((mu + lam / 2) / 4, 2, a1=3), term(-mu / 2, 0, 1), term(mu, 1)]
    out.append(("Saint Venant-Kirchhoff", False, [
        ("generalized strain exponent 2", lambda: ge(ui(*svk), g.strain, exponent=2)),
        ("user invariants", lambda: fr(ui(*svi))),
        ("torch", lambda: fr(T(lambda a, b, d: float((mu + lam / 2) / 4) * (a - 3) ** 2
                               - float(mu / 2) * (b - 2 * a)))),
        ("user stretches", lambda: st(en.UserStretch(en.gen(en.seth_hill(2, 1), *svk), 1, "array")))]))
    out.append(("linear in the stretches", False, [
        ("stretches", lambda: st(en.LinearStretch(0.7))),
        ("stretches, zeros", lambda: st(en.LinearStretch(0.7, "zeros"))),
        ("Ogden alpha=1", lambda: st(og(mu=[0.35], alpha=[1]))),
        ("generalized strain exponent 1", lambda: ge(tod(C10=0.35, strain=True), g.strain, exponent=1)),
        # c1 = J1''ref / J1'' = 6 / 1.5
        ("generalized deformation exponent 1", lambda: ge(tod(C10=0.7 / 4), g.deformation, exponent=1))]))
    out.append(("Ogden alpha=4", False, [
        ("Ogden", lambda: st(og(mu=[4.0], alpha=[4]))),
        ("Ogden in two equal terms", lambda: st(og(mu=[3.0, 1.0], alpha=[4.0, 4.0]))),
        ("user invariants", lambda: fr(ui(term(Q(1, 2), 2), term(-1, 0, 1)))),
        # deformation exponent 4: c1 = 6 / 24
        ("generalized deformation exponent 4", lambda: ge(tod(C10=2.0), g.deformation, exponent=4))]))
    # generalized invariants whose normalization differs from one, with every coupling of the invariants
    for nm, fun, meas, q in (("deformation", g.deformation, en.deformation, 3), ("deformation", g.deformation, en.deformation, -1),
                             ("strain", g.strain, en.seth_hill, 4), ("strain", g.strain, en.seth_hill, -2),
                             ("deformation", g.deformation, en.deformation, 1)):
        a = 0 if nm == "strain" else 3
        ts = [term(Q(1, 2), 1), term(Q(1, 5), 0, 1), term(Q(1, 6), 1, 1, a1=a, a2=a), term(Q(1, 8), 0, 1, 1, a2=a),
              term(Q(1, 9), 1, 0, 1, a1=a), term(Q(1, 7), 0, 2, a2=a), term(Q(1, 4), 0, 0, 2, a3=1), term(Q(1, 3), 2, a1=a)]
        for pick in (ts, [ts[3]], [ts[4], ts[0]], [ts[2], ts[6]], [ts[5]]):
            out.append(("generalized %s exponent %s, %d couplings" % (nm, q, len(pick)), False, [
                ("generalized", lambda p=pick, f=fun, q=q: ge(ui(*p), f, exponent=q)),
                ("generalized, zeros", lambda p=pick, f=fun, q=q: ge(en.UserInvariants(en.inv(*p), "zeros"), f, exponent=q)),
                ("generalized, torch", lambda p=pick, f=fun, q=q: ge(T(en.torch_fun(en.inv(*p))), f, exponent=q)),
                ("user measure", lambda p=pick, m=meas(q, 1): ge(ui(*p), en.user_measure(m, 1))),
                ("user stretches", lambda p=pick, m=meas(q, 1): st(en.UserStretch(en.gen(m, *p), 1)))]))
    return out


def c13(rec, P, deep):
    import torch

    torch.set_default_dtype(torch.float64)
    k = 0
    for name, iso, members in groups():
        for space in ([s for s in sc.SPACES if s != "deformation"] if iso else sc.SPACES):
            if iso and space == "dilatational":
                continue
            for force, area, fin in (CONFIGS if deep else [CONFIGS[0], CONFIGS[1 + k % 7]]):
                for rep in range(4 if deep else 2):
                    k += 1
                    trail = [(4,), (2, 2), (), (1,), (3,)][k % 5]
                    kinds = [FKINDS[(k + m) % len(FKINDS)] for m in range(sc.nprod(trail))]
                    kinds = [x if x not in ("large", "small") else "generic" for x in kinds]
                    F = stack([place(P, x) for x in kinds], trail)
                    gs, hs, exc = [], [], ""
                    parallel, reverse = k % 4 == 3, k % 3 == 2
                    for label, make in members:
                        out, exc = call(lambda make=make: evaluate(space, make(), F, force, area, fin, parallel, reverse))
                        if exc:
                            exc = "%s in %s" % (exc, label)
                            break
                        gs.append(np.broadcast_to(out[0], (*leads(fin)[0], *trail)))
                        hs.append(np.broadcast_to(out[1], (*leads(fin)[1], *trail)))
                    what = "%s, %s, %s" % (name, conf(space, force, area, fin), ",".join(kinds))
                    add(rec, "same", leads(fin)[0], trail, gs, exc, 9, 1, what + ": stress of "
                        + ", ".join(m[0] for m in members))
                    add(rec, "same", leads(fin)[1], trail, hs, exc, 6, 1, what + ": elasticity of "
                        + ", ".join(m[0] for m in members))


def pt_rot(P):
    return np.array([[float(v) for v in r] for r in pt.rotation(P.quat())])


# ------------------------------------------------------------------ C18


ROTKINDS = [x for x in FKINDS if x not in ("large", "small")]


def c18(rec, P, deep):
    import torch

    torch.set_default_dtype(torch.float64)
    k = 0
    for space in sc.SPACES:
        for f in sc.all_forms() + sc.structural_forms(P.r, 14 if deep else 6):
            for rep in range(4 if deep else 2):
                for force, area, fin in (CONFIGS if deep else [CONFIGS[0], CONFIGS[1 + k % 7]]):
                    k += 1
                    trail = [(), (3,), (1,), (2, 2), (1, 1), (4,)][k % 6]
                    kinds = [ROTKINDS[(k + q) % len(ROTKINDS)] for q in range(sc.nprod(trail))]
                    kind = ",".join(kinds)
                    qa, qb = pt.rotation(P.quat()), pt.rotation(P.quat())
                    if k % 5 == 0:
                        qb = pt.I3
                    if k % 5 == 1:
                        qa = pt.I3
                    Qn, Rn = [np.array([[float(v) for v in r] for r in q]) for q in (qa, qb)]
                    Fs = [place(P, x) for x in kinds]
                    F, F1 = stack(Fs, trail), stack([Qn @ x @ Rn.T for x in Fs], trail)
                    kw = dict(parallel=k % 4 == 1, reverse=k % 7 == 3)
                    same = f.make() if k % 3 == 1 else None  # one object for both placements
                    rotated = f.make
                    if "anisotropic" in f.name:  # the structure of the material rotates with the undeformed configuration
                        same, rotated = None, f.rotated(qb)

                    def run():
                        return [evaluate(space, same or make(), x, force, area, fin, **kw) for x, make in ((F, f.make), (F1, rotated))]
                    out, exc = call(run)
                    (g0, h0), (g1, h1) = out if not exc else ((0, 0), (0, 0))
                    what = "%s, %s, %s point" % (conf(space, force, area, fin), f.name, kind)
                    legs = [force, area] if fin else [0, 0]
                    kw = dict(Q=rec.mat(qa), R=rec.mat(qb), legs=legs)
                    what += ", one object" if same else ""
                    add(rec, "rotation", leads(fin)[0], trail, [g0, g1], exc, 9, 1, what + ": rotation of the stress", **kw)
                    add(rec, "rotation", leads(fin)[1], trail, [h0, h1], exc, 6, 1, what + ": rotation of the elasticity",
                        **kw)
                    if (force, area, fin) == CONFIGS[0]:
                        add(rec, "symmetry", [3, 3], trail, [F1, g1, h1], exc, 9, 1, what + ": symmetries",
                            **({} if set(kinds) == {"generic"} else {"nocontrol": 1}))


# ------------------------------------------------------------------ C19

TRAILS = [(), (1,), (5,), (2, 3), (3, 2), (1, 4), (4, 1), (2, 1, 3), (3, 3), (6,), (1, 1, 1), (2, 2, 2), (3,), (2, 1, 1, 2), (1, 2, 1, 1, 2)]
LAYOUTS = ["C", "F", "strided", "transposed", "reversed", "readonly", "broadcast"]


def layout(F, how):
    if how == "F":
        return np.asfortranarray(F)
    if how == "strided":
        big = np.full((6, 3, *[2 * t for t in F.shape[2:]]), 7.0)
        v = big[(slice(None, None, 2), slice(None), *[slice(None, None, 2) for _ in F.shape[2:]])]
        v[...] = F
        return v
    if how == "transposed":
        n = F.ndim
        perm = (*range(2, n), 0, 1)
        a = np.ascontiguousarray(F.transpose(perm))
        return a.transpose(*[perm.index(i) for i in range(n)])
    if how == "reversed":
        return np.ascontiguousarray(F[::-1, ::-1])[::-1, ::-1]
    if how == "readonly":
        a = F.copy()
        a.flags.writeable = False
        return a
    return F


def c19(rec, P, deep):
    import torch

    torch.set_default_dtype(torch.float64)
    k = 0
    for space in sc.SPACES:
        for f in sc.all_forms() + sc.structural_forms(P.r, 14 if deep else 7):
            for rep in range(3 if deep else 1):
                trails = TRAILS if deep else [TRAILS[k % len(TRAILS)], TRAILS[(k + 6) % len(TRAILS)]]
                for trail in trails:
                    k += 1
                    force, area, fin = CONFIGS[0] if k % 3 else CONFIGS[(k // 3) % 8]
                    how = LAYOUTS[k % len(LAYOUTS)]
                    parallel = k % 2 == 0
                    m = sc.nprod(trail)
                    kinds = [P.r.choice(BKINDS) if q else BKINDS[k % len(BKINDS)] for q in range(m)]
                    Fs = [place(P, x) for x in kinds]
                    if how == "broadcast":
                        Fs = [Fs[0]] * m
                        kinds = [kinds[0]] * m
                        F = np.broadcast_to(Fs[0].reshape(3, 3, *[1] * len(trail)), (3, 3, *trail))
                    else:
                        F = layout(stack(Fs, trail), how)
                    single = [(), (1,), (1, 1)][(k // 2) % 3]

                    def run():
                        g, h = evaluate(space, f.make(), F, force, area, fin, parallel)
                        one = [evaluate(space, f.make(), x.reshape(3, 3, *single), force, area, fin) for x in Fs]
                        return g, h, one

                    out, exc = call(run)
                    g, h, one = out if not exc else (0, 0, [])
                    # digits lost at ill-conditioned points
                    loose = [{"huge": 3, "close": 1, "tiny": 1}.get(x, 0) for x in kinds]
                    what = "%s, %s, trailing axes %s, %s layout, parallel=%s" % (conf(space, force, area, fin), f.name,
                                                                                 trail, how, parallel)
                    add(rec, "points", leads(fin)[0], trail, [g, *[o[0] for o in one]], exc, 9, 1, what + ": stress", loose=loose)
                    add(rec, "points", leads(fin)[1], trail, [h, *[o[1] for o in one]], exc, 7, 1,
                        what + ": elasticity", loose=loose)


def c19_empty(rec, P, deep):
    """Batches without points."""
    forms = sc.all_forms()
    k = 0
    for space in sc.SPACES:
        for f in forms:
            for trail in ([(0,), (2, 0), (0, 3), (1, 0, 1)] if deep else [[(0,), (2, 0), (0, 3)][k % 3]]):
                k += 1
                force, area, fin = CONFIGS[0] if k % 3 else CONFIGS[(k // 3) % 8]
                parallel = k % 2 == 0
                out, exc = call(evaluate, space, f.make(), np.zeros((3, 3, *trail)), force, area, fin, parallel)
                for n, lead in enumerate(leads(fin)):
                    add(rec, "points", lead, trail, [out[n] if not exc else 0], exc, 9, 1, nocontrol=1, loose=[],
                        what="%s, %s, no points %s, parallel=%s" % (conf(space, force, area, fin), f.name, trail, parallel))


BAD = {"nan": np.full((3, 3), np.nan), "one nan": np.array([[1, 0, 0], [0, np.nan, 0], [0, 0, 1.0]]), "infinite": np.full((3, 3), np.inf),
       "singular": np.diag([1.0, 2.0, 0.0]), "zero": np.zeros((3, 3)), "mirrored": np.diag([-1.0, 1.1, 0.9]), "turned inside out": -np.eye(3),
       "overflow": np.eye(3) * 1e200, "underflow": np.eye(3) * 1e-200}


def c19_bad(rec, P, deep):
    """One point of a batch is not a deformation: the results of the other points do not change.  Formulations with
    principal stretches raise at such points (numpy's eigenvalue solver), except of mirrored ones."""
    forms = sc.all_forms()
    k = 0
    for space in sc.SPACES:
        for f in forms:
            names = list(BAD) if f.kind == "inv" else ["mirrored", "turned inside out"]
            for name in names if deep else P.r.sample(names, min(len(names), 3 if f.kind == "inv" else 1)):
                k += 1
                trail = [(4,), (2, 2), (1, 3), (3, 1), (6,)][k % 5]
                force, area, fin = CONFIGS[0] if k % 3 else CONFIGS[(k // 3) % 8]
                parallel = k % 2 == 0
                m = sc.nprod(trail)
                Fs = [place(P, P.r.choice(["generic", "double", "uniaxial", "identity", "diagonal", "shear"])) for _ in range(m)]
                at = P.r.choice([0, m - 1, P.r.randrange(m)])
                Fs[at] = BAD[name]
                pick = [i for i in range(m) if i != at]
                lg, lh = leads(fin)
                flat = lambda v, lead: np.broadcast_to(v, (*lead, *trail)).reshape(*lead, m)[..., pick]  # noqa: B023,E731

                def run():
                    with np.errstate(all="ignore"):
                        g, h = evaluate(space, f.make(), stack(Fs, trail), force, area, fin, parallel)
                    ok = all(len(v.shape) == len(x) + len(trail) and all(b in (1, c) for b, c in zip(v.shape[len(x):], trail))
                             for v, x in zip((g, h), (lg, lh)))
                    one = [evaluate(space, f.make(), Fs[i], force, area, fin) for i in pick]
                    return [g.shape, h.shape], flat(g, lg) if ok else None, flat(h, lh) if ok else None, one

                out, exc = call(run)
                shapes, g, h, one = out if not exc else ([(), ()], None, None, [])
                what = "%s, %s, %s point in a batch %s, parallel=%s" % (conf(space, force, area, fin), f.name, name, trail, parallel)
                for lead, full, v, n, tol in ((lg, shapes[0], g, 0, 9), (lh, shapes[1], h, 1, 7)):
                    ok = v is not None
                    add(rec, "sampled", lead, [len(pick)], [v, *[o[n] for o in one]] if ok else [0], exc, tol, 1,
                        what + [": stress", ": elasticity"][n], loose=[0] * len(pick), full=[list(map(int, full)), list(trail)],
                        **({} if ok else {"nocontrol": 1}))


BIG = [(40,), (7, 9), (130,), (3, 100), (1025,), (2, 4, 33), (8, 260), (33, 1), (257,), (5000,)]


def c19_big(rec, P, deep):
    """Large batches: sampled points - the ends, around powers of two, random ones, and those which deviate most from
    an evaluation in small pieces."""
    forms = sc.all_forms()
    k = 0
    for space in sc.SPACES:
        for f in (forms if deep else P.r.sample(forms, 9)):
            for trail in [BIG[(k + 3 * q) % len(BIG)] for q in range(2 if deep else 1)]:
                k += 1
                m = sc.nprod(trail)
                if m > 1100 and "torch" in f.name:
                    continue
                force, area, fin = CONFIGS[0] if k % 3 else CONFIGS[(k // 3) % 8]
                parallel = k % 2 == 0
                kinds = [P.r.choice(BKINDS) for _ in range(m)]
                Fs = [place(P, x) for x in kinds]
                F = layout(stack(Fs, trail), LAYOUTS[k % 6])
                lg, lh = leads(fin)
                flat = lambda v, lead, t, n: np.broadcast_to(v, (*lead, *t)).reshape(*lead, n)  # noqa: E731

                def run():
                    g, h = evaluate(space, f.make(), F, force, area, fin, parallel)
                    shapes = [g.shape, h.shape]
                    pick = {0, m - 1, m // 2, *P.r.sample(range(m), 2)}
                    pick |= {2**i + d for i in range(3, 14) for d in (-1, 0) if 2**i + d < m and i in (3, 6, 8, 10, 12)}
                    fw, dev = f.make(), np.zeros(m)
                    ok = all(len(s) == len(x) + len(trail) and all(b in (1, c) for b, c in zip(s[len(x):], trail))
                             for s, x in zip(shapes, (lg, lh)))
                    if not ok:
                        return shapes, [], None, None, []
                    g, h = flat(g, lg, trail, m), flat(h, lh, trail, m)
                    for i in range(0, m, 13):
                        part = stack(Fs[i : i + 13], (len(Fs[i : i + 13]),))
                        a, b = evaluate(space, fw, part, force, area, fin)
                        q = part.shape[-1]
                        for x, y, lead in ((a, g, lg), (b, h, lh)):
                            d = np.abs(flat(x, lead, (q,), q) - y[..., i : i + q]).reshape(-1, q).max(0)
                            e = np.abs(flat(x, lead, (q,), q)).reshape(-1, q).max(0)
                            with np.errstate(all="ignore"):
                                dev[i : i + q] = np.nan_to_num(np.maximum(dev[i : i + q], d / (1 + e)), nan=1e300)
                    pick |= set(np.argsort(dev)[-2:].tolist())
                    pick |= {i for i in np.argsort(dev)[-40:].tolist() if kinds[i] not in ("huge", "close", "tiny")
                             and dev[i] > 1e-7}
                    pick = sorted(pick)
                    one = [evaluate(space, f.make(), Fs[i], force, area, fin) for i in pick]
                    return shapes, pick, g[..., pick], h[..., pick], one

                out, exc = call(run)
                shapes, pick, g, h, one = out if not exc else ([(), ()], [], 0, 0, [])
                loose = [{"huge": 3, "close": 1, "tiny": 1}.get(kinds[i], 0) for i in pick]
                what = "%s, %s, %d points as trailing axes %s, parallel=%s" % (
                    conf(space, force, area, fin), f.name, m, trail, parallel)
                for lead, full, v, n, tol in ((lg, shapes[0], g, 0, 9), (lh, shapes[1], h, 1, 7)):
                    ok = pick or exc
                    add(rec, "sampled", lead, [len(pick)], [v, *[o[n] for o in one]] if ok else [0], exc, tol, 1,
                        what + [": stress", ": elasticity"][n], loose=loose, full=[list(map(int, full)), list(trail)],
                        **({} if ok else {"nocontrol": 1}))


# ------------------------------------------------------------------ C22: additivity


class SumFramework:
    """A user framework: the sum of two frameworks."""

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.x = a.x

    def gradient(self, C, statevars):
        return self.a.gradient(C, statevars)[0] + self.b.gradient(C, statevars)[0], statevars

    def hessian(self, C, statevars):
        return self.a.hessian(C, statevars) + self.b.hessian(C, statevars)


def c22(rec, P, deep):
    import torch
    import hyperelastic as h

    torch.set_default_dtype(torch.float64)
    k = 0
    for space in sc.SPACES:
        for e1, e2 in ([(0, 0), (-12, 12), (9, -9), (-15, -15), (6, 3)] if not deep else
                       [(a, b) for a in (-15, -9, 0, 6, 12) for b in (-15, -9, 0, 6, 12)]):
            A, B = sc.all_forms(Q(10) ** e1), sc.all_forms(Q(10) ** e2)
            for rep in range(3 if not deep else 6):
                k += 1
                a, b = P.r.choice(A), P.r.choice(B)
                force, area, fin = CONFIGS[k % 8]
                trail = [(2,), (), (1, 2)][k % 3]
                F = stack([pt_rot(P) @ defgrad(P.r, ["generic", "identity", "double"][k % 3]) for _ in
                           range(sc.nprod(trail))], trail)
                full = lambda v, n: np.broadcast_to(v, (*leads(fin)[n], *trail))  # noqa: E731

                def run():
                    u, v = evaluate(space, a.make(), F, force, area, fin), evaluate(space, b.make(), F, force, area, fin)
                    w = evaluate(space, SumFramework(a.make(), b.make()), F, force, area, fin)
                    return [[full(q[n], n) for q in (u, v, w)] for n in (0, 1)]

                out, exc = call(run)
                for n in (0, 1):
                    add(rec, "sum", leads(fin)[n], trail, out[n] if not exc else [0], exc, 7 if n else 9,
                        Q(10) ** max(e1, e2), "%s: sum of %s (x 1e%d) and %s (x 1e%d), %s" % (
                            conf(space, force, area, fin), a.name, e1, b.name, e2, "elasticity" if n else "stress"))
            # additivity within one model: Ogden terms, third-order deformation parameters, torch sums
            s = float(Q(10) ** e1)
            tod, og = h.models.invariants.ThirdOrderDeformation, h.models.stretches.Ogden
            T = h.models.invariants.TorchModel
            for name, parts in [
                ("third order deformation", [h.InvariantsFramework(tod(C10=s, C11=s / 2)),
                                             h.InvariantsFramework(tod(C01=s / 3, C20=s / 5, C30=s / 9)),
                                             h.InvariantsFramework(tod(s, s / 3, s / 2, s / 5, s / 9))]),
                ("Ogden", [h.StretchesFramework(og([s], [1.7])), h.StretchesFramework(og([s / 3, s / 4], [-2.2, 5])),
                           h.StretchesFramework(og([s, s / 3, s / 4], [1.7, -2.2, 5]))]),
                ("generalized third order deformation", [
                    h.GeneralizedInvariantsFramework(tod(strain=True, **kw), h.models.generalized.strain, exponent=1.3)
                    for kw in ({"C10": s}, {"C01": s / 2, "C11": s}, {"C10": s, "C01": s / 2, "C11": s})]),
                ("torch", [h.InvariantsFramework(T(fun)) for fun in (
                    lambda a, b, c, s=s: s * a, lambda a, b, c, s=s: s * b * c,
                    lambda a, b, c, s=s: s * a + s * b * c)]),
            ]:
                trail = (2,)
                F = stack([pt_rot(P) @ defgrad(P.r, "generic"), defgrad(P.r, "uniaxial")], trail)
                out, exc = call(lambda: [evaluate(space, fw, F) for fw in parts])
                for n in (0, 1):
                    res = [np.broadcast_to(o[n], (*leads(1)[n], *trail)) for o in out] if not exc else [0]
                    add(rec, "sum", leads(1)[n], trail, res, exc, 9, Q(s), "%s space, terms of %s (x 1e%d), %s" % (
                        space, name, e1, "elasticity" if n else "stress"))


def check(prop, tier):
    ck = common.Check(prop, tier)
    P = pt.Points(common.SEED * 1000 + int(prop[1:]))
    rec = Recorder()
    {"C13": c13, "C18": c18, "C19": c19}[prop](rec, P, ck.thorough())
    if prop == "C19":
        c19_empty(rec, P, ck.thorough())
        c19_big(rec, P, ck.thorough())
        c19_bad(rec, P, ck.thorough())
    ck.validate("TraceRelation", rec, control=("r",))
    return ck.finish()
