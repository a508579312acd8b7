"""Exact deformations with rational roots (witnesses for the specification)."""

import random
from fractions import Fraction as Q

import numpy as np

I3 = [[Q(int(i == j)) for j in range(3)] for i in range(3)]


def mm(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def tr(A):
    return [[A[j][i] for j in range(3)] for i in range(3)]


def diag(v):
    return [[Q(v[i]) if i == j else Q(0) for j in range(3)] for i in range(3)]


def scale(a, A):
    return [[a * x for x in r] for r in A]


def rotation(q):
    a, b, c, d = [Q(x) for x in q]
    n = a * a + b * b + c * c + d * d
    return [[(a * a + b * b - c * c - d * d) / n, 2 * (b * c - a * d) / n, 2 * (b * d + a * c) / n],
            [2 * (b * c + a * d) / n, (a * a - b * b + c * c - d * d) / n, 2 * (c * d - a * b) / n],
            [2 * (b * d - a * c) / n, 2 * (c * d + a * b) / n, (a * a - b * b - c * c + d * d) / n]]


QUATS = [(1, 0, 0, 0), (1, 1, 0, 0), (1, 1, 1, 1), (2, 1, 0, 1), (1, 2, 3, 4), (3, -1, 2, 5), (0, 1, 1, 0),
         (5, 0, 0, 1), (2, -1, 1, 0), (1, 0, -3, 1)]


AXES = [(1, 0, 0, 0), (1, 1, 0, 0), (1, 1, 1, 1), (0, 1, 1, 0), (0, 0, 1, 0)]


class Points:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def quat(self):
        return self.r.choice(QUATS)

    def unimodular(self, strong=False):
        """Rational F with det F = 1."""
        m = 4 if strong else 10
        s = lambda: Q(self.r.randrange(-8, 9), m)  # noqa: E731
        L = [[Q(1), Q(0), Q(0)], [s(), Q(1), Q(0)], [s(), s(), Q(1)]]
        U = [[Q(1), s(), s()], [Q(0), Q(1), s()], [Q(0), Q(0), Q(1)]]
        x, y = [Q(self.r.choice([7, 8, 9, 11, 12, 13]), 10) for _ in range(2)]
        if strong:
            x, y = x * self.r.choice([Q(1, 2), 1, 2]), y * self.r.choice([Q(1, 2), 1, 2])
        return mm(mm(L, diag([x, y, 1 / (x * y)])), U)

    def inv_point(self, vol=None, strong=False):
        """A point for energies of the invariants: any F, det F = r^3."""
        r = Q(self.r.choice([3, 4, 5, 6, 7, 9]), 5) if vol is None else Q(vol)
        while True:
            A = self.unimodular(strong)
            C = mm(tr(A), A)
            cof = [C[i][i] * C[j][j] - C[i][j] ** 2 for i, j in ((0, 1), (1, 2), (0, 2))]
            if not strong or (max(C[i][i] for i in range(3)) < 10 and max(cof) < 20):  # well-conditioned
                break
        F = scale(r, mm(rotation(self.quat()), A))
        return {"F": F, "r": r, "N": I3, "mu": [Q(1), Q(1), Q(1)]}

    def gap(self):
        return self.r.choice([-1, 1]) * Q(1, 10 ** self.r.choice([3, 4, 5, 6, 6, 7, 8, 9, 10, 12]))

    def xyz(self, kind, gap=None):
        """(x, y, z) with mu = (x^2 y, y^2 z, z^2 x)."""
        pick = lambda: Q(self.r.choice([17, 18, 19, 21, 22, 23]), 20)  # noqa: E731
        if kind == "equal":
            x = pick()
            return x, x, x
        if kind in ("one", "unit"):
            return Q(1), Q(1), Q(1)
        if kind == "plane":  # one or two principal stretches are exactly one
            if self.r.random() < 0.3:
                y = self.r.choice([Q(19, 20), Q(21, 20), Q(11, 10)])
                out = [y**4, y, 1 / y**2]
            else:
                x = pick()
                out = [x, 1 / x**2, x * self.r.choice([Q(9, 10), Q(11, 10), Q(5, 4)])]
            k = self.r.randrange(3)
            return tuple(out[k:] + out[:k])
        if kind == "big":  # two or three equal stretches, larger or smaller than those of the other points
            x = self.r.choice([Q(7, 5), Q(3, 2), Q(13, 20), Q(7, 10)])
            y = self.r.choice([x, x, x * Q(11, 10), x * Q(9, 10)])
            return x, y, x * x / y
        if kind == "iso":  # spherical
            x = self.r.choice([Q(4, 5), Q(6, 5)])
            return x, x, x
        if kind == "double":
            x = pick()
            y = self.r.choice([v for v in [Q(19, 20), Q(21, 20), Q(11, 10), Q(9, 10)] if v != x])
            return x, y, x * x / y
        if kind == "axes":  # extreme stretches
            return tuple(self.r.choice([Q(1, 5), Q(2, 5), Q(3, 4), Q(4, 3), Q(5, 2), Q(5)]) for _ in range(3))
        if kind == "bulk":  # extreme volume
            p, a, b = self.r.choice([Q(1, 5), Q(1, 3), Q(3), Q(5)]), pick(), pick()
            return p * a, p * b, p / (a * b)
        if kind == "near":
            x = pick()
            y = self.r.choice([Q(19, 20), Q(21, 20)])
            return x, y, x * x / y * (1 + gap)
        if kind == "near3":
            x = pick()
            return x, x * (1 + gap), x * (1 - gap / 3)
        if kind in ("volume", "nearone"):  # nearly isochoric, nearly undeformed
            g = self.gap() if gap is None else gap
            if kind == "volume":
                x, y = pick(), pick()
                return x, y, (1 + g) / (x * y)
            a, b, c = self.r.sample([-3, -2, -1, 1, 2, 3], 3)
            return 1 + g * a / 2, 1 + g * b / 2, 1 + g * c / 2
        while True:
            x, y, z = pick(), pick(), pick()
            if kind == "strong":
                x, y = x * self.r.choice([1, Q(3, 4), Q(4, 3)]), y * self.r.choice([1, Q(5, 4), Q(4, 5)])
            mu = (x * x * y, y * y * z, z * z * x)
            if len(set(mu)) == 3 and min(abs(mu[i] - mu[j]) for i in range(3) for j in range(i)) > Q(1, 200):
                return x, y, z

    def stretch_point(self, n, space, kind="generic", gap=None, q=None, rot=None):
        """A point with rational principal stretches l = mu^n and det F = r^3."""
        x, y, z = self.xyz(kind, gap)
        mu = [x * x * y, y * y * z, z * z * x]
        p = x * y * z
        if kind in ("axes", "diag", "plane"):  # aligned with the axes, sometimes permuted
            q = (1, 0, 0, 0) if q is None else q
            rot = self.r.choice(AXES if kind == "axes" else AXES[:1]) if rot is None else rot
        if kind == "unit":  # not deformed, not rotated
            q = rot = AXES[0]
        N = rotation(self.quat() if q is None else q)
        R = rotation(self.quat() if rot is None else rot)
        U = mm(mm(N, diag([m**n for m in mu])), tr(N))
        F = mm(R, U)
        if space == "distortional":
            mu = [m / p for m in mu]
        elif space == "dilatational":
            mu = [p, p, p]
        return {"F": F, "r": p**n, "N": N, "mu": mu}

    def tensor_point(self, n, kind="generic", gap=None, q=None):
        """Framework level: the deformation tensor C itself, with root witness."""
        pt = self.stretch_point(n, "deformation", kind, gap, q, rot=(1, 0, 0, 0))
        pt["F"] = mm(tr(pt["F"]), pt["F"])
        return pt

    def tensor_inv_point(self, vol=None, strong=False):
        pt = self.inv_point(vol, strong)
        pt["F"] = mm(tr(pt["F"]), pt["F"])
        return pt

    def direction(self):
        return [[self.r.choice([-3, -2, -1, 1, 2, 3]) for _ in range(3)] for _ in range(3)]

    def dirs(self, k):
        return [[self.direction(), self.direction()] for _ in range(k)]


def all_dirs():
    e = [[[int((i, j) == (k // 3, k % 3)) for j in range(3)] for i in range(3)] for k in range(9)]
    return [[e[a], e[b]] for a in range(9) for b in range(a, 9)]


def batch(pts, trail):
    """Floating-point array (3, 3, *trail) of the points' F."""
    a = np.array([[[float(p["F"][i][j]) for p in pts] for j in range(3)] for i in range(3)])
    return a.reshape(3, 3, *trail)


def batch6(pts, trail):
    VI, VJ = [0, 1, 2, 0, 1, 0], [0, 1, 2, 1, 2, 2]
    a = np.array([[float(p["F"][VI[k]][VJ[k]]) for p in pts] for k in range(6)])
    return a.reshape(6, *trail)


def encode(rec, pts):
    return [{"F": rec.mat(p["F"]), "N": rec.mat(p["N"]), "mu": rec.mat(p["mu"]), "r": rec.num(p["r"])} for p in pts]
