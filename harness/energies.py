"""Strain energies: the record the specification evaluates, and the user-side objects passed to the library."""

from fractions import Fraction as Q

import numpy as np

import common  # noqa: F401  (sys.path)


def term(c, i=0, j=0, k=0, a1=0, a2=0, a3=0, e=0):
    return {"c": Q(c), "i": i, "j": j, "k": k, "a1": Q(a1), "a2": Q(a2), "a3": Q(a3), "e": e}


def inv(*terms, ln=0):
    return {"k": "inv", "t": list(terms), "ln": Q(ln)}


def ogden(*terms):
    """terms: (mu, q) with alpha = q / n."""
    return {"k": "ogden", "t": [{"mu": Q(m), "q": q} for m, q in terms]}


def gen(measure, *terms, ln=0):
    return {"k": "gen", "m": measure, "t": list(terms), "ln": Q(ln)}


def cut_inv(*terms):
    """terms: (i, c, a, m): c max(I_i - a, 0)^m."""
    return {"k": "cutI", "t": [{"i": i, "c": Q(c), "a": Q(a), "m": m} for i, c, a, m in terms]}


def cut_stretch(*terms):
    """terms: (c, a, s, m): sum over the principal stretches of c max(s (l - a), 0)^m."""
    return {"k": "cutL", "t": [{"c": Q(c), "a": Q(a), "s": s, "m": m} for c, a, s, m in terms]}


def measure(terms, b=0, ref=(0, 1, 1), norm=1):
    """terms: (a, q); E(l) = sum a l^(q/n) + b."""
    return {"t": [{"a": Q(a), "q": q} for a, q in terms], "b": Q(b), "ref": [Q(v) for v in ref], "norm": norm}


def seth_hill(q, n):
    """hyperelastic.models.generalized.strain with exponent q/n."""
    k = Q(q, n)
    return measure([(1 / k, q)], b=-1 / k, ref=(0, 1, 1))


def deformation(q, n):
    """hyperelastic.models.generalized.deformation with exponent q/n."""
    return measure([(1, q)], b=0, ref=(1, 2, 2))


def tod_terms(C10=0, C01=0, C11=0, C20=0, C30=0, strain=False):
    a = 0 if strain else 3
    return [term(C10, 1, 0, a1=a, a2=a), term(C01, 0, 1, a1=a, a2=a), term(C11, 1, 1, a1=a, a2=a),
            term(C20, 2, 0, a1=a, a2=a), term(C30, 3, 0, a1=a, a2=a)]


def encode(rec, en):
    """JSON record of an energy (list of components)."""

    def w(x):
        if isinstance(x, Q):
            return rec.num(x)
        if isinstance(x, dict):
            return {k: w(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [w(v) for v in x]
        return x

    return w(en)


# ------------------------------------------------------------------ user-side models


def _pow(x, n):
    """x^n with first and second derivative."""
    if n == 0:
        return 1.0, 0.0, 0.0
    if n == 1:
        return x, 1.0, 0.0
    return x**n, n * x ** (n - 1), n * (n - 1) * x ** (n - 2)


class UserInvariants:
    """A user model of the three invariants; absent derivatives as chosen by `style`.

    none: None where a derivative vanishes identically; zeros: arrays everywhere;
    scalar: plain numbers for constant derivatives, None for vanishing ones; mixed: numbers and zeros;
    gnone / hnone: None in the gradient and zeros in the hessian / vice versa;
    pointwise: None where a derivative is zero at all points of the batch."""

    PAIRS = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]

    def __init__(self, comp, style="none"):
        self.comp, self.style = comp, style
        self.calls = []

    def _eval(self, I1, I2, I3):
        g = [None, None, None]
        h = {p: None for p in self.PAIRS}

        def add(old, new):
            return new if old is None else old + new

        for t in self.comp["t"]:
            c = float(t["c"])
            if c == 0:
                continue
            u = _pow(I1 - float(t["a1"]), t["i"])
            v = _pow(I2 - float(t["a2"]), t["j"])
            p, q = _pow(I3 - float(t["a3"]), t["k"]), _pow(I3, t["e"] / 6 if t["e"] else 0)
            w = (p[0] * q[0], p[1] * q[0] + p[0] * q[1], p[2] * q[0] + 2 * p[1] * q[1] + p[0] * q[2])
            dep = [t["i"] != 0, t["j"] != 0, t["k"] != 0 or t["e"] != 0]
            f = [u, v, w]
            for a in range(3):
                if dep[a]:
                    x = [0, 0, 0]
                    x[a] = 1
                    g[a] = add(g[a], c * f[0][x[0]] * f[1][x[1]] * f[2][x[2]])
            for a, b in self.PAIRS:
                lin = (t["i"] == 1, t["j"] == 1, t["k"] == 1 and t["e"] == 0)
                if (a == b and dep[a] and not lin[a]) or (a != b and dep[a] and dep[b]):
                    x = [0, 0, 0]
                    x[a] += 1
                    x[b] += 1
                    h[a, b] = add(h[a, b], c * f[0][x[0]] * f[1][x[1]] * f[2][x[2]])
        ln = float(self.comp["ln"])
        if ln:
            g[2] = add(g[2], ln / I3)
            h[2, 2] = add(h[2, 2], -ln / I3**2)
        return g, [h[p] for p in self.PAIRS]

    def _style(self, values, like, which="g"):
        out = []
        style = {"gnone": "none" if which == "g" else "zeros",
                 "hnone": "none" if which == "h" else "zeros"}.get(self.style, self.style)
        for v in values:
            if style == "none":
                out.append(v)
            elif style == "zeros":
                out.append(np.zeros_like(like) if v is None else v + np.zeros_like(like))
            elif style == "mixed":
                out.append(0 if v is None else v)
            elif style == "scalar":
                out.append(v)
            elif style == "pointwise":  # absent where all points have a zero
                out.append(v if v is not None and np.any(v) else None)
        return out

    def gradient(self, I1, I2, I3, statevars):
        g, h = self._eval(I1, I2, I3)
        return (*self._style(g, I1), statevars)

    def hessian(self, I1, I2, I3, statevars):
        g, h = self._eval(I1, I2, I3)
        return self._style(h, I1, "h")


class CutInvariants(UserInvariants):
    """sum of c max(I_i - a, 0)^m, inactive at some points."""

    def _eval(self, *I):
        g, h = [None] * 3, {p: None for p in self.PAIRS}
        for t in self.comp["t"]:
            k, m, c = t["i"] - 1, t["m"], float(t["c"])
            x = np.maximum(I[k] - float(t["a"]), 0)
            g[k] = c * m * x ** (m - 1) + (0 if g[k] is None else g[k])
            h[k, k] = c * m * (m - 1) * x ** (m - 2) + (0 if h[k, k] is None else h[k, k])
        return g, [h[p] for p in self.PAIRS]


class CutStretch:
    """sum of c max(s (l - a), 0)^m over the principal stretches, inactive at some points."""

    def __init__(self, comp, style="list"):
        self.comp, self.style = comp, style

    def _all(self, l):
        g, h = [np.zeros_like(v) for v in l], [np.zeros_like(v) for v in l]
        for t in self.comp["t"]:
            m, c, s = t["m"], float(t["c"]), t["s"]
            for k in range(3):
                x = np.maximum(s * (l[k] - float(t["a"])), 0)
                g[k] = g[k] + c * s * m * x ** (m - 1)
                h[k] = h[k] + c * m * (m - 1) * x ** (m - 2)
        return g, h

    def gradient(self, stretches, statevars):
        g = self._all(stretches)[0]
        return (np.array(g) if self.style == "array" else g), statevars

    def hessian(self, stretches, statevars):
        h = self._all(stretches)[1]
        if self.style == "array":
            return np.array(h + [np.zeros_like(h[0])] * 3)
        if self.style == "absent":
            return [v if np.any(v) else None for v in h] + [None] * 3
        return h + ([0.0] * 3 if self.style == "numbers" else [None] * 3)


class UserStretch:
    """A user model of the principal stretches: terms in the (normalized) invariants of E(l) = sum a l^k + b."""

    def __init__(self, comp, n, style="list"):
        self.comp, self.n, self.style = comp, n, style
        self.inner = UserInvariants({"t": comp["t"], "ln": comp["ln"]}, "none")
        self.c1 = self.c2 = 1.0
        self.E0 = 0.0
        if comp["m"]["norm"]:
            E, D, H = [float(v) for v in self._meas(1.0)]
            E0, D0, H0 = [float(v) for v in comp["m"]["ref"]]
            self.c1, self.E0 = (H0 + D0) / (H + D), E
            self.c2 = (2 * E0 * (H0 + D0) - D0**2) / (2 * E * (H + D) - D**2)

    def _meas(self, s):
        m = self.comp["m"]
        E = sum(float(t["a"]) * s ** (t["q"] / self.n) for t in m["t"]) + float(m["b"])
        D = sum(float(t["a"]) * (t["q"] / self.n) * s ** (t["q"] / self.n - 1) for t in m["t"])
        H = sum(float(t["a"]) * (t["q"] / self.n) * (t["q"] / self.n - 1) * s ** (t["q"] / self.n - 2)
                for t in m["t"])
        return E, D, H

    def _all(self, s):
        E, D, H = self._meas(s)
        c1, c2, E0 = self.c1, self.c2, self.E0
        J = (c1 * (E[0] + E[1] + E[2] - 3 * E0) + 3 * E0,
             c2 * (E[0] * E[1] + E[1] * E[2] + E[2] * E[0] - 3 * E0**2) + 3 * E0**2, E[0] * E[1] * E[2])
        g, h = self.inner._eval(*J)
        zero = np.zeros_like(s[0])
        g = [zero if v is None else v for v in g]
        h = dict(zip(UserInvariants.PAIRS, [zero if v is None else v for v in h]))
        oth = {0: (1, 2), 1: (0, 2), 2: (0, 1)}
        dJ = [[c1 * np.ones_like(s[0]), c2 * (E[oth[a][0]] + E[oth[a][1]]), E[oth[a][0]] * E[oth[a][1]]] for a in range(3)]
        gE = [sum(g[p] * dJ[a][p] for p in range(3)) for a in range(3)]
        G = [gE[a] * D[a] for a in range(3)]
        out = []
        for a, b in UserInvariants.PAIRS:
            v = zero
            for p in range(3):
                for q in range(3):
                    v = v + h[min(p, q), max(p, q)] * dJ[a][p] * dJ[b][q]
            if a != b:
                c = 3 - a - b
                v = v + c2 * g[1] + g[2] * E[c]
            v = v * D[a] * D[b]
            if a == b:
                v = v + gE[a] * H[a]
            out.append(v)
        return G, out

    def gradient(self, stretches, statevars):
        g = self._all(stretches)[0]
        return (np.array(g) if self.style == "array" else g), statevars

    def hessian(self, stretches, statevars):
        h = self._all(stretches)[1]
        if self.style == "absent":  # vanishing derivatives are absent
            return [v if np.any(v) else None for v in h]
        if self.style == "numbers":  # constant derivatives as numbers
            return [float(np.ravel(v)[0]) if np.size(v) and np.all(v == np.ravel(v)[0]) else v for v in h]
        return np.array(h) if self.style == "array" else h


def structural(*terms):
    """Anisotropic energy: terms (c, [(A, a, p), ..]) for c prod (A : C - a)^p with symmetric 3 x 3 tensors A."""
    return {"k": "str", "t": [{"c": Q(c), "f": [{"A": [[Q(v) for v in row] for row in A], "a": Q(a), "p": p} for A, a, p in f]}
                              for c, f in terms]}


class Structural:
    """A user material formulation of an anisotropic energy: derivatives with respect to C in reduced storage.

    array: arrays of the full shape; unit: derivatives which do not depend on C with trailing axes of length one."""

    W = np.array([1.0, 1, 1, 2, 2, 2])

    def __init__(self, comp, style="array"):
        self.comp, self.style = comp, style
        self.x = [np.eye(3), np.zeros(0)]

    def _eval(self, C):
        tail = (1,) * (C.ndim - 1)
        g, h = np.zeros((6, *tail)), np.zeros((6, 6, *tail))
        for t in self.comp["t"]:
            f = []
            for k in t["f"]:
                A = np.array([float(k["A"][i][j]) for i, j in ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2))])
                x = np.tensordot(A * self.W, C, 1) - float(k["a"])
                f.append((A, _pow(x, k["p"])))
            c = float(t["c"])

            def prod(order):
                out = c
                for k, (_, v) in enumerate(f):
                    out = out * v[order.count(k)]
                return out

            for k, (A, _) in enumerate(f):
                g = g + A.reshape(6, *tail) * prod((k,))
                for l, (B, _) in enumerate(f):
                    h = h + A.reshape(6, 1, *tail) * B.reshape(1, 6, *tail) * prod((k, l))
        if self.style == "array":
            g, h = np.broadcast_to(g, C.shape).copy(), np.broadcast_to(h, (6, *C.shape)).copy()
        return g, h

    def gradient(self, C, statevars):
        return self._eval(C)[0], statevars

    def hessian(self, C, statevars):
        return self._eval(C)[1]


class SumOf:
    """The sum of two material formulations."""

    def __init__(self, *parts):
        self.parts = parts
        self.x = [np.eye(3), np.zeros(0)]

    def gradient(self, C, statevars):
        return sum(m.gradient(C, statevars)[0] for m in self.parts), statevars

    def hessian(self, C, statevars):
        return sum(m.hessian(C, statevars) for m in self.parts)


class Stored:
    """A material which keeps its derivatives and returns the same arrays for the same arguments."""

    def __init__(self, inner):
        self.inner, self.memory = inner, {}
        if hasattr(inner, "x"):
            self.x = inner.x

    def _get(self, which, *args):
        key = (which, *[(np.shape(a), np.asarray(a).tobytes()) for a in args if a is not None])
        if key not in self.memory:
            self.memory[key] = getattr(self.inner, which)(*args)
        out = self.memory[key]
        return list(out) if isinstance(out, list) else out

    def gradient(self, *args):
        return self._get("gradient", *args)

    def hessian(self, *args):
        return self._get("hessian", *args)


def stored(measure):
    """The measure with the same arrays for the same stretches."""
    memory = {}

    def fun(stretch, **kw):
        key = (np.shape(stretch), np.asarray(stretch).tobytes())
        if key not in memory:
            memory[key] = measure(stretch, **kw)
        return memory[key]

    return fun


class LinearStretch:
    """W = c (l1 + l2 + l3): constant gradient entries, absent or scalar second derivatives."""

    def __init__(self, c, style="none"):
        self.c, self.style = c, style

    def gradient(self, stretches, statevars):
        return [self.c, self.c, self.c], statevars

    def hessian(self, stretches, statevars):
        return np.zeros(6) if self.style == "array" else [None] * 6 if self.style == "none" else [0.0] * 6


class QuadStretch:
    """W = c (l1^2 + l2^2 + l3^2) + d (l1 l2 + l2 l3 + l1 l3): constant second derivatives as numbers."""

    def __init__(self, c, d, style="none"):
        self.c, self.d, self.style = c, d, style

    def gradient(self, s, statevars):
        return [2 * self.c * s[0] + self.d * (s[1] + s[2]), 2 * self.c * s[1] + self.d * (s[0] + s[2]),
                2 * self.c * s[2] + self.d * (s[0] + s[1])], statevars

    def hessian(self, s, statevars):
        d = None if self.d == 0 and self.style == "none" else self.d
        h = [2 * self.c, 2 * self.c, 2 * self.c, d, d, d]
        return np.array(h) if self.style == "array" else tuple(h) if self.style == "tuple" else h


def user_measure(m, n):
    """A user-defined measure function for the generalized framework."""

    def fun(stretch, scale=1.0, exponent=0, k=0, order=()):
        s = stretch
        E = sum(float(t["a"]) * s ** (t["q"] / n) for t in m["t"]) + float(m["b"])
        D = sum(float(t["a"]) * (t["q"] / n) * s ** (t["q"] / n - 1) for t in m["t"])
        H = sum(float(t["a"]) * (t["q"] / n) * (t["q"] / n - 1) * s ** (t["q"] / n - 2) for t in m["t"])
        return (E, D, H, *[float(v) for v in m["ref"]])

    return fun


def torch_fun(comp):
    def fun(I1, I2, I3, scale=1.0):
        import torch

        out = 0 * I1
        for t in comp["t"]:
            if t["c"] == 0:
                continue
            v = float(t["c"]) * scale
            if t["i"]:
                v = v * (I1 - float(t["a1"])) ** t["i"]
            if t["j"]:
                v = v * (I2 - float(t["a2"])) ** t["j"]
            if t["k"]:
                v = v * (I3 - float(t["a3"])) ** t["k"]
            if t["e"]:
                v = v * I3 ** (t["e"] / 6)
            out = out + v
        if comp["ln"]:
            out = out + float(comp["ln"]) * torch.log(I3)
        return out

    return fun


def tod_model(strain=False, **kw):
    import hyperelastic

    return hyperelastic.models.invariants.ThirdOrderDeformation(**{k: float(v) for k, v in kw.items()}, strain=strain)


def ogden_model(comp, n):
    import hyperelastic

    return hyperelastic.models.stretches.Ogden(mu=[float(t["mu"]) for t in comp["t"]],
                                               alpha=[t["q"] / n for t in comp["t"]])
