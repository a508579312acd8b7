"""Recorded calls of hyperelastic.math (C01-C04)."""

import random

import numpy as np

import common
from common import Recorder, call

VI, VJ = [0, 1, 2, 0, 1, 0], [0, 1, 2, 1, 2, 2]


def hm():
    import hyperelastic.math as m

    return m


FUN = {
    "asvoigt2": lambda m, a, **k: m.asvoigt(a, mode=2),
    "asvoigt4": lambda m, a, **k: m.asvoigt(a, mode=4),
    "astensor2": lambda m, a, **k: m.astensor(a, mode=2),
    "astensor4": lambda m, a, **k: m.astensor(a, mode=4),
    "tril": lambda m, a, n=6, **k: m.tril_from_triu(a, dim=n),
    "triu": lambda m, a, n=6, **k: m.triu_from_tril(a, dim=n),
    "trace": lambda m, a, **k: m.trace(a),
    "det": lambda m, a, **k: m.det(a),
    "eye": lambda m, a, **k: m.eye(a),
    "eye0": lambda m, **k: m.eye(),
    "dev": lambda m, a, **k: m.dev(a),
    "inv": lambda m, a, det=None, **k: m.inv(a) if det is None else m.inv(a, determinant=det),
    "dot": lambda m, a, b, **k: m.dot(a, b),
    "ddot22": lambda m, a, b, **k: m.ddot(a, b),
    "ddot24": lambda m, a, b, **k: m.ddot(a, b, mode=(2, 4)),
    "ddot42": lambda m, a, b, **k: m.ddot(a, b, mode=(4, 2)),
    "ddot44": lambda m, a, b, **k: m.ddot(a, b, mode=(4, 4)),
    "dya": lambda m, a, b, **k: m.dya(a, b),
    "cdya": lambda m, a, b, **k: m.cdya(a, b),
    "cdya_ik": lambda m, a, b, **k: m.cdya_ik(a, b),
    "cdya_il": lambda m, a, b, **k: m.cdya_il(a, b),
    "transpose": lambda m, a, **k: m.transpose(a),
}
RANK = {"asvoigt2": (2,), "asvoigt4": (4,), "astensor2": (1,), "astensor4": (2,), "tril": (2,), "triu": (2,),
        "trace": (1,), "det": (1,), "eye": (1,), "eye0": (), "dev": (1,), "inv": (1,), "dot": (1, 1),
        "ddot22": (1, 1), "ddot24": (1, 2), "ddot42": (2, 1), "ddot44": (2, 2), "dya": (1, 1), "cdya": (1, 1),
        "cdya_ik": (1, 1), "cdya_il": (1, 1), "transpose": (2,)}


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def dyadic(self, lo=-8, hi=8, bits=10):
        """A float with few bits, never zero, generic."""
        while True:
            v = self.r.randrange(int(lo * 2**bits), int(hi * 2**bits)) / 2**bits
            if v:
                return v

    def array(self, shape, **k):
        n = int(np.prod(shape, dtype=int))
        return np.array([self.dyadic(**k) for _ in range(n)], dtype=float).reshape(shape)

    def sym(self, trail):
        return self.array((6, *trail))

    def minor4(self, trail, major=False):
        v = self.array((6, 6, *trail))
        if major:
            v = (v + np.swapaxes(v, 0, 1)) / 2
        a = np.array([[0, 3, 5], [3, 1, 4], [5, 4, 2]])
        return v[a[:, :, None, None], a[None, None, :, :]]


def record(rec, op, args, tol=12, n=6, what="", **kw):
    keep = [np.array(a, copy=True) for a in args]
    out, exc = call(lambda: FUN[op](hm(), *args, n=n, **kw))
    rec.add(op=op, a=[rec.arr(a) for a in keep], out=[rec.arr(out)] if not exc else [], exc=exc, tol=tol + common.SHARPEN if tol else 0, n=n,
            what=what or "%s on arrays of shape %s" % (op, [a.shape for a in args]))


def record_big(rec, op, args, tol=12, n=6, r=None, **kw):
    """A long batch (one trailing axis): the ends, around powers of two and random points are recorded."""
    m = args[0].shape[-1]
    keep = [np.array(a, copy=True) for a in args]
    out, exc = call(lambda: FUN[op](hm(), *args, n=n, **kw))
    pick = sorted({0, m - 1, m // 2, *r.sample(range(m), 6), *[2**i + d for i in range(13) for d in (-1, 0) if 2**i + d < m]})
    last = 1 if op == "eye" else m
    if not exc and (np.ndim(out) == 0 or out.shape[-1] != last):
        out, exc = None, "shape of a batch of %d: %s" % (m, np.shape(out))
    rec.add(op=op, a=[rec.arr(a[..., pick]) for a in keep], out=[rec.arr(out if last == 1 else out[..., pick])] if not exc else [],
            exc=exc, tol=tol + common.SHARPEN if tol else 0, n=n, what="%s on a batch of %d points" % (op, m))


LONG = [33, 100, 257, 1030, 4099]


def long_batches(rec, g, ops, thorough):
    for k, op in enumerate(ops):
        for m in (LONG if thorough else [LONG[k % 3], LONG[3 + k % 2]]):
            exact = op in ("asvoigt2", "asvoigt4", "astensor2", "astensor4", "tril", "triu", "transpose")
            args = []
            for j, rk in enumerate(RANK[op]):
                if op in ("asvoigt2", "asvoigt4"):
                    args.append(g.sym((m,))[IDX] if rk == 2 else g.minor4((m,)))
                elif op == "inv":
                    args.append(g.sym((m,)) + np.array([23.0, -31, 27, 0, 0, 0]).reshape(6, 1))
                else:
                    args.append(g.array((6, m) if rk == 1 else (6, 6, m)))
            record_big(rec, op, args, 0 if exact else 12, r=g.r)


IDX = np.array([[0, 3, 5], [3, 1, 4], [5, 4, 2]])
SPECIAL = {"zero": [0, 0, 0, 0, 0, 0], "identity": [1, 1, 1, 0, 0, 0], "diagonal": [2, -3, 5, 0, 0, 0],
           "shear": [0, 0, 0, 2, 0, 0], "in-plane": [2, 3, 0, 1, 0, 0], "in-plane unit": [2, 3, 1, 0.5, 0, 0],
           "out of plane": [1, 1, 2, 0, 3, 0], "uniform": [1, 1, 1, 1, 1, 1], "deviatoric": [1, 1, -2, 3, 0, 1],
           "negative": [-1, -2, -3, 0.25, -0.5, 0.125], "spherical": [-3, -3, -3, 0, 0, 0]}


def special(rec, g, one, two, four=()):
    """Tensors of a special structure and of any magnitude."""
    names = list(SPECIAL)
    v = {k: np.array(x, dtype=float) for k, x in SPECIAL.items()}
    for op in one:
        for k in names:
            for t in ((), (1,)):
                record(rec, op, [v[k].reshape(6, *t)], what="%s of a %s tensor" % (op, k))
    for op in two:
        for i in names:
            j = g.r.choice(names)
            record(rec, op, [v[i], v[j]], what="%s of a %s and a %s tensor" % (op, i, j))
            record(rec, op, [v[i], g.sym(())], what="%s of a %s tensor and another one" % (op, i))
            record(rec, op, [g.sym(()), v[i]], what="%s of a tensor and a %s tensor" % (op, i))
    for e in (-300, -120, -40, 40, 120, 300):
        x = 2.0**e
        for op in one:
            if op != "det" or abs(e) < 300:
                record(rec, op, [g.sym((2,)) * x], what="%s, magnitude 2^%d" % (op, e))
        for op in two:
            record(rec, op, [g.sym((2,)) * x, g.sym((2,))], what="%s, magnitude 2^%d" % (op, e))
            record(rec, op, [g.sym((2,)), g.sym((2,)) * x], what="%s, magnitude 2^%d" % (op, e))
        for op, ranks in four:
            args = [g.array((6,) * (1 if q == 2 else 2)) for q in ranks]
            record(rec, op, [args[0] * x, args[1]], what="%s, magnitude 2^%d" % (op, e))
            record(rec, op, [args[0], args[1] * x], what="%s, magnitude 2^%d" % (op, e))


def types(rec, g, ops):
    """Operands of integers and of different precisions (where numpy does not refuse to combine them)."""
    def operand(op, rk, kind, trail):
        a = np.array([g.r.choice([-1, 1]) * g.r.randrange(1, 10) for _ in range(6 ** min(rk, 2) * int(np.prod(trail, dtype=int)))])
        a = a.reshape(*(6,) * min(rk, 2), *trail)
        if op in ("asvoigt2", "asvoigt4"):
            a = a[:6][IDX] if op == "asvoigt2" else a[IDX[:, :, None, None], IDX[None, None, :, :]]
        return a.astype(kind) if kind in ("int64", "int32", "int8") else (a / 4).astype(kind)

    for op in ops:
        kinds = ["float64", "float32", "int64", "int32"] + (["int8"] if len(RANK[op]) == 1 and op not in ("det", "trace", "dev") else [])
        for i in kinds:
            for j in kinds if len(RANK[op]) == 2 else kinds[:1]:
                if op in ("inv", "cdya") and (i[0] == "i" or (len(RANK[op]) == 2 and i != j)):
                    continue
                trail = g.r.choice([(), (3,), (2, 2)])
                args = [operand(op, 1 if op == "asvoigt2" else rk if op != "asvoigt4" else 2, k, trail) for rk, k in zip(RANK[op], (i, j))]
                both = (i, j)[:len(args)]
                record(rec, op, args, 5 if all(k == "float32" for k in both) and op in ("inv", "dev") else 12,
                       what="%s of operands of type %s" % (op, ", ".join(both)))


TRAILS = [(), (1,), (4,), (2, 3), (1, 3, 1), (6,), (3,), (3, 3), (6, 3), (0,), (2, 0)]  # also lengths of the tensors themselves
PAIRS = [((), ()), ((1,), (1,)), ((3,), (3,)), ((2, 3), (2, 3)), ((2, 1), (1, 3)), ((1,), (4,)), ((3,), (1,)),
         ((2, 1, 2), (1, 3, 2)), ((2, 3), (1, 1)), ((6,), (6,)), ((6,), (1,)), ((3, 3), (3, 3)), ((6, 3), (1, 3)),
         ((1, 6), (6, 1))]


def basis6():
    return np.eye(6)


def pairs_batch():
    """All ordered pairs of the six basis tensors as one batch of 36 points."""
    e = np.eye(6)
    return np.repeat(e, 6, axis=1), np.tile(e, (1, 6))


def c01(rec, thorough):
    g = Gen(common.SEED)
    reps = 6 if thorough else 1
    types(rec, g, ["asvoigt2", "asvoigt4", "astensor2", "astensor4", "tril", "triu"])
    # a tensor which distinguishes every component: n-th basis tensor at the n-th point
    full2 = np.zeros((3, 3, 6))
    for n in range(6):
        full2[VI[n], VJ[n], n] = full2[VJ[n], VI[n], n] = 1.0
    record(rec, "asvoigt2", [full2], tol=0)
    record(rec, "astensor2", [np.eye(6)], tol=0)
    e66 = np.eye(36).reshape(6, 6, 36)
    a = np.array([[0, 3, 5], [3, 1, 4], [5, 4, 2]])
    record(rec, "astensor4", [e66], tol=0)
    record(rec, "asvoigt4", [e66[a[:, :, None, None], a[None, None, :, :]]], tol=0)
    for _ in range(reps):
        for t in TRAILS:
            v = g.sym(t)
            record(rec, "astensor2", [v], tol=0)
            record(rec, "asvoigt2", [v[a]], tol=0)
            for major in (False, True):
                f = g.minor4(t, major)
                record(rec, "asvoigt4", [f], tol=0)
            record(rec, "astensor4", [g.array((6, 6, *t))], tol=0)
            # chained conversions on the code's own results (lossless)
            m = hm()
            full, exc = call(m.astensor, v)
            if not exc:
                record(rec, "asvoigt2", [np.asarray(full)], tol=0, what="asvoigt of astensor's result")
            v4 = g.array((6, 6, *t))
            full, exc = call(m.astensor, v4, 4)
            if not exc:
                record(rec, "asvoigt4", [np.asarray(full)], tol=0, what="asvoigt of astensor's result (mode 4)")
            for n in (1, 2, 3, 4, 5, 6, 7, 9) if not thorough else (*range(1, 14), 20):
                record(rec, "tril", [g.array((n, n, *t))], tol=0, n=n)
                record(rec, "triu", [g.array((n, n, *t))], tol=0, n=n)
        # non-contiguous inputs and other dtypes
        big = g.array((4, 3, 3, 2))
        big = (big + np.swapaxes(big, 1, 2)) / 2
        record(rec, "asvoigt2", [big.transpose(1, 2, 3, 0)[..., ::-1]], tol=0, what="asvoigt of a strided view")
        record(rec, "astensor2", [np.asfortranarray(g.sym((3, 2)))[:, ::2]], tol=0, what="astensor of a strided view")
        record(rec, "astensor4", [g.array((3, 6, 6)).transpose(1, 2, 0)], tol=0, what="astensor of a transposed view")
        i2 = np.array([[1, 2, 3], [2, 5, 6], [3, 6, 9]])
        record(rec, "asvoigt2", [i2], tol=0, what="asvoigt of integers")
        record(rec, "astensor2", [np.arange(6)], tol=0, what="astensor of integers")
        n = 2**53 + 1
        record(rec, "asvoigt2", [i2 * n], tol=0, what="asvoigt of large integers")
        record(rec, "astensor2", [np.arange(6) + n], tol=0, what="astensor of large integers")
        record(rec, "astensor4", [np.arange(72).reshape(6, 6, 2) - n], tol=0, what="astensor (mode 4) of large integers")
        record(rec, "tril", [np.arange(18).reshape(3, 3, 2) + n], tol=0, n=3, what="tril_from_triu of large integers")
        record(rec, "triu", [np.arange(18).reshape(3, 3, 2) - n], tol=0, n=3, what="triu_from_tril of large integers")
        record(rec, "astensor2", [np.linspace(0, 1, 6).astype(np.float32)], tol=0, what="astensor of single precision")
        record(rec, "asvoigt4", [g.minor4((2,)).astype(np.float32)], tol=0, what="asvoigt of single precision")
        for e in (-1040, -300, 300, 1010):
            record(rec, "asvoigt2", [g.sym((2,))[IDX] * 2.0**e], tol=0, what="asvoigt, magnitude 2^%d" % e)
            record(rec, "asvoigt4", [g.minor4((2,)) * 2.0**e], tol=0, what="asvoigt (mode 4), magnitude 2^%d" % e)
            record(rec, "astensor2", [g.sym((2,)) * 2.0**e], tol=0, what="astensor, magnitude 2^%d" % e)
            record(rec, "astensor4", [g.array((6, 6, 2)) * 2.0**e], tol=0, what="astensor (mode 4), magnitude 2^%d" % e)
    long_batches(rec, g, ["asvoigt2", "asvoigt4", "astensor2", "astensor4", "tril", "triu"], thorough)
    return rec


def c02(rec, thorough):
    g = Gen(common.SEED)
    reps = 8 if thorough else 1
    one = ["trace", "det", "dev", "eye"]
    two = ["dot", "ddot22"]
    ea, eb = pairs_batch()
    for op in two:
        record(rec, op, [ea, eb], what=op + " of all pairs of basis tensors")
        for i in range(6):
            for j in range(6):
                record(rec, op, [np.eye(6)[i], np.eye(6)[j]], what="%s of basis tensors %d, %d" % (op, i, j))
    # cubic polynomial det: all monomials (combinations of three basis tensors with distinct weights)
    import itertools

    special(rec, g, one, two)
    types(rec, g, one + two)
    long_batches(rec, g, one + two + ["inv"], thorough)
    cols = [np.eye(6)[:, i] * 1.0 + np.eye(6)[:, j] * 2.0 + np.eye(6)[:, k] * 4.0
            for i, j, k in itertools.product(range(6), repeat=3)]
    batch = np.array(cols).T
    for op in one:
        record(rec, op, [batch], what=op + " of all sums of three weighted basis tensors")
    record(rec, "eye0", [])
    d = np.array([np.linalg.det(np.array([[c[0], c[3], c[5]], [c[3], c[1], c[4]], [c[5], c[4], c[2]]])) for c in cols])
    reg = batch[:, np.abs(d) > 0.5]
    record(rec, "inv", [reg], what="inv of all regular sums of three weighted basis tensors")
    for _ in range(reps):
        for t in TRAILS:
            for op in one:
                record(rec, op, [g.sym(t)])
            for scale in (1.0, 2.0**-40, 2.0**40):
                a = g.sym(t)
                a[:3] += np.array([11.0, -13.0, 17.0]).reshape(3, *[1] * len(t))  # regular, indefinite
                a = a * scale
                record(rec, "inv", [a], what="inv of %s, scale %g" % (a.shape, scale))
                det, exc = call(hm().det, a)
                if not exc:
                    record(rec, "inv", [a], det=det, what="inv with given determinant, shape %s" % (a.shape,))
        # one determinant for a batch (a number, or broadcastable)
        a = np.repeat(g.sym(()).reshape(6, 1) + np.array([9.0, 8, 7, 0, 0, 0]).reshape(6, 1), 4, axis=1)
        d = np.asarray(hm().det(a[:, 0]))
        record(rec, "inv", [a], det=d.reshape(1), what="inv with broadcast determinant (1,)")
        record(rec, "inv", [a], det=float(d), what="inv with a float determinant")
        # almost singular, badly scaled
        bad = np.array([[1.0, 1.0, 1.0, 1 - 2.0**-12, 0, 0], [1e6, 1e-6, 1.0, 0.5, 1e-4, 10.0]]).T
        record(rec, "inv", [bad], what="inv of nearly singular and badly scaled tensors")
        for ta, tb in PAIRS:
            for op in two:
                record(rec, op, [g.sym(ta), g.sym(tb)])
        a = g.sym((3,))
        for op in two:
            record(rec, op, [a, a], what=op + "(A, A)")
            record(rec, op, [a, a[:, ::-1]], what=op + " of overlapping views")
            record(rec, op, [a, a.copy()], what=op + "(A, A), equal copies")
            record(rec, op, [np.asfortranarray(g.sym((2, 3))), g.sym((2, 3))], what=op + ", Fortran order")
        record(rec, "trace", [np.arange(6)], what="trace of integers")
        record(rec, "det", [np.array([3, 5, 7, 1, 2, -1])], what="det of integers")
    return rec


def c03(rec, thorough):
    g = Gen(common.SEED)
    reps = 6 if thorough else 1
    bi = ["dya", "cdya", "cdya_ik", "cdya_il"]
    special(rec, g, [], bi, [("ddot24", (2, 4)), ("ddot42", (4, 2)), ("ddot44", (4, 4))])
    types(rec, g, bi + ["ddot24", "ddot42", "ddot44", "transpose"])
    long_batches(rec, g, bi + ["ddot24", "ddot42", "ddot44", "transpose"], thorough)
    ea, eb = pairs_batch()
    for op in bi:
        record(rec, op, [ea, eb], what=op + " of all pairs of basis tensors (batch)")
    for i in range(6):
        a = np.eye(6)[i]
        record(rec, "cdya", [a, a], what="cdya(A, A), basis tensor %d" % i)
        for j in range(6):
            record(rec, "cdya", [a, np.eye(6)[j]], what="cdya of basis tensors %d, %d" % (i, j))
            record(rec, "dya", [a, np.eye(6)[j]], what="dya of basis tensors %d, %d" % (i, j))
    # contractions: every basis 4-tensor with every basis 2-tensor: 216 points
    e4 = np.eye(36).reshape(6, 6, 36)
    b2 = np.eye(6)
    p4 = np.repeat(e4, 6, axis=2)
    p2 = np.tile(b2, (1, 36))
    record(rec, "ddot42", [p4, p2], what="ddot 4:2 of all basis tensors")
    record(rec, "ddot24", [p2, p4], what="ddot 2:4 of all basis tensors")
    record(rec, "transpose", [e4], what="transpose of all basis tensors")
    # 4:4: bilinear in 36 x 36; all rows against all columns via generic dense operands
    for k in range(36):
        if thorough or k % 6 == k // 6 or k % 5 == 0:
            record(rec, "ddot44", [np.repeat(e4[:, :, k:k + 1], 36, axis=2), e4],
                   what="ddot 4:4 of basis tensor %d with all basis tensors" % k)
    for _ in range(reps):
        for t in TRAILS:
            record(rec, "transpose", [g.array((6, 6, *t))])
        for ta, tb in PAIRS:
            same = len(ta) == len(tb)
            if same:
                for op in bi:
                    record(rec, op, [g.sym(ta), g.sym(tb)])
            record(rec, "ddot24", [g.sym(ta), g.array((6, 6, *tb))])
            record(rec, "ddot42", [g.array((6, 6, *ta)), g.sym(tb)])
            record(rec, "ddot44", [g.array((6, 6, *ta)), g.array((6, 6, *tb))])
        a = g.sym((3,))
        for op in bi:
            record(rec, op, [a, a], what=op + "(A, A), the same object")
            record(rec, op, [a, a.copy()], what=op + "(A, A), equal copies")
            record(rec, op, [a, a[:, ::-1]], what=op + " of overlapping views")
            record(rec, op, [a, a + 2.0**-20], what=op + " of nearly equal operands")
            record(rec, op, [g.array((2, 6)).T, g.array((2, 6)).T], what=op + " of transposed views")
        for t in TRAILS[: 9 if thorough else 6]:  # the same object, parts of one object
            b = g.array((6, 6, *t))
            record(rec, "ddot44", [b, b], what="ddot 4:4 of a tensor with itself, points %s" % (t,))
            record(rec, "ddot44", [b, b.copy()], what="ddot 4:4 of a tensor with its copy, points %s" % (t,))
            record(rec, "ddot44", [b, np.swapaxes(b, 0, 1)], what="ddot 4:4 of a tensor with its transposed view, points %s" % (t,))
            record(rec, "ddot44", [np.swapaxes(b, 0, 1), b], what="ddot 4:4 of a transposed view with the tensor, points %s" % (t,))
            record(rec, "ddot44", [b, b + np.swapaxes(b, 0, 1)], what="ddot 4:4 with a symmetric tensor, points %s" % (t,))
            record(rec, "ddot24", [b[1], b], what="ddot 2:4 of a row with its tensor, points %s" % (t,))
            record(rec, "ddot42", [b, b[:, 2]], what="ddot 4:2 of a tensor with its column, points %s" % (t,))
            a = g.sym(t)
            for op in bi:
                record(rec, op, [a, a], what="%s(A, A), the same object, points %s" % (op, t))
    return rec


def rot(q):
    a, b, c, d = q
    n = a * a + b * b + c * c + d * d
    return np.array([
        [a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)],
        [2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)],
        [2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d]]) / n


QUATS = [(1, 0, 0, 0), (1, 1, 0, 0), (1, 1, 1, 1), (2, 1, 0, 1), (1, 2, 3, 4), (3, -1, 2, 5), (0, 1, 1, 0), (5, 0, 0, 1)]
FUNS = {"none": None, "sqrt": np.sqrt, "cbrt": np.cbrt, "neg": np.negative, "affine": lambda x: 2 * x + 1,
        "recip": lambda x: 1 / x}


def c04(rec, thorough):
    g = Gen(common.SEED)
    eigs = [(1, 2, 3), (3, 1, 2), (2, 2, 5), (5, 2, 2), (2, 5, 2), (4, 4, 4), (1, 1, 1), (1e-6, 1, 1e6),
            (-1, 2, 0), (-3, -3, 7), (0, 0, 0), (0, 0, 1), (1, 1 + 1e-8, 2), (1, 1 + 1e-13, 1 - 1e-13), (1e-9, 2e-9, 5e-9)]
    quats = QUATS if thorough else QUATS[:5]

    def v(m):
        return np.array([m[VI[k], VJ[k]] for k in range(6)])

    def run(a, fun, what):
        keep = a.copy()
        out, exc = call(lambda: hm().eigh(a) if fun == "none" else hm().eigh(a, fun=FUNS[fun]))
        o = []
        if not exc:
            try:
                o = [rec.arr(out[0]), rec.arr(out[1])]
            except Exception as e:  # noqa: BLE001
                exc = type(e).__name__
        rec.add(op="eigh", a=[rec.arr(keep)], out=o, exc=exc, tol=10 + common.SHARPEN, n=0, fun=fun, what=what)

    pool = []
    for e in eigs:
        for q in quats:
            r = rot(q)
            m = v(r @ np.diag(e) @ r.T)
            pool.append((e, m))
            run(m, "none", "eigh of a single tensor with eigenvalues %s, rotation %s" % (e, q))
            if min(e) > 0:
                run(m, g.r.choice(["sqrt", "recip"]), "eigh with fun, eigenvalues %s, rotation %s" % (e, q))
            run(m, g.r.choice(["cbrt", "neg", "affine"]), "eigh with fun, eigenvalues %s" % (e,))
    for k in range(1, 16):  # close eigenvalues
        x = 10.0**-k
        for e in ((1, 1 + x, 2), (3, 1, 1 - x), (1, 1 + x, 1 - x / 2)):
            q = g.r.choice(QUATS)
            m = v(rot(q) @ np.diag(e) @ rot(q).T)
            run(m, g.r.choice(["none", "sqrt", "recip"]), "eigh of a tensor with eigenvalues %s, rotation %s" % (e, q))
    for e in (-200, -60, -20, 20, 60, 200):  # any magnitude
        for k in range(4 if thorough else 2):
            a = np.array([g.r.choice(pool)[1] for _ in range(4)]).T * 2.0**e
            run(a, g.r.choice(["none", "neg"]), "eigh of tensors of magnitude 2^%d" % e)
            a = np.array([g.r.choice([m for x, m in pool if min(x) > 1e-3]) for _ in range(3)]).T * 2.0**e
            run(a, "cbrt" if e % 40 else "sqrt", "eigh with fun of tensors of magnitude 2^%d" % e)
    for k in SPECIAL:
        run(np.array(SPECIAL[k], dtype=float), g.r.choice(["none", "neg", "cbrt"]), "eigh of a %s tensor" % k)
        if all(x == int(x) for x in SPECIAL[k]):
            run(np.array(SPECIAL[k], dtype="int64"), g.r.choice(["none", "neg", "cbrt", "affine"]), "eigh of a %s tensor of integers" % k)
    for n in (LONG if thorough else [g.r.choice(LONG[:3]), g.r.choice(LONG[3:])]):  # long batches
        a = np.array([g.r.choice(pool)[1] if g.r.random() < 0.3 else g.sym(()) for _ in range(n)]).T
        fun = g.r.choice(["none", "affine", "neg"])
        out, exc = call(lambda: hm().eigh(a) if fun == "none" else hm().eigh(a, fun=FUNS[fun]))
        pick = sorted({0, n - 1, n // 2, *g.r.sample(range(n), 8), *[2**i + d for i in range(13) for d in (-1, 0)
                                                                     if 2**i + d < n]})
        o = []
        if not exc:
            if np.shape(out[0]) != (3, n) or np.shape(out[1]) != (3, 6, n):
                exc = "shape of a batch of %d" % n
            else:
                o = [rec.arr(out[0][..., pick]), rec.arr(out[1][..., pick])]
        rec.add(op="eigh", a=[rec.arr(a[..., pick])], out=o, exc=exc, tol=10 + common.SHARPEN, n=0, fun=fun,
                what="eigh (%s) of a batch of %d points" % (fun, n))
    pos = [m for e, m in pool if min(e) > 0]
    allm = [m for e, m in pool]
    for shape in [(1,), (5,), (2, 3), (3, 2), (1, 4), (2, 1, 3), (6,), (3,), (3, 3), (6, 6)]:
        for rep in range(4 if thorough else 1):
            n = int(np.prod(shape))
            a = np.array([g.r.choice(allm) for _ in range(n)]).T.reshape(6, *shape)
            run(a, "none", "eigh of a mixed batch %s" % (shape,))
            a = np.array([g.r.choice(pos) for _ in range(n)]).T.reshape(6, *shape)
            run(a, "sqrt", "eigh of a mixed batch %s with sqrt" % (shape,))
            a = np.array([g.r.choice(allm) for _ in range(n)]).T.reshape(6, *shape)
            run(a, "affine", "eigh of a mixed batch %s with affine" % (shape,))
    return rec


def check(prop, tier):
    ck = common.Check(prop, tier)
    ck.design("MCBigRat")
    if prop != "C04":
        ck.design("MCVoigt")
    rec = Recorder()
    {"C01": c01, "C02": c02, "C03": c03, "C04": c04}[prop](rec, ck.thorough())
    ck.detail["operations"] = {op: sum(c["op"] == op for c in rec.cases) for op in sorted({c["op"] for c in rec.cases})}
    ck.validate("TraceMath", rec, control=("out",))
    return ck.finish()
