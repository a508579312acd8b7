"""Programs of tensor helper calls on a shared heap (C05)."""

import json
import random
from fractions import Fraction

import numpy as np

import common
from common import Recorder, call
from math_cases import FUN, hm

OBJECTS = ["a", "v", "b", "w", "x", "y", "m", "p", "F"]


def heap0(trail, seed, index=None):
    """Contents of all objects; index: places of a few different points in a large batch."""
    r = random.Random(seed)

    def arr(*s):
        if index is not None:
            lead = s[: len(s) - len(trail)]
            few = np.array([r.randrange(-64, 65) / 16 for _ in range(int(np.prod(lead, dtype=int)) * 4)])
            return few.reshape(*lead, 4)[..., index]
        n = int(np.prod(s, dtype=int))
        return np.array([r.randrange(-64, 65) / 16 for _ in range(n)]).reshape(*s)

    def regular(*t):
        a = arr(6, *t)
        a[:3] += np.array([9.0, -11.0, 13.0]).reshape(3, *[1] * len(t))
        return a

    a = regular(*trail)
    base = np.zeros((6, *[2 * k for k in trail]))
    b = base[(slice(None), *[slice(None, None, 2) for _ in trail])] if trail else np.zeros(6)
    b[...] = regular(*trail)
    w = b[...]
    w.flags.writeable = False
    m = arr(6, 6, *trail)
    ybase = np.full((12, 6, *trail), 3.25)
    y = ybase[::2]
    f = arr(3, 3, *trail)
    f = f + np.swapaxes(f, 0, 1)
    v = a[..., ::-1] if trail else a[:]
    x = np.full((6, *trail), np.nan)
    return {"a": a, "v": v, "b": b, "w": w, "x": x, "y": y, "m": m, "p": np.swapaxes(m, 0, 1), "F": f}


def run_op(op, args, out):
    m = hm()
    kw = {} if out is None else {"out": out}
    if op == "invd":
        return m.inv(args[0], determinant=args[1], **kw)
    if op == "inv":
        return m.inv(args[0], **kw)
    if op in ("dya", "cdya", "cdya_ik", "cdya_il"):
        return getattr(m, op)(*args, **kw)
    if op == "tril":
        return m.tril_from_triu(args[0], **kw)
    if op == "triu":
        return m.triu_from_tril(args[0], **kw)
    if op == "eigh":
        return m.eigh(args[0])[1]
    return FUN[op](m, *args)


class Sampled:
    """Contents of large arrays: compared as a whole, listed at some places."""

    def __init__(self, rec, trail, pick):
        self.con, self.trail, self.pick = Contents(rec), tuple(trail), pick
        self.ids, self.list = {}, self.con.list

    def __call__(self, a):
        if not isinstance(a, np.ndarray):
            return self.con(a)
        key = (a.shape, a.dtype.str, a.tobytes())
        if key not in self.ids:
            lead = a.shape[: a.ndim - len(self.trail)]
            tail = a.shape[len(lead):]
            b = a
            if tail == self.trail:
                b = a.reshape(*lead, -1)[..., self.pick]
            elif tail == (1,) * len(self.trail):
                b = a.reshape(*lead, 1)
            self.list.append(self.con.rec.arr(b))
            self.ids[key] = len(self.list)
        return self.ids[key]


def large(ck, hists, trail, seed):
    """Programs on large batches of a few different points in random order, every call and buffer at least once."""
    r = random.Random(seed)
    half = [r.randrange(4) for _ in range(int(np.prod(trail)))]
    index = np.array(half).reshape(trail)
    index = np.maximum(index, index[..., ::-1])  # the same points in the reversed view
    size = index.size
    todo = {(s["op"], s["out"]) for h in hists for s in h}
    mine = []
    for h in r.sample(hists, len(hists)):
        new = {(s["op"], s["out"]) for s in h} & todo
        if len(new) >= (2 if len(todo) > 8 else 1) or (ck.thorough() and r.random() < 0.02):
            mine.append(h)
            todo -= new
    pick = {0, size - 1, *r.sample(range(size), 2), 1023 % size, 1024 % size, 512 % size, 999 % size, 1000 % size,
            64 * (size // 64) % size, 100 * (size // 100) % size, 256 * (size // 256) % size}
    dev = np.zeros(size)
    flat = index.reshape(-1)
    for h in mine:
        heap = heap0(trail, seed, index)
        for k, s in enumerate(h):
            res, exc = call(lambda: run_op(s["op"], [heap[o] for o in s["args"]], heap[s["out"]] if s["out"] != "-" else None))
            if exc:
                break
            heap["r%d" % (k + 1)] = res
        for v in heap.values():
            v = np.asarray(v)
            if v.shape[v.ndim - len(trail):] == tuple(trail):
                f = np.nan_to_num(v.reshape(-1, size), nan=7e7)
                for b in range(4):
                    at = np.flatnonzero(flat == b)
                    dev[at] = np.maximum(dev[at], np.abs(f[:, at] - np.median(f[:, at], axis=1, keepdims=True)).max(0))
    pick = sorted(pick | set(np.argsort(dev)[-4:].tolist()))
    rec = Recorder()
    con = Sampled(rec, trail, pick)
    init = {o: con(v) for o, v in heap0(trail, seed, index).items()}
    for h in mine:
        replay(h, trail, rec, con, seed, index)
    rec.extra = {"contents": con.list, "init": init, "tol": 11 + common.SHARPEN}
    rec.states = lambda r: sum(1 + len(c["steps"]) for c in r.cases)
    ck.validate("TraceHeap", rec, name="TraceHeap-large", control=lambda r: controls(r, con), heap="12g")


class Contents:
    """Interned array contents (shape, type and bytes)."""

    def __init__(self, rec):
        self.rec, self.ids, self.list = rec, {}, []

    def __call__(self, a):
        try:
            a = np.asarray(a)
            key = (a.shape, a.dtype.str, a.tobytes())
        except Exception:  # noqa: BLE001
            key = repr(a)
        i = self.ids.get(key)
        if i is None:
            self.list.append(self.rec.arr(a))
            i = self.ids[key] = len(self.list)
        return i


def replay(hist, trail, rec, con, seed, index=None):
    heap = heap0(trail, seed, index)
    steps = []
    for k, s in enumerate(hist):
        out = heap[s["out"]] if s["out"] != "-" else None
        res, exc = call(lambda: run_op(s["op"], [heap[o] for o in s["args"]], out))
        if not exc:
            heap["r%d" % (k + 1)] = res
        steps.append({"op": s["op"], "args": s["args"], "out": s["out"], "exc": exc,
                      "snap": {o: con(v) for o, v in heap.items()}})
        if exc:
            break
    rec.add(steps=steps, exc="", what="; ".join("%s(%s%s)" % (
        s["op"], ", ".join(s["args"]), "" if s["out"] == "-" else ", out=" + s["out"]) for s in hist))


def check(prop, tier):
    ck = common.Check(prop, tier)
    # quick: every program at two points, every third one with several trailing axes and without
    plans = [("MathHeap2.cfg", 3)] if not ck.thorough() else [("MathHeap2.cfg", 5), ("MathHeap3.cfg", 1)]
    for cfg, reps in plans:
        hists = ck.generate("MathHeap", cfg)
        ck.detail["programs " + cfg] = len(hists)
        for rep in range(reps):
            trail = [(2,), (2, 2), (), (1, 3), (2, 1, 2)][rep % 5]
            mine = hists if rep == 0 or ck.thorough() else random.Random(common.SEED + rep).sample(hists, len(hists) // [1, 4, 6][rep])
            for part in range(0, len(mine), 60000):
                rec = Recorder()
                con = Contents(rec)
                init = {o: con(v) for o, v in heap0(trail, common.SEED + rep).items()}
                for h in mine[part:part + 60000]:
                    replay(h, trail, rec, con, common.SEED + rep)
                rec.extra = {"contents": con.list, "init": init, "tol": 11 + common.SHARPEN}
                rec.states = lambda r: sum(1 + len(c["steps"]) for c in r.cases)
                ck.validate("TraceHeap", rec, name="TraceHeap%d" % rep,
                            control=lambda r, con=con: controls(r, con), heap="12g")
        if cfg == "MathHeap2.cfg":
            for k, trail in enumerate([(1601,), (9, 170)] if not ck.thorough() else [(1601,), (9, 170), (5003,), (130,), (2, 3, 300)]):
                large(ck, hists, trail, common.SEED + k)
    return ck.finish()


def controls(rec, con):
    """Corrupted copies: an operand changed, a result changed, a buffer changed."""
    out = set()
    good = [c for c in rec.cases if not any(s["exc"] for s in c["steps"])]
    for kind in ("operand", "result", "buffer"):
        found = 0
        for c in good[:: max(1, len(good) // 40)]:
            steps = json.loads(json.dumps(c["steps"]))
            s = steps[-1]
            if kind == "operand":
                name = s["args"][0]
            elif kind == "result":
                name = "r%d" % len(steps)
                if s["op"] == "eigh":
                    continue
            else:
                name = s["out"]
            if name == "-" or (kind == "operand" and name == s["out"]) or s["op"] in ("cdya_ik", "cdya_il"):
                continue
            old = con.list[s["snap"][name] - 1]
            vals = [rec.value(i) for i in old["d"]]
            if any(v is None for v in vals) or not any(vals):
                continue
            m = max(range(len(vals)), key=lambda i: abs(vals[i]))
            con.list.append({"s": old["s"], "d": [rec.num(v * Fraction(11, 10)) if k == m else old["d"][k]
                                                  for k, v in enumerate(vals)]})
            s["snap"][name] = len(con.list)
            out.add(rec.add(steps=steps, exc="", what="corrupted")["id"])
            found += 1
            if found == 3:
                break
    return out
