"""Shared machinery: exact recording of numbers and arrays, running TLC, evidence files."""

import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar"
COMMUNITY = "/opt/veriftools/tla/CommunityModules-deps.jar"
SHARPEN = int(os.environ.get("VERIF_SHARPEN", "0"))  # only for measuring the margin of the tolerances
SEED = int(os.environ.get("VERIF_SEED", "1"))

sys.path.insert(0, os.path.join(REPO, "src"))
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True


class MachineryError(Exception):
    pass


# --------------------------------------------------------------------------- numbers


def _limbs(n):
    s = (n > 0) - (n < 0)
    n = abs(n)
    out = [s]
    while n:
        out.append(n & 16383)
        n >>= 14
    return out


class Recorder:
    """A trace document: table of exact numbers, cases."""

    def __init__(self):
        self.index = {}
        self.tab = []
        self.cases = []
        self.floor = {}  # id -> magnitude below which results are rounding errors
        self.extra = {}  # further fields of the document
        self.states = None  # expected number of distinct states, if not two per case

    def num(self, x):
        """1-based table index of the exact value of x (int, Fraction, float)."""
        if isinstance(x, (int, Fraction)):
            key = Fraction(x)
        else:
            x = x.item() if hasattr(x, "item") else x
            if isinstance(x, complex):
                key = "nan"
            elif isinstance(x, bool):
                key = Fraction(int(x))
            elif isinstance(x, int):
                key = Fraction(x)
            else:
                x = float(x)
                key = Fraction(x) if x == x and x not in (float("inf"), float("-inf")) else "nan"
        i = self.index.get(key)
        if i is None:
            if key == "nan":
                self.tab.append([[2], [1, 1]])
            else:
                self.tab.append([_limbs(key.numerator), _limbs(key.denominator)])
            i = self.index[key] = len(self.tab)
        return i

    def value(self, i):
        n, d = self.tab[i - 1]
        if n[0] == 2:
            return None
        f = lambda l: l[0] * sum(x << (14 * k) for k, x in enumerate(l[1:]))  # noqa: E731
        return Fraction(f(n), f(d))

    def arr(self, a):
        import numpy as np

        if isinstance(a, (list, tuple)) and a and isinstance(a[0], Fraction):
            return {"s": [len(a)], "d": [self.num(v) for v in a]}
        try:
            a = np.asarray(a)
            if a.dtype == object:
                return {"s": [-1], "d": []}
            flat = a.ravel(order="C").tolist()
        except Exception:
            return {"s": [-1], "d": []}
        return {"s": list(a.shape), "d": [self.num(v) for v in flat]}

    def mat(self, m):
        """A nested list of exact numbers."""
        if isinstance(m, (list, tuple)):
            return [self.mat(v) for v in m]
        return self.num(m)

    def add(self, **case):
        case["id"] = len(self.cases) + 1
        self.cases.append(case)
        return case

    def write(self, path):
        with open(path, "w") as f:
            json.dump({"tab": self.tab, "cases": self.cases, **self.extra}, f, separators=(",", ":"))


# --------------------------------------------------------------------------- TLC


def classes():
    """Directory with the compiled module override (compiled on demand)."""
    src = os.path.join(SPEC, "java", "RatOverrides.java")
    for base in (os.path.join(VERIF, "build"),):
        out = os.path.join(base, "classes")
        stamp = os.path.join(out, "stamp")
        text = open(src).read()
        try:
            if os.path.exists(stamp) and open(stamp).read() == text:
                return out
        except OSError:
            pass
    os.makedirs(out, exist_ok=True)
    p = subprocess.run(["javac", "-cp", TLA, "-d", out, src], capture_output=True, text=True)
    if p.returncode:
        raise MachineryError("javac: " + p.stderr)
    with open(stamp, "w") as f:
        f.write(text)
    return out


class Tlc:
    """The outcome of one TLC run."""

    def __init__(self, module, out, rc, wall):
        self.module, self.out, self.rc, self.wall = module, out, rc, wall
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.transitions = int(m.group(1)) if m else 0
        self.states = int(m.group(2)) if m else 0
        self.bad = re.findall(r'<<\s*"BAD",\s*(\d+),\s*"([^"]*)"', out)
        self.error = "Error:" in out or rc != 0


def tlc(module, cfg=None, env=None, workers=8, timeout=800, extra=(), heap="4g"):
    meta = tempfile.mkdtemp(prefix="tlc-")
    t0 = time.time()
    cmd = [
        "java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss32m",
        "-Djava.io.tmpdir=" + meta,
        "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:RatOverrides",
        "-cp", classes() + ":" + TLA + ":" + COMMUNITY, "tlc2.TLC",
        "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
        "-config", cfg or module + ".cfg", *extra, module + ".tla",
    ]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        return Tlc(module, p.stdout, p.returncode, time.time() - t0)
    except subprocess.TimeoutExpired as ex:
        raise MachineryError("TLC timeout: " + module) from ex
    finally:
        shutil.rmtree(meta, ignore_errors=True)


# --------------------------------------------------------------------------- check


class Check:
    """Collects model-checking runs and validated traces of one property."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.runs = []
        self.violations = []
        self.detail = {}
        base = os.path.join(VERIF, "build", "traces")
        os.makedirs(base, exist_ok=True)
        self.dir = base

    def thorough(self):
        return self.tier == "thorough"

    def design(self, module, cfg=None, **kw):
        """Model-check a module of the specification; a failure here is a broken machinery."""
        r = tlc(module, cfg, **kw)
        if r.rc != 0 or "No error has been found" not in r.out:
            raise MachineryError("design check %s failed:\n%s" % (cfg or module, r.out[-4000:]))
        self.states += r.states
        self.transitions += r.transitions
        self.runs.append({"module": module, "cfg": os.path.basename(cfg or module + ".cfg"), "kind": "design",
                          "states": r.states, "transitions": r.transitions, "wall_s": round(r.wall, 1)})
        return r

    def generate(self, module, cfg, **kw):
        """All histories printed by a generator module (lines HIST <json>), in a fixed order."""
        r = self.design(module, cfg, workers=1, **kw)
        seen = {}
        for line in r.out.splitlines():
            if line.startswith('"HIST '):
                seen[json.loads(line)[5:]] = None
        hists = [json.loads(x) for x in sorted(seen)]
        if not hists:
            raise MachineryError("no histories generated by " + module)
        self.runs[-1]["histories"] = len(hists)
        return hists

    def simulate(self, module, cfg, count, depth, pick=1, **kw):
        """Random long histories of a generator module (TLC's simulation mode), `pick` of every behaviour."""
        r = tlc(module, cfg, workers=1, extra=("-simulate", "num=%d" % count, "-depth", str(depth), "-seed", str(SEED)), **kw)
        if r.rc != 0 or "Error:" in r.out:
            raise MachineryError("simulation %s failed:\n%s" % (cfg, r.out[-4000:]))
        groups = {}
        for line in r.out.splitlines():
            if line.startswith('"HIST '):
                h = json.loads(json.loads(line)[5:])
                groups.setdefault(json.dumps(h[:-1]), []).append(h)
        rand = random.Random(SEED)
        hists = []
        for key in sorted(groups):
            g = sorted(groups[key], key=json.dumps)
            hists += rand.sample(g, min(pick, len(g)))
        if not hists:
            raise MachineryError("no histories simulated by " + module)
        m = re.search(r"number of states generated: (\d+)", r.out)
        self.runs.append({"module": module, "cfg": os.path.basename(cfg), "kind": "simulation", "histories": len(hists),
                          "states": int(m.group(1)) if m else 0, "wall_s": round(r.wall, 1)})
        return hists

    def validate(self, module, rec, name=None, describe=None, control=(), **kw):
        """Validate the recorded cases of `rec` with the trace module.

        control: fields holding results; corrupted copies of some cases are added and have to be rejected."""
        if not rec.cases:
            raise MachineryError("no cases for " + module)
        controls = control(rec) if callable(control) else self.corrupt(rec, control)
        if rec.states:
            rec.extra["total"] = rec.states(rec)
        name = name or module
        path = os.path.join(self.dir, "%s-%s.json" % (self.prop, name))
        rec.write(path)
        env = {"TRACE": path}
        env.update(kw.pop("env", {}))
        r = tlc(module, env=env, extra=("-continue",), **kw)
        if not r.bad and (r.rc != 0 or "No error has been found" not in r.out):
            raise MachineryError("trace check %s failed:\n%s" % (module, r.out[-4000:]))
        if r.bad and not rec.states and r.states < 2 * len(rec.cases):
            raise MachineryError("trace check %s incomplete:\n%s" % (module, r.out[-4000:]))
        self.states += r.states
        self.transitions += r.transitions
        self.traces += len(rec.cases) - len(controls)
        self.runs.append({"module": module, "kind": "trace", "cases": len(rec.cases) - len(controls),
                          "corrupted_controls_rejected": len(controls),
                          "states": r.states, "transitions": r.transitions, "wall_s": round(r.wall, 1)})
        rejected = {int(i) for i, _ in r.bad}
        r.bad = [b for b in r.bad if int(b[0]) not in controls]
        if not r.bad and not controls <= rejected:
            raise MachineryError("%s: corrupted results accepted: %s"
                                 % (module, [_short(byid(rec)[i]) for i in controls - rejected][:2]))
        for c in rec.cases[:: max(1, len(rec.cases) // 3)][:3]:
            self.samples.append({"module": module, "case": _short(c)})
        for i, clause in r.bad:
            c = byid(rec)[int(i)]
            if clause.startswith("machinery"):
                raise MachineryError("%s: %s in case %s" % (module, clause, _short(c)))
            self.violations.append({"module": module, "clause": clause, "case": c, "tab": rec.tab,
                                    "what": describe(c) if describe else c.get("what", "")})
        if not os.environ.get("VERIF_KEEP"):
            os.remove(path)
        return r

    @staticmethod
    def corrupt(rec, fields, count=6):
        """Append copies of cases with one result entry changed by one tenth; the set of their ids."""
        out = set()
        if not fields:
            return out
        base = [c for c in rec.cases if not c.get("exc") and not c.get("nocontrol")]
        for n, c in enumerate(base[:: max(1, len(base) // count)][:count]):
            arrays = [(f, None) for f in fields if isinstance(c.get(f), dict)]
            arrays += [(f, k) for f in fields if isinstance(c.get(f), list) for k in range(len(c[f]))]
            for f, k in arrays[n % len(arrays):] + arrays[:n % len(arrays)] if arrays else []:
                a = c[f] if k is None else c[f][k]
                wrap = "a" in a
                if wrap and a["none"]:
                    continue
                a = a["a"] if wrap else a
                vals = [rec.value(i) for i in a["d"]]
                if not vals or any(v is None for v in vals) or max(map(abs, vals)) <= rec.floor.get(c["id"], 0):
                    continue
                m = max(range(len(vals)), key=lambda i: abs(vals[i]))
                d = list(a["d"])
                d[m] = rec.num(vals[m] * Fraction(11, 10))
                new = {"s": a["s"], "d": d}
                new = {"none": 0, "a": new} if wrap else new
                cc = dict(c)
                cc[f] = new if k is None else [new if q == k else x for q, x in enumerate(c[f])]
                out.add(rec.add(**cc)["id"])
                break
        return out

    def violation(self, clause, what, **kw):
        self.violations.append({"module": "harness", "clause": clause, "what": what, **kw})

    def finish(self):
        known = known_findings(self.prop)
        new = []
        for v in self.violations:
            key = "%s: %s" % (v["what"], v["clause"])
            hit = [k for k in known if k and k in key]
            if hit:
                for k in hit:
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, key))
            else:
                new.append(v)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": SEED, "level": "model_checking",
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces,
                         "runs": self.runs, "samples": self.samples[:9] or ["-"], **self.detail},
            "assumptions": ["TLC, the JVM and the module override (checked against BigRatPure by MCBigRat)"],
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
        if not new:
            print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs"
                  % (self.prop, self.states, self.transitions, self.traces, time.time() - self.t0))
            return 0
        rdir = os.path.join(VERIF, "build", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, self.prop + ".json")
        with open(path, "w") as f:
            json.dump([_decode(v) for v in new[:20]], f, indent=1, ensure_ascii=False, default=str)
        for v in new[:20]:
            print("%s: clause %r violated by %s" % (v["module"], v["clause"], v["what"]))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1


def byid(rec):
    return {c["id"]: c for c in rec.cases}


def _short(c, limit=1500):
    s = json.dumps(c, default=str, ensure_ascii=False)
    return json.loads(s) if len(s) <= limit else s[:limit] + "..."


def _decode(v):
    """Human-readable numbers in a replay file."""
    tab = v.pop("tab", None)
    if tab is None:
        return v

    def val(i):
        n, d = tab[i - 1]
        if n[0] == 2:
            return "non-finite"
        f = lambda l: l[0] * sum(x << (14 * k) for k, x in enumerate(l[1:]))  # noqa: E731
        return float(Fraction(f(n), f(d)))

    def walk(x):
        if isinstance(x, dict):
            if set(x) == {"s", "d"}:
                return {"shape": x["s"], "values": [val(i) for i in x["d"]]}
            return {k: walk(y) for k, y in x.items()}
        if isinstance(x, list):
            return [walk(y) for y in x]
        return x

    v["case"] = walk(v["case"])
    return v


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % prop):
                out.append(line.split(" ", 2)[2].strip())
    return out


def call(fun, *args, **kwargs):
    """(result, exception name) of a call of the code under test."""
    try:
        return fun(*args, **kwargs), ""
    except Exception as e:  # noqa: BLE001
        return None, type(e).__name__
