"""Shared check runner: evidence, violations, known findings, projections."""
import json
import math
import os
import random
import sys
import time
import traceback
import warnings
from fractions import Fraction

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BAD = 999999999  # sentinel: "not representable on the spec's grid"


class Violation(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.rng = random.Random(seed * 7919 + 17)
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.violations = []
        self.known_hits = []
        self.extra = {}
        self.assumptions = []
        self.known = [
            k for k in load_known() if k["property"] == prop and k["status"] == "known"
        ]

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def model(self, res):
        self.states += res.distinct
        self.transitions += res.states

    def sample(self, obj, cap=6):
        if len(self.samples) < cap:
            self.samples.append(obj)

    def violation(self, what, detail, key=None):
        """`key` identifies the specific failing input/history for known findings."""
        for k in self.known:
            if key is not None and k["key"] == key:
                if k["key"] not in self.known_hits:
                    self.known_hits.append(k["key"])
                return
        self.violations.append({"what": what, "key": key, "detail": detail})

    def count(self, name, k=1):
        self.extra[name] = self.extra.get(name, 0) + k


def load_known():
    path = os.path.join(ROOT, "KNOWN_FINDINGS.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#"):
                out.append(json.loads(line))
    return out


# ------------------------------------------------------------- projections
def to_int(x, scale=1, tol=1e-5):
    """Fixed-point projection of a float: exact grid value or the BAD sentinel."""
    try:
        v = float(x) * scale
    except (TypeError, ValueError):
        return BAD
    if math.isnan(v) or math.isinf(v) or abs(v) > 5e8:
        return BAD
    r = round(v)
    if abs(v - r) > tol * max(1.0, abs(v) * 1e-2, scale * 1e-2 if scale > 100 else 0):
        return BAD
    return int(r)


def ints(t, scale=1, tol=1e-5):
    """Tensor -> nested lists of projected ints."""
    t = t.detach().tolist() if hasattr(t, "detach") else t
    if isinstance(t, list):
        return [ints(u, scale, tol) for u in t]
    return to_int(t, scale, tol)


def ratio(x, maxden=20000, tol=1e-7):
    """Projection of a float to the unique small rational next to it: [num, den]."""
    v = float(x)
    if math.isnan(v) or math.isinf(v) or abs(v) > 1e5:
        return [BAD, 1]
    f = Fraction(v).limit_denominator(maxden)
    if abs(float(f) - v) > tol * max(1.0, abs(v)):
        return [BAD, 1]
    return [f.numerator, f.denominator]


def call(fn, *a, **k):
    """Runs code under test; returns (tag, value) with tag 'ok' or the exception name."""
    try:
        return "ok", fn(*a, **k)
    except Exception as e:  # noqa: BLE001
        return type(e).__name__, e


def blame(tb):
    """True if the innermost non-library frame of a traceback is in /repo."""
    frames = traceback.extract_tb(tb)
    for fr in reversed(frames):
        if fr.filename.startswith("/repo/"):
            return True
        if fr.filename.startswith(ROOT):
            return False
    return False


def finish(ctx, level="model_checking"):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    cov = {
        "states": ctx.states,
        "transitions": ctx.transitions,
        "traces_validated_against_impl": ctx.traces,
        "samples": ctx.samples or ["(none)"],
        "events_compared": ctx.events,
    }
    cov.update(ctx.extra)
    ev = {
        "property": ctx.prop,
        "tier": ctx.tier,
        "seed": ctx.seed,
        "level": level,
        "coverage": cov,
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(ctx.violations),
    }
    with open(os.path.join(ROOT, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in ctx.known:
        # A listed finding is announced on every run that reproduced it
        if k["key"] in ctx.known_hits:
            print(f"KNOWN-FINDING: property={ctx.prop} {k['what']}")
    if ctx.violations:
        d = os.path.join(ROOT, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{ctx.prop}.json")
        with open(path, "w") as f:
            json.dump(ctx.violations[:20], f, indent=1, default=str)
        for v in ctx.violations[:5]:
            print(f"  {ctx.prop}: {v['what']} key={v['key']}")
        print(f"VIOLATION property={ctx.prop} replay={path}")
        return 1
    print(
        f"OK property={ctx.prop} states={ctx.states} transitions={ctx.transitions} "
        f"traces={ctx.traces} events={ctx.events} wall={ev['wall_s']}s"
    )
    return 0


def main(prop, tier, seed):
    import importlib

    warnings.simplefilter("ignore")
    ctx = Ctx(prop, tier, seed)
    try:
        import torch

        torch.set_num_threads(2)
        torch.manual_seed(seed)
        mod = importlib.import_module("vh.props." + prop.lower())
        mod.run(ctx)
    except Exception as e:  # noqa: BLE001
        if blame(e.__traceback__) or isinstance(e, Violation):
            ctx.violation(
                f"code under test raised {type(e).__name__}: {e}"[:300],
                traceback.format_exc(),
            )
        elif ctx.violations:  # the harness stumbled over behaviour already reported
            traceback.print_exc()
        else:
            traceback.print_exc()
            print(f"ERROR property={prop}: machinery failure", file=sys.stderr)
            return 2
    return finish(ctx)
