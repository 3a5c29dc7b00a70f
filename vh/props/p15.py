"""P15: scoped modes and global parameters against Modes.tla."""
import contextlib
import io
import queue
import threading
import warnings

import torch
import theseus as th
import torchlie as lie
import torchlie.functional as lf
from theseus.core.cost_function import masked_jacobians
from theseus.global_params import _THESEUS_GLOBAL_PARAMS as THP
from torchlie.global_params import _TORCHLIE_GLOBAL_PARAMS as LP

from ..core import call
from ..tlc import Graph, run_tlc, validate_traces

D64 = torch.float64
TYPES = ["SO2", "SE2", "SO3", "SE3"]
TH = ["so2_norm_eps", "so2_matrix_eps", "se2_near_zero_eps", "se2_d_near_zero_eps", "so3_to_quaternion_sqrt_eps"]
LI = ["so3_near_pi_eps", "so3_near_zero_eps", "so3_d_near_zero_eps", "so3_matrix_eps", "so3_quat_eps", "so3_hat_eps", "se3_hat_eps"]
TH = [a + b for a in TH for b in ("_float32", "_float64")] + ["fast_approx_local_jacobians"]
LI = [a + b for a in LI for b in ("_float32", "_float64")] + ["_allow_passthrough_ops", "_faster_log_maps"]
FLAGS = ["fast_approx_local_jacobians", "_allow_passthrough_ops", "_faster_log_maps"]


class Stop(Exception):
    pass


def boom(kind):
    return type("Boom" + kind.__name__, (kind,), {"levels": 1})


BOOMS = [boom(k) for k in (ValueError, RuntimeError, KeyboardInterrupt, StopIteration, GeneratorExit, AssertionError)]
BAD = {
    "SO2": torch.tensor([[2.0, 0.0]], dtype=D64),
    "SE2": torch.tensor([[1.0, 2.0, 0.0, 3.0]], dtype=D64),
    "SO3": 2 * torch.eye(3, dtype=D64)[None],
    "SE3": torch.cat([2 * torch.eye(3, dtype=D64), torch.ones(3, 1, dtype=D64)], 1)[None],
}
HAT = {"SO2": torch.ones(1, 2, 2, dtype=D64), "SO3": torch.ones(1, 3, 3, dtype=D64), "SE3": torch.ones(1, 4, 4, dtype=D64)}


GOODHAT = {
    "SO2": torch.tensor([[[0.0, -0.5], [0.5, 0.0]]], dtype=D64),
    "SO3": torch.tensor([[[0.0, -3.0, 2.0], [3.0, 0.0, -1.0], [-2.0, 1.0, 0.0]]], dtype=D64),
    "SE3": torch.tensor([[[0.0, -3.0, 2.0, 4.0], [3.0, 0.0, -1.0, 5.0], [-2.0, 1.0, 0.0, -6.0], [0.0, 0.0, 0.0, 0.0]]], dtype=D64),
}
BADROW = GOODHAT["SE3"].clone()
BADROW[0, 3, 1] = 1.0


def vals(names, obj):
    out = {}
    for n in names:
        if "_eps_" in n:
            t, a = n.split("_", 1)
            a, dt = a.rsplit("_eps_", 1)
            out[n] = repr(obj.get_eps(t, a, getattr(torch, dt)))
            other = repr(THP.get_eps(t, a, getattr(torch, dt)))   # theseus reads the parameters of torchlie too
            if other != out[n]:
                out[n] += " or " + other
        else:
            out[n] = repr(getattr(obj, n))
    return out


def tangent(rng):
    v = th.SO2(theta=torch.tensor([[0.25]], dtype=D64))
    g = torch.tensor([[0.5, -1.0]], dtype=D64)
    plain = v.tensor + g
    moved = v.retract(v.project(g)).tensor
    res = []
    for how in range(3):
        t = th.LieGroupTensor(th.SO2(theta=torch.tensor([[0.25]], dtype=D64)))
        one = torch.ones_like(g)
        tag, r = call((lambda: t.add_(g), lambda: t.addcdiv_(g * 2, one * 2), lambda: t.addcmul_(g, one, value=1))[how])
        if tag != "ok":
            res.append(tag)
        else:
            x = t.data.as_subclass(torch.Tensor)
            res.append("plain" if torch.allclose(x, plain) else "tangent" if torch.allclose(x, moved) else "other")
    return res[0] if len(set(res)) == 1 else str(res)


def look(world, t, only=None):
    rng = world.rng
    out = {}

    def want(f):
        return only is None or f in only
    cls = {n: getattr(th, n) for n in TYPES}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if want("strict"):
            out["strict"] = {n: call(cls[n], tensor=BAD[n].clone(), strict_checks=True)[0] for n in TYPES}
        if want("hat"):
            out["hat"] = {n: (lambda good, bad: bad if good == "ok" else f"a valid one: {good}")(
                call(cls[n].vee, GOODHAT[n].clone())[0], call(cls[n].vee, HAT[n].clone())[0]) for n in HAT}
        if want("quat"):
            out["quat"] = call(th.SO3, quaternion=torch.ones(1, 4, dtype=D64))[0]
        if want("lie"):
            a = [call(lie.LieTensor, BAD[n].clone(), getattr(lie, n))[0] for n in ("SO3", "SE3")]
            a += [call(getattr(lie, n).vee, HAT[n].clone())[0] for n in ("SO3", "SE3")] + [call(lie.SE3.vee, BADROW.clone())[0]]
            good = [call(getattr(lie, n).vee, GOODHAT[n].clone())[0] for n in ("SO3", "SE3")]
            good += [call(lie.LieTensor, getattr(th, n)(dtype=D64).tensor, getattr(lie, n))[0] for n in ("SO3", "SE3")]
            out["lie"] = a[0] if len(set(a)) == 1 and set(good) == {"ok"} else str((a, good))
        if want("tan"):
            out["tan"] = tangent(rng)
        if want("near"):
            out["near"] = {
                "SO2": call(th.SO2, tensor=torch.tensor([[1.01, 0.0]], dtype=D64), strict_checks=True)[0],
                "SO3": call(lie.LieTensor, 1.005 * torch.eye(3, dtype=D64)[None], lie.SO3)[0],
            }
        if want("eu"):
            x = lie.LieTensor(torch.eye(3, dtype=D64)[None], lie.SO3)
            tag, y = call(lambda: x + x)
            tag2, z = call(lambda: x[0:1])
            a = [{"NotImplementedError": "group", "ok": "raw" if not isinstance(y, lie.LieTensor) else "odd"}.get(tag, tag),
                 tag2 if tag2 != "ok" else "group" if isinstance(z, lie.LieTensor) else "raw"]
            out["eu"] = a[0] if a[0] == a[1] else str(a)
    if want("lax"):
        out["lax"] = {}
        for n in TYPES:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                tag, v = call(cls[n], tensor=BAD[n].clone())
            out["lax"][n] = [tag if tag != "ok" else "kept" if torch.equal(v.tensor, BAD[n]) else "normalized", "warning" if w else "no warning"]
    if want("vars"):
        out["vars"] = {n: [int(i) for i in v.tensor.view(-1).tolist()] for n, v in world.vars[t].items()}
    if want("th"):
        out["th"] = vals(TH, THP)
    if want("lp"):
        out["lp"] = vals(LI, LP)
    return out


# ------------------------------------------------------------- library code with scopes inside
class Oops(RuntimeError):
    pass


class Broken(Exception):
    """A scope let something out that it should not; the thread is gone."""


def _modes():
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        a = [call(th.SO2, tensor=BAD["SO2"].clone(), strict_checks=True)[0], call(th.SO3, quaternion=torch.ones(1, 4, dtype=D64))[0], tangent(None)]
        del w[:]
        th.SO2(tensor=BAD["SO2"].clone())
        return a, bool(w)


def _objective(fail, mode="vmap"):
    x = th.Vector(tensor=torch.tensor([[1.0]], dtype=D64), name="p")
    y = th.Variable(torch.tensor([[2.0]], dtype=D64), name="q")

    def err(optim_vars, aux_vars):
        if fail():
            raise Oops()
        return optim_vars[0].tensor - aux_vars[0].tensor
    o = th.Objective(dtype=D64)
    o.add(th.AutoDiffCostFunction([x], err, 1, aux_vars=[y], autograd_mode=mode, cost_weight=th.ScaleCostWeight(torch.ones(1, 1, dtype=D64)), name="c"))
    return o


def lib_optimize(bad, rng):
    n = [0]

    def fail():
        n[0] += 1
        if mode == "dense":
            inner.append(_modes())
        return bad and n[0] > 1
    mode, inner, outer = rng.choice(["vmap", "dense"]), [], _modes()
    o = _objective(fail, mode)
    opt = rng.choice([th.GaussNewton, th.LevenbergMarquardt, th.Dogleg])(o, max_iterations=3)
    try:
        th.TheseusLayer(opt).forward({}, optimizer_kwargs=dict(verbose=False))
    finally:
        # inside the optimizer the modes are those around it, save that internal warnings are silenced
        for m, w in inner:
            if m != outer[0] or (w and not outer[1]):
                raise Stop(f"inside the optimizer {m}, {w}; outside {outer}")
        if inner and not bad and outer[0][0] != "ok" and all(w for m, w in inner):
            raise Stop("the optimizer silences no internal warnings")


def lib_vmap(bad, rng):
    o = _objective(lambda: bad)
    next(iter(o.cost_functions.values())).jacobians()


def lib_masked(bad, rng):
    B = 3
    x = th.Vector(tensor=torch.arange(3.0, dtype=D64).view(3, 1), name="p")
    y = th.Variable(torch.arange(3.0, dtype=D64).view(3, 1) + 5, name="q")
    mode = rng.choice(["dense", "vmap", "loop_batch"])

    def err(optim_vars, aux_vars):
        if bad:
            raise Oops()
        return optim_vars[0].tensor * aux_vars[0].tensor
    c = th.AutoDiffCostFunction([x], err, 1, aux_vars=[y], autograd_mode=mode, cost_weight=th.ScaleCostWeight(torch.ones(1, 1, dtype=D64)))
    try:
        J, e = masked_jacobians(c, torch.tensor([True, False, True]))
        if e.view(-1).tolist() != [0.0, 0.0, 14.0] or J[0].view(-1).tolist() != [5.0, 0.0, 7.0]:
            raise Stop(str((e, J)))
    finally:
        if x.tensor.view(-1).tolist() != [0.0, 1.0, 2.0] or y.tensor.view(-1).tolist() != [5.0, 6.0, 7.0]:
            raise Stop("variables stay masked")


def lib_group(bad, rng):
    w = torch.full((1, 3), 0.1, dtype=D64)
    how = rng.randrange(4)
    if how == 0:
        x = th.SE2.exp_map(w)
        x.rotation, x.translation, x.theta(), x.xy()
        if bad:
            x.transform_to(torch.zeros(1, 5, dtype=D64))
    elif how == 1:
        x = th.SE3.exp_map(torch.cat([w, w], 1))
        x.log_map(), x.inverse(), x.rotation()
        if bad:
            x.transform_to(torch.zeros(1, 5, dtype=D64))
    elif how == 2:
        th.SE3.hat(torch.cat([w, w], 1)), th.SE3.rand(2), th.SO3.rand(2), th.SE2.rand(2)
        if bad:
            th.SE3.exp_map(w)
    else:
        th.SE2.vee(th.SE2.hat(w)), th.SE2.x_y_theta_to_SE2(w) if hasattr(th.SE2, "x_y_theta_to_SE2") else None
        if bad:
            th.SE2.exp_map(w).transform_from(torch.zeros(1, 5, dtype=D64))


LIB = {"optimize": lib_optimize, "vmap": lib_vmap, "masked": lib_masked, "group": lib_group}


# ------------------------------------------------------------------------------- the driver
class World:
    """Threads that take turns; every scope is a real `with` statement of its thread."""

    def __init__(self, rng):
        self.rng, self.q, self.r, self.vars, self.ts, self.made = rng, {}, {}, {}, {}, {}

    def start(self, t, vs):
        self.vars[t] = {n: th.Variable(torch.tensor(r, dtype=D64).view(-1, 1), name=f"{n}{t}") for n, r in vs.items()}
        self.q[t], self.r[t] = queue.Queue(), queue.Queue()
        self.made[t] = {}
        self.ts[t] = threading.Thread(target=self.main, args=(t,), daemon=True)
        self.ts[t].start()
        return "ok"

    def stop(self):
        for t in self.ts:
            self.q[t].put(("stop",))
            self.r[t].get(timeout=60)
            self.ts[t].join(60)
        type(THP).reset(THP)
        type(LP).reset(LP)

    def do(self, t, *cmd):
        self.q[t].put(cmd)
        return self.r[t].get(timeout=120)

    def main(self, t):
        try:
            self.body(t)
        except Stop:
            pass
        except BaseException as ex:  # the scope machinery let something else out
            self.r[t].put(f"escaped {type(ex).__name__} {ex}")
            while self.q[t].get()[0] != "stop":
                self.r[t].put("dead")
        self.r[t].put("stopped")

    def scope(self, t, c, prepared=False):
        rng = self.rng
        k = c["k"]
        if k == "group":
            a, kw = [], {}
            for n, v in (("silent", c["silent"]), ("silence_internal_warnings", c["quiet"])):
                if v or rng.random() < 0.5:
                    kw[n] = v
            f = rng.randrange(2)
            if f == 0:
                return th.set_lie_group_check_enabled(c["on"], **kw)
            return (th.enable_lie_group_check if c["on"] else th.no_lie_group_check)(**kw)
        if k == "hush":
            from theseus.geometry.lie_group_check import silence_internal_warnings
            return silence_internal_warnings()
        if k == "lie":
            return lf.enable_checks()
        if k == "eu":
            return lie.as_euclidean()
        if k == "tan":
            if c.get("api", "") == "set" or (not prepared and "api" not in c and rng.random() < 0.4):
                return th.set_lie_tangent_enabled(c["on"])
            return th.enable_lie_tangent() if c["on"] else th.no_lie_tangent()
        return th.masked_variables([self.vars[t][v] for v in c["vs"]], torch.tensor(c["mask"], dtype=torch.bool))

    def inside(self, t):
        self.r[t].put("ok")
        self.body(t)

    def body(self, t):
        """Returns when the innermost scope is left normally."""
        while True:
            cmd = self.q[t].get()
            op = cmd[0]
            if op == "stop":
                raise Stop()
            if op == "look":
                self.r[t].put(look(self, t, cmd[1]))
            elif op == "update":
                self.vars[t][cmd[1]].update(torch.tensor(cmd[2], dtype=D64).view(-1, 1))
                self.r[t].put("ok")
            elif op == "prepare":
                tag, x = call(self.scope, t, cmd[2], True)
                self.made[t][cmd[1]] = x if tag == "ok" else None
                self.r[t].put("ok")
            elif op == "call":
                tag = call(LIB[cmd[1]], cmd[2], self.rng)
                self.r[t].put({"ok": "ok", "Oops": "raised", "ValueError": "raised"}.get(tag[0], f"{tag[0]}: {tag[1]}"))
            elif op == "leave":
                if not cmd[2]:
                    return
                b = self.rng.choice(BOOMS)("boom")
                b.levels = cmd[1]
                raise b
            elif op == "enter":
                inside = [False]
                try:
                    try:
                        key = cmd[2]
                        s = self.made[t][key] if key is not None else self.scope(t, cmd[1])
                        if key is None and isinstance(s, contextlib.ContextDecorator) and self.rng.random() < 0.3:
                            @s
                            def f():
                                inside[0] = True
                                self.inside(t)
                            f()
                        else:
                            with s:
                                inside[0] = True
                                self.inside(t)
                        self.r[t].put("ok")
                    except Stop:
                        raise
                    except Exception as ex:
                        if inside[0]:
                            raise
                        self.r[t].put("refused")
                except BaseException as ex:
                    if not hasattr(ex, "levels") or not inside[0]:
                        raise
                    ex.levels -= 1
                    if ex.levels:
                        raise
                    self.r[t].put("ok")


def drive(w, e, key=None):
    """Carries out one event; returns its outcome."""
    op = e["op"]
    if op == "start":
        return w.start(e["t"], e["vars"])
    if op == "enter":
        return w.do(e["t"], "enter", e["c"], key)
    if op == "leave":
        return w.do(e["t"], "leave", e["n"], e["exc"])
    if op == "update":
        return w.do(e["t"], "update", e["v"], e["rows"])
    if op == "prepare":
        return w.do(e["t"], "prepare", e["key"], e["c"])
    if op == "call":
        return w.do(e["t"], "call", e["what"], e["bad"])
    if op == "set":
        d = {o["n"]: eval(o["v"]) for o in e["opts"]}
        return "ok" if call((th if e["lib"] == "th" else lie).set_global_params, d)[0] == "ok" else "rejected"
    if op == "default":
        tag, _ = call(THP.reset if e["lib"] == "th" else lie.reset_global_params)
        return tag
    raise AssertionError(op)


# ------------------------------------------------------------- model behaviours into the code
def replay(ctx, g, obs, limit):
    rng = ctx.rng
    n = 0
    seen = set()
    for start, walk in g.walks(rng, max_len=3, limit=limit):
        w = World(rng)
        ctx.traces += 1
        hist = []
        try:
            st = g.state[start]["s"]["thr"]
            for t, x in enumerate(st, 1):
                w.start(t, x["vars"])
            for s, a, t in walk:
                n += 1
                e = {k: v for k, v in a.items() if k != "r"}
                key = None
                hist.append(a)
                if e["op"] == "enter" and rng.random() < 0.3 and w.do(e["t"], "prepare", "k", e["c"]) == "ok" and w.made[e["t"]].get("k") is not None:
                    key = "k"
                r = drive(w, e, key)
                if r != a["r"]:
                    ctx.violation(f"scope history: {e['op']} gives {r}, not {a['r']}", {"history": hist}, key=f"{e['op']}_outcome") if ("o", e["op"]) not in seen else None
                    seen.add(("o", e["op"]))
                    break
                want = obs[(s, Graph.key(a))]
                bad = False
                for th_ in w.ts:
                    fs = None if rng.random() < 0.1 else rng.sample(["strict", "lax", "lie", "eu", "tan", "vars", "hat", "quat", "near", "th", "lp"], 5)
                    got = w.do(th_, "look", fs)
                    if isinstance(got, str):
                        ctx.violation(f"a thread with scopes is gone: {got}", {"history": hist}, key="gone") if "gone" not in seen else None
                        seen.add("gone")
                        bad = True
                        break
                    for f in got:
                        if got[f] != want[th_ - 1][f]:
                            bad = True
                            if f not in seen:
                                seen.add(f)
                                ctx.violation(f"after a history of scopes, thread {th_}: {f} is {got[f]}, not {want[th_ - 1][f]}", {"history": hist}, key="sees_" + f)
                if bad:
                    break
        finally:
            w.stop()
    ctx.events += n


# ------------------------------------------------------------- recorded histories judged by TLC
def history(rec, rng, length, meta):
    w = World(rng)
    rec.append({"op": "fresh"})
    nt = rng.choice([1, 2, 2, 3])
    focus = [None, "tan", "group", "tan", None, "lie", "mask", "tan", "hush", "eu"][meta % 10]
    depth, objs, size, idn = {}, {}, {}, [100]

    def emit(e, key=None):
        e["r"] = drive(w, e, key)
        if e["op"] == "call":
            e["exp"] = "raised" if e["bad"] else "ok"
        rec.append(e)
        if str(e["r"]).startswith(("escaped", "dead")):
            raise Broken()
        return e["r"]

    def see(t, fs):
        x = w.do(t, "look", fs)
        if isinstance(x, str):
            rec.append({"op": "call", "t": t, "what": "look", "bad": False, "exp": "ok", "r": x})
            raise Broken()
        rec.append({"op": "look", "t": t, "see": x})
    try:
        def begin(t):
            vs = {n: [idn[0] + 10 * j + i for i in range(rng.choice([2, 3]))] for j, n in enumerate("xyz")}
            idn[0] += 100
            emit({"op": "start", "t": t, "vars": vs})
            depth[t], objs[t] = 0, {}
        begin(1)
        opens = {1: []}
        for step in range(length):
            t = rng.choice(sorted(depth))
            op = rng.choice(["enter"] * 6 + ["leave"] * 4 + ["update", "prepare", "call", "call", "set", "set", "default", "thread"])
            cur = {n: int(v.tensor.shape[0]) for n, v in w.vars[t].items()}
            if op in ("enter", "prepare"):
                c = rng.choice([
                    {"k": "group", "on": rng.random() < 0.4, "silent": rng.random() < 0.5, "quiet": rng.random() < 0.5},
                    {"k": "group", "on": rng.random() < 0.4, "silent": rng.random() < 0.5, "quiet": rng.random() < 0.5},
                    {"k": "hush"}, {"k": "lie"}, {"k": "eu"}, {"k": "tan", "on": rng.random() < 0.6}, "mask", "mask"])
                if focus and rng.random() < 0.7:   # many nested scopes of one kind
                    c = {"tan": {"k": "tan", "on": rng.random() < 0.5}, "lie": {"k": "lie"}, "eu": {"k": "eu"}, "hush": {"k": "hush"},
                         "group": {"k": "group", "on": rng.random() < 0.5, "silent": rng.random() < 0.5, "quiet": rng.random() < 0.5}, "mask": "mask"}[focus]
                if c == "mask":
                    vs = rng.sample("xyz", rng.choice([1, 2, 2, 3]))
                    m = rng.choice([cur[vs[0]], cur[vs[-1]], 2, 3])
                    c = {"k": "mask", "vs": vs, "mask": [rng.random() < 0.7 for _ in range(m)]}
            if op == "prepare":
                key = len(objs[t])
                emit({"op": "prepare", "t": t, "key": key, "c": c})
                if w.made[t].get(key) is not None:
                    objs[t][key] = c
                see(t, None)
            elif op == "enter" and depth[t] < 6:
                key = None
                ready = [k for k in objs[t] if objs[t][k] is not None and k not in [o for o in opens[t]]]
                if ready and rng.random() < 0.5:
                    key = rng.choice(ready)
                    c = objs[t][key]
                    if c["k"] in ("group", "hush"):
                        objs[t][key] = None  # generators run once
                if emit({"op": "enter", "t": t, "c": c}, key) == "ok":
                    depth[t] += 1
                    opens[t].append(key)
                see(t, None)
            elif op == "leave" and depth[t]:
                exc = rng.random() < 0.6
                n = rng.randint(1, depth[t]) if exc else 1
                emit({"op": "leave", "t": t, "n": n, "exc": exc})
                depth[t] -= n
                opens[t] = opens[t][:-n]
                see(t, None)
            elif op == "update":
                v = rng.choice("xyz")
                k = rng.choice([cur[v], cur[v], 2, 3])
                emit({"op": "update", "t": t, "v": v, "rows": [idn[0] + i for i in range(k)]})
                idn[0] += 10
                see(t, ["vars"])
            elif op == "call":
                if not rec_eu(w, t):
                    emit({"op": "call", "t": t, "what": rng.choice(sorted(LIB)), "bad": rng.random() < 0.6})
                see(t, None)
            elif op == "set":
                lib = rng.choice(["th", "lie"])
                names = TH if lib == "th" else LI
                opts = [{"n": n, "v": rng.choice(["0.1", "0.2", "0.25", "0.001"])} for n in rng.sample(names, rng.choice([0, 1, 2, 3]))]
                for o in opts:
                    if o["n"] in FLAGS:
                        o["v"] = rng.choice(["True", "False"])
                    if rng.random() < 0.3 and "matrix_eps" in " ".join(names):
                        o["n"] = rng.choice([n for n in names if "matrix_eps" in n])
                        o["v"] = rng.choice(["0.1", "0.25", "0.001"])
                opts = list({o["n"]: o for o in opts}.values())
                if rng.random() < 0.5:
                    bad = rng.choice(["so2_matrix", "reset", "get_eps", "so3_matrix_eps_float16", "SO3_matrix_eps_float32", rng.choice(LI if lib == "th" else TH)])
                    opts.insert(rng.randint(0, len(opts)), {"n": bad, "v": "0.1"})
                emit({"op": "set", "lib": lib, "opts": opts})
                see(t, ["th", "lp", "near"])
            elif op == "default":
                emit({"op": "default", "lib": rng.choice(["th", "lie"])})
                see(t, ["th", "lp", "near"])
            elif op == "thread" and len(depth) < nt:
                t = max(depth) + 1
                opens[t] = []
                begin(t)
                see(t, None)
            if len(depth) > 1 and rng.random() < 0.4:
                see(rng.choice(sorted(depth)), None)
        for t in sorted(depth):
            while depth[t]:
                exc = rng.random() < 0.5
                n = rng.randint(1, depth[t]) if exc else 1
                emit({"op": "leave", "t": t, "n": n, "exc": exc})
                depth[t] -= n
            see(t, None)
    except Broken:
        pass
    finally:
        w.stop()


KINDS = [{"k": "group", "on": on, "silent": si, "quiet": q} for on, si, q in ((True, False, False), (False, True, False), (False, False, True), (True, True, True))]
KINDS += [{"k": "hush"}, {"k": "lie"}, {"k": "eu"}, {"k": "mask", "vs": ["x"], "mask": [True]}]
KINDS += [{"k": "mask", "vs": ["y", "z"], "mask": [False]}]
KINDS += [{"k": "tan", "on": on, "api": a} for on in (True, False) for a in ("set", "cls")]


def pairs(rec, rng, share):
    """Every ordered pair of scopes, nested, left by each way out."""
    w = World(rng)
    n = 0
    try:
        for a in KINDS:
            for b in KINDS:
                if a is b and a.get("mask") == [False]:
                    continue   # nothing left to mask
                rec.append({"op": "fresh"})
                n += 1
                t = n
                e = {"op": "start", "t": t, "vars": {v: [10 * j] for j, v in enumerate("xyz")}}
                e["r"] = drive(w, e)
                rec.append(e)

                def go(e):
                    e["r"] = drive(w, e)
                    rec.append(e)
                    if str(e["r"]).startswith(("escaped", "dead")):
                        raise Broken()
                    near = {"group": ["strict", "lax", "hat"], "hush": ["lax"], "lie": ["lie", "hat", "quat"], "eu": ["eu"], "tan": ["tan"], "mask": ["vars"]}
                    rec.append({"op": "look", "t": t, "see": w.do(t, "look", sorted(set(near[a["k"]] + near[b["k"]])))})
                for n_, exc in ((1, False), (1, True), (2, True)):
                    if rng.random() >= share and a["k"] != b["k"]:
                        continue
                    go({"op": "enter", "t": t, "c": a})
                    go({"op": "enter", "t": t, "c": b})
                    go({"op": "leave", "t": t, "n": n_, "exc": exc})
                    if n_ == 1:
                        go({"op": "leave", "t": t, "n": 1, "exc": rng.random() < 0.5})
    except Broken:
        pass
    finally:
        w.stop()


def rec_eu(w, t):
    x = w.do(t, "look", ["eu"])
    return isinstance(x, str) or x["eu"] != "group"


def run(ctx):
    rng = ctx.rng
    quiet = io.StringIO()
    res = run_tlc("ModesMC", "ModesMC.cfg", timeout=300)
    ctx.model(res)
    deep = run_tlc("ModesMC", "ModesMCdeep.cfg" if not ctx.quick else "ModesMCq.cfg", workers=4, timeout=800)
    ctx.model(deep)
    g = Graph(res.prints)
    obs = {(Graph.key(p["s"]), Graph.key(p["a"])): p["obs"] for p in res.prints if "obs" in p}
    ev = []
    with contextlib.redirect_stdout(quiet):
        found = []
        replay(ctx, g, obs, ctx.n(2500, 40000))
        pairs(ev, rng, 1.0)
        for i in range(ctx.n(60, 900)):
            history(ev, rng, rng.choice([6, 15, 40]), i)
    seen = {}
    parts, cur = [], 0
    while cur < len(ev):
        end = min(len(ev), cur + 4000)
        while end < len(ev) and ev[end]["op"] != "fresh":
            end += 1
        parts.append((cur, ev[cur:end]))
        cur = end
    for i, part in parts:
        rej, r = validate_traces("ModesTrace", "ModesTrace.cfg", part, timeout=800)
        ctx.model(r)
        for x in rej:
            k = i + x["line"] - 1
            b = max(j for j in range(k + 1) if ev[j]["op"] == "fresh")
            for c in x["clauses"]:
                seen[c] = seen.get(c, 0) + 1
                if seen[c] <= 2:
                    ctx.violation(f"history of scopes: {c}", {"event": ev[k], "history": [e for e in ev[b:k] if e["op"] != "look"]}, key=c)
    ctx.events += len(ev)
    ctx.traces += sum(e["op"] == "fresh" for e in ev)
    for e in ev[:5]:
        ctx.sample(e)
    ctx.extra["clauses_failing"] = seen
    ctx.assumptions += [
        "one scope object is open at most once at a time; set_lie_tangent_enabled is used in the with statement that creates it",
        "a variable is masked by one thread only, and named once per mask",
    ]
