"""P13: batch elements are optimised independently (specs/Batch.tla, OptTrace.tla)."""
import torch
import theseus as th

from vh import opt as O, vec
from vh.core import call
from vh.props.p09 import judge, TOLS
from vh.tlc import validate_traces


def _traj(P, res, i, x0):
    """Trajectory and reported outcome of one element of a run, or None."""
    tag, info, _, _ = res
    xs, eh, ok = O.history(P, info, None)
    if not ok:
        return None
    f = lambda v: O.fix_of(v, P.S)
    cols = [[f(v) for v in c] for c in xs[i].T.tolist()]
    best = [O.to_int(2 * float(info.best_err[i])), int(info.best_iter[i])]
    return cols, info.status[i].name, int(info.converged_iter[i]), best, xs[i]


def _edge(x):
    """Is some iterate next to a cell boundary?"""
    d = (x - x.round()).abs()
    return bool((d < 1e-6).any())


def scripted(rng):
    """Events comparing a batch of scripted problems to each of its elements."""
    n = rng.choice([1, 1, 2])
    B = rng.choice([2, 3, 4])
    P = O.Problem(rng, B, n, rng.choice([2, 3, 5, 8]), rng.choice([[1], [2], [1, 1]]) if n == 1 else rng.choice([[2], [1, 1], [2, 1]]),
                  amax=2, emax=rng.choice([1, 2, 4]))
    kind = rng.choice(["gn", "gn", "lm", "lm", "lma", "dl"])
    solver = rng.choice(["chol", "lu"] + (["cholmod"] if kind != "lma" else []))
    (an, ad), (rn, rd) = rng.choice(TOLS)
    # a step rejected by every element is retried: with such optimizers the second of
    # two loops starts from a point that depends on the batch (by design)
    mode = rng.choice(["unroll", "dlm"] if kind in ("lma", "dl") else ["unroll", "unroll", "truncated", "implicit", "dlm"])
    its = rng.randint(1, 6)
    step = rng.choice([1.0, 1.0, 0.5, 0.75])
    kw = {}
    if kind != "gn":
        kw = {"lm": dict(damping=rng.choice([0.5, 1.0, 0.0])), "lma": dict(damping=1.0, adaptive_damping=True),
              "dl": dict(trust_region_init=rng.choice([0.5, 1.0, 4.0]))}[kind]
    if kind in ("lm", "lma") and kw["damping"] and solver != "cholmod" and rng.random() < 0.4:
        kw["ellipsoidal_damping"] = True
    if mode == "truncated":
        kw["backward_num_iterations"] = rng.randint(0, its)
    nograd = rng.random() < 0.6
    vecz = rng.random() < 0.5
    x0 = [[rng.randint(-3, 3) + 0.5 for _ in range(n)] for _ in range(B)]

    def go(rows):
        obj = P.build(rows=rows)
        opt = O.OPTS["lm" if kind == "lma" else kind](
            obj, linear_solver_cls=O.SOLVERS[solver], vectorize=vecz, abs_err_tolerance=an / ad,
            rel_err_tolerance=rn / rd, max_iterations=its, step_size=step)
        return O.optimize(P, obj, opt, kw, mode, nograd, [x0[i] for i in rows])

    whole = go(list(range(B)))
    parts = [go([i]) for i in range(B)]
    ev = [{"op": "start", "opt": kind, "mode": mode}]
    if whole[0] != "ok" or any(p[0] != "ok" for p in parts):
        return []  # scripted cells are regular: judged by P09 (outcome)
    for i in range(B):
        a, b = _traj(P, whole, i, x0), _traj(P, parts[i], 0, x0)
        if a is None or b is None or _edge(a[4]) or _edge(b[4]):
            continue
        ev.append({"op": "solo", "opt": kind, "mode": mode, "solver": solver, "batch": a[0], "alone": b[0],
                   "adaptive": int(kind in ("lma", "dl")), "sb": a[1], "sa": b[1], "cb": a[2], "ca": b[2],
                   # iterations of the second loop are numbered from the end of the first
                   "bb": a[3][: 1 if mode in ("truncated", "implicit") else 2],
                   "ba": b[3][: 1 if mode in ("truncated", "implicit") else 2], "element": i, "x0": x0, "cells": P.cells, "tol": [an, ad, rn, rd]})
    return ev[1:]


# ---------------------------------------------------------- shipped cost functions
MIX = {"update": 4, "retract": 2, "poke": 1, "add": 1, "erase": 1, "devec": 1, "vectorize": 2, "eval0": 2}


class Driver(vec.VecDriver):
    def eval0(self):
        call(self._lin().linearize)


def slice_ins(obj, i, B):
    ins = {}
    for v in list(obj.optim_vars.values()) + list(obj.aux_vars.values()):
        t = v.tensor.detach()
        ins[v.name] = t[i : i + 1].clone() if t.shape[0] == B else t.clone()
    return ins


def shipped(ctx, evs):
    rng = ctx.rng
    d = Driver(rng, B=rng.choice([2, 2, 3]), vec=0.6, zero=rng.choice([0.0, 0.2, 0.5]), ncf=(1, 5))
    d.run(MIX, rng.randint(0, 5))
    obj, B = d.obj, d.B
    if B == 1:
        return
    solo = obj.copy()
    if rng.random() < 0.5:
        th.Vectorize(solo)
    per = [slice_ins(obj, i, B) for i in range(B)]
    log = {"history": d.log, "cfs": [c.name for c in d.reg()]}

    def rec(what, whole, alone, t=4, op="rows"):
        evs.append({"op": op, "what": what, "batch": whole, "alone": alone, "t": t, "log": log})

    order = [v.name for v in obj.optim_vars.values()]
    rng.shuffle(order)
    sparse = rng.random() < 0.5

    def lin(o):
        od = ordering(o)
        L = (th.SparseLinearization if sparse else th.DenseLinearization)(o, ordering=od)
        L.linearize()
        A = vec.dense_of(L) if sparse else L.A
        return A.flatten(1), L.b

    nrm = rng.choice([0.1, 1.0, 2.0])
    ssolver = rng.choice(["chol", "lu", "cholmod"])

    def ordering(o):
        od = th.VariableOrdering(o, default_order=False)
        od.extend([o.get_optim_var(n) for n in order])
        return od

    def solve(o):
        s = O.SOLVERS[ssolver](o, linearization_kwargs={"ordering": ordering(o)})
        s.linearization.linearize()
        return s.solve(damping=nrm)

    kind = rng.choice(["lm", "lm", "gn"])
    params = dict(max_iterations=rng.randint(1, 4), abs_err_tolerance=rng.choice([1e-9, 0.05]),
                  rel_err_tolerance=rng.choice([1e-9, 0.2, 0.6]), step_size=rng.choice([1.0, 0.5]))
    # (the undamped last step of the implicit mode is ill-defined for singular problems)
    mode = rng.choice(["unroll", "truncated", "dlm"])
    nograd = rng.random() < 0.5

    def optim(o):
        opt = O.OPTS["lm"](o, linear_solver_cls=O.SOLVERS[ssolver], vectorize=rng.random() < 0.5, **params)
        kw = dict(damping=nrm)
        if mode == "truncated":
            kw["backward_num_iterations"] = 1
        with torch.no_grad() if nograd else torch.enable_grad():
            info = opt.optimize(backward_mode=mode, track_err_history=True, track_best_solution=True, **kw)
        x = torch.cat([v.tensor.detach().flatten(1).expand(o.batch_size, -1) for v in (o.get_optim_var(n) for n in order)], dim=1)
        return info, x

    def row(t, i):
        return vec.fp(t[i if t.shape[0] > 1 else 0])

    def compare(what, f, split, t=4):
        tag, whole = call(f, obj)
        tags, outs = [], []
        for i in range(B):
            solo.update(per[i])
            g, x = call(f, solo)
            tags.append(g)
            outs.append(split(x, 0) if g == "ok" else None)
        if tag != "ok" or any(g != "ok" for g in tags):
            rec(what + "_outcome", int(tag != "ok"), [int(g != "ok") for g in tags], op="fail")
            return None
        parts = [split(whole, i) for i in range(B)]
        if any(o.get("status") == "FAIL" for o in outs + parts):
            # a failure of the linear solver ends the run of the whole batch
            rec(what + "_failure", int(any(p["status"] == "FAIL" for p in parts)),
                [int(o["status"] == "FAIL") for o in outs], op="fail")
            return None
        for k in parts[0]:
            disc = k in ("status", "converged_iter", "best_iter")
            if not disc:
                big = [any(abs(v) >= 8e8 for v in o[k]) for o in outs + parts]
                if any(big):
                    continue
            rec(f"{what}_{k}", [p[k] for p in parts], [o[k] for o in outs], t, "disc" if disc else "rows")
        return whole

    compare("error", lambda o: o.error(), lambda x, i: {"rows": row(x, i)})
    compare("system", lin, lambda x, i: {"matrix": row(x[0], i), "rhs": row(x[1], i)})
    compare("solve", solve, lambda x, i: {"rows": row(x, i)}, t=20)

    # the same retraction, the same run
    start = {v.name: v.tensor.detach().clone() for v in obj.optim_vars.values()}

    def split(r, i):
        info, x = r
        return {"final": row(x, i), "status": info.status[i].name, "converged_iter": int(info.converged_iter[i]),
                "best_iter": int(info.best_iter[i]) if mode in ("unroll", "dlm") else 0, "best_err": row(info.best_err.view(-1, 1), i),
                "history": [v if abs(v) < 9e8 else 0 for v in vec.fp(torch.nan_to_num(info.err_history[i], posinf=-1.0))]
                if mode in ("unroll", "dlm") and params["max_iterations"] == 1 else []}

    compare("optimize", optim, split, t=60)
    with torch.no_grad():
        obj.update(start)


def run(ctx):
    evs = []
    for _ in range(ctx.n(350, 4000)):
        e = scripted(ctx.rng)
        evs += e
        ctx.traces += 1
    judge(ctx, evs, None)
    ctx.sample(evs[0])
    evs = []
    for _ in range(ctx.n(90, 1200)):
        shipped(ctx, evs)
        ctx.traces += 1
    rej, r = validate_traces("Batch", "Batch.cfg", [{k: v for k, v in e.items() if k != "log"} for e in evs])
    ctx.model(r)
    ctx.events += len(evs)
    for x in rej:
        e = evs[x["line"] - 1]
        ctx.violation(f"batch differs from its elements: {x['clauses']}", e)
    ctx.sample({k: evs[0][k] for k in ("what", "log")})
