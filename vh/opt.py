"""Optimizer runs on piecewise-constant problems, recorded for specs/OptTrace.tla.

The error and the jacobian of every batch element only depend on the unit cell the
variables are in, so the table of cells scripts every possible sequence of errors,
steps and rejections."""
import torch
import theseus as th

from vh.core import call, to_int

F64 = torch.float64
S = 1024


class CellCost(th.CostFunction):
    def __init__(self, xs, TA, Te, weight, name=None):
        super().__init__(weight, name=name)
        self.k = len(xs)
        for i, x in enumerate(xs):
            setattr(self, f"x{i}", x)
            self.register_optim_var(f"x{i}")
        self.TA, self.Te = TA, Te  # (B, K, m, n), (B, K, m)
        self.register_aux_var("TA")
        self.register_aux_var("Te")

    def xs(self):
        return [getattr(self, f"x{i}") for i in range(self.k)]

    def _idx(self):
        t = torch.cat([x.tensor for x in self.xs()], dim=1).detach().floor()
        i = t[:, 0] if t.shape[1] == 1 else t[:, 0] + 3 * t[:, 1]
        return torch.remainder(i, self.Te.shape[1]).long()

    def _take(self, T):
        i = self._idx()
        T = T.tensor
        if T.shape[0] == 1 and i.shape[0] > 1:
            T = T.expand(i.shape[0], *T.shape[1:])
        if i.shape[0] == 1 and T.shape[0] > 1:
            i = i.expand(T.shape[0])
        return T[torch.arange(T.shape[0]), i]

    def error(self):
        return self._take(self.Te)

    def jacobians(self):
        A = self._take(self.TA)
        out, o = [], 0
        for x in self.xs():
            out.append(A[:, :, o : o + x.dof()])
            o += x.dof()
        return out, self.error()

    def dim(self):
        return self.Te.shape[2]

    def _copy_impl(self, new_name=None):
        return CellCost([x.copy() for x in self.xs()], self.TA.copy(), self.Te.copy(),
                        self.weight.copy(), name=new_name)


class Problem:
    """cells[i][k] = {"A": rows, "e": rows}"""

    def __init__(self, rng, B, n, K, ms, scale=1.0, amax=2, emax=4, sing=0.0, split=None):
        self.rng, self.B, self.n, self.K, self.ms, self.scale = rng, B, n, K, ms, scale
        m = sum(ms)

        def cell():
            while True:
                A = [[rng.randint(-amax, amax) for _ in range(n)] for _ in range(m)]
                e = [rng.randint(-emax, emax) for _ in range(m)]
                if rng.random() < sing:
                    j = rng.randrange(n)
                    for r in A:
                        r[j] = 0
                    return {"A": A, "e": e}
                if any(all(r[j] == 0 for r in A) for j in range(n)):
                    continue
                if n == 2 and sum(r[0] * r[0] for r in A) * sum(r[1] * r[1] for r in A) == sum(r[0] * r[1] for r in A) ** 2:
                    continue
                return {"A": A, "e": e}

        self.S = S
        self.cells = [[cell() for _ in range(K)] for _ in range(B)]
        self.split = split if split is not None else (n == 2 and rng.random() < 0.5)
        self.dofs = [1, 1] if self.split else [n]

    def build(self, rows=None, vec=False):
        """The objective for the given batch elements."""
        rows = list(range(self.B)) if rows is None else rows
        xs = [th.Vector(tensor=torch.zeros(len(rows), d, dtype=F64), name=f"x{i}") for i, d in enumerate(self.dofs)]
        w = th.ScaleCostWeight(torch.ones(1, 1, dtype=F64))
        obj = th.Objective(dtype=F64)
        o = 0
        for k, m in enumerate(self.ms):
            TA = torch.tensor([[c["A"][o : o + m] for c in self.cells[i]] for i in rows], dtype=F64) * self.scale
            Te = torch.tensor([[c["e"][o : o + m] for c in self.cells[i]] for i in rows], dtype=F64) * self.scale
            obj.add(CellCost(xs, th.Variable(TA, name=f"A{k}"), th.Variable(Te, name=f"e{k}"), w, name=f"f{k}"))
            o += m
        obj.update({})
        return obj

    def start(self, obj, x0):
        """x0: per element lists"""
        ins, o = {}, 0
        for i, d in enumerate(self.dofs):
            ins[f"x{i}"] = torch.tensor([v[o : o + d] for v in x0], dtype=F64)
            o += d
        obj.update(ins)

    def x(self, obj):
        return torch.cat([obj.get_optim_var(f"x{i}").tensor.detach() for i in range(len(self.dofs))], dim=1)


OPTS = {"gn": th.GaussNewton, "lm": th.LevenbergMarquardt, "dl": th.Dogleg}
SOLVERS = {"chol": th.CholeskyDenseSolver, "lu": th.LUDenseSolver, "cholmod": th.CholmodSparseSolver}


def fix_of(v, s):
    return max(-(2**30), min(2**30, int(round(float(v) * s)))) if v == v else 2**30


def optimize(P, obj, opt, kw, mode, nograd, x0, track=True):
    """One call of optimize(); returns (tag, info, calls, final x)."""
    P.start(obj, x0)
    calls = []
    k = dict(kw)
    if track:
        k.update(track_err_history=True, track_state_history=True, track_best_solution=True)
    with torch.no_grad() if nograd else torch.enable_grad():
        tag, info = call(lambda: opt.optimize(
            backward_mode=mode, end_iter_callback=lambda o, i, d, it: calls.append((it, P.x(obj))), **k))
    return tag, info, calls, P.x(obj)


def history(P, info, B):
    """columns of x (B, n, T) up to the last recorded iteration, errors (B, T)"""
    eh = info.err_history.double()
    T = int(torch.isfinite(eh).all(dim=0).sum())
    fin = torch.isfinite(eh).any(dim=0)
    ok = bool(fin[:T].all()) and not bool(fin[T:].any())
    xs = torch.cat([info.state_history[f"x{i}"].double() for i in range(len(P.dofs))], dim=1)
    return xs[..., :T], eh[:, :T], ok and bool(torch.isfinite(xs[..., :T]).all()) and not bool(torch.isfinite(xs[..., T:]).any())


def record(P, meta, res, rows=None):
    """Events of one run."""
    tag, info, calls, xf = res
    rows = list(range(P.B)) if rows is None else rows
    B = len(rows)
    n = P.n
    fixp = lambda v: fix_of(v, P.S)
    e2 = lambda t: to_int(2 * float(t) / P.scale**2)
    fl = lambda c: [[int(v // 1) for v in c[i].tolist()] for i in range(B)]
    ev = []
    x0 = torch.tensor(meta["x0"], dtype=F64)
    cells = [P.cells[i] for i in rows]

    def cell_e2(i, x):
        f = [int(v // 1) for v in x.tolist()]
        c = cells[i][(f[0] + (3 * f[1] if n == 2 else 0)) % P.K]
        return sum(v * v for v in c["e"])

    def column(xs, t, err2):
        return {"op": "iter", "x": [[fixp(v) for v in r] for r in xs[..., t].tolist()], "fl": fl(xs[..., t]),
                "same": [int(torch.equal(xs[i, :, t], xs[i, :, t - 1])) for i in range(B)], "e2": err2}

    start = {k: v for k, v in meta.items() if k != "x0"}
    start.update(op="start", B=B, K=P.K, S=P.S, cells=cells, x=[[fixp(v) for v in r] for r in x0.tolist()],
                 fl=fl(x0), e2=[cell_e2(i, x0[i]) for i in range(B)])
    ev.append(start)
    if tag != "ok":
        raised = isinstance(info, RuntimeError)
        if raised and meta["mode"] in ("unroll", "dlm"):
            # no info is returned: the callback saw every iteration before the failure
            xs = torch.stack([x0] + [x for _, x in calls], dim=2)
            for t in range(1, xs.shape[-1]):
                ev.append(column(xs, t, [cell_e2(i, xs[i, :, t]) for i in range(B)]))
        ev.append({"op": "end", "res": "raised" if raised else "crash", "why": repr(info)[:300]})
        return ev
    xs, eh, ok = history(P, info, B)
    if not ok or not torch.equal(xs[..., 0], x0) or [e2(v) for v in eh[:, 0]] != start["e2"]:
        ev.append({"op": "end", "res": "bad_history", "why": str(eh.tolist())})
        return ev
    for t in range(1, xs.shape[-1]):
        ev.append(column(xs, t, [e2(v) for v in eh[:, t]]))
    ev.append({"op": "end", "res": "ok", "status": [s.name for s in info.status], "citer": info.converged_iter.tolist(),
               "last": [e2(v) for v in info.last_err], "final": int(torch.equal(xf, xs[..., -1])),
               "best": [e2(v) for v in info.best_err], "biter": info.best_iter.tolist(),
               "bestx": [[fixp(v) for v in torch.cat([info.best_solution[f"x{j}"][i].double().reshape(-1) for j in range(len(P.dofs))]).tolist()]
                         for i in range(B)],
               "calls": [it for it, _ in calls]})
    return ev
