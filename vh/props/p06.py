"""P06: weights and robust losses, exactly.

Cases come from the specification (WeightsMC: the whole grid with expected
results) and from random generation (judged by WeightsTrace); batches mix cases."""
import math

import torch
import theseus as th
import theseus.embodied as eb

from vh.core import call, ints, ratio
from vh.tlc import run_tlc, validate_traces

F64 = torch.float64
LN2 = math.log(2.0)
LOSS = {"huber": th.HuberLoss, "hinge": th.HingeLoss, "welsch": th.WelschLoss, "gm": th.GemanMcClureLoss}


class Lin(th.CostFunction):
    """error = A x - c with batched auxiliary A and c."""

    def __init__(self, x, A, c, weight, name=None):
        super().__init__(weight, name=name)
        self.x, self.A, self.c = x, A, c
        self.register_optim_vars(["x"])
        self.register_aux_vars(["A", "c"])

    def error(self):
        return (self.A.tensor @ self.x.tensor.unsqueeze(2)).squeeze(2) - self.c.tensor

    def jacobians(self):
        e = self.error()
        return [self.A.tensor.expand(e.shape[0], -1, -1).clone()], e

    def dim(self):
        return self.c.shape[1]

    def _copy_impl(self, new_name=None):
        return Lin(self.x.copy(), self.A.copy(), self.c.copy(), self.weight.copy(), name=new_name)


def radius(c):
    return {"huber": c["r"] ** 2, "hinge": c["r"] ** 2, "welsch": c["r"] / LN2}.get(c["loss"], c["r"])


def rat(t, k=1.0):
    if isinstance(t, list):
        return [rat(u, k) for u in t]
    return ratio(t * k, maxden=60000, tol=1e-10)


def build(rng, cases, dtype=F64):
    """One cost function whose batch elements are the given (compatible) cases."""
    T = lambda x: torch.tensor(x, dtype=dtype)
    B, n, d = len(cases), len(cases[0]["e"]), len(cases[0]["J"][0])

    def share(rows):  # broadcast when all rows are equal
        return rows[:1] if all(r == rows[0] for r in rows) and rng.random() < 0.8 else rows

    x = [[rng.randint(-2, 2) for _ in range(d)] for _ in range(B)]
    cc = [[sum(a * b for a, b in zip(row, x[i])) - e for row, e in zip(c["J"], c["e"])]
          for i, c in enumerate(cases)]
    xv = th.Vector(tensor=T(x), name="x")
    Av = th.Variable(T(share([c["J"] for c in cases])), name="A")
    cv = th.Variable(T(cc), name="c")
    loss = cases[0]["loss"]
    if loss == "gp":
        w = eb.GPCostWeight(th.Variable(T(share([c["Q"] for c in cases])), name="Q"),
                            th.Variable(T(share([[c["dt"]] for c in cases])), name="dt"))
    else:
        wv = th.Variable(T(share([c["w"] for c in cases])), name="w")
        w = th.ScaleCostWeight(wv) if len(cases[0]["w"]) == 1 else th.DiagonalCostWeight(wv)
    f = Lin(xv, Av, cv, w, name="f")
    if loss in LOSS:
        rad = th.Variable(T(share([[math.log(radius(c))] for c in cases])), name="rad")
        if loss == "gm":
            mu = th.Variable(T(share([[c["mu"]] for c in cases])), name="mu")
            f = th.GNCRobustCostFunction(f, LOSS[loss], rad, mu, flatten_dims=cases[0]["flat"] == 1, name="rf")
        else:
            f = th.RobustCostFunction(f, LOSS[loss], rad, flatten_dims=cases[0]["flat"] == 1, name="rf")
    return f, xv, w


def evaluate(rng, cases, masking):
    """Evaluates one batch; one event per element."""
    f, xv, w = build(rng, cases)
    B, loss = len(cases), cases[0]["loss"]
    if masking == "vec":  # inside a vectorized objective
        obj = th.Objective(dtype=F64)
        # a second one of the same kind, so that both are evaluated together
        fs = [f, f.copy(new_name="other")]
        k = rng.randint(0, 1)
        for c in fs[k:] + fs[:k]:
            obj.add(c)
        obj.update({})
        th.Vectorize(obj)
        g = list(obj._get_jacobians_iter())[k]
        h, (J, e) = obj.error(), g.weighted_jacobians_error()
        h = h[:, k * f.dim() : (k + 1) * f.dim()]
    else:
        h = f.weighted_error()
        J, e = f.weighted_jacobians_error()
    J = J[0]
    out = []
    p = 1.0 if loss != "welsch" else LN2
    if loss == "gp":
        for b in range(B):
            jb, ebt, hb = J[b], e[b], h[b]
            out.append({"op": "gp", "res": "ok", "c": cases[b], "hh": rat((hb @ hb).item()),
                        "ee": rat((ebt @ ebt).item()), "ej": rat((jb.t() @ ebt).tolist()),
                        "jj": rat((jb.t() @ jb)[:, 0].tolist())})
        return out
    grads = []
    if masking == "grad":
        xv.tensor.requires_grad_(True)
        h = f.weighted_error()
        for i in range(h.shape[1]):
            grads.append(torch.autograd.grad((h[:, i] ** 2).sum(), xv.tensor, retain_graph=True)[0])
        xv.tensor.requires_grad_(False)
    z = w.is_zero().expand(B).int().tolist()
    for b in range(B):
        ev = {"op": "w", "res": "ok", "c": cases[b], "h2": rat((h[b] ** 2).tolist(), p),
              "ee": rat((e[b] ** 2).tolist()), "ej": rat((e[b].unsqueeze(1) * J[b]).tolist()),
              "jj": rat((J[b] * J[b][:, :1]).tolist()), "zero": z[b]}
        if loss == "none":
            ev["we"], ev["wj"] = ints(h[b]), ints(J[b])
        if grads:
            # rows: gradient of h_i^2
            ev["gr"] = rat([g[b].tolist() for g in grads])
        out.append(ev)
    return out


def batches(rng, cases, size=4):
    """Groups compatible cases (same structure) into mixed batches."""
    groups = {}
    for c in cases:
        groups.setdefault((c["loss"], c.get("flat", 0), len(c.get("w", [])), len(c["e"]), len(c["J"][0]),
                           len(c.get("Q", []))), []).append(c)
    for k in sorted(groups):
        g = groups[k]
        rng.shuffle(g)
        i = 0
        while i < len(g):
            n = rng.randint(1, size)
            yield g[i : i + n]
            i += n


def is_square(n):
    return math.isqrt(n) ** 2 == n


def rand_case(rng):
    loss = rng.choice(["none", "huber", "huber", "hinge", "welsch", "gm", "gp"])
    if loss == "gp":
        k = rng.choice([1, 2])
        M = [[rng.randint(-1, 2) for _ in range(k)] for _ in range(k)]
        Q = [[sum(M[a][i] * M[b][i] for i in range(k)) + (a == b) for b in range(k)] for a in range(k)]
        return {"loss": "gp", "Q": Q, "dt": rng.randint(1, 4), "e": [rng.randint(-3, 3) for _ in range(2 * k)],
                "J": [[rng.randint(-2, 2) for _ in range(2)] for _ in range(2 * k)]}
    while True:
        n = rng.choice([1, 2, 3])
        c = {"loss": loss, "flat": rng.randint(0, 1), "r": rng.randint(1, 5), "mu": rng.randint(1, 4),
             "e": [rng.randint(-3, 3) for _ in range(n)],
             "w": [rng.choice([0, 1, 1, 2, -1, 3]) for _ in range(rng.choice([1, n]))],
             "J": [[rng.randint(-2, 2) for _ in range(2)] for _ in range(n)]}
        we = [c["w"][i if len(c["w"]) > 1 else 0] * e for i, e in enumerate(c["e"])]
        xs = [v * v for v in we] if c["flat"] else [sum(v * v for v in we)]
        r = c["r"]
        if loss in ("huber", "hinge") and not all(x <= r * r or is_square(x) for x in xs):
            continue
        if loss == "hinge" and r > 1 and r * r in xs:  # exp(log(r^2)) is not exactly r^2
            continue
        if loss == "welsch" and not all(x % r == 0 and x // r <= 12 for x in xs):
            continue
        if loss == "none":
            c["flat"] = 0
        return c


def run(ctx):
    r = run_tlc("WeightsMC", "WeightsMC.cfg")
    ctx.model(r)
    exp = [(p["c"], p["x"]) for p in r.prints]
    key = {repr(sorted(c.items())): x for c, x in exp}
    modes = ["plain", "vec", "grad"]
    for mode in modes:
        for cs in batches(ctx.rng, [c for c, _ in exp]):
            tag, evs = call(evaluate, ctx.rng, cs, mode)
            ctx.traces += 1
            ctx.events += len(cs)
            if tag != "ok":
                ctx.violation(f"grid: {mode} evaluation raised {tag}: {str(evs)[:200]}", {"cases": cs})
                continue
            for e in evs:
                x = key[repr(sorted(e["c"].items()))]
                bad = [k for k in x if k in e and e[k] != x[k]]
                if bad:
                    ctx.violation(f"grid: {mode} {e['c']['loss']} {bad}", {"batch": cs, "got": e, "want": x})
    evs = []
    for mode in modes:
        for cs in batches(ctx.rng, [rand_case(ctx.rng) for _ in range(ctx.n(700, 12000))]):
            tag, out = call(evaluate, ctx.rng, cs, mode)
            ctx.traces += 1
            evs += out if tag == "ok" else [{"op": "w", "res": tag, "c": c, "why": str(out)[:200], "mode": mode}
                                            for c in cs]
    ctx.events += len(evs)
    rej, res = validate_traces("WeightsTrace", "WeightsTrace.cfg", evs)
    ctx.model(res)
    for x in rej:
        e = evs[x["line"] - 1]
        ctx.violation(f"{e['c']['loss']}: {x['clauses']}", e)
    ctx.sample(evs[0])
    dtypes(ctx)


def dtypes(ctx):
    """Single precision problems stay in single precision and finite."""
    for cs in batches(ctx.rng, [rand_case(ctx.rng) for _ in range(ctx.n(100, 1000))]):
        f, _, _ = build(ctx.rng, cs, torch.float32)
        h = f.weighted_error()
        J, e = f.weighted_jacobians_error()
        ctx.events += 1
        if any(t.dtype != torch.float32 or not torch.isfinite(t).all() for t in [h, e, *J]):
            ctx.violation("single precision", {"cases": cs})
