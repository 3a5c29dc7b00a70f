"""P19: autodiff cost functions (AutoDiffMC graph replay, AutoDiff judge)."""
from concurrent.futures import ThreadPoolExecutor

import torch
import theseus as th

from vh.core import call, ints
from vh.lie import CUBE, DIM, DOF, QUATS2, RIGID, fx, mat, rand_el, to_param
from vh.tlc import Graph, run_tlc, validate_traces

D64 = torch.float64
CLS = {"SO2": th.SO2, "SE2": th.SE2, "SO3": th.SO3, "SE3": th.SE3}
MODES = ["dense", "loop_batch", "vmap"]


class Boom(Exception):
    pass


class PolyFn:
    """The error function: integer monomials over the stored entries of all variables."""

    def __init__(self, fn, order):
        self.fn = fn          # per output: list of {"c", "f": [[var, entry]]} (1-based)
        self.order = order    # variable index -> ("o"|"a", position)
        self.fail = 0  # fail at this call from now

    def __call__(self, optim_vars, aux_vars):
        ts = []
        for where, i in self.order:
            t = (optim_vars if where == "o" else aux_vars)[i].tensor
            ts.append(t.reshape(t.shape[0], -1))
        if self.fail:
            self.fail -= 1
            if not self.fail:
                raise Boom("error function failed")
        B = max(t.shape[0] for t in ts)
        cols = []
        for mons in self.fn:
            acc = torch.zeros(1, dtype=ts[0].dtype)
            for m in mons:
                v = torch.full((1,), float(m["c"]), dtype=ts[0].dtype)
                for a, e in m["f"]:
                    v = v * ts[a - 1][:, e - 1]
                acc = acc + v
            cols.append(acc.expand(B))
        return torch.stack(cols, 1)


def storage(kind, el):
    """Exact stored entries of a group element with a cube rotation."""
    m = mat(kind, el)
    return [int(round(float(v))) for v in to_param(kind, m).reshape(-1)]


def shaped(kind, rows, dtype):
    t = torch.tensor([[float(v) for v in r] for r in rows], dtype=dtype)
    if kind == "SO3":
        return t.view(-1, 3, 3)
    if kind == "SE3":
        return t.view(-1, 3, 4)
    return t


def make_var(kind, rows, dtype, name=None, cls=None):
    t = shaped(kind, rows, dtype)
    if kind == "V":
        return (cls or th.Vector)(tensor=t, name=name)
    if kind == "P":
        return th.Variable(t, name=name)
    return CLS[kind](tensor=t, name=name)


# ------------------------------------------------------------------ graph replay
MC_FN = [[{"c": 1, "f": [[1, 1], [1, 1], [3, 1]]}, {"c": 2, "f": [[2, 1]]}],
         [{"c": 1, "f": [[2, 2], [1, 1]]}, {"c": -1, "f": [[3, 2], [2, 1], [1, 1]]}, {"c": 3, "f": []}]]
MC_KIND = {"x": "V", "g": "SO2", "a": "V"}


def replay(ctx, g, obs, mode):
    rng = ctx.rng
    for start, walk in g.walks(rng, max_len=40, limit=ctx.n(900, None)):
        ctx.traces += 1
        dtype = D64
        s0 = g.state[start]["x"]
        f = PolyFn(MC_FN, [("o", 0), ("o", 1), ("a", 0)])
        v = {n: make_var(MC_KIND[n], s0[n], dtype, n) for n in "xga"}
        cost = th.AutoDiffCostFunction([v["x"], v["g"]], f, 2, aux_vars=[v["a"]], autograd_mode=mode,
                                       cost_weight=th.ScaleCostWeight(torch.ones(1, 1, dtype=dtype)))
        other = None
        for i, (s, a, t) in enumerate(walk):
            ctx.events += 1
            want = obs[(s, Graph.key(a))]
            bad = ""
            op = a["op"]

            def vs(c):
                return dict(zip("xga", list(c.optim_vars) + list(c.aux_vars)))

            try:
                if op == "set":
                    vs(cost)[a["n"]].update(shaped(MC_KIND[a["n"]], a["r"], dtype))
                elif op == "copy":
                    other, cost = cost, cost.copy()
                elif op == "swap":
                    other, cost = cost, other
                elif op == "to":
                    dtype = torch.float32 if dtype == D64 else D64
                    cost.to(dtype=dtype)
                    if other is not None:
                        other.to(dtype=dtype)
                elif op == "fail":
                    tags = []
                    for fn, at in ((cost.error, 1), (cost.jacobians, 1), (cost.jacobians, 2)):
                        f.fail = at  # the second call is inside the differentiation
                        tags.append(call(fn)[0])
                        f.fail = 0
                    if tags != ["Boom"] * 3:
                        bad = f"failing error function: {tags}"
                before = {n: x.tensor for n, x in vs(cost).items()}
                vals = {n: x.clone() for n, x in before.items()}
                e = cost.error()
                if op == "error":
                    je = e
                    js = None
                else:
                    js, je = cost.jacobians()
                if ints(e) != want["err"] or ints(je) != want["err"]:
                    bad = bad or "error"
                if js is not None:
                    got = [[ints(js[k][b]) for k in range(2)] for b in range(e.shape[0])] if all(j.shape[0] == e.shape[0] for j in js) else "shape"
                    if got != want["j"]:
                        bad = bad or "jacobian"
                    if any(j.dtype != dtype for j in js):
                        bad = bad or "dtype"
                for n, x in vs(cost).items():
                    if x.tensor is not before[n] or not torch.equal(x.tensor, vals[n]):
                        bad = bad or "variables touched"
            except Exception as ex:  # noqa: BLE001
                bad = f"{type(ex).__name__}"
                e = js = str(ex)[:300]
            if bad:
                ctx.violation(f"autodiff ({mode}) {op}: {bad}",
                              {"walk": [w[1] for w in walk[: i + 1]], "err": str(e), "jac": str(js), "want": want}, key=f"{mode}:{op}:{bad}")
                break
        if len(ctx.violations) > 12:
            return


# ------------------------------------------------------------------ random functions
def random_case(ctx, rec, rng):
    mode = rng.choice(MODES)
    dtype = rng.choice([D64, D64, torch.float32])
    B = rng.choice([1, 2, 3])
    no, na = rng.randint(1, 3), rng.randint(0, 2)
    kinds = [rng.choice(["V", "V", "SO2", "SE2", "SO3", "SE3"]) for _ in range(no)]
    kinds += [rng.choice(["V", "P", "P", "SO2", "SE3"]) for _ in range(na)]
    dims = [rng.randint(1, 3) if k in "VP" else None for k in kinds]

    def rows(i, n):
        out = []
        for _ in range(n):
            if kinds[i] in "VP":
                out.append([rng.randint(-3, 3) for _ in range(dims[i])])
            else:
                k = kinds[i]
                q = rng.choice(CUBE if DIM[k] == 3 else [c for c in QUATS2 if c[0] ** 2 + c[3] ** 2 <= 2])
                out.append(storage(k, {"q": list(q), "t": [rng.randint(-2, 2) for _ in range(DIM[k])] if k in RIGID else []}))
        return out

    def sizes():
        s = [B] * no + [rng.choice([1, B]) for _ in range(na)]
        if rng.random() < 0.35:
            s = [rng.choice([1, B]) for _ in range(no + na)]
        return s

    entries = [(i + 1, e + 1) for i in range(no + na) for e in range(len(rows(i, 1)[0]))]
    dim = rng.randint(1, 3)
    fn = []
    for _ in range(dim):
        mons = [{"c": rng.choice([-2, -1, 1, 2, 3]), "f": [list(rng.choice(entries)) for _ in range(rng.randint(0, 3))]} for _ in range(rng.randint(1, 4))]
        fn.append(mons)
    # every optimisation variable must matter somewhere for the derivative graph to exist
    for i in range(no):
        fn[rng.randrange(dim)].append({"c": rng.choice([1, 2]), "f": [list(rng.choice([e for e in entries if e[0] == i + 1]))]})
    order = [("o", i) for i in range(no)] + [("a", i) for i in range(na)]
    f = PolyFn(fn, order)
    kw = {}
    if mode != "vmap" and rng.random() < 0.3:
        kw["autograd_vectorize"] = True
        if rng.random() < 0.3:
            kw["autograd_strategy"] = "forward-mode"
            kw["autograd_create_graph"] = False  # required by torch
    sz = sizes()
    vals = [rows(i, n) for i, n in enumerate(sz)]
    vs = [make_var(k, r, dtype) for k, r in zip(kinds, vals)]
    hist = [("build", sz)]
    meta = {"mode": mode, "kinds": kinds, "fn": fn, "kw": kw, "hist": hist, "dtype": str(dtype)}
    tag, cost = call(th.AutoDiffCostFunction, vs[:no], f, dim, aux_vars=vs[no:], autograd_mode=rng.choice([mode, mode.upper(), th.AutogradMode[mode.upper()]]), **kw)
    if tag != "ok":
        rec.add(meta, op="outcome", res=tag, exp="ok", what="build")
        return
    for stage in range(rng.randint(1, 4)):
        if stage:
            how = rng.choice(["update", "update", "partial", "copy", "to", "fail"])
            hist.append((how, None))
            allv = list(cost.optim_vars) + list(cost.aux_vars)
            if how == "update":
                sz = sizes()
                vals = [rows(i, n) for i, n in enumerate(sz)]
                hist[-1] = (how, sz)
                for v, k, r in zip(allv, kinds, vals):
                    v.update(shaped(k, r, dtype))
            elif how == "partial":
                i = rng.randrange(no + na)
                n = len(vals[i])
                vals = list(vals)
                vals[i] = rows(i, n)
                allv[i].update(shaped(kinds[i], vals[i], dtype))
            elif how == "copy":
                cost = cost.copy()
            elif how == "to":
                dtype = torch.float32 if dtype == D64 else D64
                cost.to(dtype=dtype)
            else:
                f.fail = rng.choice([1, 2])
                call(cost.jacobians)
                f.fail = 0
        judge(rec, rng, meta, cost, f, fn, kinds, vals, no, dtype, kw)


def judge(rec, rng, meta, cost, f, fn, kinds, vals, no, dtype, kw):
    B = max(len(r) for r in vals)
    dim = len(fn)
    allv = list(cost.optim_vars) + list(cost.aux_vars)
    keep = [v.tensor for v in allv]
    copies = [t.clone() for t in keep]
    # an auxiliary (or other) input the jacobians should be differentiable through
    gv, gt = [], []
    if kw.get("autograd_create_graph", True) and kw.get("autograd_strategy") is None and rng.random() < 0.6:
        cand = [i for i in range(no, len(allv)) if kinds[i] in "VP"]
        for i in cand[:1]:
            t = keep[i].clone().requires_grad_(True)
            allv[i].update(t)
            gv.append(i + 1)
            gt.append(t)
            keep[i] = t
    m = dict(meta, hist=list(meta["hist"]), vals=vals)
    tag, err = call(cost.error)
    tag2, je = call(cost.jacobians)
    if tag != "ok" or tag2 != "ok":
        rec.add(m, op="outcome", res=f"{tag} {tag2}", exp="ok", what="evaluation")
        return
    jac, jerr = je
    dof = [len(vals[i][0]) if kinds[i] in "VP" else DOF[kinds[i]] for i in range(no)]
    ok = tuple(err.shape) == tuple(jerr.shape) == (B, dim) and all(tuple(j.shape) == (B, dim, d) and j.dtype == dtype for j, d in zip(jac, dof))
    rec.add(m, op="outcome", res="shapes" if ok else str([tuple(err.shape), tuple(jerr.shape)] + [tuple(j.shape) for j in jac]), exp="shapes", what="shapes")
    same = all(v.tensor is t and torch.equal(t.detach(), c) for v, t, c in zip(allv, keep, copies))
    rec.add(m, op="outcome", res="same" if same else "changed", exp="same", what="variables_untouched")
    if not ok:
        return
    tol = 1e-5 if dtype == D64 else 2e-3
    W, gs = [], [[] for _ in range(B)]
    if gt:
        W = [[[rng.randint(-2, 2) for _ in range(d)] for _ in range(dim)] for d in dof]
        if len(vals[gv[0] - 1]) != B:
            gv, gt = [], []
    if gt:
        tot = sum((torch.tensor(w, dtype=dtype) * j).sum() for w, j in zip(W, jac))
        g = torch.autograd.grad(tot, gt, allow_unused=True)[0] if tot.requires_grad else None
        g = torch.zeros_like(gt[0]) if g is None else g
        gs = [[ints(g[b].reshape(-1), tol=tol)] for b in range(B)]
    for b in range(B):
        x = [{"kind": "V" if k == "P" else k, "v": r[b % len(r)]} for k, r in zip(kinds, vals)]
        rec.add(m, op="eval", fn=fn, x=x, opt=[i + 1 for i in range(no)], err=ints(err[b], tol=tol), jerr=ints(jerr[b], tol=tol),
                j=[ints(j[b], tol=tol) for j in jac], g=gs[b], gv=gv if gs[b] else [], W=W)


# ------------------------------------------------------------------ analytic counterparts
def local_err(optim_vars, aux_vars):
    return aux_vars[0].local(optim_vars[0])


def between_err(optim_vars, aux_vars):
    return aux_vars[0].local(optim_vars[0].between(optim_vars[1]))


def analytic_case(rec, rng):
    """Autodiff versions of the shipped costs agree with the shipped ones."""
    ty = rng.choice(list(DOF))
    B = rng.choice([1, 2, 3])
    kind = rng.choice(["local", "between", "transform"])
    n = {"local": 2, "between": 3, "transform": 2}[kind]
    mode = rng.choice(MODES)
    if kind == "transform" and ty not in RIGID:
        kind, n = "local", 2
    els = [[rand_el(rng, ty) for _ in range(B if i < n - 1 else rng.choice([1, B]))] for i in range(n)]
    vs = [CLS[ty](tensor=torch.stack([to_param(ty, mat(ty, e)) for e in x])) for x in els]
    w = th.ScaleCostWeight(1.0)
    meta = {"analytic": kind, "ty": ty, "mode": mode, "els": els}
    if kind == "local":
        ref = th.eb.Local(vs[0], vs[1], w)
        auto = th.AutoDiffCostFunction(vs[:1], local_err, DOF[ty], aux_vars=vs[1:], autograd_mode=mode)
    elif kind == "between":
        ref = th.eb.Between(vs[0], vs[1], vs[2], w)
        auto = th.AutoDiffCostFunction(vs[:2], between_err, DOF[ty], aux_vars=vs[2:], autograd_mode=mode)
    else:
        P = th.Point2 if DIM[ty] == 2 else th.Point3
        p = P(tensor=torch.tensor([[float(rng.randint(-3, 3)) for _ in range(DIM[ty])] for _ in range(rng.choice([1, B]))], dtype=D64))
        auto = th.AutoDiffCostFunction(vs[:1], lambda optim_vars, aux_vars: optim_vars[0].transform_from(aux_vars[0]).tensor, DIM[ty],
                                       aux_vars=[p], autograd_mode=mode)
        ref = None
    tag, je = call(auto.jacobians)
    if tag != "ok":
        rec.add(meta, op="outcome", res=tag, exp="ok", what="analytic_evaluation")
        return
    if ref is None:
        js = []
        e = vs[0].transform_from(p, jacobians=js).tensor
        jr = js[:1]
    else:
        jr, e = ref.jacobians()
    half = any(abs(float(v[-1 if DIM[ty] == 2 else -3:].norm()) - 3.14159265) < 1e-3 for v in e) if kind != "transform" else False
    rec.add(meta, op="same", a=fx(je[1]), b=fx(e), tol=2, what=f"analytic_{kind}_error")
    if not half:
        for a, b in zip(je[0], jr):
            for i in range(a.shape[0]):
                rec.add(meta, op="same", a=fx(a[i]), b=fx(b.expand(a.shape[0], *b.shape[1:])[i]), tol=3, what=f"analytic_{kind}_jacobian")


def refusals(rec, rng):
    f = PolyFn([[{"c": 1, "f": [[1, 1]]}]], [("o", 0)])
    x = th.Vector(tensor=torch.ones(1, 2, dtype=D64))
    rec.add({}, op="outcome", res=call(th.AutoDiffCostFunction, [], f, 1)[0], exp="ValueError", what="no_optimisation_variables")
    rec.add({}, op="outcome", res=call(th.AutoDiffCostFunction, [x], f, 1, autograd_mode="other")[0], exp="ValueError", what="unknown_mode")
    for mode in MODES:
        tag, c = call(th.AutoDiffCostFunction, [x.copy()], f, 2, autograd_mode=mode)
        rec.add({}, op="outcome", res=call(c.error)[0] if tag == "ok" else tag, exp="ValueError", what="wrong_dimension")


class Rec:
    def __init__(self):
        self.ev, self.meta = [], []

    def add(self, meta, **e):
        self.ev.append(e)
        self.meta.append(meta)


def run(ctx):
    rng = ctx.rng
    res = run_tlc("AutoDiffMC", "AutoDiffMC.cfg", timeout=600)
    ctx.model(res)
    g = Graph(res.prints)
    obs = {(Graph.key(p["s"]), Graph.key(p["a"])): p["obs"] for p in res.prints if "obs" in p}
    for mode in MODES:
        replay(ctx, g, obs, mode)
    rec = Rec()
    for _ in range(ctx.n(350, 6000)):
        random_case(ctx, rec, rng)
        if rng.random() < 0.3:
            analytic_case(rec, rng)
    refusals(rec, rng)
    parts = [(i, rec.ev[i : i + 3000]) for i in range(0, len(rec.ev), 3000)]
    with ThreadPoolExecutor(4) as ex:
        out = list(ex.map(lambda p: validate_traces("AutoDiff", "AutoDiff.cfg", p[1], timeout=800), parts))
    seen = {}
    for (i, _), (rej, r) in zip(parts, out):
        ctx.model(r)
        for x in rej:
            k = i + x["line"] - 1
            for c in x["clauses"]:
                key = f"{rec.meta[k].get('mode')}:{c}"
                seen[key] = seen.get(key, 0) + 1
                if seen[key] <= 2:
                    ctx.violation(f"autodiff cost function: {c}", {"event": rec.ev[k], "meta": str(rec.meta[k])[:2500]}, key=key)
    ctx.events += len(rec.ev)
    ctx.traces += len(rec.ev)
    for e in rec.ev[:3]:
        ctx.sample(e)
    ctx.extra["clauses_failing"] = seen
    ctx.assumptions += ["error functions are polynomials with integer coefficients at integer points (exact), plus the shipped analytic costs",
                        "every optimisation variable influences the error"]
