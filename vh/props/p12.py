"""P12: the layer's forward and backward modes (specs/LayerMC.tla, Layer.tla)."""
import itertools

import torch
import theseus as th

from vh import opt as O
from vh.core import call, to_int, BAD
from vh.tlc import Graph, run_tlc, validate_traces

F64, F32 = torch.float64, torch.float32
MODES = ["unroll", "implicit", "truncated", "dlm"]


class Lin(th.CostFunction):
    """error = sum_k A_k x_k + q * x_0[0]^2 - c."""

    q = 0

    def __init__(self, xs, As, c, weight, name=None):
        super().__init__(weight, name=name)
        self.k = len(xs)
        for i, x in enumerate(xs):
            setattr(self, f"x{i}", x)
            self.register_optim_var(f"x{i}")
        for i, A in enumerate(As):
            setattr(self, f"A{i}", A)
            self.register_aux_var(f"A{i}")
        self.c = c
        self.register_aux_var("c")

    def mats(self):
        return [getattr(self, f"A{i}").tensor for i in range(self.k)]

    def error(self):
        e = -self.c.tensor
        for i, A in enumerate(self.mats()):
            e = e + (A @ getattr(self, f"x{i}").tensor.unsqueeze(2)).squeeze(2)
        if self.q:
            e = e + self.q * self.x0.tensor[:, :1] ** 2
        return e

    def jacobians(self):
        e = self.error()
        J = [A.expand(e.shape[0], -1, -1) for A in self.mats()]
        if self.q:
            one = torch.zeros_like(J[0])
            one[:, :, 0] = 1.0
            J[0] = J[0] + 2 * self.q * self.x0.tensor[:, :1].unsqueeze(2) * one
        return J, e

    def dim(self):
        return self.c.shape[1]

    def _copy_impl(self, new_name=None):
        return type(self)([getattr(self, f"x{i}").copy() for i in range(self.k)],
                          [getattr(self, f"A{i}").copy() for i in range(self.k)],
                          self.c.copy(), self.weight.copy(), name=new_name)


class LinQ(Lin):
    q = 1


_const = itertools.count()


def const(rows, dtype=torch.float64):
    return th.Variable(torch.tensor([[[float(y) for y in r] for r in rows]], dtype=dtype), name=f"const{next(_const)}")


def grads(loss, leaves):
    gs = torch.autograd.grad(loss, leaves, allow_unused=True)
    return [torch.zeros_like(t) if g is None else g for g, t in zip(gs, leaves)]


# --------------------------------------------------------------- state machine replay
class World:
    def __init__(self, rng, val):
        self.rng, self.dtype, self.B = rng, F64, rng.choice([1, 2, 3])
        self.vec = rng.random() < 0.7
        self.solver = rng.choice(list(O.SOLVERS.values()))
        self.val = dict(val)
        T = lambda v: torch.full((1 if rng.random() < 0.3 else self.B, 1), float(v), dtype=F64)
        self.x = th.Vector(tensor=torch.zeros(self.B, 1, dtype=F64), name="x")
        self.v = {n: th.Variable(T(val[n]), name=n) for n in val}
        one = th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=F64), name="one"))
        self.obj = th.Objective(dtype=F64)
        self.obj.add(Lin([self.x], [const([[2]])], self.v["y"], th.ScaleCostWeight(self.v["w"]), name="f1"))
        self.obj.add(Lin([self.x], [const([[1]])], self.v["p"], one, name="f2"))
        self.pend = None
        self.make()

    def make(self):
        self.opt = th.GaussNewton(self.obj, linear_solver_cls=self.solver, max_iterations=self.rng.choice([2, 3, 5]))
        self.layer = th.TheseusLayer(self.opt, vectorize=self.vec)

    def fwd(self, a):
        rng = self.rng
        nb = {n: 1 if rng.random() < 0.3 else self.B for n in a["T"]}
        vals = dict(self.val)
        for n in a["T"]:
            alt = {"y": (1, 3), "w": (1, 2), "p": (0, 2)}[n]
            vals[n] = alt[1] if vals[n] == alt[0] else alt[0]
        ins = {n: torch.full((nb[n], 1), float(vals[n]), dtype=self.dtype, requires_grad=bool(a["grad"])) for n in a["T"]}
        leaves = dict(ins)
        if self.x.tensor.requires_grad or rng.random() < 0.5:
            ins["x"] = torch.tensor([[rng.randint(-3, 3)] for _ in range(self.B)], dtype=self.dtype)
        kw = {}
        if a["mode"] == "truncated":
            kw["backward_num_iterations"] = rng.choice([1, 2])
        if a["mode"] == "dlm":
            kw["dlm_epsilon"] = 1e-6 if self.dtype == F64 else 3e-3
        with torch.set_grad_enabled(bool(a["grad"]) or rng.random() < 0.5):
            if a["mode"] == "direct":
                def go():
                    if a["res"] == "ok":
                        self.obj.update(ins)
                    info = self.opt.optimize(backward_mode="unroll")
                    return {"x": self.x.tensor}, info
                tag, out = call(go)
            else:
                tag, out = call(self.layer, ins if ins or rng.random() < 0.5 else None,
                                optimizer_kwargs=dict(kw, backward_mode=a["mode"]))
        if tag == "ok":
            self.val = vals
            self.pend = (out[0]["x"], leaves) if a["grad"] and leaves else None
            return "ok", out[0]["x"]
        return tag, out

    def current(self):
        return {n: sorted(set(v.tensor.detach().flatten().tolist())) for n, v in self.v.items()}


def replay(ctx):
    r = run_tlc("LayerMC", "LayerMC.cfg")
    ctx.model(r)
    g = Graph(r.prints)
    ctx.extra["graph_edges"] = g.n_edges
    # forward calls weigh the most: cover those and the backward passes
    for start, walk in g.walks(ctx.rng, max_len=40, limit=ctx.n(900, None)):
        w = World(ctx.rng, g.state[start]["val"])
        ctx.traces += 1
        for i, (s, a, t) in enumerate(walk):
            ctx.events += 1
            op, bad = a["op"], ""
            tol = 1e-4 if w.dtype == F64 else 4e-2
            if op == "fwd":
                tag, out = w.fwd(a)
                if a["res"] == "refused":
                    bad = "" if tag == "RuntimeError" else f"stale layer answered {tag}"
                elif tag != "ok":
                    bad = f"raised {tag}: {out}"
                else:
                    n, d = a["x"]
                    ok = out.shape == (w.B, 1) and out.dtype == w.dtype and bool(
                        ((out.detach() - n / d).abs() < (1e-6 if w.dtype == F64 else 1e-3)).all())
                    bad = "" if ok else f"solution {out.tolist()} != {n}/{d}"
            elif op == "bwd":
                x, leaves = w.pend
                w.pend = None
                tag, gs = call(grads, x.sum(), list(leaves.values()))
                if tag != "ok":
                    bad = f"backward raised {tag}: {gs}"
                else:
                    for n, gr in zip(leaves, gs):
                        num, den = a["g"][n]
                        exp = num / den * (w.B if gr.shape[0] == 1 else 1)
                        if not bool(((gr - exp).abs() < tol * max(1, abs(exp))).all()):
                            bad = f"gradient of {n}: {gr.flatten().tolist()} != {exp}"
            elif op == "upd":
                for n in a["T"]:
                    w.val[n] = g.state[t]["val"][n]
                    w.obj.update({n: torch.full((1 if ctx.rng.random() < 0.3 else w.B, 1), float(w.val[n]), dtype=w.dtype)})
            elif op == "edit":
                c = Lin([w.x], [const([[1]], w.dtype)], w.v["p"], th.ScaleCostWeight(2.0), name="extra")
                c.weight.to(dtype=w.dtype)
                w.obj.add(c)
                w.obj.erase("extra")
            elif op == "make":
                w.make()
            elif op == "to":
                w.dtype = F32 if w.dtype == F64 else F64
                w.layer.to(dtype=w.dtype)
            want = {n: [float(v)] for n, v in g.state[t]["val"].items()}
            if not bad and w.current() != want:
                bad = f"auxiliary values {w.current()} != {want}"
            if bad:
                ctx.violation(f"replayed {op} {a.get('mode', '')}: {bad}"[:200],
                              {"walk": [x[1] for x in walk[: i + 1]], "B": w.B, "vectorize": w.vec, "dtype": str(w.dtype)})
                break
    ctx.sample({"walk": [x[1] for x in walk[:6]]})


# ------------------------------------------------------------------- random problems
def det(M):
    if len(M) == 1:
        return M[0][0]
    return sum((-1) ** j * M[0][j] * det([r[:j] + r[j + 1 :] for r in M[1:]]) for j in range(len(M)))


class Rand:
    """A random problem with parameters shared between cost functions and elements."""

    def __init__(self, rng):
        self.rng = rng
        self.dims = rng.choice([[1], [2], [1, 1], [2, 1], [1, 2], [1, 1, 1], [3]])
        self.B = rng.choice([1, 2, 2, 3])
        n = sum(self.dims)
        self.quad = rng.random() < 0.3
        self.pars = {}  # name -> {"shape": (d, ...), "b": batch size, "kind": c/A/w}
        self.fs = []
        for i in range(len(self.dims)):
            self._f([i] + [j for j in range(len(self.dims)) if j != i and rng.random() < 0.5], self.dims[i] + rng.randint(0, 1))
        if rng.random() < 0.5:
            self._f(rng.sample(range(len(self.dims)), rng.randint(1, len(self.dims))), rng.randint(1, 2))
        self.n = n

    def _par(self, kind, shape, but=()):
        r = self.rng
        old = [k for k, p in self.pars.items() if p["kind"] == kind and p["shape"] == shape and k not in but]
        if old and r.random() < 0.35:
            return r.choice(old)
        name = f"{kind}{len(self.pars)}"
        self.pars[name] = {"kind": kind, "shape": shape, "b": 1 if r.random() < 0.35 else self.B}
        return name

    def _f(self, vs, d):
        r = self.rng
        r.shuffle(vs)
        As = []
        for v in vs:  # (a cost function takes a variable at most once)
            As.append(self._par("A", (d, self.dims[v]), [A for A in As if isinstance(A, str)]) if r.random() < 0.7 else
                      [[r.choice([-1, 0, 1, 1, 2]) for _ in range(self.dims[v])] for _ in range(d)])
        w = self._par("w", (1,)) if r.random() < 0.6 else self._par("w", (d,))
        q = r.choice([0, 1]) if self.quad else 0
        self.fs.append({"vs": vs, "d": d, "A": As, "c": self._par("c", (d,)), "w": w, "q": q})

    def draw(self):
        """Integer parameter values giving a small nonsingular system per element."""
        r = self.rng
        for _ in range(200):
            val = {}
            for k, p in self.pars.items():
                lo = {"c": [-3, -2, -1, 0, 1, 2, 3], "A": [-1, 0, 1, 1, 2], "w": [1, 1, 2]}[p["kind"]]
                sz = 1
                for s in p["shape"]:
                    sz *= s
                val[k] = [[r.choice(lo) for _ in range(sz)] for _ in range(p["b"])]
            self.val = val
            self.xstar = [[r.randint(-2, 2) for _ in range(self.n)] for _ in range(self.B)]
            if self.quad:
                # zero residual: c is what the solution says (needs one c per use and element)
                if len({f["c"] for f in self.fs}) < len(self.fs):
                    self.quad = False
                    for f in self.fs:
                        f["q"] = 0
                else:
                    for f in self.fs:
                        self.pars[f["c"]]["b"] = self.B
                        val[f["c"]] = [self._fx(f, b) for b in range(self.B)]
            es = [self.elem(b) for b in range(self.B)]
            dets = [det(e["H"]) for e in es]
            big = max(abs(x) for e in es for r_ in e["A"] for x in r_)
            if all(0 < abs(x) <= 60 for x in dets) and big <= 6:
                return es
        return None

    def get(self, name, b, k):
        p = self.val[name]
        return p[b if len(p) > 1 else 0][k]

    def rowA(self, f, b, i):
        out = []
        for v, A in zip(f["vs"], f["A"]):
            d = self.dims[v]
            out.append([self.get(A, b, i * d + j) if isinstance(A, str) else A[i][j] for j in range(d)])
        return out

    def off(self, v):
        return sum(self.dims[:v])

    def _fx(self, f, b):
        x = self.xstar[b]
        out = []
        for i in range(f["d"]):
            e = f["q"] * x[self.off(f["vs"][0])] ** 2
            for v, row in zip(f["vs"], self.rowA(f, b, i)):
                e += sum(a * x[self.off(v) + j] for j, a in enumerate(row))
            out.append(e)
        return out

    def elem(self, b):
        A, c, w = [], [], []
        for f in self.fs:
            for i in range(f["d"]):
                row = [0] * self.n
                for k, (v, rw) in enumerate(zip(f["vs"], self.rowA(f, b, i))):
                    for j, a in enumerate(rw):
                        row[self.off(v) + j] += a
                if f["q"]:
                    o = self.off(f["vs"][0])
                    row[o] += 2 * f["q"] * self.xstar[b][o]
                A.append(row)
                c.append(sum(a * x for a, x in zip(row, self.xstar[b])) if self.quad else self.get(f["c"], b, i))
                p = self.pars[f["w"]]
                w.append(self.get(f["w"], b, i if p["shape"][0] > 1 or f["d"] == 1 else 0))
        H = [[sum(w[r] ** 2 * A[r][i] * A[r][j] for r in range(len(A))) for j in range(self.n)] for i in range(self.n)]
        return {"A": A, "c": c, "w": w, "H": H}

    def places(self, name, b, k):
        """Where entry k of batch row b of a parameter enters the systems (1-based)."""
        p = self.pars[name]
        out, row = [], 0
        els = [b] if p["b"] > 1 else range(self.B)
        for f in self.fs:
            for i in range(f["d"]):
                r = row + i + 1
                if p["kind"] == "c" and f["c"] == name and i == k:
                    out += [[e + 1, r, 1] for e in els]
                if p["kind"] == "w" and f["w"] == name and (p["shape"][0] == 1 or i == k):
                    out += [[e + 1, r, 1] for e in els]
                if p["kind"] == "A":
                    for v, A in zip(f["vs"], f["A"]):
                        if A == name and k // self.dims[v] == i:
                            out += [[e + 1, r, self.off(v) + k % self.dims[v] + 1] for e in els]
            row += f["d"]
        return out

    def build(self, dtype):
        z = lambda *s: torch.zeros(*s, dtype=dtype)
        xs = [th.Vector(tensor=z(self.B, d), name=f"x{i}") for i, d in enumerate(self.dims)]
        V = {k: th.Variable(z(p["b"], *p["shape"]), name=k) for k, p in self.pars.items()}
        W = {k: (th.ScaleCostWeight if p["shape"] == (1,) else th.DiagonalCostWeight)(V[k])
             for k, p in self.pars.items() if p["kind"] == "w"}
        obj = th.Objective(dtype=dtype)
        for i, f in enumerate(self.fs):
            obj.add((LinQ if f["q"] else Lin)([xs[v] for v in f["vs"]], [V[A] if isinstance(A, str) else const(A) for A in f["A"]],
                        V[f["c"]], W[f["w"]], name=f"f{i}"))
        self.xs = xs
        return obj

    def tensors(self, dtype):
        return {k: torch.tensor(self.val[k], dtype=dtype).view(p["b"], *p["shape"]) for k, p in self.pars.items()}


def optimizer(rng, obj, mode, quad):
    """(optimizer, kwargs) of a kind whose iterations converge fast in this mode."""
    kinds = ["gn", "gn", "lm0", "step"]
    if mode != "truncated":
        kinds += ["lm"] if mode != "dlm" else []  # (slow digits are amplified by 1/epsilon)
        if not quad:
            kinds += ["dl"]
            if mode != "dlm":  # (rejections leave the last digits of the solution open)
                kinds += ["lma"]
    if quad:
        kinds.remove("step")
    k = rng.choice(kinds)
    its = {"gn": 8, "lm0": 8, "step": 45, "lm": 16, "lma": 16, "dl": 12}[k]
    solver = rng.choice([s for s in O.SOLVERS if not (k == "lma" and s == "cholmod")])
    o = O.OPTS["gn" if k in ("gn", "step") else "dl" if k == "dl" else "lm"](
        obj, linear_solver_cls=O.SOLVERS[solver], max_iterations=its, step_size=0.5 if k == "step" else 1.0,
        abs_err_tolerance=rng.choice([1e-10, 0.0]) if k in ("gn", "lm0") and not quad else 0.0,
        rel_err_tolerance=rng.choice([1e-8, 0.0]) if k in ("gn", "lm0") and not quad else 0.0)
    kw = {"lm0": {"damping": 0.0}, "lm": {"damping": 0.03}, "lma": {"damping": 0.001, "adaptive_damping": True},
          "dl": {"trust_region_init": 1e3}}.get(k, {})
    if mode == "truncated":
        kw["backward_num_iterations"] = rng.randint(1, 3) if k != "step" else 30
    if mode == "dlm":
        kw["dlm_epsilon"] = rng.choice([1e-5, 3e-6])
    return k, solver, o, kw


def random_problem(ctx, evs):
    rng = ctx.rng
    P = Rand(rng)
    if P.draw() is None:
        return
    obj = P.build(F64)
    mode0 = rng.choice(MODES)
    k, solver, o, kw = optimizer(rng, obj, mode0, P.quad)
    ref = obj.copy()
    _, _, ro, _ = k, solver, type(o)(ref, linear_solver_cls=O.SOLVERS[solver], max_iterations=o.params.max_iterations,
                                     step_size=o.params.step_size, abs_err_tolerance=o.params.abs_err_tolerance,
                                     rel_err_tolerance=o.params.rel_err_tolerance), None
    layer = th.TheseusLayer(o, vectorize=rng.random() < 0.7)
    given = set()
    pending = []
    log = {"fs": P.fs, "pars": P.pars, "opt": k, "solver": solver, "B": P.B, "dims": P.dims, "calls": []}
    for step in range(rng.randint(1, 4)):
        old, oldx = getattr(P, "val", None), P.xstar
        els = P.draw() if step else [P.elem(b) for b in range(P.B)]
        if els is None:
            P.val, P.xstar = old, oldx
            return
        names = list(P.pars)
        if step and not P.quad and rng.random() < 0.6:
            keep = [n for n in names if rng.random() < 0.4]
            trial = dict(P.val, **{n: old[n] for n in keep})
            new, P.val = P.val, trial
            els2 = [P.elem(b) for b in range(P.B)]
            if all(0 < abs(det(e["H"])) <= 60 for e in els2):
                els, names = els2, [n for n in names if n not in keep]
            else:
                P.val = new
        mode = mode0 if step == 0 else rng.choice([m for m in MODES if (m != "truncated" or k in ("gn", "lm0")) and (m != "dlm" or k not in ("lm", "lma"))])
        kk = dict(kw)
        if mode == "truncated":
            kk.setdefault("backward_num_iterations", rng.randint(1, 3))
        if mode == "dlm":
            kk.setdefault("dlm_epsilon", 1e-5)
        ts = P.tensors(F64)
        leaves = {n: ts[n].requires_grad_(rng.random() < 0.75) for n in names}
        x0 = {}
        for v, d in enumerate(P.dims):
            o_ = P.off(v)
            t = torch.tensor([x[o_ : o_ + d] for x in P.xstar], dtype=F64)
            t = t + 0.03 * torch.tensor([[rng.choice([-1, 1]) for _ in range(d)] for _ in range(P.B)], dtype=F64) if P.quad else \
                torch.tensor([[rng.randint(-3, 3) for _ in range(d)] for _ in range(P.B)], dtype=F64)
            x0[f"x{v}"] = t.requires_grad_(rng.random() < 0.3)
        ins = list({**leaves, **x0}.items())
        rng.shuffle(ins)
        log["calls"].append([mode, kk, {n: P.val[n] for n in names}])
        ctx.events += 1
        tag, out = call(layer, dict(ins), optimizer_kwargs=dict(kk, backward_mode=mode))
        ref.update({n: t.detach().clone() for n, t in P.tensors(F64).items()})
        ref.update({n: t.detach().clone() for n, t in x0.items()})
        rk = {a: b for a, b in kk.items() if a not in ("dlm_epsilon",)}
        rtag, rinfo = call(ro.optimize, backward_mode=mode, **rk)
        evs.append({"op": "outcome", "res": tag, "exp": "ok", "log": log, "mode": mode, "kind": k, "err": str(out)[:200] if tag != "ok" else ""})
        if tag != "ok" or rtag != "ok":
            return
        direct = [ref.get_optim_var(f"x{v}").tensor.detach() for v in range(len(P.dims))]
        got = [out[0][f"x{v}"] for v in range(len(P.dims))]
        V = [[rng.randint(-2, 2) for _ in range(P.n)] for _ in range(P.B)]
        X, D = torch.cat(got, 1), torch.cat(direct, 1)
        pend = {"els": els, "V": V, "X": X, "D": D, "leaves": leaves, "x0": x0, "mode": mode, "kind": k,
                "places": {n: [[P.places(n, b, j) for j in range(ts[n][0].numel())] for b in range(ts[n].shape[0])] for n in leaves},
                "log": dict(log, calls=list(log["calls"])), "quad": P.quad, "eps": kk.get("dlm_epsilon", 0)}
        if rng.random() < 0.6:
            finish(pend, evs, P)
        else:
            pending.append(pend)
    for p in pending:
        finish(p, evs, P)


def fix(x):
    return to_int(round(float(x) * 1000), tol=1) if abs(float(x)) < 5e5 else BAD


def bias(e):
    A, w, c = (torch.tensor(e[k], dtype=F64) for k in ("A", "w", "c"))
    W = torch.diag(w * w)
    Hi = torch.linalg.inv(A.T @ W @ A)
    x = Hi @ A.T @ W @ c
    u, r = Hi @ x, A @ x - c
    au = A @ u
    return 2 * max(float((w**2 * au).abs().max()), float((w * w * au).abs().max() * x.abs().max() + u.abs().max() * (w * w * r).abs().max()),
                   float(2 * (w * au * r).abs().max())) * len(c)


def curvature(e, v):
    A, w, v = (torch.tensor(x, dtype=F64) for x in (e["A"], e["w"], v))
    W = torch.diag(w * w)
    u = torch.linalg.inv(A.T @ W @ A) @ v
    return 4 * float(u.abs().max()) ** 2 * float((w * w).max()) * len(A) * float(A.abs().max())


def finish(p, evs, P):
    lv = [t for t in list(p["leaves"].values()) + list(p["x0"].values()) if t.requires_grad]
    loss = (p["X"] * torch.tensor(p["V"], dtype=F64)).sum()
    gs = []
    if lv:
        tag, gs = call(grads, loss, lv) if loss.requires_grad else ("ok", [torch.zeros_like(t) for t in lv])
        evs.append({"op": "outcome", "res": tag, "exp": "ok", "log": p["log"], "mode": p["mode"], "kind": p["kind"], "err": str(gs)[:200] if tag != "ok" else ""})
        if tag != "ok":
            return
    by = {id(t): g for t, g in zip(lv, gs)}
    params = []
    for n, t in p["leaves"].items():
        if id(t) in by:
            g = by[id(t)].reshape(t.shape[0], -1)
            for b in range(t.shape[0]):
                for j in range(g.shape[1]):
                    params.append({"name": n, "kind": n[0], "obs": fix(g[b, j]), "at": [[e, r, c] for e, r, c in p["places"][n][b][j]]})
    for n, t in p["x0"].items():
        if id(t) in by:
            params.append({"name": n, "kind": "x0", "obs": fix(by[id(t)].abs().max()), "at": []})
    el = [{"A": e["A"], "c": e["c"], "w": e["w"], "v": p["V"][i], "x": [fix(x) for x in p["X"][i]], "direct": [fix(x) for x in p["D"][i]]}
          for i, e in enumerate(p["els"])]
    gtol = 2
    if p["mode"] == "dlm":
        # first-order bias of the finite perturbation (it pulls the solution to zero)
        gtol += int(1000 * 2 * p["eps"] * max(bias(e) for e in p["els"]))
        if p["quad"]:
            gtol += int(1000 * p["eps"] * max(curvature(e, v) for e, v in zip(p["els"], p["V"])))
        if gtol > 60:
            return
    evs.append({"op": "lin", "elems": el, "params": params, "gtol": gtol, "grel": 1, "xtol": 2,
                "mode": p["mode"], "kind": p["kind"], "quad": int(p["quad"]), "log": p["log"]})


# --------------------------------------------------------------------- pose problems
GROUPS = {"SO2": th.SO2, "SE2": th.SE2, "SO3": th.SO3, "SE3": th.SE3}


def rotations(n):
    out = []
    for p in itertools.permutations(range(n)):
        for s in itertools.product([1, -1], repeat=n):
            M = [[s[i] if p[i] == j else 0 for j in range(n)] for i in range(n)]
            if det(M) == 1:
                out.append(M)
    return out


ROT = {2: rotations(2), 3: rotations(3)}


def hom(rng, ty):
    n = 2 if ty.endswith("2") else 3
    R = rng.choice(ROT[n])
    if ty.startswith("SO"):
        return R
    t = [rng.randint(-2, 2) for _ in range(n)]
    return [R[i] + [t[i]] for i in range(n)] + [[0] * n + [1]]


def tensor_of(ty, M):
    M = torch.tensor(M, dtype=F64)
    if ty == "SO2":
        return torch.stack([M[:, 0, 0], M[:, 1, 0]], 1)
    if ty == "SE2":
        return torch.stack([M[:, 0, 2], M[:, 1, 2], M[:, 0, 0], M[:, 1, 0]], 1)
    return M if ty == "SO3" else M[:, :3]


def mat_of(ty, t):
    """Integer/real homogeneous matrices from the library's tensor."""
    B = t.shape[0]
    if ty == "SO2":
        c, s = t[:, 0], t[:, 1]
        return torch.stack([torch.stack([c, -s], 1), torch.stack([s, c], 1)], 1)
    if ty == "SE2":
        c, s = t[:, 2], t[:, 3]
        top = torch.stack([torch.stack([c, -s, t[:, 0]], 1), torch.stack([s, c, t[:, 1]], 1)], 1)
        return torch.cat([top, torch.tensor([[[0.0, 0, 1]]], dtype=t.dtype).expand(B, 1, 3)], 1)
    if ty == "SO3":
        return t
    return torch.cat([t, torch.tensor([[[0.0, 0, 0, 1]]], dtype=t.dtype).expand(B, 1, 4)], 1)


def basis(ty):
    n = {"SO2": 2, "SE2": 3, "SO3": 3, "SE3": 4}[ty]

    def E(*ent):
        M = torch.zeros(n, n, dtype=F64)
        for i, j, v in ent:
            M[i, j] = v
        return M

    sk = lambda i, j: E((j, i, 1), (i, j, -1))
    if ty == "SO2":
        return [sk(0, 1)]
    if ty == "SE2":
        return [E((0, 2, 1)), E((1, 2, 1)), sk(0, 1)]
    rot = [sk(1, 2), sk(2, 0), sk(0, 1)]
    return rot if ty == "SO3" else [E((i, 3, 1)) for i in range(3)] + rot


def poses(ctx, evs):
    """x0 = t (unary), x1 = x0 o z (binary): the solution is exact, whatever the weights."""
    rng = ctx.rng
    ty = rng.choice(list(GROUPS))
    cls, B = GROUPS[ty], rng.choice([1, 2])
    tm, zm = [hom(rng, ty) for _ in range(B)], [hom(rng, ty) for _ in range(B)]
    t0, z0 = tensor_of(ty, tm), tensor_of(ty, zm)
    mk = lambda t, name: cls(tensor=t, name=name)
    a, b = mk(t0.clone(), "a"), mk(z0.clone(), "b")
    t, z = mk(t0.clone(), "t"), mk(z0.clone(), "z")
    w = [th.ScaleCostWeight(th.Variable(torch.full((1, 1), float(rng.choice([1, 2])), dtype=F64), name=f"w{i}")) for i in range(2)]
    obj = th.Objective(dtype=F64)
    cfs = [th.Difference(a, t, w[0], name="prior"), th.Between(a, b, z, w[1], name="btw")]
    rng.shuffle(cfs)
    for c in cfs:
        obj.add(c)
    mode = rng.choice(MODES)
    kind = rng.choice(["gn", "lm"])
    o = O.OPTS[kind](obj, linear_solver_cls=rng.choice(list(O.SOLVERS.values())), max_iterations=10,
                     abs_err_tolerance=0.0, rel_err_tolerance=0.0)
    kw = {"backward_mode": mode}
    if kind == "lm":
        kw["damping"] = 0.0
    if mode == "truncated":
        kw["backward_num_iterations"] = rng.randint(1, 2)
    if mode == "dlm":
        kw["dlm_epsilon"] = 1e-5
    layer = th.TheseusLayer(o, vectorize=rng.random() < 0.7)
    lt, lz = t0.clone().requires_grad_(True), z0.clone().requires_grad_(True)
    d = lambda: 0.05 * torch.tensor([[rng.choice([-1, 1, 2, -2]) for _ in range(a.dof())] for _ in range(B)], dtype=F64)
    start = {"a": t.retract(d()).tensor.clone(), "b": t.compose(z).retract(d()).tensor.clone()}
    log = {"ty": ty, "mode": mode, "kind": kind, "t": tm, "z": zm}
    ctx.events += 1
    tag, out = call(layer, {"t": lt, "z": lz, **start}, optimizer_kwargs=kw)
    evs.append({"op": "outcome", "res": tag, "exp": "ok", "log": log, "err": str(out)[:200] if tag != "ok" else ""})
    if tag != "ok":
        return
    X = mat_of(ty, out[0]["b"])
    n = X.shape[1]
    rows = n if ty.startswith("SO") else n - 1
    V = [[[rng.randint(-2, 2) if i < rows else 0 for j in range(n)] for i in range(n)] for _ in range(B)]
    tag, gs = call(grads, (X * torch.tensor(V, dtype=F64)).sum(), [lt, lz])
    if tag != "ok":
        evs.append({"op": "outcome", "res": tag, "exp": "ok", "log": log, "err": str(gs)[:200]})
        return

    def comps(M, g):
        """Tangent components: derivative along M exp(s E_k) of the leaf's tensor."""
        Mt = torch.tensor(M, dtype=F64)
        out = []
        for E in basis(ty):
            dM = Mt @ E
            if ty in ("SO2", "SE2"):
                s, c = dM[:, 1, 0], dM[:, 0, 0]
                dt = torch.stack([c, s], 1) if ty == "SO2" else torch.stack([dM[:, 0, 2], dM[:, 1, 2], c, s], 1)
            else:
                dt = dM if ty == "SO3" else dM[:, :3]
            out.append((dt * g).flatten(1).sum(1))
        return torch.stack(out, 1)

    ct, cz = comps(tm, gs[0]), comps(zm, gs[1])
    for i in range(B):
        evs.append({"op": "pose", "ty": ty, "tm": tm[i], "zm": zm[i], "V": V[i], "x": [[fix(v) for v in r] for r in X[i].tolist()],
                    "gt": [fix(v) for v in ct[i]], "gz": [fix(v) for v in cz[i]], "gtol": 5, "log": log, "mode": mode})


def run(ctx):
    replay(ctx)
    evs = []
    for _ in range(ctx.n(110, 2500)):
        random_problem(ctx, evs)
    for _ in range(ctx.n(70, 1500)):
        poses(ctx, evs)
    slim = [{k: v for k, v in e.items() if k != "log"} for e in evs]
    rej, res = validate_traces("Layer", "Layer.cfg", slim)
    ctx.model(res)
    ctx.traces += len(evs)
    for e in evs:
        ctx.count("events_" + e["op"])
    for r in rej:
        e = evs[r["line"] - 1]
        ctx.violation(f"layer {e.get('mode', '')} {e.get('kind', '')} {e.get('ty', '')}: {r['clauses']} {e.get('err', '')}"[:200], e)
    ctx.sample({k: v for k, v in next(e for e in evs if e["op"] == "lin").items() if k != "log"})
    ctx.sample({k: v for k, v in next(e for e in evs if e["op"] == "pose").items() if k != "log"})
    ctx.assumptions.append("gradients are compared where the Gauss-Newton model is exact at the solution (linear or zero-residual problems) and the run has converged")
