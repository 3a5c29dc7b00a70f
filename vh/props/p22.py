"""P22: Gaussians over manifolds and samples around a solution."""
import random

import torch
import theseus as th
from theseus.optimizer.manifold_gaussian import ManifoldGaussian, local_gaussian, retract_gaussian

from vh.core import call, ints
from vh.tlc import Graph, run_tlc, validate_traces

CLS = {"SO2": th.SO2, "SE2": th.SE2, "SO3": th.SO3, "SE3": th.SE3}
DOF = {"SO2": 1, "SE2": 3, "SO3": 3, "SE3": 6}
TURN2 = [[[1, 0], [0, 1]], [[0, -1], [1, 0]], [[-1, 0], [0, -1]], [[0, 1], [-1, 0]]]


def turns3():
    out = []
    import itertools

    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            m = [[s[i] if p[i] == j else 0 for j in range(3)] for i in range(3)]
            if round(float(torch.linalg.det(torch.tensor(m, dtype=torch.float64)))) == 1:
                out.append(m)
    return out


TURN3 = turns3()


def tensor_of(els, dtype):
    """The tensor stored for a batch of elements."""
    ty = els[0]["ty"]
    if ty == "V":
        return torch.tensor([e["t"] for e in els], dtype=dtype)
    R = torch.tensor([e["R"] for e in els], dtype=dtype)
    if ty == "SO2":
        return R[:, :, 0].clone()
    if ty == "SO3":
        return R
    t = torch.tensor([e["t"] for e in els], dtype=dtype)
    if ty == "SE2":
        return torch.cat([t, R[:, :, 0]], 1)
    return torch.cat([R, t[:, :, None]], 2)


def variable(els, dtype, name=None):
    ty = els[0]["ty"]
    x = tensor_of(els, dtype)
    if ty == "V":
        c = {2: th.Point2, 3: th.Point3}.get(x.shape[1]) if els[0].get("point") else None
        return c(tensor=x, name=name) if c else th.Vector(tensor=x, name=name)
    return CLS[ty](tensor=x, name=name)


def element(v, b):
    """Batch element b of a variable on the grid of the specification."""
    x = ints(v.tensor[b], tol=2e-3)
    n = type(v).__name__
    if n in ("Vector", "Point2", "Point3"):
        return {"ty": "V", "R": [], "t": x}
    if n == "SO2":
        return {"ty": n, "R": [[x[0], -x[1]], [x[1], x[0]]], "t": []}
    if n == "SO3":
        return {"ty": n, "R": x, "t": []}
    if n == "SE2":
        return {"ty": n, "R": [[x[2], -x[3]], [x[3], x[2]]], "t": x[:2]}
    return {"ty": n, "R": [r[:3] for r in x], "t": [r[3] for r in x]}


def plain(e):
    return {"ty": e["ty"], "R": e["R"], "t": e["t"]}


class Driver:
    """A history over Gaussians whose rotations are fixed per type and batch element."""

    def __init__(self, rng, single=False):
        self.rng = rng
        self.B = self.low = rng.choice([1, 2, 3])
        self.dtype = rng.choice([torch.float64, torch.float32])
        self.rot = {ty: [rng.choice(TURN2 if ty[2] == "2" else TURN3) for _ in range(8)] for ty in CLS}
        self.vs, self.gs, self.log = [], [], []
        self.single = single

    def els(self, kind, B=None):
        ty, n = kind
        r = self.rng
        out = []
        for b in range(B or self.B):
            if ty == "V":
                out.append({"ty": ty, "R": [], "t": [r.randint(-9, 9) for _ in range(n)], "point": self.points})
            else:
                d = {"SE2": 2, "SE3": 3}.get(ty, 0)
                out.append({"ty": ty, "R": self.rot[ty][b], "t": [2 * r.randint(-2, 2) for _ in range(d)]})
        return out

    points = False

    def kind(self):
        ty = self.rng.choice(["V", "SO2", "SE2", "SO3", "SE3", "SE2", "SE3"])
        return (ty, self.rng.randint(1, 3))

    def kind_of(self, v):
        n = type(v).__name__
        return (n, 0) if n in CLS else ("V", v.shape[1])

    def prec(self, d, B=None, sym=True):
        out = []
        for _ in range(B or self.B):
            a = [[0] * d for _ in range(d)]
            for i in range(d):
                a[i][i] = self.rng.randint(4, 9)
                for j in range(i):
                    a[i][j] = a[j][i] = self.rng.randint(-1, 1)
            out.append(a)
        if not sym:
            b = self.rng.randrange(len(out))
            i, j = self.rng.sample(range(d), 2)
            out[b][i][j] += self.rng.choice([1, -1, 5])
        return out

    def flags(self):
        bad = []
        for g in self.gs:
            if g.dof != sum(v.dof() for v in g.mean):
                bad.append("dof")
            if {v.dtype for v in g.mean} | {g.dtype} != {g.precision.dtype}:
                bad.append("dtype")
            if g.device != g.mean[0].device:
                bad.append("device")
        return bad

    def emit(self, e, res):
        """e: dict whose batched entries are lists under 'batched'."""
        self.low = min([self.low] + [v.shape[0] for v in self.vs] + [g.precision.shape[0] for g in self.gs])
        num = {id(v): i + 1 for i, v in enumerate(self.vs)}
        snap = []
        flags = self.flags()
        for b in range(self.low):
            snap.append({
                "vs": [element(v, b) for v in self.vs],
                "gs": [{"m": [num.get(id(v), 0) for v in g.mean], "prec": ints(g.precision[b], tol=2e-3)} for g in self.gs],
                "flags": flags, "res": res,
            })
        self.log.append((e, snap))

    def step(self, op=None):
        r = self.rng
        ops = ["new", "update", "update", "odd", "copy", "poke", "pokep", "local", "retract", "to", "local_bad"]
        op = op or (r.choice(ops) if self.gs else "new")
        if len(self.gs) >= 5 and op in ("new", "copy", "retract"):
            op = r.choice(["update", "local", "poke", "odd"])
        k = r.randrange(len(self.gs)) if self.gs else 0
        g = self.gs[k] if self.gs else None
        if op == "new":
            self.points = r.random() < 0.5
            kinds = [self.kind() for _ in range(1 if self.single or r.random() < 0.5 else r.randint(2, 3))]
            news = [variable(self.els(kd), self.dtype) for kd in kinds]
            self.vs += news
            m = list(range(len(self.vs) - len(news) + 1, len(self.vs) + 1))
            r.shuffle(m)
            mean = [self.vs[i - 1] for i in m]
            d = sum(v.dof() for v in mean)
            bad = d > 1 and r.random() < 0.1
            p = self.prec(d, sym=not bad) if bad or r.random() < 0.7 else None
            # the variables exist before the Gaussian does
            self.emit({"op": "vars", "reset": True}, "ok")
            args = {} if p is None else {"precision": torch.tensor(p, dtype=self.dtype)}
            tag, x = call(ManifoldGaussian, mean, **args)
            if tag == "ok":
                self.gs.append(x)
            self.emit({"op": "new", "m": m, "odd": "symmetry" if bad and self.B > 1 else "", "batched": {"prec": p or [[]] * 9}}, tag)
        elif op in ("update", "odd"):
            B = g.mean[0].shape[0]
            if op == "update" and r.random() < 0.15:
                B = r.choice([1, 2, 3])
            dt = g.dtype
            mean = [self.els(self.kind_of(v), B) for v in g.mean]
            d = g.dof
            p = self.prec(d, B)
            odd, extra = "", False
            if op == "odd":
                what = r.choice(["sym", "shape", "dtype", "batch", "length", "kind", "mean_dtype"])
                if what == "sym" and d > 1:
                    # the batch elements of a bad precision are refused together
                    p = self.prec(d, B, sym=False)
                    odd = "" if B == 1 else "symmetry"
                elif what == "shape":
                    p = self.prec(d + 1, B)
                elif what == "length":
                    mean = mean + [self.els(("V", 2), B)] if r.random() < 0.5 or len(mean) == 1 else mean[:-1]
                else:
                    odd = what if what != "sym" else ""
            pt = torch.tensor(p, dtype=dt)
            other = torch.float32 if dt == torch.float64 else torch.float64
            if odd == "dtype":
                pt = pt.to(other)
            if odd == "batch":
                pt = torch.cat([pt, pt[:1]])
            mv = [variable(x, other if odd == "mean_dtype" and i == 0 else dt) for i, x in enumerate(mean)]
            if odd == "kind":
                mv[0] = th.Vector(tensor=torch.zeros(B, 11, dtype=dt))
            tag, x = call(g.update, mv, pt)
            self.emit({"op": "update", "k": k + 1, "odd": odd,
                       "batched": {"mean": [[plain(x[b]) for x in mean] for b in range(B)], "prec": p}}, tag)
        elif op == "copy":
            import copy

            c = copy.deepcopy(g) if r.random() < 0.4 else g.copy(new_name=r.choice([None, "fresh"]))
            self.gs.append(c)
            self.vs += list(c.mean)
            self.emit({"op": "copy", "k": k + 1}, "ok" if c is not g else "SameObject")
        elif op == "poke":
            i = r.randrange(len(self.vs))
            v = self.vs[i]
            x = self.els(self.kind_of(v), v.shape[0])
            v.update(tensor_of(x, v.dtype))
            self.emit({"op": "poke", "i": i + 1, "batched": {"el": [plain(e) for e in x]}}, "ok")
        elif op == "pokep":
            p = self.prec(g.dof, g.precision.shape[0])
            with torch.no_grad():
                g.precision.copy_(torch.tensor(p, dtype=g.dtype))
            self.emit({"op": "pokep", "k": k + 1, "batched": {"prec": p}}, "ok")
        elif op in ("local", "local_bad"):
            kd = self.kind_of(g.mean[0])
            if op == "local_bad":
                kd = r.choice([x for x in (("SO2", 0), ("SE2", 0), ("SE3", 0)) if x[0] != kd[0]])
            B = g.mean[0].shape[0]
            self.points = type(g.mean[0]).__name__.startswith("Point")
            x = self.els(kd, B)
            v = variable(x, g.dtype)
            tag, y = call(local_gaussian, v, g, r.choice([True]))
            out = {}
            if tag == "ok":
                tag2, z = call(local_gaussian, v, g, False)
                if tag2 == "ok" and not torch.equal(y[1], z[1]):
                    tag2 = "PrecisionsDiffer"
                tag = tag2
                if tag == "ok":
                    out = {"out": [{"mean": ints(y[0][b], tol=2e-3), "prec": ints(y[1][b], tol=2e-3),
                                    "eta": ints(z[0][b], tol=2e-2)} for b in range(B)]}
            if tag == "ok" and [element(v, b) for b in range(B)] != [plain(e) for e in x]:
                tag = "VariableChanged"
            self.emit({"op": "local", "k": k + 1, "batched": {"v": [plain(e) for e in x], **out}}, tag)
        elif op == "retract":
            kd = self.kind()
            x = self.els(kd)
            v = variable(x, self.dtype)
            d = v.dof()
            lin = {"SE2": 2, "SE3": 3, "V": d}.get(kd[0], 0)
            u = [[2 * r.randint(-3, 3) if i < lin else 0 for i in range(d)] for _ in range(self.B)]
            bad = d > 1 and r.random() < 0.15
            p = self.prec(d, sym=not bad)
            tag, y = call(retract_gaussian, v, torch.tensor(u, dtype=self.dtype), torch.tensor(p, dtype=self.dtype))
            if tag == "ok":
                self.gs.append(y)
                self.vs += list(y.mean)
                if [element(v, b) for b in range(self.B)] != [plain(e) for e in x]:
                    tag = "VariableChanged"
            self.emit({"op": "retract", "odd": "symmetry" if bad else "", "batched": {"v": [plain(e) for e in x], "u": u, "L": p}}, tag)
        elif op == "to":
            g.to(r.choice([torch.float32, torch.float64]))
            self.emit({"op": "to", "k": k + 1}, "ok")

    def run(self, n):
        for _ in range(n):
            self.step()
        out = []
        for b in range(self.low):
            first = True
            for e, snap in self.log:
                s = snap[b]
                d = {k: v for k, v in e.items() if k not in ("batched", "reset")}
                if e.get("reset") or first:
                    d["op"] = "reset"
                for k, v in e.get("batched", {}).items():
                    d[k] = v[b]
                d.update(s)
                first = False
                out.append(d)
        return out


def flat(x, k, dt):
    return [int(v) if abs(v) < 2e9 else 999999999 for v in (x.detach().double() * k).round().flatten().tolist()]


def rounds(rng):
    """General elements: changes of coordinates are inverse to each other, and the precision
    transforms with the derivative of the retraction."""
    ev = []
    ty = rng.choice(["SO2", "SE2", "SO3", "SE3", "V"])
    dt = rng.choice([torch.float32, torch.float64])
    B = rng.choice([1, 3, 6])
    gen = torch.Generator().manual_seed(rng.randrange(10**6))
    if ty == "V":
        v, m = (th.Point3(tensor=torch.randn(B, 3, generator=gen, dtype=dt)) for _ in range(2))
        d = 3
    else:
        d = DOF[ty]
        w = torch.randn(2, B, d, generator=gen, dtype=dt)
        w[1] = w[1] * (2.0 / w[1].norm(dim=-1, keepdim=True))
        v = CLS[ty].exp_map(w[0])
        m = v.retract(w[1])
    A = torch.randn(B, d, d, generator=gen, dtype=dt)
    P = A @ A.transpose(1, 2) + torch.eye(d, dtype=dt)
    k = 1000 if dt == torch.float32 else 10000
    tol = 30 if dt == torch.float32 else 2

    def add(what, fn):
        tag, x = call(fn)
        e = {"op": "round", "what": what, "res": tag, "a": [], "b": [], "tol": tol}
        if tag == "ok":
            e["a"], e["b"] = flat(x[0], k, dt), flat(x[1], k, dt)
        ev.append(e)

    def back():
        u, L = local_gaussian(v, ManifoldGaussian([m.copy()], P.clone()))
        L = 0.5 * (L + L.transpose(1, 2))
        g = retract_gaussian(v, u, L)
        return (torch.cat([g.precision.flatten(), g.mean[0].tensor.flatten()]),
                torch.cat([P.flatten(), m.tensor.flatten()]))

    def there():
        u = v.local(m)
        a, L = local_gaussian(v, retract_gaussian(v, u, P.clone()))
        return torch.cat([a.flatten(), L.flatten()]), torch.cat([u.flatten(), P.flatten()])

    def eta():
        g = ManifoldGaussian([m.copy()], P.clone())
        u, L = local_gaussian(v, g)
        h, L2 = local_gaussian(v, g, return_mean=False)
        return torch.cat([h.flatten(), L.flatten()]), torch.cat([(L @ u[:, :, None]).flatten(), L2.flatten()])

    def derivative():
        vd = type(v)(tensor=v.tensor.double(), disable_checks=True) if ty != "V" else th.Point3(tensor=v.tensor.double())
        md = type(m)(tensor=m.tensor.double(), disable_checks=True) if ty != "V" else th.Point3(tensor=m.tensor.double())
        if ty != "V":
            vd, md = CLS[ty].exp_map(vd.log_map()), CLS[ty].exp_map(md.log_map())
        u, L = local_gaussian(vd, ManifoldGaussian([md.copy()], P.double()))
        h = 1e-4
        base = vd.retract(u)
        J = torch.stack([
            (base.local(vd.retract(u + h * e)) - base.local(vd.retract(u - h * e))) / (2 * h)
            for e in torch.eye(d, dtype=torch.float64)
        ], -1)
        return L, J.transpose(1, 2) @ P.double() @ J

    add("retract_of_local", back)
    add("local_of_retract", there)
    add("eta", eta)
    add("derivative", derivative)
    ev[-1]["tol"] = max(3, tol // 5)
    return ev


def samples(rng, n):
    """Samples around a linear solution: their moments in thousandths."""
    nv = rng.randint(1, 3)
    dims = [rng.randint(1, 2) for _ in range(nv)]
    B = rng.randint(1, 3)
    dt = rng.choice([torch.float32, torch.float64])
    t = rng.choice([1, 1, 2, 4])
    obj = th.Objective(dtype=dt)
    vs = [th.Vector(tensor=torch.tensor([[float(rng.randint(-3, 3)) for _ in range(k)] for _ in range(B)], dtype=dt), name=f"x{i}")
          for i, k in enumerate(dims)]
    d = sum(dims)
    rows = [rng.randint(1, 2) for _ in range(2)]
    cfs, Jall = [], []
    for i, v in enumerate(vs):
        s = rng.choice([1, 2])
        cfs.append((["x%d" % i], torch.eye(dims[i], dtype=dt)[None].repeat(B, 1, 1) * s))
    for c in range(rng.randint(1, 2)):
        pick = sorted(rng.sample(range(nv), rng.randint(1, nv)))
        w = sum(dims[i] for i in pick)
        cfs.append((["x%d" % i for i in pick], torch.tensor(
            [[[float(rng.randint(-1, 1)) for _ in range(w)] for _ in range(rows[c])] for _ in range(B)], dtype=dt)))
    by = {v.name: v for v in vs}
    one = th.ScaleCostWeight(torch.ones(1, 1, dtype=dt))
    for i, (names, J) in enumerate(cfs):
        b = torch.tensor([[float(rng.randint(-2, 2)) for _ in range(J.shape[1])] for _ in range(B)], dtype=dt)
        Jv, bv = th.Variable(J, name=f"J{i}"), th.Variable(b, name=f"b{i}")

        def err(optim_vars, aux_vars):
            ov, av = optim_vars, aux_vars
            x = torch.cat([u.tensor for u in ov], 1)
            return (av[0].tensor @ x[:, :, None])[:, :, 0] - av[1].tensor

        obj.add(th.AutoDiffCostFunction([by[k] for k in names], err, J.shape[1], aux_vars=[Jv, bv], cost_weight=one, name=f"c{i}"))
    order = list(range(nv))
    rng.shuffle(order)
    ordering = th.VariableOrdering(obj, default_order=False)
    for i in order:
        ordering.append(vs[i])
    opt = th.GaussNewton(obj, linear_solver_cls=th.CholeskyDenseSolver, linear_solver_kwargs={},
                         max_iterations=1)
    solver = th.CholeskyDenseSolver(obj, linearization_kwargs={"ordering": ordering})
    layer = th.TheseusLayer(opt)
    obj.update()
    solver.linearization.linearize()
    A = torch.zeros(B, d, d, dtype=torch.float64)
    g = torch.zeros(B, d, dtype=torch.float64)
    at, off = {}, 0
    for i in order:
        at[f"x{i}"] = (off, dims[i])
        off += dims[i]
    for c in obj.cost_functions.values():
        J = torch.zeros(B, c.dim(), d, dtype=torch.float64)
        k = 0
        for v in c.optim_vars:
            o, w = at[v.name]
            J[:, :, o : o + w] = list(c.aux_vars)[0].tensor[:, :, k : k + w].double()
            k += w
        A += J.transpose(1, 2) @ J
        g += (J.transpose(1, 2) @ c.error().double()[:, :, None])[:, :, 0]
    x0 = torch.zeros(B, d, dtype=torch.float64)
    for i in order:
        o, w = at[f"x{i}"]
        x0[:, o : o + w] = vs[i].tensor.double()
    torch.manual_seed(rng.randrange(10**6))
    before = [v.tensor.clone() for v in vs]
    tag, x = call(layer.compute_samples, solver, n_samples=n, temperature=float(t))
    if tag == "ok" and (x is None or x.shape != (B, d, n) or x.dtype != dt):
        tag = "shape" if x is None or x.shape != (B, d, n) else "dtype"
    if tag == "ok" and any(not torch.equal(a, v.tensor) for a, v in zip(before, vs)):
        tag = "variables_changed"
    if tag == "ok":
        few = layer.compute_samples(solver, n_samples=4, temperature=float(t)).double()
        few = torch.cat([few, x.double()[:, :, :2], x.double()[:, :, -2:], (x0 - torch.linalg.solve(A, g[:, :, None])[:, :, 0])[:, :, None]], 2)
        gap = (few[:, :, :, None] - few[:, :, None, :]).norm(dim=1) + torch.eye(9)
        if float(gap.min()) < 1e-5:
            tag = "samples_coincide"
    if call(layer.compute_samples)[1] is not None:
        tag = "samples_without_a_solver"
    ev = []
    for b in range(B):
        e = {"op": "samples", "res": tag, "n": n, "t": t, "A": [], "mu": [], "C": []}
        if tag == "ok":
            dev = x[b].double() - (x0[b] - torch.linalg.solve(A[b], g[b]))[:, None]
            e["A"] = ints(A[b])
            e["mu"] = flat(dev.mean(1), 1000, dt)
            e["C"] = flat2((dev @ dev.T) / n)
        ev.append(e)
    return ev


def flat2(x):
    return [flat(r, 1000, None) for r in x]


def replay(ctx, ty):
    """Every transition of the model's graph, on the implementation."""
    res = run_tlc("GaussMC", f"GaussMC_{ty}{'' if ctx.quick else '_deep'}.cfg", timeout=600)
    ctx.model(res)
    graph = Graph(res.prints)
    dt = ctx.rng.choice([torch.float32, torch.float64])

    def make(x):
        return ManifoldGaussian([variable([e], dt) for e in x["mean"]], torch.tensor([x["prec"]], dtype=dt))

    def read(x):
        if x is None:
            return []
        return {"mean": [element(e, 0) for e in x.mean], "prec": ints(x.precision[0], tol=2e-3)}

    for start, walk in graph.walks(ctx.rng):
        s0 = graph.state[start]
        g, h = make(s0["g"]), None
        v = variable([s0["v"]], dt)
        for i, (s, a, t) in enumerate(walk):
            want = graph.state[t]
            out, tag = None, "ok"
            if a["op"] == "update":
                p = torch.tensor([a["prec"]], dtype=dt)
                if a["odd"]:
                    p = p.to(torch.float32 if dt == torch.float64 else torch.float64)
                tag, _ = call(g.update, [variable([e], dt) for e in a["mean"]], p)
                tag = "ok" if tag == ("ok" if a["exp"] == "" else "ValueError") else f"update: {tag}, expected {a['exp'] or 'ok'}"
            elif a["op"] == "copy":
                h = g.copy()
            elif a["op"] == "swap":
                g, h = h, g
            elif a["op"] == "move":
                v.update(tensor_of([a["v"]], dt))
            elif a["op"] == "local":
                tag, x = call(local_gaussian, v, g)
                tag2, y = call(local_gaussian, v, g, False)
                if tag == tag2 == "ok":
                    out = {"mean": ints(x[0][0], tol=2e-3), "prec": ints(x[1][0], tol=2e-3), "eta": ints(y[0][0], tol=2e-2)}
                    if out != a["out"]:
                        tag = "local differs"
            elif a["op"] == "retract":
                tag, h2 = call(retract_gaussian, v, torch.tensor([a["u"]], dtype=dt), torch.tensor([a["L"]], dtype=dt))
                h = h2 if tag == "ok" else h
            got = {"g": read(g), "h": read(h), "v": element(v, 0)}
            ctx.events += 1
            if tag != "ok" or got != want:
                ctx.violation(f"Gaussian over {ty}: {a['op']} ({tag})",
                              {"walk": [w[1] for w in walk[: i + 1]], "got": got, "want": want, "out": out}, key=f"graph:{ty}:{a['op']}")
                return
    ctx.count("graph_transitions", graph.n_edges)


def run(ctx):
    for ty in ("V", "SO2", "SO3", "SE2", "SE3"):
        replay(ctx, ty)
    ev, meta = [], []
    for i in range(ctx.n(120, 1200)):
        d = Driver(random.Random(ctx.rng.randrange(10**9)), single=ctx.rng.random() < 0.4)
        part = d.run(ctx.rng.randint(6, 18))
        ev += part
        meta += ["history"] * len(part)
        ctx.traces += d.low
    for _ in range(ctx.n(120, 1500)):
        part = rounds(ctx.rng)
        ev += part
        meta += ["round"] * len(part)
    for _ in range(ctx.n(20, 150)):
        part = samples(ctx.rng, 20000)
        ev += part
        meta += ["samples"] * len(part)
    seen = {}
    cuts, i = [0], 0
    for j, e in enumerate(ev):   # cut between histories only
        if j - cuts[-1] > 3000 and e["op"] in ("reset", "round", "samples"):
            cuts.append(j)
    cuts.append(len(ev))
    for a, b in zip(cuts, cuts[1:]):
        if a == b:
            continue
        rej, res = validate_traces("GaussTrace", "GaussTrace.cfg", ev[a:b], timeout=800)
        ctx.model(res)
        for x in rej:
            k = a + x["line"] - 1
            for c in x["clauses"]:
                key = f"{meta[k]}:{ev[k]['op']}:{c}"
                seen[key] = seen.get(key, 0) + 1
                if seen[key] <= 2:
                    ctx.violation(f"{ev[k]['op']}: {c} is not what the specification gives",
                                  {"event": ev[k], "before": ev[k - 1] if k else None}, key=key)
    ctx.events += len(ev)
    ctx.extra["clauses_failing"] = seen
    for e in ev[:3]:
        ctx.sample(e)
    ctx.assumptions += [
        "exact coordinates for tangents without rotation; with rotation, round trips and the finite-difference derivative of the retraction",
        "sample moments over 20000 draws from a fixed seed, compared with 6 standard deviations; vector variables only",
    ]
