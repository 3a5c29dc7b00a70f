"""P08: linear solvers, judged exactly (Cramer's rule in LinSolve.tla)."""
import torch
import theseus as th

from vh.core import call, ratio
from vh.tlc import run_tlc, validate_traces

F64 = torch.float64


class LinK(th.CostFunction):
    """error = sum_k A_k x_k - c, batched A_k and c."""

    def __init__(self, xs, As, c, weight, name=None):
        super().__init__(weight, name=name)
        for i, (x, A) in enumerate(zip(xs, As)):
            setattr(self, f"x{i}", x)
            setattr(self, f"A{i}", A)
            self.register_optim_var(f"x{i}")
            self.register_aux_var(f"A{i}")
        self.k = len(xs)
        self.c = c
        self.register_aux_var("c")

    def As(self):
        return [getattr(self, f"A{i}").tensor for i in range(self.k)]

    def error(self):
        e = -self.c.tensor
        for i, A in enumerate(self.As()):
            e = e + (A @ getattr(self, f"x{i}").tensor.unsqueeze(2)).squeeze(2)
        return e

    def jacobians(self):
        e = self.error()
        return [A.expand(e.shape[0], -1, -1) for A in self.As()], e

    def dim(self):
        return self.c.shape[1]

    def _copy_impl(self, new_name=None):
        return LinK([getattr(self, f"x{i}").copy() for i in range(self.k)],
                    [getattr(self, f"A{i}").copy() for i in range(self.k)],
                    self.c.copy(), self.weight.copy(), name=new_name)


class System:
    """A block-sparse system whose values can be replaced."""

    def __init__(self, rng, dtype=F64):
        self.rng, self.dtype = rng, dtype
        dims = rng.choice([[1], [2], [3], [1, 1], [1, 2], [2, 1], [1, 1, 1]])
        self.dims, self.n = dims, sum(dims)
        self.off = [sum(dims[:i]) for i in range(len(dims))]
        # every variable takes part in enough rows
        self.blocks = []
        for i in range(len(dims)):
            vs = [i] + [j for j in range(len(dims)) if j != i and rng.random() < 0.4]
            rng.shuffle(vs)
            self.blocks.append((vs, dims[i] + rng.randint(0, 1)))
        if rng.random() < 0.3:
            self.blocks.append((rng.sample(range(len(dims)), rng.randint(1, len(dims))), 1))
        self.m = sum(d for _, d in self.blocks)
        self.build(1)

    def build(self, B):
        z = lambda *s: torch.zeros(*s, dtype=self.dtype)
        self.xs = [th.Vector(tensor=z(B, d), name=f"x{i}") for i, d in enumerate(self.dims)]
        w = th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=self.dtype), name="w"))
        self.cfs = []
        for k, (vs, d) in enumerate(self.blocks):
            As = [th.Variable(z(B, d, self.dims[v]), name=f"A{k}_{v}") for v in vs]
            self.cfs.append(LinK([self.xs[v] for v in vs], As, th.Variable(z(B, d), name=f"c{k}"), w, name=f"f{k}"))
        self.obj = th.Objective(dtype=self.dtype)
        for c in self.cfs:
            self.obj.add(c)
        self.obj.update({})
        # column of the k-th variable in the objective's default ordering
        self.col, o = {}, 0
        for v in self.obj.optim_vars.values():
            self.col[v.name] = o
            o += v.dof()

    def rand_elem(self, singular, maxdet, a2, e2, ell):
        """Random A (dense rows in column order) and b with a small determinant."""
        r = self.rng
        tries = 0
        while True:
            tries += 1
            if tries > 400:
                return None
            A = [[0] * self.n for _ in range(self.m)]
            row = 0
            for vs, d in self.blocks:
                for i in range(d):
                    for v in vs:
                        c = self.col[f"x{v}"]
                        for j in range(self.dims[v]):
                            A[row + i][c + j] = r.choice([-1, 0, 1, 1, 2])
                row += d
            if singular:
                j = r.randrange(self.n)
                for x in A:
                    x[j] = 0
            b = [r.randint(-3, 3) for _ in range(self.m)]
            P = [[sum(x[i] * x[j] for x in A) for j in range(self.n)] for i in range(self.n)]
            M = [[2 * P[i][j] + ((a2 * P[i][i] + e2 if ell else a2) if i == j else 0)
                  for j in range(self.n)] for i in range(self.n)]
            zero = any(all(x[j] == 0 for x in A) for j in range(self.n))
            if singular or (not zero and det(P) != 0 and 0 < abs(det(M)) <= maxdet):
                return A, b

    def load(self, elems, grad, x0):
        """Writes the batch into the objective; returns the leaf tensors."""
        B = len(elems)
        ins, leaves = {}, {}
        row = 0
        for k, (vs, d) in enumerate(self.blocks):
            for v in vs:
                c = self.col[f"x{v}"]
                t = torch.tensor([[x[c : c + self.dims[v]] for x in A[row : row + d]] for A, _ in elems], dtype=self.dtype)
                ins[f"A{k}_{v}"] = leaves[(k, v)] = t.requires_grad_(grad)
            # c = b + A x0 (the recorded system is  A delta = b)
            t = torch.tensor([[b[row + i] + sum(p * q for p, q in zip(A[row + i], x0)) for i in range(d)]
                              for A, b in elems], dtype=self.dtype)
            ins[f"c{k}"] = leaves[k] = t.requires_grad_(grad)
            row += d
        for i, dd in enumerate(self.dims):
            c = self.col[f"x{i}"]
            ins[f"x{i}"] = torch.tensor([x0[c : c + dd]] * B, dtype=self.dtype)
        self.obj.update(ins)
        return leaves


def det(M):
    if len(M) == 1:
        return M[0][0]
    return sum((-1) ** j * M[0][j] * det([r[:j] + r[j + 1 :] for r in M[1:]]) for j in range(len(M)))


def frac(t, maxden=40000, tol=1e-10):
    if isinstance(t, list):
        return [frac(x, maxden, tol) for x in t]
    return ratio(t, maxden=maxden, tol=tol)


def solves(rng, ev, log):
    dtype = torch.float32 if rng.random() < 0.15 else F64
    s = System(rng, dtype)
    if rng.random() < 0.3:
        th.Vectorize(s.obj)
    solver = None
    kinds = []
    for _ in range(rng.randint(2, 6)):
        if solver is None or (len(kinds) < 3 and rng.random() < 0.3):
            name = rng.choice(["lu", "chol", "cholmod", "cholmod"])
            chk = int(name != "cholmod" and rng.random() < 0.4)
            k = {}
            d0 = 0
            if name == "cholmod":
                d0 = rng.choice([0, 0, 1, 2, 4])
                if d0:
                    k["damping"] = d0 / 2
            else:
                k["check_singular"] = bool(chk)
            cls = {"lu": th.LUDenseSolver, "chol": th.CholeskyDenseSolver, "cholmod": th.CholmodSparseSolver}[name]
            kinds.append((name, chk, d0, cls(s.obj, **k)))
        solver = rng.choice(kinds)
        name, chk, d0, S = solver
        B = rng.randint(1, 4)
        grad = dtype == F64 and rng.random() < 0.4
        ell = int(rng.random() < 0.5) if name != "cholmod" else 0
        a2 = [0] * B
        e2 = 0
        kw = {}
        mode = rng.choice(["none", "float", "tensor"]) if name != "cholmod" else rng.choice(["none", "float"])
        if mode == "none":
            a2 = [d0] * B
            ell = 0
        else:
            v = rng.choice([1, 2, 4] if name == "cholmod" else [0, 1, 2, 4])
            a2 = [v] * B
            kw["damping"] = v / 2
            if mode == "tensor":
                a2 = [rng.choice([0, 1, 2, 4]) for _ in range(B)]
                t = torch.tensor([x / 2 for x in a2], dtype=dtype)
                kw["damping"] = t if rng.random() < 0.5 else t.view(-1, 1)
            if name != "cholmod":
                e2 = rng.choice([0, 0, 1, 2])
                kw["ellipsoidal_damping"] = bool(ell)
                kw["damping_eps"] = e2 / 2
        if not ell:
            e2 = 0
        sing = not grad and rng.random() < 0.25
        bad = [sing and rng.random() < 0.5 for _ in range(B)]
        # damped singular systems may be solvable: keep those undamped
        # (check_singular looks at the undamped matrix, so damping is fine there)
        if any(bad) and not chk and (any(a2) or e2):
            bad = [False] * B
        elems = [s.rand_elem(bad[i], 200 if grad else 20000, a2[i], e2, ell) for i in range(B)]
        if any(x is None for x in elems):
            continue
        x0 = [0] * s.n if grad else [rng.randint(-2, 2) for _ in range(s.n)]
        leaves = s.load(elems, grad, x0)
        detach = rng.random() < 0.4
        log.append([name, chk, mode, ell, a2, e2, bad, B, grad, detach])

        def go():
            with torch.enable_grad() if grad else torch.no_grad():
                S.linearization.linearize(_detach_hessian=detach)
                return S.solve(**kw)

        tag, x = call(go)
        gs = None
        if tag == "ok" and grad:
            g = [rng.randint(-2, 2) for _ in range(s.n)]
            tag, r = call(torch.autograd.grad, (x * torch.tensor(g, dtype=dtype)).sum(), list(leaves.values()))
            if tag == "ok":
                gs = dict(zip(leaves, r))
            else:
                x = r
        for i in range(B):
            A, b = elems[i]
            e = {"res": tag, "A": A, "b": b, "a2": a2[i], "e2": e2, "ell": ell, "chk": chk, "bad": int(any(bad)),
                 "det": int(detach), "dtype": 1, "n": len(log), "name": name}
            if tag != "ok":
                e["why"] = str(x)[:200]
                if isinstance(x, RuntimeError) and any(bad):
                    e["res"] = "reported"
                e["x"] = []
            else:
                e["dtype"] = int(x.dtype == dtype)
                if dtype == F64 or any(bad):
                    e["x"] = frac(x[i].tolist())
                    if dtype != F64 and not bad[i]:
                        del e["x"]
                if dtype != F64:
                    e["xf"] = [int(v * 1000 // 1) for v in x[i].tolist()]
                if gs is not None:
                    e["g"] = g
                    gA = [[0.0] * s.n for _ in range(s.m)]
                    gb = [0.0] * s.m
                    row = 0
                    for k, (vs, d) in enumerate(s.blocks):
                        for v in vs:
                            c = s.col[f"x{v}"]
                            t = gs[(k, v)][i].tolist()
                            for rr in range(d):
                                gA[row + rr][c : c + s.dims[v]] = t[rr]
                        for rr in range(d):
                            gb[row + rr] = gs[k][i].tolist()[rr]
                        row += d
                    e["gA"], e["gb"] = frac(gA, 160000, 1e-11), frac(gb)
                    # entries outside the sparsity pattern have no gradient to compare
                    e["pat"] = 1
                    full(s, e)
            ev.append(e)


def full(s, e):
    """Structural zeros are not parameters: drop the comparison when there are any."""
    if any(len(vs) < len(s.dims) for vs, _ in s.blocks):
        row = 0
        mask = [[0] * s.n for _ in range(s.m)]
        for vs, d in s.blocks:
            for v in vs:
                c = s.col[f"x{v}"]
                for rr in range(d):
                    for j in range(s.dims[v]):
                        mask[row + rr][c + j] = 1
            row += d
        e["mask"] = mask


def run(ctx):
    evs, owner = [], []
    for _ in range(ctx.n(700, 10000)):
        ev, log = [], []
        solves(ctx.rng, ev, log)
        evs += ev
        owner += [log] * len(ev)
        ctx.traces += 1
    ctx.events += len(evs)
    rej, r = validate_traces("LinSolve", "LinSolve.cfg", evs)
    ctx.model(r)
    for x in rej:
        e = evs[x["line"] - 1]
        ctx.violation(f"{e['name']}: {x['clauses']} {e.get('why', '')}", {"event": e, "solves": owner[x["line"] - 1][: e["n"]]})
    ctx.sample(evs[0])
