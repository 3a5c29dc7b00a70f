"""Recorder for Vec.tla: objectives of shipped cost functions and their parts."""
import math

import torch
import theseus as th

from vh.core import call
from vh.zoo import F64, Zoo

SC = 10**6


def fp(t):
    """Tensor -> nested fixed-point ints (1e-6)."""
    def f(x):
        if isinstance(x, list):
            return [f(u) for u in x]
        v = x * SC
        if math.isnan(v):
            return 999999999
        return int(max(-9e8, min(9e8, round(v))))

    return f(t.detach().to(F64).tolist())


def rows(t):
    return fp(t.flatten(1))


def parts_of(cfs, ids, jac=True):
    out = []
    for c in cfs:
        p = {"e": fp(c.weighted_error())}
        if jac:
            J, le = c.weighted_jacobians_error()
            p["le"] = fp(le)
            p["J"] = [fp(j) for j in J]
            p["o"] = [ids[v.name] for v in c.optim_vars]
        out.append(p)
    return out


class VecDriver:
    """Random history on a real objective made of zoo cost functions."""

    def __init__(self, rng, kinds=None, B=None, vec=1.0, zero=0.25, ncf=(2, 6), optim_full=1.0, aux_full=0.5):
        self.rng = rng
        self.B = B or rng.choice([1, 2, 3])
        self.z = Zoo(rng, self.B, optim_full=optim_full, aux_full=aux_full)
        ks = kinds or Zoo.KINDS
        # one kind only in a third of the objectives: cost functions alike in everything
        # but one aspect
        if rng.random() < 0.35:
            ks = [k for k in ks if k in ("robust", "gnc", "ad_dense", "ad_vmap", "ad_loop")] or ks if rng.random() < 0.4 else ks
            pool = [rng.choice(ks)]
        else:
            pool = rng.sample(ks, min(len(ks), rng.randint(1, 3)))
        self.obj = th.Objective(dtype=F64)
        self.cfs = [self.z.cost(rng.choice(pool), zero=zero) for _ in range(rng.randint(*ncf))]
        k = rng.randint(max(1, len(self.cfs) - 1), len(self.cfs))
        for c in self.cfs[:k]:
            self.obj.add(c)
        self.obj.update({})
        self.ev = [{"op": "reset"}]
        self.log = [["init", [c.name for c in self.cfs[:k]], self.B]]
        self.lin = None
        if rng.random() < vec:
            self.vectorize()

    # helpers
    def reg(self):
        return list(self.obj.cost_functions.values())

    def known(self):
        names = set(self.obj.optim_vars) | set(self.obj.aux_vars)
        return sorted(n for n in names if n in self.z.vars)

    def ids(self):
        return {n: i + 1 for i, n in enumerate(self.obj.optim_vars)}

    def rec(self, **k):
        k["n"] = len(self.log)
        self.ev.append(k)

    # actions
    def vectorize(self):
        th.Vectorize(self.obj)
        self.log.append(["vectorize"])

    def devec(self):
        self.obj.disable_vectorization()
        self.log.append(["disable_vectorization"])

    def update(self):
        r = self.rng
        if r.random() < 0.25:  # change of batch size: all variables at once
            self.B = self.z.B = r.choice([1, 2, 3, 4])
            names = self.known()
            self._sync_foreign()
        else:
            names = [n for n in self.known() if r.random() < 0.4]
        b = self.B
        ins = {n: self.z.fresh(n, b) for n in names}
        with self._gm():
            tag, _ = call(self.obj.update, ins)
        self.log.append(["update", sorted(ins), b, tag])
        if tag != "ok":
            self.rec(op="eval", res=tag)

    def _sync_foreign(self):
        # variables that are not registered right now follow the batch size too
        for n in self.z.vars:
            if n not in self.obj.optim_vars and n not in self.obj.aux_vars:
                self.z.vars[n][0].update(self.z.fresh(n, self.B))

    def _gm(self):
        return torch.enable_grad() if self.rng.random() < 0.5 else torch.no_grad()

    def poke(self):
        n = self.rng.choice(self.known())
        v = self.z.vars[n][0]
        t = self.z.fresh(n, v.shape[0])
        if t.shape != v.shape:
            return
        if self.rng.random() < 0.5:
            v.update(t)
        else:
            v.tensor = v.tensor.clone()
            v[:] = t
        self.log.append(["poke", n])

    def add(self):
        rest = [c for c in self.cfs if c.name not in self.obj.cost_functions]
        if not rest:
            return
        c = self.rng.choice(rest)
        self.obj.add(c)
        self.lin = None
        self.log.append(["add", c.name])
        if self.rng.random() < 0.7:
            self.vectorize()
        self.obj.update({})

    def erase(self):
        reg = self.reg()
        if len(reg) < 2:
            return
        c = self.rng.choice(reg)
        self.obj.erase(c.name)
        self.lin = None
        self.log.append(["erase", c.name])
        if self.rng.random() < 0.7:
            self.vectorize()
        self.obj.update({})

    def _lin(self):
        r = self.rng
        if self.lin is None or r.random() < 0.2:
            o = th.VariableOrdering(self.obj, default_order=False)
            vs = list(self.obj.optim_vars.values())
            r.shuffle(vs)
            o.extend(vs)
            cls = th.SparseLinearization if r.random() < 0.3 else th.DenseLinearization
            self.lin = cls(self.obj, ordering=o)
        return self.lin

    def eval(self, err=True, lin=True):
        r = self.rng
        B = self.B
        with self._gm():
            plain = parts_of(self.reg(), self.ids())
        e = {"op": "eval", "B": B, "res": "ok", "parts": plain}
        order = ["err", "lin"] if r.random() < 0.5 else ["lin", "err"]
        for what in order:
            if what == "err" and err:
                with self._gm():
                    tag, x = call(self.obj.error)
                if tag != "ok":
                    e["res"] = tag
                    e["why"] = str(x)[:200]
                else:
                    e["err"] = fp(x)
            if what == "lin" and lin:
                L = self._lin()
                with self._gm():
                    tag, x = call(L.linearize)
                if tag != "ok":
                    e["res"] = tag
                    e["why"] = str(x)[:200]
                    continue
                A = L.A if isinstance(L, th.DenseLinearization) else dense_of(L)
                ids = self.ids()
                e["A"] = fp(A)
                e["b"] = fp(L.b)
                e["ord"] = [ids[v.name] for v in L.ordering]
                e["dofs"] = [v.dof() for v in L.ordering]
        self.rec(**e)
        self.log.append(["eval"])

    def temp_error(self):
        """error() with temporary inputs; judged against the parts at those inputs."""
        r = self.rng
        names = [n for n in self.known() if r.random() < 0.4]
        ins = {n: self.z.fresh(n, self.B) for n in names}
        old = {n: self.z.vars[n][0].tensor for n in names}
        with self._gm():
            tag, x = call(self.obj.error, ins)
        now = {n: self.z.vars[n][0].tensor for n in names}
        for n in names:
            self.z.vars[n][0].update(ins[n])
        plain = parts_of(self.reg(), self.ids(), jac=False)
        for n in names:
            self.z.vars[n][0].update(old[n])
        e = {"op": "eval", "B": self.B, "res": tag, "parts": plain}
        if tag == "ok":
            e["err"] = fp(x)
            e["vals0"] = [rows(old[n]) for n in names]
            e["vals"] = [rows(now[n]) for n in names]
        self.rec(**e)
        self.log.append(["temp_error", names])

    def retract(self):
        r = self.rng
        vs = list(self.obj.optim_vars.values())
        if r.random() < 0.7:
            r.shuffle(vs)
        if r.random() < 0.4:
            vs = vs[: r.randint(1, len(vs))]
        B = self.B
        delta = self.z.g.t(B, sum(v.dof() for v in vs)) * 0.5
        mask = [r.randint(0, 1) for _ in range(B)] if r.random() < 0.5 else []
        force = int(r.random() < 0.25)
        e = {"op": "retract", "mask": mask, "force": force, "vars": []}
        c = 0
        for v in vs:
            new = v.copy().retract(delta[:, c : c + v.dof()])
            c += v.dof()
            e["vars"].append({"old": rows(v.tensor), "new": rows(new.tensor)})
        others = [v for n, (v, _, _) in sorted(self.z.vars.items()) if all(v is not x for x in vs)]
        # tensors handed to the variables earlier belong to the caller
        held = [v.tensor for v in vs]
        e["rest0"] = [fp(v.tensor.reshape(-1)) for v in others] + [fp(t.reshape(-1)) for t in held]
        m = torch.tensor(mask, dtype=torch.bool) if mask else None
        with self._gm():
            tag, x = call(self.obj.retract_vars_sequence, delta, vs, ignore_mask=m, force_update=bool(force))
        e["res"] = tag
        e["after"] = [rows(v.tensor) for v in vs]
        e["rest"] = [fp(v.tensor.reshape(-1)) for v in others] + [fp(t.reshape(-1)) for t in held]
        self.rec(**e)
        self.log.append(["retract", [v.name for v in vs], mask, force])

    def grad(self):
        """Gradients of the objective's outputs equal those of the parts."""
        r = self.rng
        zeros = [n for n in self.known() if (self.z.vars[n][0].tensor == 0).any()]
        if zeros:
            return
        names = [n for n in self.known() if r.random() < 0.5][:4]
        ins = {n: self.z.vars[n][0].tensor.detach().clone().requires_grad_(True) for n in names}
        if not ins:
            return
        with torch.no_grad() if r.random() < 0.5 else torch.enable_grad():
            self.obj.update(ins)
        if r.random() < 0.5:
            with torch.no_grad():
                call(self._lin().linearize)
        want = []
        errs = [c.weighted_jacobians_error() for c in self.reg()]
        B = self.B
        want_err = torch.cat([le.expand(B, -1) for _, le in errs], dim=1)
        R = self.z.g.t(*want_err.shape)
        g0 = torch.autograd.grad((want_err * R).sum(), list(ins.values()), allow_unused=True) \
            if want_err.requires_grad else [None] * len(ins)
        L = self._lin()
        tag, x = call(L.linearize)
        e = {"op": "eval", "res": tag}
        if tag == "ok":
            g1 = torch.autograd.grad((-L.b * R).sum(), list(ins.values()), allow_unused=True) \
                if L.b.requires_grad else [None] * len(ins)
            z = lambda g: [fp((torch.zeros_like(t) if a is None else a).reshape(-1)) for a, t in zip(g, ins.values())]
            e["grad0"], e["grad"] = z(g0), z(g1)
            e["parts"], e["B"] = [], B
        self.rec(**e)
        self.log.append(["grad", names])
        self.obj.update({n: t.detach() for n, t in ins.items()})

    def masked(self):
        """A masked_variables scope, possibly left by an exception."""
        r = self.rng
        vs = [v for v, _, _ in self.z.vars.values() if v.shape[0] == self.B]
        if not vs:
            return
        vs = r.sample(vs, r.randint(1, min(4, len(vs))))
        mask = [r.randint(0, 1) for _ in range(self.B)]
        boom = r.random() < 0.4
        e = {"op": "masked", "mask": mask, "before": [rows(v.tensor) for v in vs], "inside": []}

        def go():
            with th.masked_variables(vs, torch.tensor(mask, dtype=torch.bool)):
                e["inside"] = [rows(v.tensor) for v in vs]
                if boom:
                    raise KeyError("boom")

        e["res"] = call(go)[0]
        if boom and e["res"] == "KeyError":
            e["res"] = "ok"
        e["after"] = [rows(v.tensor) for v in vs]
        self.rec(**e)
        self.log.append(["masked", [v.name for v in vs], mask, boom])

    def run(self, mix, n):
        ops = [k for k, m in mix.items() for _ in range(m)]
        for _ in range(n):
            getattr(self, self.rng.choice(ops))()
        return self


def dense_of(L):
    A = torch.zeros(L.A_val.shape[0], L.num_rows, L.num_cols, dtype=F64)
    for r in range(L.num_rows):
        for k in range(int(L.A_row_ptr[r]), int(L.A_row_ptr[r + 1])):
            A[:, r, int(L.A_col_ind[k])] += L.A_val[:, k]
    return A


def judge(ctx, drivers, mine, what):
    """TLC judges all recorded evaluations; only clauses in `mine` are reported."""
    from vh.tlc import validate_traces

    flat, owner = [], []
    for d in drivers:
        for e in d.ev:
            flat.append(e)
            owner.append(d)
    rej, r = validate_traces("Vec", "Vec.cfg", flat)
    ctx.model(r)
    ctx.traces += len(drivers)
    ctx.events += len(flat)
    seen = set()
    for x in rej:
        e, d = flat[x["line"] - 1], owner[x["line"] - 1]
        bad = [k for k in x["clauses"] if k in mine]
        if not bad or id(d) in seen:
            continue
        seen.add(id(d))
        ctx.violation(
            f"{what}: {e['op']} clauses {bad}",
            {"history": d.log[: e["n"] + 1], "event": e},
        )


class CopyDriver:
    """Objective of shipped cost functions, copies of it and of its parts.

    The original objects, temporarily holding the copy's values, are the oracle."""

    def __init__(self, rng):
        self.rng = rng
        self.B = rng.choice([1, 2])
        self.z = Zoo(rng, self.B)
        self.obj = th.Objective(dtype=F64)
        pool = rng.sample(Zoo.KINDS, 3)
        if rng.random() < 0.25:
            pool[0] = rng.choice(["ad_dense", "ad_loop"])
        for _ in range(rng.randint(2, 5)):
            self.obj.add(self.z.cost(rng.choice(pool), zero=0.1))
        self.obj.update({})
        self.ev, self.log = [{"op": "reset"}], [["init", list(self.obj.cost_functions), self.B]]
        self.copies = []

    def rec(self, **k):
        k["n"] = len(self.log)
        self.ev.append(k)

    @staticmethod
    def vars_of(o):
        return {**o.optim_vars, **o.aux_vars}

    def shape(self, o):
        """Names, classes and sharing of an objective, as comparable data."""
        out = []
        cfs = list(o.cost_functions.values())

        def fn(f):
            d = [type(f).__name__, [[type(v).__name__, v.name] for v in list(f.optim_vars) + list(f.aux_vars)]]
            if hasattr(f, "cost_function"):
                d.append(fn(f.cost_function))
                d.append(type(f.loss).__name__)
            return d

        for c in cfs:
            out.append([c.name, fn(c), fn(c.weight), next(i for i, x in enumerate(cfs) if x.weight is c.weight)])
        known = self.vars_of(o)
        flat = [v for c in cfs for f in ([c, c.weight] + ([c.cost_function] if hasattr(c, "cost_function") else []))
                for v in list(f.optim_vars) + list(f.aux_vars)]
        return out, all(known.get(v.name) is v for v in flat), [list(o.optim_vars), list(o.aux_vars)]

    def at(self, vals, fn):
        """Evaluates fn with the original variables holding `vals`."""
        vs = self.vars_of(self.obj)
        old = {n: v.tensor for n, v in vs.items()}
        for n, t in vals.items():
            vs[n].update(t.clone())
        try:
            return fn()
        finally:
            for n, t in old.items():
                vs[n].update(t)

    def eval_copy(self, o):
        ids = {n: i + 1 for i, n in enumerate(self.obj.optim_vars)}
        vals = {n: v.tensor for n, v in self.vars_of(o).items()}
        parts = self.at(vals, lambda: parts_of(list(self.obj.cost_functions.values()), ids))
        keep = {n: v.tensor.clone() for n, v in self.vars_of(self.obj).items()}
        e = {"op": "eval", "B": self.B, "parts": parts}
        tag, x = call(o.error)
        e["res"] = tag
        if tag == "ok":
            e["err"] = fp(x)
            L = th.DenseLinearization(o)
            tag, x = call(L.linearize)
            e["res"] = tag
            if tag == "ok":
                e["A"], e["b"] = fp(L.A), fp(L.b)
                e["ord"] = [ids[v.name] for v in L.ordering]
                e["dofs"] = [v.dof() for v in L.ordering]
        now = self.vars_of(self.obj)
        e["vals0"] = [rows(keep[n]) for n in keep]
        e["vals"] = [rows(now[n].tensor) for n in keep]
        self.rec(**e)

    def change(self, o):
        """Random change of an objective's variables, by update or in place."""
        r = self.rng
        others = [p for p in [self.obj] + self.copies if p is not o]
        before = [{n: v.tensor.clone() for n, v in self.vars_of(p).items()} for p in others]
        vs = self.vars_of(o)
        names = [n for n in vs if n in self.z.vars and r.random() < 0.5]
        ins = {n: self.z.fresh(n, self.B) for n in names}
        how = r.choice(["update", "inplace"])
        if how == "update":
            o.update(ins)
        else:
            for n, t in ins.items():
                if t.shape == vs[n].shape:
                    vs[n].tensor.copy_(t)
                    vs[n]._num_updates += 1
        after = [{n: v.tensor for n, v in self.vars_of(p).items()} for p in others]
        self.log.append(["change", (self.copies.index(o) + 1) if o in self.copies else 0, how, names])
        self.rec(op="eval", res="ok", B=1, parts=[],
                 vals0=[rows(b[n]) for b in before for n in b],
                 vals=[rows(a[n]) for a in after for n in a])

    def copy(self):
        src = self.rng.choice([self.obj] + self.copies)
        tag, o = call(src.copy)
        self.log.append(["copy", tag, str(o)[:150] if tag != "ok" else ""])
        if tag != "ok":
            self.rec(op="eval", res=tag)
            return
        self.copies.append(o)
        call(o.update, {})
        s0, s1 = self.shape(self.obj), self.shape(o)
        same = s0[0] == s1[0] and s1[1] and s0[2] == s1[2]
        disj = not ({id(v) for v in self.vars_of(o).values()} & {id(v) for v in self.vars_of(src).values()})
        self.rec(op="flag", clause="structure", ok=int(same and disj))
        self.eval_copy(o)

    def part(self):
        """A cost function, weight or variable copied on its own."""
        r = self.rng
        c = r.choice(list(self.obj.cost_functions.values()))
        what = r.choice(["cf", "cf", "weight", "var"])
        self.log.append(["part", what, c.name])
        if what == "var":
            for v in list(self.vars_of(self.obj).values()):
                if r.random() < 0.3:
                    w = v.copy()
                    ok = type(w) is type(v) and w is not v and torch.equal(w.tensor, v.tensor)
                    t = v.tensor.clone()
                    w.tensor.add_(1.0)
                    self.rec(op="flag", clause="structure", ok=int(ok and torch.equal(v.tensor, t)))
            return
        src = c if what == "cf" else c.weight
        tag, k = call(src.copy)
        if tag != "ok":
            self.log.append([str(k)[:200]])
            self.rec(op="eval", res=tag)
            return
        sv = list(src.optim_vars) + list(src.aux_vars)
        kv = list(k.optim_vars) + list(k.aux_vars)
        ok = (type(k) is type(src) and len(sv) == len(kv)
              and all(type(a) is type(b) and a is not b for a, b in zip(sv, kv)))
        self.rec(op="flag", clause="structure", ok=int(ok))
        if not ok or what == "weight":
            if ok:
                J = [self.z.g.t(self.B, c.dim(), 2)]
                err = self.z.g.t(self.B, c.dim())
                a, b = src.weight_jacobians_and_error(J, err), k.weight_jacobians_and_error(J, err)
                self.rec(op="eval", res="ok", B=len(a[1]), parts=[{"e": fp(a[1])}], err=fp(b[1]))
                self.rec(op="eval", res="ok", B=len(a[1]), parts=[{"e": fp(a[0][0].flatten(1))}],
                         err=fp(b[0][0].flatten(1)))
            return
        # new values for the copy's variables; the original's stay
        keep = [v.tensor.clone() for v in sv]
        newv = {}
        for a, b in zip(sv, kv):
            if a.name in self.z.vars:
                t = newv.setdefault(a.name, self.z.fresh(a.name, self.B))
                b.update(t.clone())
        # the copied weight has its own variables
        wv = list(zip(src.weight.aux_vars, k.weight.aux_vars))
        for a, b in wv:
            if a.name in self.z.vars:
                b.update(newv.setdefault(a.name, self.z.fresh(a.name, self.B)).clone())
        ids = {v.name: i + 1 for i, v in enumerate(src.optim_vars)}
        want = self.at(newv, lambda: parts_of([src], ids))
        J, le = k.weighted_jacobians_error()
        n = max(len(want[0]["e"]), len(want[0]["le"]))
        e = {"op": "eval", "res": "ok", "B": n, "parts": want,
             "err": fp(k.weighted_error().expand(n, -1)), "b": fp(-le.expand(n, -1)),
             "A": fp(torch.cat([j.expand(n, -1, -1) for j in J], dim=2)),
             "ord": [ids[v.name] for v in src.optim_vars], "dofs": [v.dof() for v in src.optim_vars],
             "vals0": [rows(t) for t in keep], "vals": [rows(v.tensor) for v in sv]}
        self.rec(**e)

    def settings(self):
        """Autograd settings of automatic-differentiation costs behave alike in copies."""
        r = self.rng
        z = Zoo(r, self.B)
        x, y, a = z.new_opt("Vector"), z.new_opt("Vector"), z._full_like(z.aux("Vector"))
        kw = {"autograd_mode": r.choice(["dense", "loop_batch", "vmap"]),
              "autograd_create_graph": r.random() < 0.5, "autograd_strict": r.random() < 0.5}

        def fn(optim_vars, aux_vars):  # may not depend on y
            return optim_vars[0].tensor.sin() * aux_vars[0].tensor + (optim_vars[1].tensor if dep else 0.0)

        dep = r.random() < 0.6
        c = th.AutoDiffCostFunction([x, y], fn, 2, aux_vars=[a], cost_weight=z.weight(2, zero=0), **kw)
        k = c.copy()
        if r.random() < 0.4:
            o = th.Objective(dtype=F64)
            o.add(c)
            k = next(iter(o.copy().cost_functions.values()))
        out = []
        for f in (c, k):
            v = next(iter(f.aux_vars))
            v.update(a.tensor.detach().clone().requires_grad_(True))
            tag, j = call(f.jacobians)
            out.append([tag] + ([t.requires_grad for t in j[0]] + [fp(t) for t in j[0]] if tag == "ok" else []))
        self.log.append(["settings", {**kw, "dep": dep}, out])
        self.rec(op="flag", clause="structure", ok=int(out[0] == out[1]))

    def run(self, n):
        self.copy()
        if self.rng.random() < 0.3:
            self.settings()
        for _ in range(n):
            k = self.rng.choice(["copy", "change", "change", "evalc", "evalc", "part"])
            if k == "copy" and len(self.copies) < 3:
                self.copy()
            elif k == "change":
                self.change(self.rng.choice([self.obj] + self.copies))
            elif k == "evalc" and self.copies:
                self.log.append(["eval"])
                self.eval_copy(self.rng.choice(self.copies))
            elif k == "part":
                self.part()
        return self
