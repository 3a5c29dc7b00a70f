"""Real objectives driven by Store.tla catalogs."""
import contextlib

import torch
import theseus as th

from vh.core import BAD, call, ints
from vh.toys import ToyBtw, ToyDiff, ToyElemWeight, ToyProd, ToyQuad, ToyRot, ToyWeight

F64 = torch.float64
C4, S4 = [1, 0, -1, 0], [0, 1, 0, -1]


def prod_err(optim_vars, aux_vars):
    return optim_vars[0].tensor * optim_vars[1].tensor + aux_vars[0].tensor


def to_tensor(spec, rows):
    if spec["ty"] == "rot":
        return torch.tensor([[C4[r[0] % 4], S4[r[0] % 4]] for r in rows], dtype=F64)
    return torch.tensor(rows, dtype=F64).view(len(rows), spec["d"])


def from_tensor(spec, t):
    rows = ints(t)
    if spec["ty"] != "rot":
        return rows
    cs = list(zip(C4, S4))
    return [[cs.index(tuple(r))] if tuple(r) in cs else [BAD] for r in rows]


class World:
    def __init__(self, cat, val, reg, shipped=False):
        self.cat = cat
        self.vars = []
        optim = {v for c in cat["cfs"] for v in c["o"]}
        for i, (s, rows) in enumerate(zip(cat["vars"], val), 1):
            t = to_tensor(s, rows)
            cls = th.SO2 if s["ty"] == "rot" else (th.Vector if i in optim or shipped else th.Variable)
            self.vars.append(cls(tensor=t, name=s["name"]))
        self.weights = {}
        self.cfs = [self._cf(c, shipped) for c in cat["cfs"]]
        fn = (lambda e: e.sum(dim=1)) if cat.get("metric") == "sum" else None
        self.obj = th.Objective(dtype=F64, error_metric_fn=fn)
        for f in reg:
            self.obj.add(self.cfs[f - 1])
        self.vz = None

    def v(self, i):
        return self.vars[i - 1]

    def _cf(self, c, shipped):
        o = [self.v(i) for i in c["o"]]
        a = [self.v(i) for i in c["a"]]
        key = (c["w"]["ty"], c["w"]["v"])
        if key not in self.weights:
            wv = self.v(c["w"]["v"])
            if shipped:
                w = th.ScaleCostWeight(wv) if key[0] == "scale" else th.DiagonalCostWeight(wv)
            else:
                w = ToyWeight([wv]) if key[0] == "scale" else ToyElemWeight(wv)
            self.weights[key] = w
        w = self.weights[key]
        n = c["name"]
        ty = c["ty"]
        if ty == "diff":
            return (th.Difference if shipped else ToyDiff)(o[0], a[0], w, name=n)
        if ty == "btw":
            return (th.Between if shipped else ToyBtw)(o[0], o[1], a[0], w, name=n)
        if ty == "quad":
            return ToyQuad(o[0], a[0], w, name=n)
        if ty == "prod":
            return ToyProd(o[0], o[1], a[0], w, name=n)
        if ty == "ad":
            return th.AutoDiffCostFunction(
                o, prod_err, o[0].dof(), cost_weight=w, aux_vars=a, name=n
            )
        if ty == "rot":
            return ToyRot(o[0], a[0], w, name=n)
        raise KeyError(ty)

    # ----------------------------------------------------------- observation
    def val(self):
        return [from_tensor(s, v.tensor) for s, v in zip(self.cat["vars"], self.vars)]

    def obs(self, bs=False):
        d = {"val": self.val()}
        if bs:
            b = self.obj.batch_size
            d["bs"] = b if isinstance(b, int) else -1
        return d

    # --------------------------------------------------------------- actions
    def _inputs(self, ins):
        out = {}
        for i in ins:
            s = next((x for x in self.cat["vars"] if x["name"] == i["name"]), None)
            if s is None:
                s = {"ty": "vec", "d": len(i["t"][0])}
            kind = i.get("how", "")
            t = to_tensor(s, i["t"])
            if kind == "rank":
                t = t.view(-1)
            elif kind == "rank3":
                t = t.unsqueeze(-1)
            elif kind == "dim":
                t = torch.cat([t, t[:, :1]], dim=1)
            elif kind == "dtype":
                t = t.to(torch.float32)
            elif kind == "mixed":
                t = t.to(torch.int64)
            out[i["name"]] = t
        return out

    @staticmethod
    def _mask(mask):
        return torch.tensor(mask, dtype=torch.bool) if mask else None

    def update(self, ins, mask):
        return call(self.obj.update, self._inputs(ins), batch_ignore_mask=self._mask(mask))[0]

    def error(self, ins, also, metric=False, grad=False):
        fn = self.obj.error_metric if metric else self.obj.error
        with contextlib.nullcontext() if grad else torch.no_grad():
            if ins is None:
                tag, r = call(fn)
            else:
                tag, r = call(fn, self._inputs(ins), also_update=bool(also))
        if tag != "ok":
            return tag, []
        return tag, ints(r, 2) if metric else ints(r)

    def lin(self, ord_, sparse=False, grad=False):
        from theseus.optimizer import DenseLinearization, SparseLinearization, VariableOrdering

        o = VariableOrdering(self.obj, default_order=False)
        o.extend([self.v(i) for i in ord_])
        with contextlib.nullcontext() if grad else torch.no_grad():
            L = (SparseLinearization if sparse else DenseLinearization)(self.obj, ordering=o)
            L.linearize()
        if not sparse:
            return ints(L.A), ints(L.b)
        A = []
        for b in range(L.A_val.shape[0]):
            m = [[0] * L.num_cols for _ in range(L.num_rows)]
            for r in range(L.num_rows):
                for k in range(int(L.A_row_ptr[r]), int(L.A_row_ptr[r + 1])):
                    m[r][int(L.A_col_ind[k])] += ints(L.A_val[b, k])
            A.append(m)
        return A, ints(L.b)

    def retract(self, ord_, delta, mask, force):
        rows = []
        scale = []
        for i in ord_:
            s = self.cat["vars"][i - 1]
            scale += [torch.pi / 2] if s["ty"] == "rot" else [1.0] * s["d"]
        d = torch.tensor(delta, dtype=F64) * torch.tensor(scale, dtype=F64)
        return call(
            self.obj.retract_vars_sequence,
            d,
            [self.v(i) for i in ord_],
            ignore_mask=self._mask(mask),
            force_update=bool(force),
        )[0]

    def vectorize(self, on):
        if on:
            self.vz = th.Vectorize(self.obj)
        else:
            self.obj.disable_vectorization()

    def opt_ids(self):
        return [self.vars.index(v) + 1 for v in self.obj.optim_vars.values()]


# ------------------------------------------------------------- random inputs
def gen_catalog(rng, types=("diff", "btw", "quad", "prod", "rot"), maxcf=6, wshare=0.0):
    """Random variables and cost functions; every variable kept small and integral."""
    d1, d2 = rng.choice([(1, 2), (2, 1), (1, 3), (2, 2)])
    vs = []

    def new(pref, ty, d):
        vs.append({"name": f"{pref}{len(vs)}", "ty": ty, "d": d})
        return len(vs)

    X = {d: [new("x", "vec", d) for _ in range(rng.randint(1, 3))] for d in {d1, d2}}
    for d in {d1, d2}:
        if len(X[d]) < 2:
            X[d].append(new("x", "vec", d))
    A = {d: [new("a", "vec", d) for _ in range(rng.randint(1, 2))] for d in {d1, d2, 2}}
    Rv = [new("r", "rot", 2) for _ in range(rng.randint(1, 2))]
    S = [new("s", "vec", 1) for _ in range(rng.randint(1, 2))]
    D = {d: [new("w", "vec", d)] for d in {d1, d2, 2}}
    cfs = []
    for k in range(rng.randint(2, maxcf)):
        ty = rng.choice(types)
        d = rng.choice([d1, d2])
        if ty == "rot":
            d = 2
            o, a = [rng.choice(Rv)], [rng.choice(A[2])]
        elif ty in ("btw", "prod", "ad"):
            o, a = rng.sample(X[d], 2), [rng.choice(A[d])]
        else:
            o, a = [rng.choice(X[d])], [rng.choice(A[d])]
        if rng.random() < 0.6:
            w = {"ty": "scale", "v": rng.choice(S)}
        elif rng.random() < wshare:
            w = {"ty": "diag", "v": rng.choice(A[d])}  # also somebody's auxiliary variable
        else:
            w = {"ty": "diag", "v": rng.choice(D[d])}
        cfs.append({"name": f"f{k}", "ty": ty, "o": o, "a": a, "w": w})
    return {"vars": vs, "cfs": cfs}


def rand_rows(rng, s, b, lo=-3, hi=3):
    if s["ty"] == "rot":
        return [[rng.randrange(4)] for _ in range(b)]
    return [[rng.randint(lo, hi) for _ in range(s["d"])] for _ in range(b)]


def rand_vals(rng, cat, b):
    return [rand_rows(rng, s, b if rng.random() < 0.6 else 1) for s in cat["vars"]]


def rand_inputs(rng, cat, b, p=0.4, bad=0.0, unknown=0.1, mixb=True, known=None):
    ins = []
    for s in cat["vars"]:
        if rng.random() < p:
            n = b if (not mixb or rng.random() < 0.7) else 1
            i = {"name": s["name"], "bad": 0, "t": rand_rows(rng, s, n)}
            if rng.random() < bad:
                i["bad"] = 1
                hows = ["dtype", "mixed"] if s["ty"] == "rot" else ["rank", "rank3", "dim", "dtype", "mixed"]
                if known is not None and s["name"] not in known:
                    hows = ["dtype"]  # the shape of an unknown name is nobody's business
                i["how"] = rng.choice(hows)
            ins.append(i)
    if rng.random() < unknown:
        ins.insert(rng.randint(0, len(ins)), {"name": "stranger", "bad": 0, "t": [[1, 2]]})
    rng.shuffle(ins)
    return ins


# ---------------------------------------------------------- history generators
class Driver:
    """Runs a random history on a real World and records it for StoreTrace."""

    def __init__(self, rng, shipped=False, types=("diff", "btw", "quad", "prod", "rot"),
                 metric=False, vec=0.0):
        self.rng = rng
        self.cat = gen_catalog(rng, types)
        if metric and rng.random() < 0.4:
            self.cat["metric"] = "sum"
        self.b = rng.randint(1, 4)
        val = rand_vals(rng, self.cat, self.b)
        n = len(self.cat["cfs"])
        self.reg = rng.sample(range(1, n + 1), rng.randint(1, n))
        self.w = World(self.cat, val, self.reg, shipped)
        self.ev = [{"op": "reset", "cat": self.cat, "reg": list(self.reg), "val": val}]
        if rng.random() < vec:
            self.w.vectorize(True)

    def known(self):
        return sorted(
            {v for f in self.reg for c in [self.cat["cfs"][f - 1]] for v in c["o"] + c["a"] + [c["w"]["v"]]}
        )

    def sizes(self):
        return {self.w.v(i).shape[0] for i in self.known()}

    def batch(self):
        return max(self.sizes())

    def rec(self, **k):
        self.ev.append(k)
        s = self.sizes()
        if not (len(s) == 1 or (len(s) == 2 and 1 in s)):
            self.resync()

    def resync(self):
        b = self.rng.randint(1, 4)
        ins = [
            {"name": s["name"], "bad": 0, "t": rand_rows(self.rng, s, b)}
            for s in self.cat["vars"]
        ]
        res = self.w.update(ins, [])
        self.ev.append({"op": "update", "ins": ins, "mask": [], "res": res, **self.w.obs(True)})

    def mask(self, b, p=0.5):
        r = self.rng
        if r.random() > p:
            return []
        return [r.randint(0, 1) for _ in range(b)]

    def inputs(self, bad=0.0, full=0.25):
        r = self.rng
        kn = {self.cat["vars"][i - 1]["name"] for i in self.known()}
        if r.random() < full:
            b = r.randint(1, 4)
            return rand_inputs(r, self.cat, b, p=1.0, bad=bad, known=kn), b
        b = self.batch()
        return rand_inputs(r, self.cat, b, p=r.choice([0.15, 0.4, 0.7]), bad=bad, known=kn), b

    def update(self, bad=0.03):
        ins, b = self.inputs(bad)
        mask = self.mask(self.batch()) if b == self.batch() else []
        res = self.w.update(ins, mask)
        self.rec(op="update", ins=ins, mask=mask, res=res, **self.w.obs(True))

    def add(self):
        rest = [i for i in range(1, len(self.cat["cfs"]) + 1) if i not in self.reg]
        if not rest:
            return
        f = self.rng.choice(rest)
        self.w.obj.add(self.w.cfs[f - 1])
        self.reg.append(f)
        self.rec(op="add", f=f, **self.w.obs())

    def erase(self):
        if len(self.reg) < 2:
            return
        f = self.rng.choice(self.reg)
        self.w.obj.erase(self.cat["cfs"][f - 1]["name"])
        self.reg.remove(f)
        self.rec(op="erase", f=f, **self.w.obs())

    def vec(self):
        self.w.vectorize(self.rng.random() < 0.75)
        self.rec(op="vec", **self.w.obs())

    def error(self, metric=False, bad=0.03):
        r = self.rng
        if r.random() < 0.4:
            ins, also = None, 0
        else:
            ins, also = self.inputs(bad)[0], r.randint(0, 1)
        res, out = self.w.error(ins, also, metric, grad=r.random() < 0.5)
        self.rec(op="metric" if metric else "error", ins=ins or [], also=also, res=res, out=out, **self.w.obs())

    def metric(self):
        self.error(metric=True)

    def retract(self):
        r = self.rng
        ids = self.w.opt_ids()
        if r.random() < 0.5:
            r.shuffle(ids)
        if r.random() < 0.3:
            ids = ids[: r.randint(1, len(ids))]
        b = self.batch()
        delta = []
        for _ in range(b):
            row = []
            for i in ids:
                s = self.cat["vars"][i - 1]
                row += [r.randint(-2, 2) for _ in range(1 if s["ty"] == "rot" else s["d"])]
            delta.append(row)
        mask, force = self.mask(b), int(r.random() < 0.2)
        res = self.w.retract(ids, delta, mask, force)
        self.rec(op="retract", ord=ids, delta=delta, mask=mask, force=force, res=res, **self.w.obs())

    def poke(self):
        """A variable is changed without going through the objective."""
        r = self.rng
        i = r.randint(1, len(self.w.vars))
        s, v = self.cat["vars"][i - 1], self.w.v(i)
        rows = rand_rows(r, s, v.shape[0])
        t = to_tensor(s, rows)
        if r.random() < 0.6:
            v.update(t)
        else:
            v[:] = t
        self.rec(op="set", **self.w.obs())

    def run(self, mix, n):
        ops = [k for k, m in mix.items() for _ in range(m)]
        for _ in range(n):
            getattr(self, self.rng.choice(ops))()
        return self.ev


def validate(ctx, evs, mine, name="history"):
    """TLC judges the histories; only clauses in `mine` belong to this property."""
    from vh.tlc import validate_traces

    flat = [e for h in evs for e in h]
    rej, r = validate_traces("StoreTrace", "StoreTrace.cfg", flat)
    ctx.model(r)
    ctx.traces += len(evs)
    ctx.events += len(flat)
    for x in rej:
        ln = x["line"] - 1
        st = max(i for i in range(ln + 1) if flat[i]["op"] == "reset")
        mineclauses = [k for k in x["clauses"] if k in mine or f"{flat[ln]['op']}:{k}" in mine]
        if not mineclauses:
            ctx.count("histories_cut_short_elsewhere")
            continue
        ctx.violation(
            f"{name} rejected at {flat[ln]['op']}: clauses {mineclauses}",
            {"history": flat[st : ln + 1], "want_val": x["want"], "want_out": x["out"]},
        )


def replay_graph(ctx, want_ops, judge, vec_from_start=False, limit=None, max_len=80):
    """Covers every StoreMC transition labelled with one of want_ops on real objects."""
    from vh.tlc import Graph, run_tlc

    r = run_tlc("StoreMC", "StoreMC.cfg")
    ctx.model(r)
    cat = [p["cat"] for p in r.prints if "cat" in p][0]
    g = Graph(r.prints)
    ctx.extra["graph_edges"] = g.n_edges
    done = 0
    for start, walk in g.walks(ctx.rng, max_len=max_len, limit=limit, want=lambda a: a["op"] in want_ops):
        s0 = g.state[start]
        w = World(cat, s0["val"], s0["reg"])
        w.obj.update({})
        if vec_from_start:
            w.vectorize(True)
        ctx.traces += 1
        for i, (s, a, t) in enumerate(walk):
            got, want = apply_edge(w, cat, a, vec_from_start), None
            ctx.events += 1
            done += a["op"] in want_ops
            bad = judge(w, a, g.state[t], got)
            if bad:
                ctx.violation(
                    f"replayed transition {a['op']}: {bad}",
                    {"walk": [x[1] for x in walk[: i + 1]], "got": got, "after": w.val(),
                     "want": g.state[t]},
                )
                break
            if w.val() != g.state[t]["val"]:
                break  # some other property's business; the walk is no longer meaningful
    ctx.extra["edges_replayed"] = done
    ctx.sample({"walk": [x[1]["op"] for x in walk[:10]]})


def apply_edge(w, cat, a, keepvec):
    op = a["op"]
    if op == "update":
        return {"res": w.update(a["ins"], a["mask"])}
    if op == "error":
        tag, out = w.error(a["ins"] or None, a["also"])
        return {"res": tag, "out": out}
    if op == "lin":
        tag, r = call(w.lin, a["ord"])
        return {"res": tag, "A": r[0], "b": r[1]} if tag == "ok" else {"res": tag}
    if op == "retract":
        return {"res": w.retract(a["ord"], a["delta"], a["mask"], a["force"])}
    if op == "add":
        w.obj.add(w.cfs[a["f"] - 1])
    elif op == "erase":
        w.obj.erase(cat["cfs"][a["f"] - 1]["name"])
    if op == "vec" or (keepvec and op in ("add", "erase")):
        w.vectorize(True)
    if op in ("add", "erase"):
        w.obj.update({})  # resolves the batch size, as required before linearizing
    return {}
