"""P07: linearizations and variable orderings."""
import torch
import theseus as th

from vh import store, vec
from vh.core import call, ints
from vh.tlc import Graph, run_tlc, validate_traces

F64 = torch.float64


# ------------------------------------------------------------------ orderings
def orderings(ctx):
    r = run_tlc("OrderingMC", "OrderingMC.cfg")
    ctx.model(r)
    g = Graph(r.prints)
    x = [th.Vector(tensor=torch.ones(1, 1, dtype=F64) * (i + 1), name=f"x{i}") for i in range(3)]
    a = th.Vector(tensor=torch.ones(1, 1, dtype=F64), name="a")
    w = th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=F64), name="w"))
    obj = th.Objective(dtype=F64)
    for i in range(3):
        obj.add(th.Difference(x[i], a, w, name=f"f{i}"))
    obj.update({})
    vs = x + [a]
    for start, walk in g.walks(ctx.rng, max_len=25):
        o = th.VariableOrdering(obj, default_order=g.state[start] != [])
        ctx.traces += 1
        for i, (_, act, t) in enumerate(walk):
            want = g.state[t]
            ctx.events += 1
            if act["op"] == "append":
                tag = call(o.append, vs[act["v"] - 1])[0]
            elif act["op"] == "remove":
                tag = call(o.remove, vs[act["v"] - 1])[0]
            else:
                tag = call(o.extend, [vs[v - 1] for v in act["s"]])[0]
            got = [vs.index(v) + 1 for v in o]
            pos = [o.index_of(vs[v - 1].name) if v in got else -1 for v in want]
            ok = (tag == act["res"] and got == want and pos == list(range(len(want)))
                  and all(o[k] is vs[v - 1] for k, v in enumerate(want)) and o.complete == (len(want) == 3))
            if ok:
                for cls in (th.DenseLinearization, th.SparseLinearization):
                    tag, L = call(cls, obj, ordering=o)
                    if len(want) < 3:
                        ok = ok and tag == "ValueError"
                        continue
                    ok = ok and tag == "ok"
                    if ok:
                        L.linearize()
                        A = L.A if cls is th.DenseLinearization else vec.dense_of(L)
                        ok = ints(A[0]) == [[int(v == f + 1) for v in want] for f in range(3)]
            if not ok:
                ctx.violation(f"ordering after {act}", {"walk": [y[1] for y in walk[: i + 1]], "got": got, "pos": pos})
                break


# ------------------------------------------------------------- linearizations
def dense(L):
    return L.A if isinstance(L, th.DenseLinearization) else vec.dense_of(L)


def read(rng, L, base, dtype):
    e = dict(base)
    kind = isinstance(L, th.DenseLinearization)
    B = L.b.shape[0]
    v = [[rng.randint(-3, 3) for _ in range(L.num_cols)] for _ in range(B)]
    vt = torch.tensor(v, dtype=dtype)
    e["v"] = v
    e["dtype"] = 1

    def put(k, t):
        if t.dtype != dtype:
            e["dtype"] = 0
        e[k] = ints(t)

    for what in rng.sample(["A", "AtA", "Atb", "diag", "Av"], rng.randint(1, 5)):
        if what == "A":
            put("A", dense(L).to(dtype) if not kind else L.A)
            put("b", L.b)
            e["dtype"] = min(e["dtype"], int((L.A if kind else L.A_val).dtype == dtype))
        elif what == "AtA" and kind:
            put("AtA", L.AtA)
            if e["AtA"] != ints(L.hessian_approx()):
                e["AtA"] = []
        elif what == "Atb":
            put("Atb", L.Atb.squeeze(2))
        elif what == "diag":
            put("diag", L.diagonal_scaling(vt))
        elif what == "Av":
            put("Av", L.Av(vt))
    return e


def history(rng, ev):
    big = rng.random() < 0.25
    types = ("diff", "btw") if big else ("diff", "btw", "quad", "prod", "rot", "ad")
    cat = store.gen_catalog(rng, types, maxcf=5)
    b = rng.randint(1, 3)

    def rows(i, n):
        s = cat["vars"][i]
        if big and s["name"][0] in "sw":
            return [[rng.randint(4000, 5000) | 1 for _ in range(s["d"])] for _ in range(n)]
        return store.rand_rows(rng, s, n, -1 if big else -3, 1 if big else 3)

    optim = {v for c in cat["cfs"] for v in c["o"]}

    def value(i, n):
        return rows(i, n if i + 1 in optim or rng.random() < 0.5 else 1)

    val = [value(i, b) for i in range(len(cat["vars"]))]
    n = len(cat["cfs"])
    reg = rng.sample(range(1, n + 1), rng.randint(1, n))
    w = store.World(cat, val, reg, shipped=rng.random() < 0.5)
    obj = w.obj
    dtype = F64
    if not big and rng.random() < 0.3:
        dtype = torch.float32
        for v in w.vars:
            v.to(dtype=dtype)
        obj.to(dtype=dtype)
    obj.update({})
    ev.append({"op": "reset", "cat": cat})
    if rng.random() < 0.4:
        w.vectorize(True)
    lins = []
    for _ in range(rng.randint(3, 9)):
        op = rng.choice(["new", "lin", "lin", "read", "update", "update", "batch", "vec", "retract"])
        if op == "new" or not lins:
            ids = w.opt_ids()
            if rng.random() < 0.8:
                rng.shuffle(ids)
                o = th.VariableOrdering(obj, default_order=False)
                o.extend([w.v(i) for i in ids])
            else:
                o = None
            cls = rng.choice([th.DenseLinearization, th.SparseLinearization])
            lins.append([cls(obj, ordering=o), ids, None])
            op = "lin"
        L = rng.choice(lins)
        if op == "lin":
            L = lins[-1] if L[2] is None and lins[-1][2] is None else L
            det = rng.random() < 0.3
            with torch.no_grad() if rng.random() < 0.5 else torch.enable_grad():
                val = w.val()
                tag, x = call(L[0].linearize, _detach_hessian=det)
            L[2] = {"op": "lin", "k": type(L[0]).__name__, "reg": list(reg), "val": val, "ord": L[1]}
            if tag != "ok":
                ev.append({**L[2], "res": tag, "why": str(x)[:200]})
                return
        if op in ("lin", "read"):
            if L[2] is None:
                continue
            base = {**L[2], "res": "ok"}
            tag, e = call(read, rng, L[0], base, dtype)
            ev.append(e if tag == "ok" else {**base, "res": tag, "why": str(e)[:200]})
        elif op in ("update", "batch"):
            if op == "batch":
                b = rng.randint(1, 3)
            ins = {}
            for i, s in enumerate(cat["vars"]):
                if op == "batch" or rng.random() < 0.4:
                    t = store.to_tensor(s, value(i, b)).to(dtype)
                    ins[s["name"]] = t
                    if w.vars[i].name not in obj.optim_vars and w.vars[i].name not in obj.aux_vars:
                        w.vars[i].update(t)
            obj.update(ins)
            if op == "update" and rng.random() < 0.3:  # behind the objective's back
                i = rng.randrange(len(cat["vars"]))
                w.vars[i].update(store.to_tensor(cat["vars"][i], value(i, b)).to(dtype))
        elif op == "vec":
            w.vectorize(rng.random() < 0.7)
            obj.update({})
        elif op == "retract":
            ids = w.opt_ids()
            delta = [[rng.randint(-1, 1) for i in ids
                      for _ in range(1 if cat["vars"][i - 1]["ty"] == "rot" else cat["vars"][i - 1]["d"])]
                     for _ in range(b)]
            sc = [torch.pi / 2 if cat["vars"][i - 1]["ty"] == "rot" else 1.0 for i in ids
                  for _ in range(1 if cat["vars"][i - 1]["ty"] == "rot" else cat["vars"][i - 1]["d"])]
            obj.retract_vars_sequence(torch.tensor(delta, dtype=dtype) * torch.tensor(sc, dtype=dtype),
                                      [w.v(i) for i in ids])
            if big or max(abs(x) for i in ids for r in w.val()[i - 1] for x in r) > 3:
                obj.update({cat["vars"][i - 1]["name"]: store.to_tensor(cat["vars"][i - 1], value(i - 1, b)).to(dtype)
                            for i in ids})


def traces(ctx):
    evs = []
    for _ in range(ctx.n(1200, 12000)):
        evs.append([])
        history(ctx.rng, evs[-1])
    flat = [e for h in evs for e in h]
    rej, r = validate_traces("LinTrace", "LinTrace.cfg", flat)
    ctx.model(r)
    ctx.traces += len(evs)
    ctx.events += len(flat)
    for x in rej:
        ln = x["line"] - 1
        st = max(i for i in range(ln + 1) if flat[i]["op"] == "reset")
        ctx.violation(f"{flat[ln]['k']} rejected: {x['clauses']}", {"cat": flat[st], "event": flat[ln]})
    ctx.sample({"history": evs[0][:3]})


def run(ctx):
    orderings(ctx)
    traces(ctx)
    mix = {"update": 3, "eval": 5, "add": 1, "erase": 1, "devec": 1, "retract": 1}
    ds = [vec.VecDriver(ctx.rng, vec=0.4).run(mix, ctx.rng.randint(3, 7)) for _ in range(ctx.n(80, 1000))]
    vec.judge(ctx, ds, {"rhs", "matrix"}, "linearization")
