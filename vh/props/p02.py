"""P02: copying an objective is faithful and independent."""
from vh import store, vec
from vh.core import ints
from vh.multi import Multi
from vh.tlc import Graph, run_tlc, validate_traces


def replay(ctx):
    r = run_tlc("CopyMC", "CopyMC.cfg")
    ctx.model(r)
    cat = [p["cat"] for p in r.prints if "cat" in p][0]
    g = Graph(r.prints)
    for shipped in (False, True):
        for start, walk in g.walks(ctx.rng, max_len=12, limit=ctx.n(3500, None)):
            s0 = g.state[start][0]
            m = Multi(cat, s0["val"], s0["reg"], shipped)
            m.w.obj.update({})
            ctx.traces += 1
            for i, (_, a, t) in enumerate(walk):
                want = g.state[t]
                ctx.events += 1
                bad = ""
                if a["op"] == "copy":
                    e = m.copy(a["k"])
                    if e["res"] != "ok":
                        bad = f"copy raised {e['res']}"
                    elif not (e["uniq"] and e["disj"]):
                        bad = "copy shares objects with the original or holds a variable twice"
                elif a["op"] == "update":
                    if m.view(a["k"]).update(a["ins"], []) != "ok":
                        bad = "update raised"
                else:
                    m.objs[a["k"] - 1].erase(cat["cfs"][a["f"] - 1]["name"])
                if not bad:
                    vals = m.vals()
                    for k, o in enumerate(want):
                        kn = {v for f in o["reg"] for c in [cat["cfs"][f - 1]]
                              for v in c["o"] + c["a"] + [c["w"]["v"]]}
                        exp = [o["val"][v - 1] if v in kn else [] for v in range(1, len(cat["vars"]) + 1)]
                        if vals[k] != exp:
                            bad = f"objective {k + 1} does not hold its own values"
                    # every objective evaluates its own parts
                    for k, o in enumerate(m.objs):
                        out = ints(o.error())
                        exp = [sum((ints(c.weighted_error())[0] for c in o.cost_functions.values()), [])]
                        ref = ref_error(cat, want[k])
                        if out != ref or exp != ref:
                            bad = f"errors of objective {k + 1}"
                if bad:
                    ctx.violation(f"replayed {a['op']}: {bad}",
                                  {"walk": [x[1] for x in walk[: i + 1]], "shipped": shipped})
                    break


def ref_error(cat, o):
    """ErrorVec of the replay catalog (diff and btw of scalars)."""
    row = []
    v = lambda i: o["val"][i - 1][0][0]
    for f in o["reg"]:
        c = cat["cfs"][f - 1]
        e = v(c["o"][0]) - v(c["a"][0]) if c["ty"] == "diff" else v(c["o"][1]) - v(c["o"][0]) - v(c["a"][0])
        row.append(e * v(c["w"]["v"]))
    return [row]


def history(rng, shipped, ev):
    """Random catalog, copies, copies of copies and interleaved operations."""
    types = ("diff", "btw", "quad", "prod", "rot", "ad")
    cat = store.gen_catalog(rng, types, wshare=0.4)
    if rng.random() < 0.4:
        cat["metric"] = "sum"
    b = rng.randint(1, 3)
    val = store.rand_vals(rng, cat, b)
    n = len(cat["cfs"])
    reg = rng.sample(range(1, n + 1), rng.randint(1, n))
    m = Multi(cat, val, reg, shipped)
    m.w.obj.update({})
    regs, bs = [list(reg)], [b]
    ev.append({"op": "reset", "cat": cat, "reg": reg, "val": val})

    def known(k):
        return sorted({v for f in regs[k - 1] for c in [cat["cfs"][f - 1]]
                       for v in c["o"] + c["a"] + [c["w"]["v"]]})

    for _ in range(rng.randint(4, 14)):
        k = rng.randint(1, len(m.objs))
        op = rng.choice(["copy", "update", "update", "update", "retract", "error", "metric", "lin", "erase", "vec"])
        w = m.view(k)
        if op == "copy":
            if len(m.objs) >= 4:
                continue
            e = m.copy(k, deep=rng.random() < 0.3)
            ev.append(e)
            if e["res"] != "ok":
                return ev
            regs.append(list(regs[k - 1]))
            bs.append(bs[k - 1])
            continue
        e = {"op": op, "k": k, "res": "ok"}
        if op == "update":
            full = rng.random() < 0.3
            nb = rng.randint(1, 3) if full else bs[k - 1]
            names = [cat["vars"][v - 1] for v in known(k)]
            cur = dict(zip([s["name"] for s in cat["vars"]], w.vars))
            ins = []
            for s in names:
                if full or rng.random() < 0.4:
                    # keep size-1 tensors of size 1 or the batch size
                    ins.append({"name": s["name"], "bad": 0,
                                "t": store.rand_rows(rng, s, nb if rng.random() < 0.6 else 1)})
            sizes = {len(i["t"]) for i in ins} | {
                cur[s["name"]].shape[0] for s in names if s["name"] not in {i["name"] for i in ins}}
            if len(sizes - {1}) > 1:
                continue
            e["ins"] = ins
            how = rng.random()
            if how < 0.6:
                e["res"] = w.update(ins, [])
            else:  # in place, one variable at a time: storage must not be shared
                import torch
                with torch.no_grad():
                    for i in ins:
                        s = next(x for x in cat["vars"] if x["name"] == i["name"])
                        v = cur[i["name"]]
                        t = store.to_tensor(s, i["t"])
                        if t.shape == v.shape:
                            v.tensor.copy_(t)
                            v._num_updates += 1
                        else:
                            v.update(t)
                m.objs[k - 1].update({})
            bs[k - 1] = max({m.view(k).vars[v - 1].shape[0] for v in known(k)})
        elif op == "retract":
            ids = [i for i, v in enumerate(w.vars, 1) if v is not None and v.name in m.objs[k - 1].optim_vars]
            nb = max({w.vars[v - 1].shape[0] for v in known(k)})
            delta = [[rng.randint(-2, 2) for i in ids
                      for _ in range(1 if cat["vars"][i - 1]["ty"] == "rot" else cat["vars"][i - 1]["d"])]
                     for _ in range(nb)]
            e.update(ord=ids, delta=delta)
            e["res"] = w.retract(ids, delta, [], 0)
        elif op == "error":
            e["res"], e["out"] = w.error(None, 0)
        elif op == "metric":
            e["res"], e["out"] = w.error(None, 0, metric=True)
        elif op == "lin":
            if any(v.shape[0] != bs[k - 1] for v in m.objs[k - 1].optim_vars.values()):
                continue
            from vh.core import call
            o = m.objs[k - 1]
            ids = [i for i, v in enumerate(w.vars, 1) if v is not None and v.name in o.optim_vars]
            e["ord"] = ids
            tag, r = call(w.lin, ids)
            e["res"] = tag
            if tag == "ok":
                e["A"], e["b"] = r
        elif op == "erase":
            if len(regs[k - 1]) < 2:
                continue
            f = rng.choice(regs[k - 1])
            e["f"] = f
            m.objs[k - 1].erase(cat["cfs"][f - 1]["name"])
            regs[k - 1].remove(f)
            m.objs[k - 1].update({})
            bs[k - 1] = max({m.view(k).vars[v - 1].shape[0] for v in known(k)})
        elif op == "vec":
            m.vectorize(k)
            m.objs[k - 1].update({})
        e["vals"] = m.vals()
        ev.append(e)
    return ev


def traces(ctx):
    evs = []
    for _ in range(ctx.n(250, 3000)):
        evs.append([])
        try:
            history(ctx.rng, ctx.rng.random() < 0.6, evs[-1])
        except Exception:
            # an objective the driver can no longer operate; TLC judges what it recorded
            ctx.count("histories_cut_short")
    flat = [e for h in evs for e in h]
    rej, r = validate_traces("CopyTrace", "CopyTrace.cfg", flat)
    ctx.model(r)
    ctx.traces += len(evs)
    ctx.events += len(flat)
    for x in rej:
        ln = x["line"] - 1
        st = max(i for i in range(ln + 1) if flat[i]["op"] == "reset")
        ctx.violation(f"history rejected at {flat[ln]['op']}: {x['clauses']}", {"history": flat[st : ln + 1]})
    ctx.sample({"history": evs[0][:3]})


def run(ctx):
    replay(ctx)
    traces(ctx)
    ds = [vec.CopyDriver(ctx.rng).run(ctx.rng.randint(3, 8)) for _ in range(ctx.n(150, 1500))]
    ctx.sample({"history": ds[0].log})
    vec.judge(ctx, ds, {"outcome", "error", "rhs", "matrix", "values", "structure"}, "copy")
