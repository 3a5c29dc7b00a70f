"""P03: updates bind tensors by name and keep batch sizes consistent."""
from vh import store


def judge(w, a, t, got):
    if a["op"] != "update":
        return ""
    if got["res"] != "ok":
        return f"update raised {got['res']}"
    if w.val() != t["val"]:
        return "values after update"
    sizes = {len(v) for f in t["reg"] for c in [w.cat["cfs"][f - 1]] for v in
             [t["val"][i - 1] for i in c["o"] + c["a"] + [c["w"]["v"]]]}
    if w.obj.batch_size != max(sizes):
        return "batch size"
    return ""


def run(ctx):
    store.replay_graph(ctx, {"update"}, judge, limit=ctx.n(None, None))
    mix = {"update": 10, "add": 1, "erase": 1, "vec": 1, "retract": 1, "poke": 1, "metric": 1}
    evs = []
    for h in range(ctx.n(220, 2500)):
        d = store.Driver(ctx.rng, vec=0.3)
        try:
            evs.append(d.run(dict(mix), ctx.rng.randint(5, 20)))
        except Exception:
            # calls other than update are not this property's business
            evs.append(d.ev)
            ctx.count("histories_cut_short_elsewhere")
    ctx.sample({"history": evs[0][:4]})
    store.validate(ctx, evs, {"update:values", "update:outcome", "batch_size", "add:values", "erase:values", "vec:values"})
