"""P04: error evaluation: order, weighting and temporary inputs."""
from vh import store


def judge(w, a, t, got):
    if a["op"] != "error":
        return ""
    if got["res"] != "ok":
        return f"error() raised {got['res']}"
    if got["out"] != a["res"]:
        return "error vector"
    if w.val() != t["val"]:
        return "variables not restored"
    return ""


def run(ctx):
    store.replay_graph(ctx, {"error"}, judge)
    mix = {"error": 6, "metric": 4, "update": 2, "add": 1, "erase": 1, "vec": 1, "retract": 1, "poke": 1}
    evs = []
    for h in range(ctx.n(220, 2500)):
        d = store.Driver(ctx.rng, metric=True, vec=0.3)
        try:
            evs.append(d.run(dict(mix), ctx.rng.randint(5, 20)))
        except Exception:
            evs.append(d.ev)
            ctx.count("histories_cut_short_elsewhere")
    ctx.sample({"history": evs[0][:3]})
    store.validate(
        ctx, evs,
        {"error", "metric", "restored", "error:outcome", "metric:outcome"},
    )
