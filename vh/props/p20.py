"""P20: retraction and variable state follow the ordering and mask."""
from vh import store, vec


def judge(w, a, t, got):
    if a["op"] != "retract":
        return ""
    if got["res"] != "ok":
        return f"retract raised {got['res']}"
    return "" if w.val() == t["val"] else "values after retract"


def run(ctx):
    for v in (False, True):
        store.replay_graph(ctx, {"retract"}, judge, vec_from_start=v)
    # exact histories: vectors and rotations by quarter turns
    mix = {"retract": 10, "update": 3, "add": 1, "erase": 1, "vec": 2, "poke": 1, "metric": 1}
    evs = []
    for h in range(ctx.n(150, 2000)):
        d = store.Driver(ctx.rng, vec=0.5)
        try:
            evs.append(d.run(mix, ctx.rng.randint(5, 20)))
        except Exception:
            evs.append(d.ev)
            ctx.count("histories_cut_short_elsewhere")
    store.validate(ctx, evs, {"retract:outcome", "retracted"})
    # all group types against the variables' own retractions
    mix = {"retract": 6, "update": 2, "poke": 1, "masked": 3, "devec": 1, "vectorize": 1}
    ds = []
    for k in range(ctx.n(150, 1500)):
        d = vec.VecDriver(ctx.rng, kinds=["local", "between", "mfb", "di", "hinge", "reproj", "nonh_se2"],
                          vec=0.5, optim_full=ctx.rng.choice([1.0, 1.0, 0.5]))
        ds.append(d.run(mix, ctx.rng.randint(3, 10)))
    ctx.sample({"history": ds[0].log})
    vec.judge(ctx, [d for d in ds], {"retracted", "others", "masked", "restored"}, "retraction")
