"""P05: vectorization never changes results."""
from vh import store, vec


def judge(w, a, t, got):
    if a["op"] == "error" and got.get("out") != a["res"]:
        return "vectorized error vector"
    if a["op"] == "lin" and (got.get("A"), got.get("b")) != (a["A"], a["b"]):
        return "vectorized linear system"
    if a["op"] == "retract" and w.val() != t["val"]:
        return "vectorized retraction"
    return ""


def run(ctx):
    # every transition of the Store model, with vectorization on throughout
    store.replay_graph(ctx, {"error", "lin", "retract", "vec"}, judge, vec_from_start=True)
    # histories of shipped cost functions
    mix = {"eval": 7, "update": 4, "retract": 3, "temp_error": 2, "poke": 2, "add": 1, "erase": 1,
           "devec": 1, "vectorize": 1, "grad": 1}
    ds = []
    for k in range(ctx.n(150, 1500)):
        d = vec.VecDriver(ctx.rng, vec=0.95, zero=ctx.rng.choice([0.0, 0.3, 1.0]))
        ds.append(d.run(mix, ctx.rng.randint(4, 12)))
    ctx.sample({"history": ds[0].log})
    vec.judge(ctx, ds, {"outcome", "error", "rhs", "matrix", "retracted", "others", "gradient"},
              "vectorized objective differs from its parts")
