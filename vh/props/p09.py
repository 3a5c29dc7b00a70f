"""P09: optimizer loop and reported info (specs/Nls.tla, NlsMC.tla, OptTrace.tla)."""
from vh import opt as O
from vh.tlc import run_tlc, validate_traces

TOLS = [((1, 10**6), (1, 10**6)), ((3, 10), (1, 10**6)), ((1, 10**6), (3, 10)), ((3, 2), (1, 5)), ((0, 1), (0, 1)),
        ((1, 10**6), (1, 2)), ((13, 5), (1, 10**6))]


def scenario(rng, kinds):
    """A random problem, its optimizers and a list of runs; yields event lists."""
    n = rng.choice([1, 1, 2])
    B = rng.choice([1, 1, 2, 3, 4])
    K = rng.choice([2, 3, 5, 8])
    ms = rng.choice([[1], [2], [1, 1], [1, 2]]) if n == 1 else rng.choice([[2], [3], [1, 1], [2, 1]])
    kind = rng.choice(kinds)
    sing = 0.15 if (kind in ("gn", "dl") and rng.random() < 0.3) else 0.0
    P = O.Problem(rng, B, n, K, ms, amax=rng.choice([1, 2]), emax=rng.choice([1, 2, 4]), sing=sing)
    vec = rng.random() < 0.4
    obj = P.build()
    sname = rng.choice(["chol", "lu", "cholmod"])
    adaptive = kind == "lma"
    if adaptive and sname == "cholmod":
        sname = "chol"
    cls = O.OPTS["lm" if kind.startswith("lm") else kind]
    opt = cls(obj, linear_solver_cls=O.SOLVERS[sname], vectorize=vec)
    for _ in range(rng.randint(1, 3)):
        (an, ad), (rn, rd) = rng.choice(TOLS)
        mode = rng.choice(["unroll", "unroll", "dlm", "truncated", "implicit"])
        K = rng.randint(0, 6)
        k2 = 0
        if mode == "truncated":
            k2 = rng.randint(0, K)
        if mode == "implicit":
            K, k2 = max(K, 1), 1
        step = rng.choice([(1, 1), (1, 1), (1, 2), (1, 4), (3, 4)])
        opt.set_params(abs_err_tolerance=an / ad, rel_err_tolerance=rn / rd, max_iterations=K, step_size=step[0] / step[1])
        kw = {}
        if mode == "truncated":
            # never more than the whole budget
            kw["backward_num_iterations"] = k2 if k2 < K or rng.random() < 0.5 else K + rng.randint(1, 3)
        meta = {"opt": kind[:2], "mode": mode, "K1": K - k2, "K2": k2, "p": {"abs": [an, ad], "rel": [rn, rd]},
                "step": list(step), "rules": int(kind in ("gn", "lm")), "adaptive": int(adaptive), "ell": 0, "tol": 3,
                "q0": [0, 1], "qmin": [0, 0], "qmax": [0, 0], "up": [2, 1], "down": [2, 1], "acc": [1, 10],
                "shr": [1, 4], "exp": [3, 4], "solver": sname, "vec": int(vec)}
        if kind == "lm":
            q = rng.choice([(0, 1), (1, 1), (1, 2), (2, 1), (1, 8)])
            if sname != "cholmod" and q[0] and rng.random() < 0.4:
                meta["ell"] = 1
                kw["ellipsoidal_damping"] = True
            kw["damping"] = q[0] / q[1]
            meta["q0"] = list(q)
        elif adaptive:
            kw.update(damping=1.0, adaptive_damping=True)
            meta["q0"] = [1, 1]
        elif kind == "dl":
            kw.update(trust_region_init=rng.choice([0.5, 1.0, 4.0]))
        nograd = rng.random() < 0.6
        meta["nograd"] = int(nograd)
        meta["x0"] = [[rng.randint(-3, 3) + 0.5 for _ in range(n)] for _ in range(B)]
        yield O.record(P, meta, O.optimize(P, obj, opt, kw, mode, nograd, meta["x0"]))


def judge(ctx, evs, owner, cfg="OptTrace.cfg"):
    rej, r = validate_traces("OptTrace", cfg, evs)
    ctx.model(r)
    ctx.events += len(evs)
    ctx.count("runs_undecided", sum(1 for p in r.prints if isinstance(p, dict) and "undecided" in p))
    for x in rej:
        i = x["line"] - 1
        st = i
        while evs[st]["op"] not in ("start", "solo"):
            st -= 1
        s = evs[st]
        ctx.violation(f"{s.get('opt')} {s.get('mode')}: {x['clauses']} {evs[i].get('why', '')}",
                      {"run": evs[st : i + 1], "clauses": x["clauses"]})


def run(ctx):
    ctx.model(run_tlc("NlsMC", "NlsMC.cfg" if ctx.tier == "quick" else "NlsMCbig.cfg", workers=4))
    evs = []
    for _ in range(ctx.n(900, 8000)):
        for ev in scenario(ctx.rng, ["gn", "gn", "lm", "lm", "lma", "dl"]):
            evs += ev
            ctx.traces += 1
    judge(ctx, evs, None)
    ctx.sample(evs[0])
