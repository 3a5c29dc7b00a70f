"""P11: Dogleg trust region (specs/Steps.tla, OptTrace.tla)."""
import theseus as th

from vh import opt as O
from vh.props.p09 import judge

EPS, OFF = (1, 10**6), (0, 1)


def scenario(rng):
    n = rng.choice([1, 2, 2, 2])
    B = rng.choice([1, 2, 3, 4])
    K = rng.choice([2, 3, 5, 8])
    ms = rng.choice([[1], [2], [1, 1]]) if n == 1 else rng.choice([[2], [1, 1], [2, 1]])
    P = O.Problem(rng, B, n, K, ms, amax=2, emax=rng.choice([2, 4]))
    obj = P.build()
    solver = rng.choice(["chol", "lu", "cholmod"])
    opt = th.Dogleg(obj, linear_solver_cls=O.SOLVERS[solver], vectorize=rng.random() < 0.4)
    for _ in range(rng.randint(1, 3)):
        ab, re = rng.choice([(OFF, OFF), (OFF, OFF), (EPS, EPS), ((3, 2), EPS)])
        step = rng.choice([(1, 1), (1, 1), (1, 1), (1, 2)])
        its = rng.randint(1, 6)
        mode = rng.choice(["unroll", "unroll", "truncated", "implicit"])
        k2 = {"unroll": 0, "implicit": 1}.get(mode, rng.randint(0, its))
        opt.set_params(abs_err_tolerance=ab[0] / ab[1], rel_err_tolerance=re[0] / re[1], max_iterations=its, step_size=step[0] / step[1])
        up = rng.choice([(2, 1), (4, 1), (1, 1), (3, 1)])
        dn = rng.choice([(1, 4), (1, 2), (1, 1), (1, 3)])
        acc, shr, exp = rng.choice([((0, 1), (1, 4), (3, 4)), ((0, 1), (1, 4), (3, 4)), ((1, 10), (1, 3), (1, 2)), ((1, 8), (1, 2), (9, 10)), ((0, 1), (1, 2), (3, 2))])
        q0 = rng.choice([(1, 2), (1, 1), (2, 1), (4, 1), (8, 1), (1, 4), (16, 1)])
        kw = dict(trust_region_init=q0[0] / q0[1], accept_threshold=acc[0] / acc[1], shrink_threshold=shr[0] / shr[1],
                  expand_threshold=exp[0] / exp[1], shrink_ratio=dn[0] / dn[1], expand_ratio=up[0] / up[1])
        lo, hi = [1, 10**5], [10**5, 1]
        if rng.random() < 0.4:
            lo, hi = rng.choice([[1, 4], [1, 2]]), rng.choice([[2, 1], [4, 1]])
            kw.update(min_trust_region=lo[0] / lo[1], max_trust_region=hi[0] / hi[1])
        elif rng.random() < 0.15:
            kw = dict(trust_region_init=q0[0] / q0[1])
            acc, shr, exp, dn, up = (0, 1), (1, 4), (3, 4), (1, 4), (2, 1)
        if mode == "truncated":
            kw["backward_num_iterations"] = k2
        meta = {"opt": "dl", "mode": mode, "K1": its - k2, "K2": k2, "p": {"abs": list(ab), "rel": list(re)},
                "step": list(step), "rules": 1, "adaptive": 1, "ell": 0, "tol": 10, "q0": list(q0),
                "qmin": lo, "qmax": hi, "up": list(up), "down": list(dn), "acc": list(acc),
                "shr": list(shr), "exp": list(exp), "solver": solver, "nograd": int(rng.random() < 0.5)}
        meta["x0"] = [[rng.randint(-3, 3) + 0.5 for _ in range(n)] for _ in range(B)]
        yield O.record(P, meta, O.optimize(P, obj, opt, kw, mode, meta["nograd"], meta["x0"]))


def run(ctx):
    evs = []
    for _ in range(ctx.n(700, 8000)):
        for ev in scenario(ctx.rng):
            evs += ev
            ctx.traces += 1
    judge(ctx, evs, None)
    ctx.sample(evs[0])
