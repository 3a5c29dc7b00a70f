"""P10: Levenberg-Marquardt damping (specs/Steps.tla, OptTrace.tla)."""
import theseus as th

from vh import opt as O
from vh.props.p09 import judge

EPS = (1, 10**6)
OFF = (0, 1)
RATIOS = [((2, 1), (2, 1)), ((4, 1), (2, 1)), ((11, 1), (9, 1)), ((3, 1), (3, 1)), ((2, 1), (4, 1)), ((8, 1), (8, 1)), ((3, 2), (2, 1))]


def scenario(rng):
    fam = rng.choice(["std", "std", "std", "std", "max", "max", "min"])
    n = rng.choice([1, 1, 2]) if fam == "std" else 1
    B = rng.choice([1, 2, 3, 4])
    K = rng.choice([2, 3, 5, 8])
    adaptive = rng.random() < 0.85 or fam != "std"
    scale = 1.0
    if fam == "std":
        ms = rng.choice([[1], [2], [1, 1]]) if n == 1 else rng.choice([[2], [1, 1], [2, 1]])
        P = O.Problem(rng, B, n, K, ms, amax=2, emax=rng.choice([2, 4]))
    elif fam == "max":
        # jacobians and errors large enough to notice the upper bound of the damping:
        # a step with damping 2^23 is too long, the next one (damping 10^7) is not
        P = O.Problem(rng, B, 1, K, [1], amax=1, emax=1)
        for cs in P.cells:
            for c in cs:
                c["A"][0][0] *= rng.choice([2500, 2800, 3200])
                c["e"][0] = rng.choice([-1, 1]) * rng.choice([1000, 4000, 6000, 7000, 8000, 9000])
        P.S = 16
    else:
        # and small enough to notice the lower bound
        scale = 2.0**-12
        P = O.Problem(rng, B, 1, K, [1], scale=scale, amax=2, emax=4)
    obj = P.build()
    solver = rng.choice(["chol", "lu"]) if adaptive else rng.choice(["chol", "lu", "cholmod"])
    opt = th.LevenbergMarquardt(obj, linear_solver_cls=O.SOLVERS[solver], vectorize=rng.random() < 0.4)
    for _ in range(rng.randint(1, 3)):
        ab, re = rng.choice([(OFF, OFF), (OFF, OFF), (EPS, EPS), ((3, 2), EPS), (EPS, (1, 4))]) if fam == "std" else (OFF, OFF)
        step = rng.choice([(1, 1), (1, 1), (1, 1), (1, 2)])
        its = rng.randint(1, 6)
        mode = rng.choice(["unroll", "unroll", "truncated", "implicit"])
        k2 = {"unroll": 0, "implicit": 1}.get(mode, rng.randint(0, its))
        opt.set_params(abs_err_tolerance=ab[0] / ab[1], rel_err_tolerance=re[0] / re[1], max_iterations=its, step_size=step[0] / step[1])
        up, down = rng.choice(RATIOS)
        acc = rng.choice([(1, 10), (1, 10), (1, 2), (0, 1), (1, 100)])
        if fam == "std":
            q0 = rng.choice([(1, 1), (1, 2), (2, 1), (4, 1), (8, 1), (1, 8)])
            lo, hi = [0, 0], [0, 0]
        elif fam == "max":
            q0, lo, hi = rng.choice([(2**21, 1), (2**22, 1), (2**23, 1)]), [0, 0], [10**7, 1]
            up, down = rng.choice([((2, 1), (2, 1)), ((8, 1), (2, 1)), ((16, 1), (4, 1))])
            acc = (0, 1)
        else:
            q0, lo, hi = rng.choice([(2, 1), (4, 1), (8, 1)]), [1677722, 10**6], [0, 0]
            lo = [1678, 1000]
            up, down = rng.choice([((2, 1), (2, 1)), ((2, 1), (8, 1)), ((4, 1), (16, 1))])
        kw = dict(damping=q0[0] / q0[1] * scale**2, adaptive_damping=adaptive)
        if adaptive or rng.random() < 0.5:
            kw.update(damping_accept=acc[0] / acc[1], up_damping_ratio=up[0] / up[1], down_damping_ratio=down[0] / down[1])
        if fam == "std" and rng.random() < 0.1:  # the documented defaults
            for k in ("damping_accept", "up_damping_ratio", "down_damping_ratio"):
                kw.pop(k, None)
            acc, up, down = (1, 10), (11, 1), (9, 1)
        if fam == "std" and rng.random() < 0.15:
            kw.pop("damping")
            q0 = (1, 1000)
        ell = int(solver != "cholmod" and fam == "std" and rng.random() < 0.4)
        if ell:
            kw["ellipsoidal_damping"] = True
        if mode == "truncated":
            kw["backward_num_iterations"] = k2
        meta = {"opt": "lm", "mode": mode, "K1": its - k2, "K2": k2, "p": {"abs": list(ab), "rel": list(re)},
                "step": list(step), "rules": 1, "adaptive": int(adaptive), "ell": ell, "tol": 3 if fam != "max" else 2, "q0": list(q0),
                "qmin": lo, "qmax": hi, "up": list(up), "down": list(down), "acc": list(acc),
                "shr": [1, 4], "exp": [3, 4], "solver": solver, "fam": fam, "nograd": int(rng.random() < 0.5)}
        off = [0.5] if fam != "max" else [0.25, 0.375, 0.5, 0.625, 0.75]
        meta["x0"] = [[rng.randint(-3, 3) + rng.choice(off) for _ in range(n)] for _ in range(B)]
        yield O.record(P, meta, O.optimize(P, obj, opt, kw, mode, meta["nograd"], meta["x0"]))


def run(ctx):
    evs = []
    for _ in range(ctx.n(700, 8000)):
        for ev in scenario(ctx.rng):
            evs += ev
            ctx.traces += 1
    judge(ctx, evs, None)
    ctx.sample(evs[0])
