"""P16: measurement costs (MeasMC graph replay, Meas judge)."""
from concurrent.futures import ThreadPoolExecutor

import torch
import theseus as th

from vh.core import call
from vh.lie import DIM, DOF, RIGID, TYPES, fx, full, mat, rand_el, step, to_param, CUBE, QUATS2, _gcd
from vh.tlc import Graph, run_tlc, validate_traces

CLS = {"SO2": th.SO2, "SE2": th.SE2, "SO3": th.SO3, "SE3": th.SE3}
ARITY = {"local": 2, "between": 3, "frame": 5}
D64 = torch.float64


def qmul(a, b):
    return [a[0]*b[0]-a[1]*b[1]-a[2]*b[2]-a[3]*b[3], a[0]*b[1]+a[1]*b[0]+a[2]*b[3]-a[3]*b[2],
            a[0]*b[2]-a[1]*b[3]+a[2]*b[0]+a[3]*b[1], a[0]*b[3]+a[1]*b[2]-a[2]*b[1]+a[3]*b[0]]


def qinv(a):
    return [a[0], -a[1], -a[2], -a[3]]


def resid_q(kind, qs):
    if kind == "local":
        q = qmul(qinv(qs[1]), qs[0])
    elif kind == "between":
        q = qmul(qinv(qs[2]), qmul(qinv(qs[0]), qs[1]))
    else:
        b = qmul(qinv(qmul(qinv(qs[0]), qs[2])), qmul(qinv(qs[1]), qs[3]))
        q = qmul(qinv(qs[4]), b)
    g = _gcd(q)
    q = [v // g for v in q]
    return [-v for v in q] if q[0] < 0 else q


def in_table(q):
    return q[0] <= 3 and sum(v * v for v in q[1:]) <= 14


def small_el(rng, ty):
    """Elements of the cube group (products of several stay in the log table)."""
    q = list(rng.choice(CUBE if DIM[ty] == 3 else [c for c in QUATS2 if c[0] ** 2 + c[3] ** 2 <= 2]))
    return {"q": q, "t": [rng.randint(-2, 2) for _ in range(DIM[ty])] if ty in RIGID else []}


def build(kind, vs, w=None):
    w = w or th.ScaleCostWeight(1.0)
    if kind == "local":
        return th.eb.Local(vs[0], vs[1], w)
    if kind == "between":
        return th.eb.Between(vs[0], vs[1], vs[2], w)
    return th.eb.MovingFrameBetween(vs[0], vs[1], vs[2], vs[3], vs[4], w)


class Rec:
    def __init__(self):
        self.ev, self.meta = [], []

    def add(self, meta, **e):
        self.ev.append(e)
        self.meta.append(meta)


def draw(rng, kind, ty, sizes, B):
    """Elements per variable whose residual logarithms are tabulated in every row."""
    while True:
        general = rng.randrange(ARITY[kind])
        els = [[(rand_el if (i == general or kind == "local") else small_el)(rng, ty) for _ in range(s)] for i, s in enumerate(sizes)]
        if rng.random() < 0.15:  # coinciding poses
            for i in range(1, len(els)):
                if len(els[i]) == len(els[0]):
                    els[i] = [dict(e) for e in els[0]]
        rows = [[e[b % len(e)] for e in els] for b in range(B)]
        if all(in_table(resid_q(kind, [e["q"] for e in row])) for row in rows):
            return els, rows


def tensor(ty, els, dtype):
    return torch.stack([to_param(ty, mat(ty, e, dtype)) for e in els])


def group_case(rec, rng, kind, ty):
    """One cost object through updates, batch changes, precision changes and approximations."""
    dtype = D64
    hist = []
    cost = None
    for stage in range(rng.randint(1, 4)):
        B = rng.choice([1, 2, 3])
        n = ARITY[kind]
        # optimisation variables have one batch size unless the cost is used on its own
        ob = rng.choice([B, B, 1])
        sizes = [ob] * (n - 1) + [rng.choice([B, 1])]
        if rng.random() < 0.3 and kind != "local":
            sizes = [rng.choice([B, 1]) for _ in range(n)]
        B = max(sizes)
        els, rows = draw(rng, kind, ty, sizes, B)
        how = "build" if cost is None else rng.choice(["update", "update", "to", "copy"])
        hist.append(f"{how}:{dtype}:{sizes}")
        if cost is None:
            vs = [CLS[ty](tensor=tensor(ty, e, dtype)) for e in els]
            tag, cost = call(build, kind, vs)
            if tag != "ok":
                rec.add((kind, ty, hist), op="outcome", res=tag, exp="ok", what=kind + "_outcome")
                return
        elif how == "to":
            dtype = torch.float32 if dtype == D64 else D64
            cost.to(dtype=dtype)
        elif how == "copy":
            cost = cost.copy()
        if how != "build":
            vs = list(cost.optim_vars) + list(cost.aux_vars)
            for v, e in zip(vs, els):
                v.update(tensor(ty, e, dtype))
        meta = (kind, ty, list(hist), els)
        fast = kind == "local" and rng.random() < 0.3
        th.set_global_params({"fast_approx_local_jacobians": fast})
        try:
            judge(rec, meta, kind, ty, cost, els, rows, sizes, B, dtype, fast, rng)
        finally:
            th.set_global_params({"fast_approx_local_jacobians": False})


def judge(rec, meta, kind, ty, cost, els, rows, sizes, B, dtype, fast, rng):
    tol = 4 if dtype == D64 else 40
    tag, err = call(cost.error)
    tag2, je = call(cost.jacobians)
    for t, what in ((tag, "_error_outcome"), (tag2, "_jacobians_outcome")):
        if t != "ok":
            rec.add(meta, op="outcome", res=t, exp="ok", what=kind + what)
    if tag != "ok" or tag2 != "ok":
        return
    jac, jerr = je
    dof = DOF[ty]
    ok = tuple(err.shape) == (B, dof) and tuple(jerr.shape) == (B, dof) and err.dtype == dtype and jerr.dtype == dtype
    ok = ok and len(jac) == len(list(cost.optim_vars)) and cost.dim() == dof
    ok = ok and all(j.ndim == 3 and j.shape[0] in (1, B) and tuple(j.shape[1:]) == (dof, dof) and j.dtype == dtype for j in jac)
    rec.add(meta, op="outcome", res="shapes" if ok else f"{tuple(err.shape)} {err.dtype} {[(tuple(j.shape), str(j.dtype)) for j in jac]}",
            exp="shapes", what=kind + "_shapes")
    if not ok:
        return
    for b in range(B):
        for e, w in ((err, ""), (jerr, "j")):
            rec.add(meta + (b, w), op="cost", kind=kind, ty=ty, els=[{"q": r["q"], "t": r["t"]} for r in rows[b]], out=fx(e[b]), tol=tol)
    js = [j.expand(B, dof, dof) for j in jac]
    if fast:
        for b in range(B):
            rec.add(meta + (b,), op="fast", j=[[int(v) if v in (0, 1) else 7 for v in row] for row in js[0][b].tolist()])
        return
    # central differences of the error under the variables' own update
    h = 1e-4
    n = len(jac)
    good = [b for b in range(B) if resid_q(kind, [r["q"] for r in rows[b]])[0] > 0]
    if not good:
        return
    base = [torch.stack([full(ty, mat(ty, r[i])) for r in rows]) for i in range(ARITY[kind])]
    probe = build(kind, [CLS[ty](tensor=to_param(ty, m[:, : DIM[ty]]), disable_checks=True) for m in base])
    pv = list(probe.optim_vars)
    D = [torch.zeros(B, dof, dof, dtype=D64) for _ in range(n)]
    for i in range(n):
        for k in range(dof):
            es = []
            for s in (h, -h):
                pv[i].update(to_param(ty, (base[i] @ step(ty, k, s))[:, : DIM[ty]]))
                es.append(probe.error())
            pv[i].update(to_param(ty, base[i][:, : DIM[ty]]))
            D[i][:, :, k] = (es[0] - es[1]) / (2 * h)
    for b in good:
        rec.add(meta + (b,), op="jac", kind=kind, ty=ty, els=[{"q": r["q"], "t": r["t"]} for r in rows[b]],
                j=[fx(j[b]) for j in js], D=[fx(d[b]) for d in D], tol=8 if dtype == D64 else 80)


def vector_case(rec, rng, kind):
    d = rng.choice([1, 2, 3, 4])
    cls = {2: rng.choice([th.Vector, th.Point2]), 3: rng.choice([th.Vector, th.Point3])}.get(d, th.Vector)
    B = rng.choice([1, 2, 3])
    n = ARITY[kind]
    sizes = [B] * (n - 1) + [rng.choice([1, B])] if rng.random() < 0.6 else [rng.choice([1, B]) for _ in range(n)]
    B = max(sizes)
    dtype = rng.choice([D64, torch.float32])
    vals = [[[rng.randint(-9, 9) for _ in range(d)] for _ in range(s)] for s in sizes]
    meta = (kind, cls.__name__, sizes, vals)
    tag, cost = call(build, kind, [cls(tensor=torch.tensor(v, dtype=dtype)) for v in vals])
    if tag == "ok":
        tag, err = call(cost.error)
    if tag == "ok":
        tag, je = call(cost.jacobians)
    if tag != "ok":
        rec.add(meta, op="outcome", res=tag, exp="ok", what=kind + "_vector_outcome")
        return
    jac, jerr = je
    ok = tuple(err.shape) == (B, d) == tuple(jerr.shape) and all(j.shape[0] in (1, B) and tuple(j.shape[1:]) == (d, d) for j in jac)
    rec.add(meta, op="outcome", res="shapes" if ok else str([tuple(err.shape)] + [tuple(j.shape) for j in jac]), exp="shapes", what=kind + "_vector_shapes")
    if not ok:
        return
    for b in range(B):
        v = [x[b % len(x)] for x in vals]
        for e in (err, jerr):
            rec.add(meta + (b,), op="vcost", kind=kind, v=v, out=fx(e[b]), j=[fx(j.expand(B, d, d)[b]) for j in jac], tol=2)


def camera_case(rec, rng):
    B = rng.choice([1, 2, 3])
    dtype = rng.choice([D64, D64, torch.float32])
    ob = B
    pick = lambda: rng.choice([1, B])  # noqa: E731
    sz = {"pose": ob, "pt": ob, "feat": pick(), "f": pick(), "k1": pick(), "k2": pick()}
    if rng.random() < 0.3:
        sz["pose"], sz["pt"] = pick(), pick()
    while True:
        pose = [{"q": list(rng.choice(CUBE)), "t": [rng.randint(-3, 3) for _ in range(3)]} for _ in range(sz["pose"])]
        pt = [[rng.randint(-3, 3) for _ in range(3)] for _ in range(sz["pt"])]
        rows = [(pose[b % len(pose)], pt[b % len(pt)]) for b in range(max(len(pose), len(pt), B))]
        c = [mat("SE3", p) @ torch.tensor([*map(float, x), 1.0], dtype=D64) for p, x in rows]
        if all(1 <= abs(float(v[2])) <= 6 and float(v[:2].abs().max()) <= 1.5 * abs(float(v[2])) for v in c):
            break
    feat = [[rng.randint(-3, 3) for _ in range(2)] for _ in range(sz["feat"])]
    f, k1, k2 = ([rng.randint(lo, hi) for _ in range(sz[n])] for n, lo, hi in (("f", 1, 4), ("k1", -2, 2), ("k2", -1, 1)))
    use = rng.random() < 0.8
    T = lambda v: torch.tensor(v, dtype=dtype)  # noqa: E731
    col = lambda v: th.Vector(tensor=T([[x] for x in v]))  # noqa: E731
    meta = ("camera", sz, use, pose, pt, feat, f, k1, k2)
    kw = {"calib_k1": col(k1), "calib_k2": col(k2)} if use else {}
    tag, cost = call(th.eb.Reprojection, th.SE3(tensor=torch.stack([mat("SE3", p, dtype) for p in pose])), th.Point3(tensor=T(pt)),
                     th.Point2(tensor=T(feat)), col(f), **kw)
    B = max([sz["pose"], sz["pt"], sz["feat"], sz["f"]] + ([sz["k1"], sz["k2"]] if use else []))
    if tag == "ok" and rng.random() < 0.3:
        tag, c2 = call(cost.copy)
        cost = c2 if tag == "ok" else cost
    if tag == "ok":
        tag, err = call(cost.error)
    if tag == "ok":
        tag, je = call(cost.jacobians)
    if tag != "ok":
        rec.add(meta, op="outcome", res=tag, exp="ok", what="reprojection_outcome")
        return
    jac, jerr = je
    ok = tuple(err.shape) == (B, 2) == tuple(jerr.shape) and len(jac) == 2 and jac[0].shape[0] in (1, B) and jac[1].shape[0] in (1, B)
    ok = ok and tuple(jac[0].shape[1:]) == (2, 6) and tuple(jac[1].shape[1:]) == (2, 3)
    rec.add(meta, op="outcome", res="shapes" if ok else str([tuple(err.shape)] + [tuple(j.shape) for j in jac]), exp="shapes", what="reprojection_shapes")
    if not ok:
        return
    for b in range(B):
        p, x = pose[b % len(pose)], pt[b % len(pt)]
        for e in (err, jerr):
            rec.add(meta + (b,), op="camera", q=p["q"], t=p["t"], p=x, feat=feat[b % len(feat)], f=f[b % len(f)],
                    k1=k1[b % len(k1)] if use else 0, k2=k2[b % len(k2)] if use else 0, out=fx(e[b]),
                    j=[fx(j.expand(B, *j.shape[1:])[b]) for j in jac], tol=3 if dtype == D64 else 200)


def mixed_types(rec, rng):
    """Costs over different pose types are refused."""
    a, b = rng.sample(TYPES, 2)
    A, Bv = CLS[a](), CLS[b]()
    w = th.ScaleCostWeight(1.0)
    for what, fn in (
        ("local", lambda: th.eb.Local(A, Bv, w)),
        ("between_measurement", lambda: th.eb.Between(A, CLS[a](), Bv, w)),
        ("between_variables", lambda: th.eb.Between(A, Bv, CLS[a](), w)),
        ("frame_measurement", lambda: th.eb.MovingFrameBetween(A, CLS[a](), CLS[a](), CLS[a](), Bv, w)),
        ("frame_variables", lambda: th.eb.MovingFrameBetween(A, CLS[a](), Bv, CLS[a](), CLS[a](), w)),
        ("local_dof", lambda: th.eb.Local(th.Vector(2), th.Vector(3), w)),
    ):
        tag, _ = call(fn)
        rec.add(("types", a, b), op="outcome", res=tag, exp="ValueError", what="type_check_" + what)


def replay(ctx, ty, res):
    ctx.model(res)
    g = Graph(res.prints)
    obs = {}
    for p in res.prints:
        if "o" in p:
            obs[(Graph.key(p["s"]), Graph.key(p["a"]))] = p["o"]
    rng = ctx.rng
    for start, walk in g.walks(rng, max_len=8, limit=ctx.n(260, None)):
        ctx.traces += 1
        names = sorted(g.state[start])
        pose = lambda s, n: to_param(ty, mat(ty, {"q": s[n]["q"], "t": [0, 0, 0][: DIM[ty]] if ty in RIGID else []}))  # noqa: E731

        def tens(s, n):
            m = mat(ty, {"q": s[n]["q"], "t": [0] * DIM[ty]})
            if ty in RIGID:
                m[:, -1] = torch.tensor(s[n]["t"][: DIM[ty]], dtype=D64) / s[n]["d"]
            return to_param(ty, m).unsqueeze(0)

        s0 = g.state[start]
        obj = th.Objective(dtype=D64)
        v = {n: CLS[ty](tensor=tens(s0, n), name=n) for n in names}
        meas = CLS[ty](tensor=tens(s0, "m"), name="meas")
        w = th.ScaleCostWeight(torch.ones(1, 1, dtype=D64))
        obj.add(th.eb.Local(v["a"], meas, w, name="l"))
        obj.add(th.eb.Between(v["a"], v["b"], meas, w, name="b"))
        obj.add(th.eb.MovingFrameBetween(v["f"], v["g"], v["a"], v["b"], meas, w, name="m"))
        d = DOF[ty]
        for s, a, t in walk:
            ctx.events += 1
            st = g.state[t]
            var = {"meas" if n == "m" else n: tens(st, n) for n in names}
            name = "meas" if a["v"] == "m" else a["v"]
            o = obs[(s, Graph.key(a))]

            def do():
                obj.update({name: var[name]})
                return obj.error()

            tag, e = call(do)
            bad = [tag] if tag != "ok" else []
            if not bad:
                for i, kind in enumerate(("local", "between", "frame")):
                    got = e[0, i * d : (i + 1) * d] * 1e4
                    if not any((got - torch.tensor(c, dtype=D64)).abs().max() <= 4 for c in o[kind]):
                        bad.append(kind)
            if bad:
                ctx.violation(f"residuals differ from their definition: {ty} {bad}",
                              {"walk": [x[1] for x in walk], "state": st, "got": str(e), "want": o}, key=f"replay:{ty}:{bad[0]}")
                break
        if len(ctx.violations) > 20:
            return
    ctx.count("pose_transitions", g.n_edges)


def run(ctx):
    rng = ctx.rng
    with ThreadPoolExecutor(4) as ex:
        deep = rng.choice(TYPES)  # one type a level deeper
        rs = list(ex.map(lambda ty: run_tlc("MeasMC", f"MeasMC_{ty}{'_q' if ctx.quick and ty != deep else ''}.cfg", timeout=800, heap="3g"), TYPES))
    for ty, res in zip(TYPES, rs):
        replay(ctx, ty, res)
    rec = Rec()
    for _ in range(ctx.n(14, 300)):
        for ty in TYPES:
            for kind in ARITY:
                group_case(rec, rng, kind, ty)
        for kind in ARITY:
            vector_case(rec, rng, kind)
        for _ in range(4):
            camera_case(rec, rng)
        mixed_types(rec, rng)
    seen = {}
    parts = [(i, rec.ev[i : i + 3000]) for i in range(0, len(rec.ev), 3000)]
    with ThreadPoolExecutor(4) as ex:
        out = list(ex.map(lambda p: validate_traces("Meas", "Meas.cfg", p[1], timeout=800), parts))
    for (i, _), (rej, res) in zip(parts, out):
        ctx.model(res)
        for x in rej:
            k = i + x["line"] - 1
            for c in x["clauses"]:
                key = f"P16:{c}" if c == "frame_jacobian_of_group_difference" else f"{rec.meta[k][0]}:{rec.meta[k][1]}:{c}"
                seen[key] = seen.get(key, 0) + 1
                if seen[key] <= 2:
                    ctx.violation(f"{c} differs from its definition", {"event": rec.ev[k], "meta": str(rec.meta[k])[:1500]}, key=key)
    ctx.events += len(rec.ev)
    ctx.traces += len(rec.ev)
    for e in rec.ev[:3]:
        ctx.sample(e)
    ctx.extra["clauses_failing"] = seen
    ctx.assumptions += [
        "fixed point 1e-4; jacobians against central differences (step 1e-4) of the cost's own error, which is itself judged exactly",
        "residual rotations of exactly half a turn may have either logarithm and are excluded from jacobian checks",
        "fast_approx_local_jacobians documents an identity jacobian; that is what is required of it",
    ]
