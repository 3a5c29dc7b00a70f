"""P17: motion and collision costs (Field theorems and replay, FieldTrace and Meas judges)."""
import math
import warnings
from concurrent.futures import ThreadPoolExecutor

import torch
import theseus as th

from vh.core import call, ints
from vh.lie import CUBE, DIM, DOF, RIGID, TYPES, full, fx, mat, rand_el, step, to_param
from vh.props.p16 import in_table, qinv, qmul, small_el
from vh.lie import _gcd
from vh.tlc import run_tlc, validate_traces

eb = th.eb
D64, F32 = torch.float64, torch.float32
CLS = {"SO2": th.SO2, "SE2": th.SE2, "SO3": th.SO3, "SE3": th.SE3}
CELLS = [1, 2, 4, 8]
ROTS = [[1, 0, 1], [0, 1, 1], [-1, 0, 1], [0, -1, 1]]
ODD = [[3, 4, 5], [-4, 3, 5], [4, -3, 5]]


class Rec:
    def __init__(self, ctx):
        self.ctx, self.ev, self.meta = ctx, [], []

    def add(self, meta, **e):
        self.ev.append(e)
        self.meta.append(meta)

    def outcome(self, what, res, exp, meta=None):
        self.add(meta, op="outcome", what=what, res=res, exp=exp)

    def raises(self, what, exp, fn, *a, **k):
        self.outcome(what, call(fn, *a, **k)[0], exp)


def w1(dtype=D64):
    return th.ScaleCostWeight(torch.ones(1, 1, dtype=dtype))


def lives(rng, make, vals):
    """Builds a cost from the first values, or from others and brings it there later.

    make(tensors) builds a cost; vals/others are lists of tensors in registration order
    (optimisation variables, then auxiliary ones)."""
    first, other = vals
    how = rng.choice(["built", "built", "updated", "copied", "objective", "shared"])
    if how == "built":
        return how, make(first)
    c = make(other)
    if how == "copied":
        c = c.copy(keep_variable_names=True)
    if how in ("objective", "shared"):
        o = th.Objective(dtype=first[0].dtype)
        o.add(c)
        if how == "shared":
            # a second cost on the same variables, in a copy of the objective
            c2 = c.copy(keep_variable_names=True)
            for i, v in enumerate(list(c.optim_vars)):
                c2.set_optim_var_at(i, v)
            for i, v in enumerate(list(c.aux_vars)):
                c2.set_aux_var_at(i, v)
            o.add(c2)
            o = o.copy()
            c = o.get_cost_function(c2.name)
        vs = list(c.optim_vars) + list(c.aux_vars)
        o.update({v.name: t for v, t in zip(vs, first)})
    else:
        for v, t in zip(list(c.optim_vars) + list(c.aux_vars), first):
            v.update(t)
    return how, c


def evaluate(rec, meta, what, c, B, dim, dtype):
    tag, err = call(c.error)
    tag2, je = call(c.jacobians)
    for t, x, nm in ((tag, err, "_error_outcome"), (tag2, je, "_jacobians_outcome")):
        rec.outcome(what + nm, t, "ok", (meta, str(x)[:200] if t != "ok" else ""))
    if tag != "ok" or tag2 != "ok":
        return None
    J, e2 = je
    ok = tuple(err.shape) == tuple(e2.shape) == (B, dim) and c.dim() == dim and err.dtype == dtype
    ok = ok and all(tuple(j.shape) == (B, dim, v.dof()) and j.dtype == dtype for j, v in zip(J, c.optim_vars)) and len(J) == len(list(c.optim_vars))
    rec.outcome(what + "_shapes", "ok" if ok else str((tuple(err.shape), err.dtype, [tuple(j.shape) for j in J])), "ok", meta)
    return (err, J, e2) if ok else None


def tv(t):
    return th.Variable(t)


# ----------------------------------------------------------------- double integrator
def dt_of(rng):
    return rng.choice([(1, 1), (1, 2), (2, 1), (1, 4), (3, 2), (3, 1), (5, 4)])


def motion(rec, rng):
    ty = rng.choice(TYPES + ["vec", "vec"])
    B = rng.choice([1, 2, 3])
    dtype = D64 if ty != "vec" or rng.random() < 0.7 else F32
    bt = rng.choice([1, B])
    dts = [dt_of(rng) for _ in range(bt)]
    d = rng.choice([1, 2, 3]) if ty == "vec" else DOF[ty]

    def draw():
        if ty == "vec":
            x = [[[rng.randint(-9, 9) for _ in range(d)] for _ in range(B)] for _ in range(2)]
            return x, [torch.tensor(v, dtype=dtype) for v in x]
        while True:
            els = [[(rand_el if i == g else small_el)(rng, ty) for _ in range(B)] for i in range(2) for g in [rng.randrange(2)]]
            qs = []
            for b in range(B):
                q = qmul(qinv(els[0][b]["q"]), els[1][b]["q"])
                k = _gcd(q)
                qs.append([v // k for v in q] if q[0] >= 0 else [-(v // k) for v in q])
            if all(in_table(q) for q in qs):
                return els, [torch.stack([to_param(ty, mat(ty, e, dtype)) for e in v]) for v in els]

    cls = CLS.get(ty) or {2: rng.choice([th.Vector, th.Point2]), 3: rng.choice([th.Vector, th.Point3])}.get(d, th.Vector)
    els, xs = draw()
    _, ys = draw()
    v = [[[rng.randint(-6, 6) for _ in range(d)] for _ in range(B)] for _ in range(2)]
    vt = [torch.tensor(z, dtype=dtype) for z in v]
    dtt = torch.tensor([[a / b] for a, b in dts], dtype=dtype)
    gp = rng.random() < 0.4
    Q = torch.eye(d, dtype=dtype)

    def make(t):
        dt = t[4]
        if rng.random() < 0.3:
            dt = dt.view(-1)
        if bt == 1 and rng.random() < 0.3:
            dt = float(dt) if dtype == F32 else dt.view(())
        if rng.random() < 0.4:
            dt = tv(dt) if torch.is_tensor(dt) else dt
        args = cls(tensor=t[0]), th.Vector(tensor=t[1]), cls(tensor=t[2]), th.Vector(tensor=t[3]), dt
        return eb.GPMotionModel(*args, eb.GPCostWeight(Q, t[4].clone())) if gp else eb.DoubleIntegrator(*args, w1(dtype))
    first = [xs[0], vt[0], xs[1], vt[1], dtt]
    other = [ys[0], vt[1] + 1, ys[1], vt[0] - 1, dtt + 1]
    tag, r = call(lives, rng, make, (first, other))
    rec.outcome("motion_build", tag, "ok", (ty, gp, str(r)[:200]))
    if tag != "ok":
        return
    how, c = r
    meta = (ty, "gp" if gp else "di", how, els, v, dts)
    out = evaluate(rec, meta, "motion", c, B, 2 * d, dtype)
    if out is None:
        return
    err, J, e2 = out
    tol = 6 if dtype == D64 else 60
    for b in range(B):
        e = {"op": "di", "ty": ty, "v1": v[0][b], "v2": v[1][b], "dt": list(dts[b % bt]), "tol": tol}
        if ty == "vec":
            e.update(x1=els[0][b], x2=els[1][b])
        else:
            e["els"] = [{"q": els[0][b]["q"], "t": els[0][b]["t"]}, {"q": els[1][b]["q"], "t": els[1][b]["t"]}]
        rec.add(meta, **e, out=fx(err[b]))
        rec.add(meta, **e, out=fx(e2[b]))
    if dtype == D64:
        good = [b for b in range(B) if ty == "vec" or qmul(qinv(els[0][b]["q"]), els[1][b]["q"])[0] != 0]
        D = differences(c)
        for b in good:
            rec.add(meta, op="jac", kind="motion", ty=ty, j=[fx(j[b]) for j in J], D=[fx(x[b]) for x in D], tol=12)


def differences(c, h=1e-4):
    """Central differences of a cost's own error under its variables' own retractions."""
    D = []
    for v in c.optim_vars:
        keep, cols = v.tensor.clone(), []
        for k in range(v.dof()):
            es = []
            for s in (h, -h):
                d = torch.zeros(v.shape[0], v.dof(), dtype=v.dtype)
                d[:, k] = s
                v.update(v.retract(d).tensor)
                es.append(c.error().clone())
                v.update(keep)
            cols.append((es[0] - es[1]) / (2 * h))
        D.append(torch.stack(cols, 2))
    return D


def prior(rec, rng):
    n, B = rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
    bq, bt = rng.choice([(1, B), (B, 1), (B, B), (1, 1)])
    Qs = []
    for _ in range(bq):
        L = torch.tensor([[rng.randint(-2, 2) if j < i else rng.randint(1, 2) if i == j else 0 for j in range(n)] for i in range(n)], dtype=D64)
        Qs.append(L @ L.T)
    dts = [rng.choice([(1, 1), (1, 2), (2, 1), (1, 4), (3, 2), (3, 1)]) for _ in range(bt)]
    Qt, dtt = torch.stack(Qs), torch.tensor([[a / b] for a, b in dts], dtype=D64)
    q_in = Qt[0] if bq == 1 and rng.random() < 0.5 else Qt
    if rng.random() < 0.5:
        tag, w = call(eb.GPCostWeight, q_in, dtt.view(-1) if rng.random() < 0.4 else dtt)
    else:
        tag, w = call(eb.GPCostWeight, torch.eye(n, dtype=D64).repeat(bq, 1, 1) * 3, dtt + 2)
        if tag == "ok":
            w.Qc_inv.update(Qt)
            w.dt.update(dtt)
            if rng.random() < 0.4:
                w = w.copy()
    rec.outcome("prior_build", tag, "ok", str(w)[:200])
    if tag != "ok":
        return
    m = rng.choice([1, 2, 3])
    I2 = torch.eye(2 * n, dtype=D64).expand(B, 2 * n, 2 * n)
    err = torch.tensor([[rng.randint(-3, 3) for _ in range(2 * n)] for _ in range(B)], dtype=D64)
    jac = [torch.tensor([[[rng.randint(-2, 2) for _ in range(m)] for _ in range(2 * n)] for _ in range(B)], dtype=D64) for _ in range(2)]
    tag, r = call(lambda: (w.weight_error(err), w.weight_jacobians_and_error([I2] + jac, err), w.is_zero()))
    rec.outcome("prior_runs", tag, "ok", str(r)[:200])
    if tag != "ok":
        return
    we, (wj, we2), zero = r
    rec.outcome("prior_is_zero", "some" if zero.any() else "none", "none")
    W = wj[0]
    for b in range(B):
        a, bb = dts[b % bt]
        s = a ** 3
        for e in (we, we2):
            rec.add((n, bq, bt), op="gp", Q=ints(Qs[b % bq]), a=a, b=bb, A=ints(W[b].T @ W[b], s, 1e-3), err=ints(err[b]),
                    we=ints(W[b].T @ e[b], s, 1e-3), jac=[ints(j[b]) for j in jac], wj=[ints(W[b].T @ x[b], s, 1e-3) for x in wj[1:]])


# ------------------------------------------------------------------- the hinge cost
def hinge(rec, rng):
    n, B = rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
    dtype = rng.choice([D64, F32])
    bs = [rng.choice([1, B]) for _ in range(3)]
    per = rng.random() < 0.7
    row = lambda f: [f() for _ in range(n)] if per else [f()] * n  # noqa: E731
    while True:
        lo = [row(lambda: rng.randint(-8, 4)) for _ in range(bs[0])]
        hi = [row(lambda: rng.randint(-4, 9)) for _ in range(bs[1])]
        thr = [row(lambda: rng.randint(0, 3)) for _ in range(bs[2])]
        if all(lo[b % bs[0]][i] <= hi[b % bs[1]][i] for b in range(B) for i in range(n)):
            break
    x = [[rng.randint(-12, 12) if rng.random() < 0.7 else rng.choice([lo[b % bs[0]][i] + thr[b % bs[2]][i], hi[b % bs[1]][i] - thr[b % bs[2]][i]])
          for i in range(n)] for b in range(B)]
    t = lambda v: torch.tensor(v, dtype=dtype) / 4  # noqa: E731
    flat = not per and bs == [1, 1, 1] and dtype == F32

    def make(ts):
        a = [th.Vector(tensor=ts[0])] + [float(z[0, 0]) if flat else (tv(z) if rng.random() < 0.4 else z) for z in ts[1:]]
        return eb.HingeCost(*a, w1(dtype))
    first = [t(x), t(lo), t(hi), t(thr)]
    other = [t(x) + 1, t(lo) - 1, t(hi) + 2, t(thr) + 0.25]
    tag, r = call(lives, rng, make, (first, other))
    rec.outcome("hinge_build", tag, "ok", (bs, str(r)[:200]))
    if tag != "ok":
        return
    how, c = r
    meta = (how, bs)
    out = evaluate(rec, meta, "hinge", c, B, n, dtype)
    if out is None:
        return
    for b in range(B):
        for e in (out[0], out[2]):
            rec.add(meta, op="hinge", x=x[b], lo=lo[b % bs[0]], hi=hi[b % bs[1]], th=thr[b % bs[2]], v=ints(e[b], 4), j=ints(out[1][0][b]))


# ----------------------------------------------------------------- non-holonomic cost
def sideways(rec, rng):
    B, dtype = rng.choice([1, 2, 3]), rng.choice([D64, F32])
    se2 = rng.random() < 0.5
    ks = [rng.randint(-3, 4) for _ in range(B)]
    p = [[rng.randint(-3, 3), rng.randint(-3, 3), k * math.pi / 2] for k in ks]
    u = [[rng.randint(-5, 5) for _ in range(3)] for _ in range(B)]
    vec = rng.choice([th.Vector, th.Point3])
    pt = th.SE2(x_y_theta=torch.tensor(p, dtype=dtype)).tensor if se2 else torch.tensor(p, dtype=dtype)
    make = lambda t: eb.Nonholonomic((th.SE2 if se2 else vec)(tensor=t[0]), rng.choice([th.Vector, th.Point3])(tensor=t[1]), w1(dtype))  # noqa: E731
    first = [pt, torch.tensor(u, dtype=dtype)]
    tag, r = call(lives, rng, make, (first, [pt.flip(0), first[1] + 1]))
    rec.outcome("sideways_build", tag, "ok", str(r)[:200])
    if tag != "ok":
        return
    out = evaluate(rec, r[0], "sideways", r[1], B, 1, dtype)
    if out is None:
        return
    for b in range(B):
        for e in (out[0], out[2]):
            rec.add((r[0], se2), op="side", se2=se2, k=0 if se2 else ks[b], u=u[b], v=ints(e[b], 1, 1e-4)[0], j=[ints(j[b], 1, 1e-4)[0] for j in out[1]])


# ------------------------------------------------------------------ pushing an object
def pushing(rec, rng):
    B = rng.choice([1, 2, 3])
    exact = rng.random() < 0.6
    dtype = D64 if not exact or rng.random() < 0.7 else F32

    def draw():
        while True:
            p = [[{"x": rng.randint(-3, 3), "y": rng.randint(-3, 3), "k": rng.randint(0, 3)} for _ in range(B)] for _ in range(4)]
            if all((p[1][b]["k"] - p[0][b]["k"]) % 4 != 2 for b in range(B)):
                break
        if exact:
            cs = [[1, 0], [0, 1], [-1, 0], [0, -1]]
            return p, [torch.tensor([[q["x"], q["y"]] + cs[q["k"]] for q in v], dtype=dtype) for v in p]
        return p, [th.SE2(x_y_theta=torch.tensor([[rng.uniform(-2, 2), rng.uniform(-2, 2), rng.uniform(-1.4, 1.4)] for _ in range(B)], dtype=dtype)).tensor for _ in range(4)]
    p, ts = draw()
    _, os_ = draw()
    bc = rng.choice([1, B])
    c2 = [rng.randint(0, 4) for _ in range(bc)]
    ct = torch.tensor(c2, dtype=dtype).view(-1, 1)

    def make(t):
        c = t[4]
        if bc == 1 and rng.random() < 0.3:
            c = float(c)
        elif rng.random() < 0.4:
            c = tv(c)
        return eb.QuasiStaticPushingPlanar(*[th.SE2(tensor=z, disable_checks=True) for z in t[:4]], c, w1(dtype))
    if bc == 1 and rng.random() < 0.3:
        tag, r = call(lambda: ("built", make(ts + [ct])))
    else:
        tag, r = call(lives, rng, make, (ts + [ct], os_ + [ct + 1]))
    rec.outcome("push_build", tag, "ok", str(r)[:200])
    if tag != "ok":
        return
    out = evaluate(rec, r[0], "push", r[1], B, 3, dtype)
    if out is None:
        return
    err, J, e2 = out
    if exact:
        for b in range(B):
            for e in (err, e2):
                rec.add(r[0], op="push", o1=p[0][b], o2=p[1][b], e1=p[2][b], e2=p[3][b], c2=c2[b % bc], v=fx(e[b]), j=[fx(j[b]) for j in J],
                        tol=4 if dtype == D64 else 60)
    if dtype == D64:
        D = differences(r[1])
        for b in range(B):
            rec.add(r[0], op="jac", kind="push", ty="SE2", j=[fx(j[b]) for j in J], D=[fx(x[b]) for x in D], tol=8)


# --------------------------------------------------------------- signed distance maps
def rand_map(rng):
    R, C = rng.choice([2, 3, 3, 4]), rng.choice([2, 3, 4, 5])
    return [[rng.randint(-4, 5) for _ in range(C)] for _ in range(R)]


def distance(rec, rng):
    B, N = rng.choice([1, 2, 3]), rng.choice([1, 2, 4])
    dtype = rng.choice([D64, D64, F32])
    m0 = rand_map(rng)
    bm, bo, bk = rng.choice([1, B]), rng.choice([1, B]), rng.choice([1, B])
    ms = [m0] + [[[rng.randint(-4, 5) for _ in r] for r in m0] for _ in range(bm - 1)]
    org = [[rng.randint(-6, 6), rng.randint(-6, 6)] for _ in range(bo)]
    Ks = [rng.choice(CELLS) for _ in range(bk)]
    bv = rng.choice([0, 0, 3, -2])
    R, C = len(m0), len(m0[0])
    pts = []
    for b in range(B):
        row = []
        for _ in range(N):
            K = Ks[b % bk]
            c, r = rng.randint(-2, (C - 1) * K + 2), rng.randint(-2, (R - 1) * K + 2)
            if rng.random() < 0.3:
                c = rng.randint(0, C - 1) * K
            if rng.random() < 0.3:
                r = rng.randint(0, R - 1) * K
            row.append((c, r))
        pts.append(row)
    ot, kt, mt = (torch.tensor(z, dtype=dtype) for z in (org, Ks, ms))
    ot, kt = ot / 4, kt.view(-1, 1) / 4
    o_in = th.Point2(tensor=ot) if rng.random() < 0.5 else ot
    k_in = tv(kt) if rng.random() < 0.4 else (float(kt) if bk == 1 and dtype == F32 and rng.random() < 0.5 else kt)
    m_in = tv(mt) if rng.random() < 0.4 else mt
    how = rng.choice(["built", "update_data", "to"])
    kw = {"sdf_boundary_value": float(bv)} if bv or rng.random() < 0.3 else {}
    if how == "update_data":
        w = torch.zeros(1, rng.choice([2, 5]), rng.choice([2, 6]), dtype=dtype)
        tag, f = call(eb.SignedDistanceField2D, torch.zeros(1, 2, dtype=dtype), torch.ones(1, 1, dtype=dtype), sdf_data=w, **kw)
        if tag == "ok":
            tag, _ = call(f.update_data, o_in, m_in, k_in)
    elif how == "to":
        x = D64 if dtype == F32 else F32
        tag, f = call(eb.SignedDistanceField2D, th.Point2(tensor=ot.to(x)), tv(kt.to(x)), sdf_data=tv(mt.to(x)), **kw)
        if tag == "ok":
            tag, _ = call(f.to, dtype)
    else:
        tag, f = call(eb.SignedDistanceField2D, o_in, k_in, sdf_data=m_in, **kw)
    meta = (how, bm, bo, bk, str(dtype))
    rec.outcome("map_build", tag, "ok", meta)
    if tag != "ok":
        return
    x = torch.zeros(B, 2, N, dtype=dtype)
    for b in range(B):
        for i, (c, r) in enumerate(pts[b]):
            x[b, 0, i], x[b, 1, i] = (c + org[b % bo][0]) / 4, (r + org[b % bo][1]) / 4
    x.requires_grad_(True)
    tag, out = call(f.signed_distance, x)
    rec.outcome("distance_outcome", tag, "ok", (meta, str(out)[:200]))
    if tag != "ok":
        return
    d, J = out
    ok = tuple(d.shape) == (B, N) and tuple(J.shape) == (B, N, 2) and d.dtype == dtype
    rec.outcome("distance_shapes", "ok" if ok else str((d.shape, J.shape)), "ok", meta)
    if not ok:
        return
    g, = torch.autograd.grad(d.sum(), x) if d.requires_grad else (torch.zeros_like(x),)
    tol = 1e-4
    for b in range(B):
        K = Ks[b % bk]
        for i, (c, r) in enumerate(pts[b]):
            rec.add(meta, op="sdf", m=ms[b % bm], c=c, r=r, D=K, fuzzy=False, bv=bv, v=ints(d[b, i], K * K, tol),
                    j=ints(J[b, i], K * K, tol), g=ints(g[b, :, i], K * K, tol))


def transform(rec, rng):
    R, C, B = rng.randint(2, 6), rng.randint(2, 6), rng.choice([1, 2, 3])
    thr = rng.choice([0.75, 0.5, 0.25])
    p = rng.choice([0.1, 0.3, 0.6, 0.9])
    os_ = []
    while len(os_) < B:
        o = [[int(rng.random() < p) for _ in range(C)] for _ in range(R)]
        if rng.random() < 0.1:
            o = [[0] * C for _ in range(R)]
        if not all(v for r in o for v in r):
            os_.append(o)
    Ks = [rng.choice(CELLS) for _ in range(rng.choice([1, B]))]
    dtype = rng.choice([F32, D64])
    occ = torch.tensor([[[rng.choice([thr + 0.125, 1.0]) if v else rng.choice([0.0, thr - 0.125, thr]) for v in r] for r in o] for o in os_], dtype=dtype)
    k = torch.tensor(Ks, dtype=dtype).view(-1, 1) / 4
    kw = {} if thr == 0.75 and rng.random() < 0.5 else {"occupancy_threshold": thr}
    tag, f = call(eb.SignedDistanceField2D, torch.zeros(1, 2, dtype=dtype), tv(k) if rng.random() < 0.5 else k,
                  occupancy_map=tv(occ) if rng.random() < 0.5 else occ, **kw)
    rec.outcome("transform_outcome", tag, "ok", str(f)[:200])
    if tag != "ok":
        return
    for b in range(B):
        s = f.sdf_data.tensor[b].to(D64) / (Ks[b % len(Ks)] / 4)
        rec.add((thr, Ks), op="edt", o=os_[b], out=ints(s.sign() * s * s, 1, 2e-3))


def robots(rec, rng):
    kind = rng.choice(["coll", "eff"])
    point = kind == "coll" and rng.random() < 0.4
    B = rng.choice([1, 2, 3])
    dtype = D64
    m0 = rand_map(rng)
    bm, bo, bk, bl = (rng.choice([1, B]) for _ in range(4))
    ms = [[[rng.randint(-3, 5) for _ in r] for r in m0] for _ in range(bm)]
    org = [[rng.randint(-6, 6), rng.randint(-6, 6)] for _ in range(bo)]
    Ks = [rng.choice(CELLS) for _ in range(bk)]
    lim = [rng.randint(0, 12) for _ in range(bl)]
    R, C = len(m0), len(m0[0])

    def draw():
        ps = [[] for _ in range(1 if kind == "coll" else 2)]
        for b in range(B):
            K, o = Ks[b % bk], org[b % bo]
            c, r = rng.randint(-1, (C - 1) * K + 1), rng.randint(-1, (R - 1) * K + 1)
            if rng.random() < 0.25:
                c = rng.randint(0, C - 1) * K
            if rng.random() < 0.25:
                r = rng.randint(0, R - 1) * K
            rot = lambda: rng.choice(ROTS + ODD)  # noqa: E731
            x, y = c + o[0], r + o[1]
            if kind == "coll":
                q = [1, 0, 1] if point else rot()
                ps[0].append({"x": x, "y": y, "c": q[0], "s": q[1], "n": q[2]})
            else:
                q, f = rot(), rot()
                ox, oy = rng.randint(-5, 5), rng.randint(-5, 5)
                # the effector lands on the drawn point, or (odd rotations) near it
                ex, ey = round((q[0] * x - q[1] * y) / q[2]) + ox, round((q[1] * x + q[0] * y) / q[2]) + oy
                ps[0].append({"x": ox, "y": oy, "c": q[0], "s": q[1], "n": q[2]})
                ps[1].append({"x": ex, "y": ey, "c": f[0], "s": f[1], "n": f[2]})
        t = [torch.tensor([[p["x"] / 4, p["y"] / 4] + ([] if point else [p["c"] / p["n"], p["s"] / p["n"]]) for p in v], dtype=dtype) for v in ps]
        return ps, t
    ps, ts = draw()
    _, os_ = draw()
    aux = [torch.tensor(org, dtype=dtype) / 4, torch.tensor(ms, dtype=dtype), torch.tensor(Ks, dtype=dtype).view(-1, 1) / 4,
           torch.tensor(lim, dtype=dtype).view(-1, 1) / 4]

    def make(t):
        n = len(ps)
        pose = [(th.Point2 if point else th.SE2)(tensor=z) for z in t[:n]]
        o, m, k, li = t[n:]
        o = th.Point2(tensor=o) if rng.random() < 0.5 else o
        m, k, li = (tv(z) if rng.random() < 0.4 else z for z in (m, k, li))
        return (eb.Collision2D if kind == "coll" else eb.EffectorObjectContactPlanar)(*pose, o, m, k, li, w1(dtype))
    other = os_ + [aux[0] + 1, aux[1].flip(0) + 1, aux[2] * 2, aux[3] + 1]
    tag, r = call(lives, rng, make, (ts + aux, other))
    rec.outcome(kind + "_build", tag, "ok", str(r)[:200])
    if tag != "ok":
        return
    meta = (r[0], bm, bo, bk, bl, str(dtype))
    out = evaluate(rec, meta, kind, r[1], B, 1, dtype)
    if out is None:
        return
    err, J, e2 = out
    for b in range(B):
        K = Ks[b % bk]
        if kind == "coll":
            D, td = K, ps[0][b]["n"]
        else:
            D, td = ps[0][b]["n"] * K, 4 * ps[0][b]["n"] * ps[1][b]["n"]
        for e in (err, e2):
            rec.add(meta, op="robot", kind=kind, point=point, m=ms[b % bm], org=org[b % bo], K=K, lim=lim[b % bl], poses=[v[b] for v in ps],
                    D=D, td=td, fuzzy=kind == "eff" and D != K, v=ints(e[b], 4 * D * D, 1e-4)[0], j=[ints(j[b][0], D * K * td, 1e-3) for j in J])


# ------------------------------------------------------------------------- refusals
def refusals(rec, rng):
    v2, v3, s2 = th.Vector(2), th.Vector(3), th.SE2()
    one = torch.ones(1, 1)
    rec.raises("motion_dof", "ValueError", eb.DoubleIntegrator, s2, v2, th.SE2(), th.Vector(3), 1.0, w1(F32))
    rec.raises("motion_dt", "ValueError", eb.DoubleIntegrator, s2, v3, th.SE2(), th.Vector(3), torch.ones(2, 2), w1(F32))
    rec.raises("prior_dt_sign", "ValueError", eb.GPCostWeight, torch.eye(2), torch.tensor([1.0, rng.choice([0.0, -1.0])]))
    rec.raises("prior_square", "ValueError", eb.GPCostWeight, torch.ones(2, 3), 1.0)
    rec.raises("prior_ndim", "ValueError", eb.GPCostWeight, torch.ones(2), 1.0)
    rec.raises("prior_definite", "ValueError", eb.GPCostWeight, torch.tensor([[1.0, 2.0], [2.0, 1.0]]), 1.0)
    rec.raises("prior_weight_kind", "ValueError", eb.GPMotionModel, s2, v3, th.SE2(), th.Vector(3), 1.0, w1(F32))
    rec.raises("hinge_order", "ValueError", eb.HingeCost, v2, 1.0, rng.choice([0.5, -1.0]), 0.0, w1(F32))
    rec.raises("hinge_order_row", "ValueError", eb.HingeCost, v2, torch.zeros(2, 2), torch.tensor([[1.0, 1.0], [1.0, -1.0]]), 0.0, w1(F32))
    rec.raises("hinge_threshold", "ValueError", eb.HingeCost, v2, -1.0, 1.0, rng.choice([-0.5, torch.tensor([[0.5, -0.5]])]), w1(F32))
    rec.raises("hinge_shape", "ValueError", eb.HingeCost, v2, torch.zeros(1, 3), torch.ones(1, 3), 0.0, w1(F32))
    rec.raises("sideways_dof", "ValueError", eb.Nonholonomic, v2, th.Vector(3), w1(F32))
    rec.raises("collision_pose", "ValueError", eb.Collision2D, th.Vector(2), th.Point2(), torch.ones(1, 3, 3), one, one, w1(F32))
    rec.raises("contact_huber", "NotImplementedError", eb.EffectorObjectContactPlanar, s2, th.SE2(), th.Point2(), torch.ones(1, 3, 3), one, one, w1(F32), None, True)
    F = eb.SignedDistanceField2D
    rec.raises("map_both", "ValueError", F, th.Point2(), one, torch.ones(1, 3, 3), torch.ones(1, 3, 3))
    rec.raises("map_neither", "ValueError", F, th.Point2(), one)
    rec.raises("map_ndim", "ValueError", F, th.Point2(), one, torch.ones(3, 3))
    rec.raises("map_origin", "ValueError", F, torch.ones(1, 3), one, torch.ones(1, 3, 3))
    rec.raises("map_occupancy_ndim", "ValueError", F, th.Point2(), one, occupancy_map=torch.ones(3, 3))


# ------------------------------------------------------------------------- model replay
def replay(ctx, prints, D, rng):
    """Every grid point of every small map, a whole map at a time."""
    maps = {}
    for p in prints:
        if "obs" in p:
            maps.setdefault(str(p["m"]), []).append(p)
    bad = {}
    for ps in maps.values():
        m, org, cell = ps[0]["m"], [rng.randint(-3, 3), rng.randint(-3, 3)], rng.choice([0.5, 1.0, 2.0])
        tag, f = call(eb.SignedDistanceField2D, torch.tensor([org], dtype=D64), torch.tensor([[cell]], dtype=D64), sdf_data=torch.tensor([m], dtype=D64))
        x = torch.tensor([[[org[0] + p["c"] * cell / D for p in ps], [org[1] + p["r"] * cell / D for p in ps]]], dtype=D64)
        if tag == "ok":
            tag, f = call(f.signed_distance, x)
        ctx.events += len(ps)
        if tag != "ok":
            bad.setdefault(tag, (m, str(f)[:200]))
            continue
        v, j = ints(f[0][0], D * D), ints(f[1][0] * cell, D)
        for i, p in enumerate(ps):
            o = p["obs"]
            if v[i] != o["v"]:
                bad.setdefault("value", (p, v[i]))
            if j[i][0] not in o["sc"] or j[i][1] not in o["sr"]:
                bad.setdefault("slope", (p, j[i]))
    for k, d in bad.items():
        ctx.violation(f"signed distance map: {k}", {"case": str(d)[:1500]}, key=f"mc:{k}")


def run(ctx):
    rng = ctx.rng
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(run_tlc, "PushMC", "PushMC_q.cfg" if ctx.quick else "PushMC.cfg", timeout=700, workers=4)
        b = ex.submit(run_tlc, "FieldMC", "FieldMC.cfg", timeout=700)
        c = None if ctx.quick else ex.submit(run_tlc, "FieldMC", "FieldMCdeep.cfg", timeout=700)
    ctx.model(a.result())
    for r, D in ((b, 4), (c, 2)):
        if r is not None:
            ctx.model(r.result())
            replay(ctx, r.result().prints, D, rng)
    rec = Rec(ctx)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for _ in range(ctx.n(60, 1200)):
            for f in (motion, prior, hinge, sideways, pushing, distance, transform, robots, robots):
                f(rec, rng)
            if rng.random() < 0.2:
                refusals(rec, rng)
    seen = {}
    meas = {"di", "jac"}
    jobs = []
    for module, pick in (("Meas", lambda e: e["op"] in meas), ("FieldTrace", lambda e: e["op"] not in meas)):
        ids = [i for i, e in enumerate(rec.ev) if pick(e)]
        jobs += [(module, ids[k:k + 2500]) for k in range(0, len(ids), 2500)]
    with ThreadPoolExecutor(5) as ex:
        out = list(ex.map(lambda p: validate_traces(p[0], p[0] + ".cfg", [rec.ev[i] for i in p[1]], timeout=800), jobs))
    for (_, ids), (rej, res) in zip(jobs, out):
        ctx.model(res)
        for x in rej:
            k = ids[x["line"] - 1]
            for cl in x["clauses"]:
                seen[cl] = seen.get(cl, 0) + 1
                if seen[cl] <= 2:
                    ctx.violation(f"{cl} differs from its definition", {"event": rec.ev[k], "meta": str(rec.meta[k])[:1500]}, key=cl)
    ctx.events += len(rec.ev)
    ctx.traces += sum(e["op"] != "outcome" for e in rec.ev)
    for op in ("robot", "push", "gp", "di"):
        ctx.sample(next(e for e in rec.ev if e["op"] == op))
    ctx.extra["clauses_failing"] = seen
    ctx.assumptions += [
        "optimisation variables of a cost share the batch size; auxiliary variables have that batch size or 1",
        "maps have a free and cells of 1/4 to 2 units; at kinks (cell borders, map borders, contact) any one-sided derivative is accepted",
        "occupancy maps have at least one free cell; turns of exactly half a revolution between object poses are excluded",
    ]
