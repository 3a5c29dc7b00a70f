"""P14: Lie group operations obey the group algebra (LieMC graph replay, Lie judge)."""
import math

import torch
import theseus as th
import torchlie.functional as lieF

from vh.core import call
from vh.lie import DIM, DOF, RIGID, TYPES, fx, full, hat, mat, rand_el, rand_q, step, to_mat, to_param
from vh.tlc import Graph, run_tlc, validate_traces

CLS = {"SO2": th.SO2, "SE2": th.SE2, "SO3": th.SO3, "SE3": th.SE3}
FN = {"SO3": lieF.SO3, "SE3": lieF.SE3}


class Th:
    """theseus.geometry classes."""
    name = "theseus"
    types = TYPES

    def __init__(self, rng):
        self.rng = rng

    def shapes(self, b):
        return self.rng.choice([((b,), (b,)), ((1,), (b,)), ((b,), (1,)), ((1,), (1,))])

    def obj(self, ty, p):
        kw = {"disable_checks": True} if self.rng.random() < 0.3 else {}
        return CLS[ty](tensor=p, **kw)

    def out(self, o):
        return o.tensor

    def compose(self, ty, x, y, j=None): return self.out(self.obj(ty, x).compose(self.obj(ty, y), **kwj(j)))
    def between(self, ty, x, y, j=None): return self.out(self.obj(ty, x).between(self.obj(ty, y), **kwj(j)))
    def inverse(self, ty, x, j=None): return self.out(self.obj(ty, x).inverse(**({} if j is None else {"jacobian": j})))
    def adjoint(self, ty, x): return self.obj(ty, x).adjoint()
    def local(self, ty, x, y, j=None): return self.obj(ty, x).local(self.obj(ty, y), **kwj(j))
    def retract(self, ty, x, d): return self.obj(ty, x).retract(d).tensor
    def exp(self, ty, v, j=None): return CLS[ty].exp_map(v, **kwj(j)).tensor
    def log(self, ty, x, j=None): return self.obj(ty, x).log_map(**kwj(j))

    def _pt(self, ty, p):
        if self.rng.random() < 0.5:
            return p
        return (th.Point2 if DIM[ty] == 2 else th.Point3)(tensor=p)

    def act(self, ty, x, p, j=None):
        o = self.obj(ty, x)
        return (o.transform_from if ty in RIGID else o.rotate)(self._pt(ty, p), **kwj(j)).tensor

    def unact(self, ty, x, p, j=None):
        o = self.obj(ty, x)
        return (o.transform_to if ty in RIGID else o.unrotate)(self._pt(ty, p), **kwj(j)).tensor

    def hat(self, ty, v): return CLS[ty].hat(v)
    def vee(self, ty, m): return CLS[ty].vee(m)


class Fn:
    """torchlie.functional, any batch shapes."""
    name = "torchlie"
    types = ["SO3", "SE3"]

    def __init__(self, rng):
        self.rng = rng

    def shapes(self, b):
        return self.rng.choice([((b,), (b,)), ((1,), (b,)), ((b,), (1,)), ((), ()), ((2, b), (2, b)),
                                ((2, 1), (2, b)), ((b, 2), (b, 1)), ((1, b), (2, 1)), ((2, b, 1), (2, b, 1))])

    def compose(self, ty, x, y, j=None): return FN[ty].compose(x, y, **kwj(j))
    def between(self, ty, x, y, j=None):
        r = FN[ty].compose(FN[ty].inv(x), y)
        return r
    def inverse(self, ty, x, j=None): return FN[ty].inv(x, **kwj(j))
    def adjoint(self, ty, x): return FN[ty].adj(x)
    def exp(self, ty, v, j=None): return FN[ty].exp(v, **kwj(j))
    def log(self, ty, x, j=None): return FN[ty].log(x, **kwj(j))
    def act(self, ty, x, p, j=None): return FN[ty].transform(x, p, **kwj(j))
    def unact(self, ty, x, p, j=None): return FN[ty].untransform(x, p, **kwj(j))
    def hat(self, ty, v): return FN[ty].hat(v)
    def vee(self, ty, m): return FN[ty].vee(m)


def kwj(j):
    return {} if j is None else {"jacobians": j}


class Rec:
    def __init__(self, ctx):
        self.ctx, self.rng, self.ev, self.meta = ctx, ctx.rng, [], []

    def add(self, meta, **ev):
        self.ev.append(ev)
        self.meta.append(meta)

    def raised(self, fe, ty, what, exc, detail):
        self.add((fe.name, ty, what, detail), op="outcome", res=type(exc).__name__, exp="ok", what=what + "_outcome")

    def guard(self, fn, fe, ty, *a):
        """Runs an event generator; differentiation that fails is an outcome of its own."""
        tag, v = call(fn, self, fe, ty, *a)
        if tag != "ok":
            self.raised(fe, ty, fn.__name__, v, str(v)[:300])

    # -------------------------------------------------------------- helpers
    def els(self, ty, shape):
        n = max(1, math.prod(shape))
        return [rand_el(self.rng, ty) for _ in range(n)]

    def stack(self, ty, els, shape, dtype):
        t = torch.stack([to_param(ty, mat(ty, e, dtype)) for e in els])
        return t.reshape(*shape, *t.shape[1:])


def spread(t, shape, core):
    """Rows of a result broadcast to the expected batch shape; None on a wrong shape."""
    if t is None or t.shape[len(t.shape) - core:].numel() == 0 and core:
        return None
    if t.ndim < core:
        return None
    tail = t.shape[t.ndim - core:]
    try:
        return t.expand(*shape, *tail).reshape(-1, *tail)
    except RuntimeError:
        return None


def rows(els, shape, out_shape):
    """Element of each row of the broadcast batch."""
    idx = torch.arange(len(els)).reshape(shape if shape else ()).expand(out_shape).reshape(-1)
    return [els[int(i)] for i in idx]


def algebra(r, fe, ty, dtype):
    rng = r.rng
    f32 = dtype == torch.float32
    tol = 30 if f32 else 2
    b = rng.choice([1, 2, 3])
    sx, sy = fe.shapes(b)
    so = tuple(torch.broadcast_shapes(sx, sy))
    ex, ey = r.els(ty, sx), r.els(ty, sy)
    x, y = r.stack(ty, ex, sx, dtype), r.stack(ty, ey, sy, dtype)
    meta = (fe.name, ty, str(dtype), str(sx), str(sy))

    def emit(op, out, jac, shape, xs, core, is_el=True, **kw):
        out = to_mat(ty, out) if is_el else out
        if tuple(out.shape[: len(shape)]) != tuple(shape) or out.ndim - len(shape) != core:
            r.add(meta, op="outcome", res=str(tuple(out.shape)), exp=str(shape), what=op + "_shape")
            return
        o = out.reshape(-1, *out.shape[len(shape):])
        js = []
        for k, J in enumerate(jac):
            J = spread(J, shape, 2)
            if J is None:
                r.add(meta, op="outcome", res="shape", exp="ok", what=f"{op}_jacobian_{k + 1}_shape")
                return
            js.append(J)
        for i, e in enumerate(xs):
            ob = o[i] if core == 2 else o[i].unsqueeze(0)
            r.add(meta, op=op, ty=ty, q=e["q"], t=e["t"], out=fx(ob), j=[fx(J[i]) for J in js], tol=tol,
                  **{k: v[i] for k, v in kw.items()})

    withj = rng.random() < 0.7
    for op in ("compose", "between"):
        j = [] if withj and not (op == "between" and fe.name == "torchlie") else None
        tag, v = call(getattr(fe, op), ty, x, y, j)
        if tag != "ok":
            r.raised(fe, ty, op, v, str(v)[:200])
            continue
        ys = rows(ey, sy, so)
        emit(op, v, j or [], so, rows(ex, sx, so), 2, r=[e["q"] for e in ys], u=[e["t"] for e in ys])
    j = [] if withj else None
    tag, v = call(fe.inverse, ty, x, j)
    if tag == "ok":
        emit("inverse", v, j or [], sx, ex, 2)
    else:
        r.raised(fe, ty, "inverse", v, str(v)[:200])
    tag, v = call(fe.adjoint, ty, x)
    if tag == "ok":
        emit("adjoint", v, [], sx, ex, 2, is_el=False)
    else:
        r.raised(fe, ty, "adjoint", v, str(v)[:200])
    # points
    sp = sy
    pts = [[rng.randint(-3, 3) for _ in range(DIM[ty])] for _ in range(max(1, math.prod(sp)))]
    p = torch.tensor(pts, dtype=dtype).reshape(*sp, DIM[ty])
    for op in ("act", "unact"):
        j = [] if withj else None
        tag, v = call(getattr(fe, op), ty, x, p, j)
        if tag != "ok":
            r.raised(fe, ty, op, v, str(v)[:200])
            continue
        emit(op, v, j or [], so, rows(ex, sx, so), 1, is_el=False, p=rows(pts, sp, so))
    # log
    tag, v = call(fe.log, ty, x, None)
    if tag != "ok":
        r.raised(fe, ty, "log", v, str(v)[:200])
    else:
        o = v.reshape(-1, DOF[ty])
        for i, e in enumerate(ex):
            r.add(meta, op="log", ty=ty, q=e["q"], t=e["t"], out=fx(o[i]), tol=60 if f32 else 6)
    # exp of exact rotation vectors, also beyond pi
    tv, turns = [], []
    for e in ex:
        q = e["q"] if e["q"][0] >= 0 else [-c for c in e["q"]]
        n2 = q[1] ** 2 + q[2] ** 2 + q[3] ** 2
        k = rng.choice([0, 0, 0, 1, -1]) if n2 else 0
        ka = (2 * math.atan2(math.sqrt(n2), q[0]) + 2 * math.pi * k) / math.sqrt(n2) if n2 else 0
        om = [ka * c for c in q[1:]]
        tv.append({"SO2": om[2:], "SE2": e["t"] + om[2:], "SO3": om, "SE3": e["t"] + om}[ty])
        turns.append(k)
    tv = torch.tensor(tv, dtype=dtype).reshape(*sx, DOF[ty])
    tag, v = call(fe.exp, ty, tv, None)
    if tag != "ok":
        r.raised(fe, ty, "exp", v, str(v)[:200])
    else:
        o = to_mat(ty, v).reshape(-1, DIM[ty], DIM[ty] + (1 if ty in RIGID else 0))
        for i, e in enumerate(ex):
            r.add(meta, op="exp", ty=ty, q=e["q"], t=e["t"], turns=turns[i], out=fx(o[i]),
                  tol=40 if f32 else 3, ttol=60 if f32 else 8)
    # hat / vee
    vs = [[rng.randint(-3, 3) for _ in range(DOF[ty])] for _ in range(len(ex))]
    hv = torch.tensor(vs, dtype=dtype).reshape(*sx, DOF[ty])
    tag, v = call(fe.hat, ty, hv)
    tag2, w = call(fe.vee, ty, v) if tag == "ok" else (tag, v)
    if tag2 != "ok":
        r.raised(fe, ty, "hat_vee", w, str(w)[:200])
    else:
        h = v.reshape(-1, *v.shape[-2:])
        w = w.reshape(-1, DOF[ty])
        for i in range(len(ex)):
            r.add(meta, op="hat", ty=ty, v=vs[i], out=fx(h[i]), back=fx(w[i]), tol=1)


ANGLES = [0.0, 1e-4, 3e-3, 4.8e-3, 5.2e-3, 9e-3, 0.02, 0.3, 1.5, math.pi / 2, 3.0, math.pi - 1e-3,
          math.pi, 3.5, 2 * math.pi - 0.1, 2 * math.pi + 0.2]


def tangent(rng, ty, theta):
    u = [0.0, 0.0, 1.0]
    if DIM[ty] == 3:
        while True:
            u = [rng.randint(-2, 2) for _ in range(3)]
            n = math.sqrt(sum(c * c for c in u))
            if n:
                break
        u = [c / n for c in u]
    elif rng.random() < 0.5:
        u = [0.0, 0.0, -1.0]
    om = [theta * c for c in u]
    t = [float(rng.randint(-3, 3)) for _ in range(DIM[ty])]
    return {"SO2": om[2:], "SE2": t + om[2:], "SO3": om, "SE3": t + om}[ty]


def matrix_exp(ty, v):
    """Independent exponential: torch.matrix_exp of the hat matrix."""
    H = sum(v[k] * hat(ty, k) for k in range(DOF[ty]))
    return torch.matrix_exp(H)[: DIM[ty]]


def derivatives(r, fe, ty):
    """Jacobians and gradients of exp, log and local against recorded differences."""
    rng, h = r.rng, 1e-4
    d64 = torch.float64
    ths = [rng.choice(ANGLES) for _ in range(3)]
    v = torch.tensor([tangent(rng, ty, a) for a in ths], dtype=d64)
    meta = (fe.name, ty, "deriv", str(v.tolist()))
    dof, n = DOF[ty], DIM[ty]
    V = torch.tensor([[rng.randint(-2, 2) for _ in range(n + (1 if ty in RIGID else 0))] for _ in range(n)], dtype=d64)
    # exp
    j = []
    vv = v.clone().requires_grad_(True)
    tag, g = call(fe.exp, ty, vv, j)
    if tag != "ok":
        r.raised(fe, ty, "exp", g, str(g)[:200])
        return
    m = to_mat(ty, g)
    gr = torch.autograd.grad((V * m).sum(), vv)[0]
    g2 = fe.exp(ty, vv)
    gr2 = torch.autograd.grad((V * to_mat(ty, g2)).sum(), vv)[0]
    # of the exact exponential: the library's own is only first-order accurate near zero
    Ds = [torch.stack([matrix_exp(ty, vi + h * e) - matrix_exp(ty, vi - h * e) for vi in v]) / (2 * h) for e in torch.eye(dof, dtype=d64)]
    for i in range(3):
        D = [fx(full(ty, Dk[i : i + 1])[0] * torch.ones(1)) for Dk in Ds]
        if ty in RIGID:
            for Dk in D:
                Dk[-1] = [0] * (n + 1)
        r.add(meta, op="deriv", ty=ty, E=fx(full(ty, m[i].detach())), D=D, J=fx(j[0][i]), tol=8, what="exp_jacobian")
        r.add(meta, op="same", a=fx(m[i]), b=fx(matrix_exp(ty, v[i])), tol=1, what="exp_value")
        Dt = [fx(Dk[i]) for Dk in Ds]
        for gg, w in ((gr, "exp_gradient_passthrough"), (gr2, "exp_gradient")):
            r.add(meta, op="dir", V=[[int(c) for c in row] for row in V], D=Dt, g=fx(gg[i]), tol=30, what=w)
    # the same jacobians in single precision (other approximation thresholds)
    v32 = torch.tensor([tangent(rng, ty, rng.choice([0.0, 1e-4, 3e-3, 9e-3, 2e-2, 5e-2, 0.15, 0.3, 2.0, math.pi])) for _ in range(3)], dtype=torch.float32)
    j32, j64, l32, l64 = [], [], [], []
    g32 = fe.exp(ty, v32, j32)
    g64 = fe.exp(ty, v32.double(), j64)
    fe.log(ty, g32, l32)
    a32 = fe.log(ty, g32)
    a64 = fe.log(ty, g64, l64)
    for i in range(3):
        m2 = (fe.name, ty, "single", str(v32[i].tolist()))
        r.add(m2, op="same", a=fx(to_mat(ty, g32)[i]), b=fx(to_mat(ty, g64)[i]), tol=30, what="exp_single_precision")
        r.add(m2, op="same", a=fx(j32[0][i]), b=fx(j64[0][i]), tol=60, what="exp_jacobian_single_precision")
        if float(v32[i].norm()) > 0 and abs(math.pi - float(v32[i][-(1 if DIM[ty] == 2 else 3):].norm())) > 0.05:
            r.add(m2, op="same", a=[fx(a32[i])], b=[fx(a64[i])], tol=60, what="log_single_precision")
            r.add(m2, op="same", a=fx(l32[0][i]), b=fx(l64[0][i]), tol=60, what="log_jacobian_single_precision")
    # log at those elements
    with torch.no_grad():
        g = fe.exp(ty, v).detach()
    j = []
    x = g.clone().requires_grad_(True)
    tag, lv = call(fe.log, ty, x, j)
    if tag != "ok":
        r.raised(fe, ty, "log", lv, str(lv)[:200])
        return
    V1 = torch.tensor([float(rng.randint(-2, 2)) for _ in range(dof)], dtype=d64)
    gr = torch.autograd.grad((V1 * lv).sum(), x)[0]
    x2 = g.clone().requires_grad_(True)
    gr2 = torch.autograd.grad((V1 * fe.log(ty, x2)).sum(), x2)[0]
    Mf = full(ty, to_mat(ty, g))
    je = []
    fe.exp(ty, lv.detach(), je)
    Ds = []
    for k in range(dof):
        a = to_param(ty, (Mf @ step(ty, k, h))[:, :n])
        b = to_param(ty, (Mf @ step(ty, k, -h))[:, :n])
        Ds.append((fe.log(ty, a) - fe.log(ty, b)) / (2 * h))
    for i in range(3):
        r.add(meta, op="jinv", A=fx(j[0][i]), B=fx(je[0][i]), tol=12, what="log_exp_jacobians_inverse")
        if abs(ths[i] - math.pi) < 3 * h:
            continue  # the logarithm jumps here
        if ths[i] < math.pi:
            r.add(meta, op="same", a=[fx(lv[i])], b=[fx(v[i])], tol=2, what="log_of_exp")
        D = torch.stack([Dk[i] for Dk in Ds], 1)
        r.add(meta, op="dvec", J=fx(j[0][i]), D=fx(D), tol=12, what="log_jacobian")
        for gg, w in ((gr, "log_gradient_passthrough"), (gr2, "log_gradient")):
            c = [float((gg[i] * to_param(ty, (Mf[i] @ hat(ty, k))[:n])).sum()) for k in range(dof)]
            r.add(meta, op="dir", V=[[int(c_)] for c_ in V1], D=[[[z] for z in fx(D[:, k])] for k in range(dof)],
                  g=fx(c), tol=40, what=w)
    # local
    if fe.name != "theseus":
        return
    y = torch.stack([to_param(ty, mat(ty, rand_el(rng, ty))) for _ in range(3)])
    combos = rng.choice([(3, 3), (1, 3), (3, 1)])
    gx, yy = g[: combos[0]], y[: combos[1]]
    j = []
    tag, lv = call(fe.local, ty, gx, yy, j)
    if tag != "ok":
        r.raised(fe, ty, "local", lv, str(lv)[:200])
        return
    rel = torch.linalg.inv(full(ty, to_mat(ty, gx))) @ full(ty, to_mat(ty, yy))
    ang = rel[:, : n, : n].diagonal(dim1=1, dim2=2).sum(1)
    half = ang < (-1.9999 if n == 2 else -0.99995)
    for which, base in ((0, gx), (1, yy)):
        cols = []
        Bf = full(ty, to_mat(ty, base))
        for k in range(dof):
            p = to_param(ty, (Bf @ step(ty, k, h))[:, :n])
            q = to_param(ty, (Bf @ step(ty, k, -h))[:, :n])
            a = fe.local(ty, p, yy) if which == 0 else fe.local(ty, gx, p)
            b = fe.local(ty, q, yy) if which == 0 else fe.local(ty, gx, q)
            cols.append((a - b) / (2 * h))
        D = torch.stack(cols, 2)
        J = spread(j[which], (3,), 2)
        for i in range(3):
            if J is None:
                r.add(meta, op="outcome", res="shape", exp="ok", what="local_jacobian_shape")
            elif not half[i]:
                r.add(meta, op="dvec", J=fx(J[i]), D=fx(D[i]), tol=15, what=f"local_jacobian_{which + 1}")
    # retract undoes local
    tag, z = call(fe.retract, ty, gx, lv)
    if tag != "ok":
        r.raised(fe, ty, "retract", z, str(z)[:200])
    else:
        z = to_mat(ty, z)
        for i in range(3):
            r.add(meta, op="same", a=fx(z[i]), b=fx(to_mat(ty, yy)[i % combos[1]]), tol=2, what="retract_of_local")


def near_pi(r, fe, ty):
    rng = r.rng
    f32 = rng.random() < 0.3
    dt = torch.float32 if f32 else torch.float64
    vs = [tangent(rng, ty, math.pi - rng.choice([1e-1, 1e-2, 1e-3, 4e-4, 1e-5] + ([] if f32 else [1e-6, 1e-7]))) for _ in range(3)]
    g = torch.stack([to_param(ty, matrix_exp(ty, torch.tensor(v, dtype=torch.float64))) for v in vs]).to(dt)
    tag, lv = call(fe.log, ty, g)
    meta = (fe.name, ty, "near_pi", str(vs), str(dt))
    if tag != "ok":
        r.raised(fe, ty, "log", lv, str(lv)[:200])
        return
    back = to_mat(ty, fe.exp(ty, lv))
    for i in range(3):
        r.add(meta, op="same", a=fx(back[i]), b=fx(to_mat(ty, g)[i]), tol=60 if f32 else 3, what="exp_of_log")
        if not f32:
            r.add(meta, op="same", a=[fx(lv[i])], b=[fx(vs[i])], tol=8, what="log_near_half_turn")


def small(r, fe, ty):
    rng = r.rng
    ms, ts = [], []
    for _ in range(4):
        k = rng.choice([1, 2, 3, 4, 5, 6, 9, 12])
        m = [0, 0, rng.choice([-k, k])] if DIM[ty] == 2 else [rng.randint(-k, k) for _ in range(3)]
        ms.append(m)
        ts.append([rng.randint(-3, 3) for _ in range(DIM[ty])] if ty in RIGID else [])
    v = torch.tensor([(t if ty in RIGID else []) + [1e-3 * c for c in (m[2:] if DIM[ty] == 2 else m)]
                      for m, t in zip(ms, ts)], dtype=torch.float64)
    tag, g = call(fe.exp, ty, v)
    if tag == "ok":
        tag, lv = call(fe.log, ty, g)
    else:
        lv = g
    if tag != "ok":
        r.raised(fe, ty, "small", lv, str(lv)[:200])
        return
    o = to_mat(ty, g)
    for i in range(4):
        r.add((fe.name, ty, "small", str(v[i].tolist())), op="series", ty=ty, m=ms[i], t=ts[i],
              out=fx(o[i], 10**6), log=fx(lv[i], 10**6), tol=4)


def gradients(r, fe, ty):
    """Reverse-mode gradients of the operations along tangent directions."""
    rng, d64, n = r.rng, torch.float64, DIM[ty]
    w = n + (1 if ty in RIGID else 0)
    sx, sy = fe.shapes(2)
    so = tuple(torch.broadcast_shapes(sx, sy))
    ex, ey = r.els(ty, sx), r.els(ty, sy)
    f = rng.choice(["compose", "between", "inverse", "act", "unact", "adjoint"])
    x = r.stack(ty, ex, sx, d64).requires_grad_(True)
    y = r.stack(ty, ey, sy, d64).requires_grad_(True)
    pts = [[rng.randint(-3, 3) for _ in range(n)] for _ in range(max(1, math.prod(sy)))]
    p = torch.tensor(pts, dtype=d64).reshape(*sy, n).requires_grad_(True)
    if f in ("inverse", "adjoint"):
        so = sx
    row = rng.randrange(max(1, math.prod(so)))
    if f in ("act", "unact"):
        V = [[rng.randint(-2, 2)] for _ in range(n)]
    elif f == "adjoint":
        V = [[rng.randint(-2, 2) for _ in range(DOF[ty])] for _ in range(DOF[ty])]
    else:
        V = [[rng.randint(-2, 2) for _ in range(w)] for _ in range(n)]
    Vt = torch.tensor(V, dtype=d64)
    meta = (fe.name, ty, "grad", f, str(sx), str(sy))

    def go():
        if f in ("compose", "between"):
            out = to_mat(ty, getattr(fe, f)(ty, x, y))
        elif f == "inverse":
            out = to_mat(ty, fe.inverse(ty, x))
        elif f == "adjoint":
            out = fe.adjoint(ty, x)
        else:
            out = getattr(fe, f)(ty, x, p).unsqueeze(-1)
        loss = (out.reshape(-1, *out.shape[-2:])[row] * Vt).sum() + 0 * x.sum()
        inp = [x] + ([y] if f in ("compose", "between") else [p] if f in ("act", "unact") else [])
        return torch.autograd.grad(loss, inp, allow_unused=True)

    tag, gs = call(go)
    if tag != "ok":
        r.raised(fe, ty, "grad_" + f, gs, str(gs)[:200])
        return

    def index(shape):
        k = max(1, math.prod(shape))
        return int(torch.arange(k).reshape(shape).expand(so).reshape(-1)[row])

    def along(g, t, els, shape):
        g = torch.zeros_like(t) if g is None else g
        k = index(shape)
        gr = g.reshape(-1, *t.shape[len(shape):])
        M = full(ty, mat(ty, els[k]))
        other = float(gr.abs().sum() - gr[k].abs().sum())
        return [float((gr[k] * to_param(ty, (M @ hat(ty, j))[:n])).sum()) for j in range(DOF[ty])], other, els[k]

    gx, other, e = along(gs[0], x, ex, sx)
    ev = {"op": "grad", "f": f, "ty": ty, "V": V, "q": e["q"], "t": e["t"], "gx": fx(gx), "tol": 3}
    if f in ("compose", "between"):
        gy, o2, e2 = along(gs[1], y, ey, sy)
        ev.update(r=e2["q"], u=e2["t"], gy=fx(gy))
        other += o2
    elif f in ("act", "unact"):
        k = index(sy)
        gp = gs[1].reshape(-1, n)
        other += float(gp.abs().sum() - gp[k].abs().sum())
        ev.update(p=pts[k], gy=fx(gp[k]))
    r.add(meta, **ev)
    r.add(meta, op="same", a=[fx([other])], b=[[0]], tol=1, what="gradient_of_other_rows")


def conversions(r, ty):
    """Quaternions, matrices, normalisation, projections (theseus and torchlie)."""
    rng = r.rng
    f32 = rng.random() < 0.25
    dt = torch.float32 if f32 else torch.float64
    tol = 40 if f32 else 2
    b = rng.choice([1, 2, 3])
    els = r.els(ty, (b,))
    meta = ("conversions", ty, str(dt))
    x = CLS[ty](tensor=r.stack(ty, els, (b,), dt))
    tag, m = call(x.to_matrix)
    if tag == "ok":
        for i, e in enumerate(els):
            r.add(meta, op="matrix", ty=ty, q=e["q"], t=e["t"], out=fx(m[i]), j=[], tol=tol)
    if DIM[ty] == 3:
        tag, q = call(x.to_quaternion if ty == "SO3" else x.to_x_y_z_quaternion)
        if tag != "ok":
            r.add(meta, op="outcome", res=tag, exp="ok", what="quaternion_outcome")
        else:
            for i, e in enumerate(els):
                r.add(meta, op="quat", q=e["q"], out=fx(q[i, -4:]), tol=40 if f32 else 4)
                if ty == "SE3":
                    r.add(meta, op="same", a=[fx(q[i, :3])], b=[[c * 10000 for c in e["t"]]], tol=tol, what="quaternion_translation")
        qs = torch.tensor([e["q"] for e in els], dtype=torch.float64)
        qn = (qs / qs.norm(dim=1, keepdim=True)).to(dt)
        if ty == "SO3":
            outs = [th.SO3(quaternion=qn).tensor, th.SO3.unit_quaternion_to_SO3(qn).tensor, lieF.SO3.quaternion_to_rotation(qn)]
        else:
            xq = torch.cat([torch.tensor([e["t"] for e in els], dtype=dt), qn], 1)
            outs = [th.SE3(x_y_z_quaternion=xq).tensor]
        for o in outs:
            for i, e in enumerate(els):
                r.add(meta, op="q2r", q=e["q"], out=fx(o[i, :, :3]), tol=tol)
                if ty == "SE3":
                    r.add(meta, op="same", a=[fx(o[i, :, 3])], b=[[c * 10000 for c in e["t"]]], tol=tol, what="quaternion_translation")
        if ty == "SO3" and not f32:
            j, h = [], 1e-4
            o = lieF.SO3.quaternion_to_rotation(qn, jacobians=j)
            Vt = torch.tensor([[float(rng.randint(-2, 2)) for _ in range(3)] for _ in range(3)], dtype=dt)
            qg = qn.clone().requires_grad_(True)
            gr = torch.autograd.grad((lieF.SO3.quaternion_to_rotation(qg) * Vt).sum(), qg)[0]
            for i in range(b):
                # a basis of the directions orthogonal to q
                w, a, c, d = qn[i].tolist()
                dirs = torch.tensor([[-a, w, d, -c], [-c, -d, w, a], [-d, c, -a, w]], dtype=dt)
                D = []
                for k in range(3):
                    f = lambda s: lieF.SO3.quaternion_to_rotation((lambda z: z / z.norm())(qn[i] + s * h * dirs[k]).unsqueeze(0))[0]
                    D.append(fx((f(1) - f(-1)) / (2 * h)))
                r.add(meta, op="deriv", ty="SO3", E=fx(o[i]), D=D, J=fx(j[0][i] @ dirs.T), tol=8, what="quaternion_jacobian")
                r.add(meta, op="same", a=fx((j[0][i] @ qn[i]).unsqueeze(0)), b=[[0, 0, 0]], tol=2, what="quaternion_jacobian_radial")
                r.add(meta, op="dir", V=[[int(z) for z in row] for row in Vt], D=D, g=fx(dirs @ gr[i]), tol=30, what="quaternion_gradient")
    elif ty == "SO2":
        ang = x.theta()
        z = th.SO2(theta=ang)
        for i, e in enumerate(els):
            r.add(meta, op="same", a=fx(to_mat(ty, z.tensor)[i]), b=fx(mat(ty, e)), tol=tol, what="angle_round_trip")
    else:
        v = torch.cat([torch.tensor([e["t"] for e in els], dtype=dt), x.theta()], 1)
        z = th.SE2(x_y_theta=v)
        for i, e in enumerate(els):
            r.add(meta, op="same", a=fx(to_mat(ty, z.tensor)[i]), b=fx(mat(ty, e)), tol=tol, what="angle_round_trip")
        jt, jx = [], []
        x.theta(jacobians=jt)
        p = x.xy(jacobians=jx)
        for i, e in enumerate(els):
            M = full(ty, mat(ty, e))
            r.add(meta, op="same", a=fx(jt[0][i]), b=[[0, 0, 10000]], tol=tol, what="theta_jacobian")
            r.add(meta, op="same", a=[fx(p.tensor[i])], b=[[c * 10000 for c in e["t"]]], tol=tol, what="xy")
            r.add(meta, op="same", a=fx(jx[0][i]), b=fx(torch.stack([(M @ hat(ty, k))[:2, 2] for k in range(3)], 1)), tol=tol, what="xy_jacobian")
    # normalisation: rotation part times a positive-definite matrix
    A, n = [], DIM[ty]
    for e in els:
        M = mat(ty, e)
        P = torch.zeros(n, n, dtype=torch.float64)
        if n == 2:
            P = torch.eye(2, dtype=torch.float64) * rng.choice([0.5, 2, 3, 5])
        else:
            for i in range(3):
                for k in range(i):
                    P[i, k] = P[k, i] = rng.choice([-1, 0, 1]) * 0.25
                P[i, i] = 1 + i * 0.75 + rng.choice([0, 0.125])
            if rng.random() < 0.3:  # a reflection: still the closest rotation
                d = [3.0, 2.0, -0.5]
                rng.shuffle(d)
                P = torch.diag(torch.tensor(d, dtype=torch.float64))
        A.append(to_param(ty, torch.cat([M[:, :n] @ P, M[:, n:]], 1)))
    tag, z = call(CLS[ty].normalize, torch.stack(A).to(dt))
    if tag != "ok":
        r.add(meta, op="outcome", res=tag, exp="ok", what="normalize_outcome")
    else:
        for i, e in enumerate(els):
            r.add(meta, op="same", a=fx(to_mat(ty, z)[i]), b=fx(mat(ty, e)), tol=40 if f32 else 3, what="normalize")
    # projections of euclidean gradients
    m = rng.choice([1, 2])
    Gi = [[[[rng.randint(-2, 2) for _ in range(x.shape[-1])] for _ in range(n)] for _ in range(m)] for _ in range(b)]
    if n == 2:
        Gi = [[row[0] for row in bb] for bb in Gi]
    Gt = torch.tensor(Gi, dtype=dt)  # (b, m, *shape)
    outs = [("project_sparse", call(x.project, Gt, is_sparse=True), False), ("project_dense", call(x.project, Gt.transpose(0, 1)), True)]
    if n == 3:
        outs.append(("left_project", call(FN[ty].left_project, x.tensor, Gt, 1), False))
        if m == 1:
            outs.append(("left_project_plain", call(FN[ty].left_project, x.tensor, Gt[:, 0]), None))
    for name, (tag, o), dense in outs:
        if tag != "ok":
            r.add(meta, op="outcome", res=tag + ": " + str(o)[:100], exp="ok", what=name + "_outcome")
            continue
        for i, e in enumerate(els):
            for k in range(m):
                ov = o[i] if dense is None else (o[k, i] if dense else o[i, k])
                if n == 3:
                    r.add(meta, op="left", ty=ty, q=e["q"], t=e["t"], M=Gi[i][k], out=fx(ov), tol=tol * 2, what=name)
                else:
                    M = full(ty, mat(ty, e))
                    exp = [float((Gt[i, k].double() * to_param(ty, (M @ hat(ty, c))[:n])).sum()) for c in range(DOF[ty])]
                    r.add(meta, op="same", a=[fx(ov)], b=[fx(exp)], tol=tol * 2, what=name)
    if n == 3:
        v = [rng.randint(-3, 3) for _ in range(DOF[ty])]
        M = Gi[0][0]
        lf = FN[ty].lift(torch.tensor([v], dtype=dt))[0]
        pj = FN[ty].project(torch.tensor([M], dtype=dt))[0]
        r.add(meta, op="lift", ty=ty, v=v, M=M, lift=fx(lf), proj=fx(pj), tol=1)
        c = rng.choice([1, 2, 3, 4])
        Ts = [[[[rng.randint(-3, 3) for _ in range(c)] for _ in range(3)] for _ in range(m)] for _ in range(b)]
        tag, o = call(FN[ty].left_act, x.tensor, torch.tensor(Ts, dtype=dt), 1)
        if tag != "ok":
            r.add(meta, op="outcome", res=tag, exp="ok", what="left_act_outcome")
        else:
            for i, e in enumerate(els):
                for k in range(m):
                    r.add(meta, op="actrot", ty=ty, q=e["q"], t=e["t"], M=Ts[i][k], out=fx(o[i, k]), j=[], tol=tol)


def vectors(r):
    rng = r.rng
    kind = rng.choice(["Vector", "Point2", "Point3"])
    n = {"Vector": rng.choice([1, 4]), "Point2": 2, "Point3": 3}[kind]
    cls = getattr(th, kind)
    b = rng.choice([1, 2])
    bx, by = rng.choice([(b, b), (1, b), (b, 1)])
    xs = [[rng.randint(-9, 9) for _ in range(n)] for _ in range(bx)]
    ys = [[rng.randint(-9, 9) for _ in range(n)] for _ in range(by)]
    x, y = cls(tensor=torch.tensor(xs).double()), cls(tensor=torch.tensor(ys).double())
    jc, jb, jl, ji, jg, je = [], [], [], [], [], []

    def go():
        return {
            "compose": x.compose(y, jacobians=jc).tensor, "between": x.between(y, jacobians=jb).tensor,
            "local": x.local(y, jacobians=jl), "inverse": x.inverse(jacobian=ji).tensor,
            "retract": x.retract(y.tensor).tensor, "log": x.log_map(jacobians=jg),
            "exp": cls.exp_map(x.tensor, jacobians=je).tensor, "adjoint": x.adjoint(),
        }

    tag, o = call(go)
    meta = ("vectors", kind, bx, by)
    if tag != "ok":
        r.add(meta, op="outcome", res=tag + str(o)[:100], exp="ok", what="rn_outcome")
        return
    B = max(bx, by)
    pick = lambda t, i: fx(t[i % t.shape[0]])
    for i in range(B):
        ev = {k: pick(v, i) for k, v in o.items()}
        for nme, j in (("jc", jc), ("jb", jb), ("jl", jl), ("ji", ji), ("jg", jg), ("je", je)):
            ev[nme] = [pick(J, i) for J in j]
        r.add(meta, op="rn", x=xs[i % bx], y=ys[i % by], tol=1, **ev)


def replay(ctx, r, ty):
    """Every transition of the LieMC graph on real objects of both packages."""
    res = run_tlc("LieMC", f"LieMC_{ty}.cfg", timeout=800)
    ctx.model(res)
    g = Graph(res.prints)
    gens = {
        "SO2": {"a": ([1, 0, 0, 1], [])},
        "SE2": {"a": ([1, 0, 0, 1], [1, 0]), "b": ([1, 0, 0, 0], [0, 1])},
        "SO3": {"a": ([1, 1, 0, 0], []), "b": ([1, 0, 0, 1], [])},
        "SE3": {"a": ([1, 1, 0, 0], [1, 0, 0]), "b": ([1, 0, 0, 1], [1, 0, 0])},
    }[ty]
    fes = [Th(ctx.rng)] + ([Fn(ctx.rng)] if DIM[ty] == 3 else [])
    one = to_param(ty, torch.eye(DIM[ty], DIM[ty] + (1 if ty in RIGID else 0), dtype=torch.float64)).unsqueeze(0)
    G = {k: to_param(ty, mat(ty, {"q": q, "t": t})).unsqueeze(0) for k, (q, t) in gens.items()}
    logs = {k: Th(ctx.rng).log(ty, v) for k, v in G.items()}
    for start, walk in g.walks(ctx.rng, max_len=60, limit=ctx.n(1200, None)):
        for fe in fes:
            x = one.clone()
            ctx.traces += 1
            for i, (s, a, t) in enumerate(walk):
                ctx.events += 1
                op, gg = a["op"], G.get(a["g"])

                def do():
                    if op == "right":
                        return fe.compose(ty, x, gg)
                    if op == "left":
                        return fe.compose(ty, gg, x)
                    if op == "from":
                        return fe.between(ty, x, gg)
                    if op == "to":
                        return fe.between(ty, gg, x)
                    if op == "inverse":
                        return fe.inverse(ty, x)
                    if op == "retract":
                        if fe.name == "theseus":
                            return fe.retract(ty, x, logs[a["g"]])
                        return fe.compose(ty, x, fe.exp(ty, logs[a["g"]]))
                    if fe.name == "theseus":
                        z = fe.local(ty, x, x)
                        if float(z.abs().max()) > 1e-6:
                            raise ValueError("local of an element with itself is not zero")
                        return fe.retract(ty, one, fe.local(ty, one, x))
                    return fe.exp(ty, fe.log(ty, x))

                tag, v = call(do)
                want = torch.tensor(g.state[t], dtype=torch.float64)[: DIM[ty]]
                bad = tag if tag != "ok" else ("" if torch.allclose(to_mat(ty, v)[0], want, atol=1e-6) else "value")
                if bad:
                    ctx.violation(f"{fe.name} {ty}: {op} leaves the group algebra ({bad})",
                                  {"walk": [w[1] for w in walk[: i + 1]], "got": str(v), "want": g.state[t]}, key=f"{ty}:{op}")
                    break
                x = v
        if len(ctx.violations) > 20:
            return
    ctx.count("group_transitions", g.n_edges)


def run(ctx):
    r = Rec(ctx)
    rng = ctx.rng
    for ty in TYPES:
        replay(ctx, r, ty)
    for _ in range(ctx.n(12, 220)):
        for fe in (Th(rng), Fn(rng)):
            for ty in fe.types:
                r.guard(algebra, fe, ty, torch.float32 if rng.random() < 0.2 else torch.float64)
                for _ in range(2):
                    r.guard(gradients, fe, ty)
                r.guard(near_pi, fe, ty)
                r.guard(small, fe, ty)
                r.guard(derivatives, fe, ty)
        for ty in TYPES:
            conversions(r, ty)
        for _ in range(3):
            vectors(r)
    seen = {}
    for i in range(0, len(r.ev), 4000):
        part = r.ev[i : i + 4000]
        rej, res = validate_traces("Lie", "Lie.cfg", part, timeout=800)
        ctx.model(res)
        for x in rej:
            k = i + x["line"] - 1
            for c in x["clauses"]:
                key = f"{r.meta[k][0]}:{r.meta[k][1]}:{c}"
                if key not in seen:
                    seen[key] = 0
                seen[key] += 1
                if seen[key] <= 2:
                    ctx.violation(f"{c} differs from the group algebra", {"event": r.ev[k], "meta": r.meta[k]}, key=key)
    ctx.events += len(r.ev)
    ctx.traces += len(r.ev)
    for e in r.ev[:3]:
        ctx.sample(e)
    ctx.extra["clauses_failing"] = seen
    ctx.assumptions += [
        "fixed point 1e-4 (1e-6 for small rotations); derivatives against central differences of the same operation with step 1e-4 (double precision)",
        "the logarithm of an exact half turn may be either of the two rotation vectors",
    ]
