"""P18: kinematic trees (KinMC postures replayed through URDF files, KinTrace judge)."""
import math
import os
import shutil
import tempfile
import warnings
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

import torch
import torchkin as kin
from torchkin import joint as kj

import theseus as th
from theseus.embodied.kinematics.kinematics_model import IdentityModel, UrdfRobotModel
from vh.core import call, ints
from vh.tlc import run_tlc, validate_traces

D64, F32 = torch.float64, torch.float32
ONE, QT = [1, 0, 1], [[1, 0, 1], [0, 1, 1], [-1, 0, 1], [0, -1, 1]]
ODD = [[3, 4, 5], [4, -3, 5], [-3, 4, 5]]
AXES = [[s if i == k else 0 for i in range(3)] + [1] for k in range(3) for s in (1, -1)]
ODDAX = [[1, 2, 2, 3], [-2, 1, 2, 3], [2, -2, 1, 3], [3, 0, 4, 5], [0, -4, 3, 5]]


# ------------------------------------------------------------ the written robot
def num(x):
    return repr(float(x))


def urdf(r, rng, names=None):
    """The URDF text of a model robot, and the names of its links and joints."""
    links, joints = names
    parts = [f'<link name="{n}"/>' for n in links]
    for i, j in enumerate(r):
        s = f'<joint name="{joints[i]}" type="{j["type"]}"><parent link="{links[j["parent"]]}"/><child link="{links[i + 1]}"/>'
        ang = [math.atan2(a[1], a[0]) for a in j["rpy"]]
        plain_rpy, plain_xyz = all(a == ONE for a in j["rpy"]), j["xyz"] == [0, 0, 0]
        if not (plain_rpy and plain_xyz and rng.random() < 0.6):
            s += "<origin"
            if not (plain_xyz and rng.random() < 0.5):
                s += ' xyz="' + " ".join(num(x) for x in j["xyz"]) + '"'
            if not (plain_rpy and rng.random() < 0.5):
                s += ' rpy="' + " ".join(num(a) for a in ang) + '"'
            s += "/>"
        if j["ax"]:
            s += '<axis xyz="' + " ".join(num(Fraction(a, j["ax"][3])) for a in j["ax"][:3]) + '"/>'
        if j["type"] in ("revolute", "prismatic"):
            s += '<limit effort="1" velocity="1" lower="-10" upper="10"/>'
        parts.append(s + "</joint>")
    rng.shuffle(parts)
    return '<robot name="model">' + "".join(parts) + "</robot>"


def name_all(r, rng):
    n = len(r)
    pool = [f"{c}{k}" for c in "abcxyz" for k in range(n + 1)]
    rng.shuffle(pool)
    return pool[: n + 1], rng.sample(pool, n) if rng.random() < 0.3 else [f"joint_{p}" for p in pool[n + 1: 2 * n + 1]]


class Built:
    """A model robot, parsed by the code under test."""

    def __init__(self, r, rng, dtype, scratch):
        self.r, self.dtype = r, dtype
        self.links, self.joints = name_all(r, rng)
        self.text = urdf(r, rng, (self.links, self.joints))
        self.path = os.path.join(scratch, "robot.urdf")
        with open(self.path, "w") as f:
            f.write(self.text)
        self.robot = kin.Robot.from_urdf_file(self.path, dtype=dtype)
        self.col = [self.robot.joint_map[n].id for n in self.joints]

    def movable(self):
        return [i for i, j in enumerate(self.r) if j["type"] != "fixed"]

    def columns(self, t):
        """Reorders the last dimension (degrees of freedom) to the model's joints."""
        z = torch.zeros(t.shape[:-1] + (len(self.r),), dtype=t.dtype)
        for i in self.movable():
            z[..., i] = t[..., self.col[i]].detach()
        return z

    def angles(self, qs, rng, wrap=True):
        x = torch.zeros(len(qs), self.robot.dof, dtype=D64)
        for b, q in enumerate(qs):
            for i in self.movable():
                j, (w, t) = self.r[i], (q[i]["w"], q[i]["t"])
                if j["type"] == "prismatic":
                    v = t / w
                else:
                    v = 2 * math.atan2(t * (j["ax"][3] if j["ax"] else 1), w)
                    if wrap and self.dtype == D64 and rng.random() < 0.3:
                        v += 2 * math.pi * rng.choice([-1, 1])
                x[b, self.col[i]] = v
        return x.to(self.dtype)


# ----------------------------------------------------- denominators (scales only)
def red(entries, d):
    g = d
    for e in entries:
        g = math.gcd(g, e)
    return d // g


def den_origin(j):
    (cr, sr, dr), (cp, sp, dp), (cy, sy, dy) = j["rpy"]
    e = [cy * cp * dr, cy * sp * sr - sy * dp * cr, cy * sp * cr + sy * dp * sr,
         sy * cp * dr, sy * sp * sr + cy * dp * cr, sy * sp * cr - cy * dp * sr,
         -dy * sp * dr, dy * cp * sr, dy * cp * cr]
    return red(e, dr * dp * dy)


def den_motion(j, q):
    if j["type"] == "fixed":
        return 1
    a = j["ax"] or [1, 0, 0, 1]
    if j["type"] == "prismatic":
        return q["w"] * a[3]
    w, v = q["w"], [q["t"] * c for c in a[:3]]
    n = w * w + sum(c * c for c in v)
    s = [[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]]
    e = [(w * w - sum(c * c for c in v) if i == k else 0) + 2 * v[i] * v[k] + 2 * w * s[i][k] for i in range(3) for k in range(3)]
    return red(e, n)


def dens(r, q):
    d = [1]
    for i, j in enumerate(r):
        d.append(d[j["parent"]] * den_origin(j) * den_motion(j, q[i]))
    return d


def sden(r, d, j):
    return d[j + 1] ** 2 * (r[j]["ax"][3] if r[j]["ax"] and r[j]["type"] != "fixed" else 1)


def lcm(xs):
    k = 1
    for x in xs:
        k = k * x // math.gcd(k, x)
    return k


def scaled(t, sc, tol):
    """Last dimension of t times the scales sc, as integers."""
    return ints(t.to(D64) * torch.tensor(sc, dtype=D64), 1, tol)


# ------------------------------------------------------------------- random robots
def rand_joint(rng, parent, odd):
    ty = rng.choice(["revolute", "continuous", "revolute", "prismatic", "prismatic", "fixed"])
    ax = [] if ty == "fixed" or rng.random() < 0.12 else rng.choice(AXES)
    rpy = [rng.choice(QT) if rng.random() < 0.5 else ONE for _ in range(3)]
    if odd:
        if rng.random() < 0.5 and ty != "fixed":
            ax = rng.choice(ODDAX)
        else:
            rpy[rng.randrange(3)] = rng.choice(ODD)
    return {"type": ty, "parent": parent, "ax": ax, "rpy": rpy, "xyz": [rng.randint(-2, 2) if rng.random() < 0.7 else 0 for _ in range(3)]}


def rand_robot(rng, big):
    n = rng.choice([1, 2, 3, 3, 4, 5, 6] + ([8] if big else []))
    chain = rng.random() < 0.4
    odd = set(rng.sample(range(n), 1)) if rng.random() < 0.35 else set()
    return [rand_joint(rng, i if chain else rng.randint(0, i), i in odd) for i in range(n)]


def rand_q(rng, j, odd):
    if j["type"] == "fixed":
        return {"w": 1, "t": 0}
    if j["type"] == "prismatic":
        return {"w": rng.choice([1, 2]) if odd else 1, "t": rng.randint(-2, 2)}
    n = j["ax"][3] if j["ax"] else 1
    if n > 1:
        return rng.choice([{"w": 0, "t": 1}, {"w": 1, "t": 0}, {"w": n, "t": 1}, {"w": n, "t": -1}])
    if odd:
        return rng.choice([{"w": 2, "t": 1}, {"w": 1, "t": 2}, {"w": 2, "t": -1}])
    return rng.choice([{"w": 1, "t": 0}, {"w": 1, "t": 1}, {"w": 0, "t": 1}, {"w": 1, "t": -1}])


def rand_posture(rng, r, limit):
    while True:
        odd = rng.choice(range(len(r))) if rng.random() < 0.4 else -1
        q = [rand_q(rng, j, i == odd) for i, j in enumerate(r)]
        if max(dens(r, q)) <= limit:
            return q
        limit += 1


# ---------------------------------------------------------------------- recording
class Rec:
    def __init__(self, ctx):
        self.ctx, self.ev, self.meta = ctx, [], []

    def add(self, meta, **e):
        self.ev.append(e)
        self.meta.append(meta)

    def outcome(self, what, res, exp, meta=None):
        self.add(meta, op="outcome", what=what, res=res, exp=exp)


def structure(rec, b):
    r, rb = b.r, b.robot
    ax = []
    for i, j in enumerate(r):
        o = rb.joint_map[b.joints[i]]
        n = j["ax"][3] if j["ax"] else 1
        ax.append(ints(o.axis.reshape(-1), n, 1e-4) if j["type"] != "fixed" else [0] * 6)
    of = {n: i + 1 for i, n in enumerate(b.joints)}
    rec.add(b.text, op="robot", r=r, dof=rb.dof, ids=b.col, nj=rb.num_joints, nl=rb.num_links,
            lids=[rb.link_map[n].id for n in b.links],
            anc=[[of[rb.joints[k].name] for k in rb.link_map[n].ancestor_non_fixed_joint_ids] for n in b.links], axis=ax)


def slope(y, x):
    g = torch.autograd.grad(y, x, retain_graph=True, allow_unused=True)[0] if y.requires_grad else None
    return torch.zeros_like(x) if g is None else g


def observe(rec, b, rng, qs, deep):
    """One batch of postures through every function of the robot."""
    r, n = b.r, len(b.r)
    tol = 1e-4 if b.dtype == D64 else 4e-3
    every = rng.random() < 0.15
    if every:
        names, links = None, [ln.name for ln in b.robot.get_links()]
    else:
        names = links = [rng.choice(b.links) for _ in range(rng.choice([1, 2, 3, n + 1]))]
    sel = [b.links.index(x) for x in links]
    fk, jb, js = kin.get_forward_kinematics_fns(b.robot, names)
    x = b.angles(qs, rng).requires_grad_(True)
    ds = [dens(r, q) for q in qs]
    W = torch.tensor([[[[rng.choice([0, 0, 1, -1, 2]) for _ in range(4)] for _ in range(3)] for _ in sel] for _ in qs], dtype=b.dtype)
    poses = fk(x)
    ok = len(poses) == len(sel)
    rec.outcome("number_of_poses", "ok" if ok else "wrong", "ok", b.text)
    if not ok:
        return
    mode = rng.choice(["grad", "grad", "func", "vmap"]) if b.robot.dof else "none"
    loss = lambda z, w: sum((w[k] * p).sum() for k, p in enumerate(fk(z)))  # noqa: E731
    Wk = W.transpose(0, 1)
    want_h = deep and b.robot.dof and all(max(d) <= 5 for d in ds)
    H = None
    if mode == "none":
        G = x.detach()
    elif mode == "grad":
        y = loss(x, Wk)
        if rng.random() < 0.3:      # an earlier backward pass through the same graph
            slope(y, x)
        G = torch.autograd.grad(y, x, create_graph=True, allow_unused=True)[0] if y.requires_grad else None
        G = torch.zeros_like(x) if G is None else G
        if want_h:
            H = torch.stack([slope(G[:, c].sum(), x) for c in range(x.shape[1])], 1)
    elif mode == "func":
        G = torch.func.grad(loss)(x.detach(), Wk)
        if want_h:
            H = torch.func.jacrev(lambda z: torch.func.grad(loss)(z, Wk).sum(0))(x.detach()).transpose(0, 1)
    else:
        one = lambda z, w: loss(z[None], w[:, None])  # noqa: E731
        G = torch.vmap(torch.func.grad(one))(x.detach(), W)
        if want_h:
            H = torch.vmap(torch.func.jacrev(torch.func.jacrev(one)))(x.detach(), W)
    S, P1 = js(x)
    B, P2 = jb(x)
    kj_ = None
    if b.robot.dof and deep and all(max(d) <= 9 for d in ds):
        k = rng.randrange(len(sel))
        j = rng.choice(b.movable())
        V = torch.tensor([rng.randint(-2, 2) for _ in range(6)], dtype=b.dtype)
        kj_ = (k, j)
        dS, dB = (slope((t[k][:, :, b.col[j]] @ V).sum(), x) for t in (S, B))
    for i, q in enumerate(qs):
        d = ds[i]
        sd = [sden(r, d, j) for j in range(n)]
        K = lcm([d[s] for s in sel])
        e = {"op": "kin", "r": r, "q": q, "sel": sel, "W": ints(W[i]), "K": K}
        same = all(torch.equal(a, c) for a, c in zip(P1, P2)) and len(P1) == len(P2) == len(sel)
        src = rng.choice([poses, P1] if same else [P1])
        e["pose"] = [ints(src[k][i], d[s], tol) for k, s in enumerate(sel)]
        fix = lambda t, sc: [[t[v][c] for v in range(6)] for c in range(n)]  # noqa: E731
        e["spatial"] = [fix(scaled(b.columns(S[k][i]), sd, tol), 0) for k in range(len(sel))]
        e["body"] = [fix(scaled(b.columns(B[k][i]), [z * d[s] ** 2 for z in sd], tol), 0) for k, s in enumerate(sel)]
        e["grad"] = scaled(b.columns(G[i]), [z * K for z in sd], tol)
        if H is not None:
            h = b.columns(b.columns(H[i]).T).T      # both indices
            e["hess"] = [scaled(h[a], [sd[a] * z * K for z in sd], tol) for a in range(n)]
        if kj_ is not None:
            k, j = kj_
            e["V"], e["kj"] = ints(V), [k + 1, j + 1]
            e["dspatial"] = scaled(b.columns(dS[i]), [z * sd[j] for z in sd], tol)
            e["dbody"] = scaled(b.columns(dB[i]), [z * sd[j] * d[sel[k]] ** 2 for z in sd], tol)
        rec.add((mode, b.text), **e)


def outcomes(rec, b, rng):
    fk, jb, js = kin.get_forward_kinematics_fns(b.robot, [rng.choice(b.links)])
    dof = b.robot.dof
    for f in (fk, jb, js):
        for bad in (torch.zeros(2, dof + 1, dtype=b.dtype), torch.zeros(max(dof, 1), dtype=b.dtype), torch.zeros(1, 1, dof, dtype=b.dtype)):
            rec.outcome("wrong_size_angles", call(f, bad)[0], "ValueError", b.text)
    rec.outcome("unknown_link", call(kin.get_forward_kinematics_fns, b.robot, [b.links[0], "nowhere"])[0], "KeyError", b.text)


# ---------------------------------------------------------------- the joint classes
def single_joints(rec, rng):
    dtype = D64
    for cls, ty, k in ((kj.RevoluteJointX, "revolute", 0), (kj.RevoluteJointY, "revolute", 1), (kj.RevoluteJointZ, "revolute", 2),
                       (kj.PrismaticJointX, "prismatic", 0), (kj.PrismaticJointY, "prismatic", 1), (kj.PrismaticJointZ, "prismatic", 2),
                       (kj.RevoluteJoint, "revolute", None), (kj.PrismaticJoint, "prismatic", None), (kj.FixedJoint, "fixed", None)):
        j = rand_joint(rng, 0, rng.random() < 0.3)
        j["type"] = ty
        j["ax"] = [] if ty == "fixed" else j["ax"] or [1, 0, 0, 1]
        if k is not None:
            j["ax"] = [int(i == k) for i in range(3)] + [1]
        plain = rng.random() < 0.25
        if plain:
            j["rpy"], j["xyz"] = [ONE] * 3, [0, 0, 0]
        qs = [rand_q(rng, j, rng.random() < 0.3) for _ in range(rng.choice([1, 2, 3]))]
        ang = [math.atan2(a[1], a[0]) for a in j["rpy"]]
        R = torch.eye(3, dtype=dtype)
        for a, u in zip(ang, range(3)):
            c, s = math.cos(a), math.sin(a)
            m = torch.eye(3, dtype=dtype)
            p, o = [(1, 2), (2, 0), (0, 1)][u]
            m[p, p] = m[o, o] = c
            m[o, p], m[p, o] = s, -s
            R = m @ R
        origin = torch.cat([R, torch.tensor(j["xyz"], dtype=dtype).view(3, 1)], 1)[None]
        kw = {"dtype": dtype} if plain and rng.random() < 0.7 else {"origin": origin}
        args = ["j"]
        if k is None and ty != "fixed":
            args.append(torch.tensor(j["ax"][:3], dtype=dtype) / j["ax"][3])
        tag, o = call(cls, *args, **kw)
        rec.outcome("joint_constructor", tag, "ok", (cls.__name__, list(kw), str(o)[:200]))
        if tag != "ok":
            continue
        if ty == "fixed":
            tag, T = call(o.relative_pose)
            qs = qs[:1]
            rec.outcome("fixed_joint_angle", call(o.relative_pose, torch.zeros(1, dtype=dtype))[0], "ValueError")
        else:
            n = j["ax"][3]
            v = torch.tensor([2 * math.atan2(q["t"] * n, q["w"]) if ty == "revolute" else q["t"] / q["w"] for q in qs], dtype=dtype)
            if rng.random() < 0.3:
                v = v.view(-1, 1)
            tag, T = call(o.relative_pose, v)
            for bad in ((), (v, v), (torch.zeros(2, 2, dtype=dtype),)):
                rec.outcome("joint_angle_shape", call(o.relative_pose, *bad)[0], "ValueError", cls.__name__)
            if k is None:
                rec.outcome("axis_size", call(cls, "j", torch.ones(2, dtype=dtype), dtype=dtype)[0], "ValueError", cls.__name__)
                rec.outcome("axis_dtype", call(cls, "j", torch.ones(3, dtype=F32), dtype=D64)[0], "ValueError", cls.__name__)
        rec.outcome("joint_pose", tag if tag != "ok" or T.shape == (len(qs), 3, 4) else "shape", "ok",
                    (cls.__name__, list(kw), str(T)[:200]))
        if tag != "ok":
            continue
        for i, q in enumerate(qs):
            rec.add(cls.__name__, op="rel", j=j, q=q, T=ints(T[i], den_origin(j) * den_motion(j, q), 1e-5))


# ------------------------------------------------------------- theseus' robot models
def theseus_models(rec, b, rng, qs):
    r = b.r
    names = None if rng.random() < 0.3 else list(dict.fromkeys(rng.choice(b.links) for _ in range(rng.choice([1, 2, 4]))))
    tag, m = call(UrdfRobotModel, b.path, dtype=b.dtype, link_names=names)
    rec.outcome("urdf_model", tag, "ok", (str(m)[:200], b.text))
    if tag != "ok":
        return
    col, b.col = b.col, [m.robot.joint_map[x].id for x in b.joints]
    tol = 1e-4 if b.dtype == D64 else 4e-3
    x = b.angles(qs, rng)
    xin = th.Vector(tensor=x) if rng.random() < 0.5 and x.shape[1] else x
    body = rng.random() < 0.5
    jac = {} if rng.random() < 0.6 else None
    kw = {} if body and rng.random() < 0.5 else {"use_body_jacobians": body}
    tag, out = call(m.forward_kinematics, xin, jac, **kw)
    rec.outcome("urdf_model_kinematics", tag, "ok", (str(out)[:300], names, b.text))
    if tag == "ok":
        want = set(b.links) if names is None else set(names)
        rec.outcome("urdf_model_links", "ok" if set(out) == want and (jac is None or set(jac) == want) else "other links", "ok", (list(out), names))
        rec.outcome("urdf_model_type", "ok" if all(isinstance(p, th.SE3) for p in out.values()) else "other type", "ok")
        sel = [b.links.index(n) for n in out]
        for i, q in enumerate(qs):
            d = dens(r, q)
            sd = [sden(r, d, j) for j in range(len(r))]
            e = {"op": "kin", "r": r, "q": q, "sel": sel, "pose": [ints(out[b.links[s]].tensor[i], d[s], tol) for s in sel]}
            if jac is not None and set(jac) == want:
                f = "body" if body else "spatial"
                e[f] = []
                for s in sel:
                    t = scaled(b.columns(jac[b.links[s]][i]), [z * (d[s] ** 2 if body else 1) for z in sd], tol)
                    e[f].append([[t[v][c] for v in range(6)] for c in range(len(r))])
            rec.add((names, b.text), **e)
    rec.outcome("urdf_model_jacobians_given", call(m.forward_kinematics, xin, {"old": x})[0], "ValueError")
    rec.outcome("urdf_model_wrong_size", call(m.forward_kinematics, torch.zeros(1, m.robot.dof + 1, dtype=b.dtype))[0], "ValueError")
    b.col = col


def identity_model(rec, rng):
    v = rng.choice([th.Point2(torch.rand(2, 2)), th.Vector(tensor=torch.rand(2, 2))])
    tag, o = call(IdentityModel().forward_kinematics, v)
    ok = tag == "ok" and set(o) == {"state"} and torch.equal(o["state"].tensor, v.tensor)
    rec.outcome("identity_model", "ok" if ok else tag, "ok")
    rec.outcome("identity_model_type", call(IdentityModel().forward_kinematics, th.SE2())[0], "NotImplementedError")


# ----------------------------------------------------------------- model replay
def replay(ctx, prints, rng, scratch, limit):
    """Every posture of the model, robot by robot."""
    robots = {}
    for p in prints:
        if "obs" in p:
            robots.setdefault(str(p["r"]), []).append(p)
    items = list(robots.values())
    rng.shuffle(items)
    bad = {}
    for ps in items[:limit]:
        r = ps[0]["r"]
        if not r:
            continue
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tag, b = call(Built, r, rng, D64, scratch)
            got = None
            if tag == "ok":
                fk, jb, js = kin.get_forward_kinematics_fns(b.robot, b.links)
                x = b.angles([p["q"] for p in ps], rng)
                tag, got = call(lambda: (fk(x), js(x)[0], jb(x)[0]))
        ctx.events += len(ps)
        if tag != "ok":
            bad.setdefault(f"raises {tag}", (r, str(b)[:300], str(got)[:300]))
            continue
        T, S, B = got
        n = len(r)
        for i, p in enumerate(ps):
            o = p["obs"]
            for l in range(n + 1):
                s = [list(c) for c in zip(*ints(b.columns(S[l][i])))]
                g = [list(c) for c in zip(*ints(b.columns(B[l][i])))]
                js_, jb_ = ([o[f][str(l)] if isinstance(o[f], dict) else o[f][l]][0] for f in "JB")
                for what, a, w in (("pose", ints(T[l][i]), o["T"][l]), ("spatial", s, js_), ("body", g, jb_)):
                    if a != w:
                        bad.setdefault(what, (p, l, a, w, b.text))
    for k, v in bad.items():
        ctx.violation(f"kinematic posture: {k}", {"case": str(v)[:3000]}, key=f"mc:{k}")


def report(ctx, ev, meta, seen):
    parts = [(i, ev[i:i + 700]) for i in range(0, len(ev), 700)]
    with ThreadPoolExecutor(6) as ex:
        out = list(ex.map(lambda p: validate_traces("KinTrace", "KinTrace.cfg", p[1], timeout=800), parts))
    for (i, _), (rej, res) in zip(parts, out):
        ctx.model(res)
        for x in rej:
            k = i + x["line"] - 1
            for c in x["clauses"]:
                seen[c] = seen.get(c, 0) + 1
                if seen[c] <= 2:
                    ctx.violation(f"kinematics: {c}", {"event": ev[k], "meta": str(meta[k])[:2500]}, key=c)


def run(ctx):
    rng = ctx.rng
    torch.manual_seed(ctx.seed)
    scratch = tempfile.mkdtemp(prefix="vh_kin_")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            body(ctx, rng, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def body(ctx, rng, scratch):
    for cfg in ["KinMC.cfg"] + ([] if ctx.quick else ["KinMCdeep.cfg"]):
        res = run_tlc("KinMC", cfg, timeout=850, workers=6)
        ctx.model(res)
        replay(ctx, res.prints, rng, scratch, None)
    rec = Rec(ctx)
    for _ in range(ctx.n(130, 1800)):
        r = rand_robot(rng, not ctx.quick)
        dtype = F32 if rng.random() < 0.15 and all(not j["ax"] or j["ax"][3] == 1 for j in r) and all(a[2] == 1 for j in r for a in j["rpy"]) else D64
        tag, b = call(Built, r, rng, dtype, scratch)
        rec.outcome("parse", tag, "ok", (r, str(b)[:300]))
        if tag != "ok":
            continue
        structure(rec, b)
        qs = [rand_posture(rng, r, 1 if dtype == F32 else 12) for _ in range(rng.choice([1, 2, 3]))]
        tag, e = call(observe, rec, b, rng, qs, dtype == D64)
        rec.outcome("kinematics_runs", tag, "ok", (str(e)[:300], b.text))
        if rng.random() < 0.4:
            theseus_models(rec, b, rng, qs)
        if rng.random() < 0.2:
            outcomes(rec, b, rng)
        if rng.random() < 0.3:
            single_joints(rec, rng)
            identity_model(rec, rng)
    path = os.path.join(scratch, "bad.urdf")
    for ty in ("floating", "planar"):
        with open(path, "w") as f:
            f.write(f'<robot name="x"><link name="a"/><link name="b"/><joint name="j" type="{ty}"><parent link="a"/><child link="b"/><axis xyz="1 0 0"/></joint></robot>')
        rec.outcome("unsupported_joint", call(kin.Robot.from_urdf_file, path)[0], "ValueError", ty)
    seen = {}
    report(ctx, rec.ev, rec.meta, seen)
    ctx.events += len(rec.ev)
    ctx.traces += sum(e["op"] == "kin" for e in rec.ev)
    for e in [x for x in rec.ev if x["op"] == "kin"][:3]:
        ctx.sample(e)
    ctx.extra["clauses_failing"] = seen
    ctx.extra["kinds"] = {f: sum(f in e for e in rec.ev) for f in ("pose", "spatial", "body", "grad", "hess", "dspatial", "dbody")}
    ctx.assumptions += [
        "joint axes have unit length (as URDF asks) and rational coordinates; angles have rational half-angle tangents",
        "joints: revolute, continuous, prismatic and fixed; CPU tensors",
    ]
