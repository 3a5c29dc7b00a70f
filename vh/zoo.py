"""Random real objectives built from every shipped variable, weight and cost type.

Numbers are small and random; which oracle judges them is up to the check."""
import math

import torch
import theseus as th
import theseus.embodied as eb
from theseus.core.cost_function import AutogradMode

F64 = torch.float64
GROUPS = ["Vector", "Point2", "Point3", "SO2", "SE2", "SO3", "SE3"]


class Gen:
    """Reproducible tensors from a python rng."""

    def __init__(self, rng):
        self.rng = rng

    def t(self, *shape, lo=-1.0, hi=1.0):
        n = math.prod(shape)
        return torch.tensor(
            [self.rng.uniform(lo, hi) for _ in range(n)], dtype=F64
        ).view(*shape)


def dof_of(kind, d=2):
    return {"Vector": d, "Point2": 2, "Point3": 3, "SO2": 1, "SE2": 3, "SO3": 3, "SE3": 6}[kind]


def group_tensor(g, kind, b, d=2, scale=1.0):
    """A random valid tensor of a group type."""
    n = dof_of(kind, d)
    if kind in ("Vector", "Point2", "Point3"):
        return g.t(b, n)
    v = g.t(b, n) * scale
    return getattr(th, kind).exp_map(v).tensor


def make_var(g, kind, b, name, d=2):
    cls = getattr(th, kind)
    return cls(tensor=group_tensor(g, kind, b, d), name=name)


class Zoo:
    """Pool of shared variables and weights from which cost functions are drawn.

    Optimisation variables have batch size B; auxiliary ones 1 or B."""

    def __init__(self, rng, B, aux_full=0.5, pre="", optim_full=1.0):
        self.rng, self.g, self.B, self.pre = rng, Gen(rng), B, pre
        self.aux_full, self.optim_full = aux_full, optim_full
        self.vars = {}  # name -> (variable, regen(b) -> tensor, is_optim)
        self.pool = {}
        self.wpool = {}
        self.n = 0
        self.fav = {}

    def pick(self, key, options):
        """Structural choice that mostly repeats itself, so that cost functions
        are often alike in everything but one aspect."""
        if key not in self.fav or self.rng.random() < 0.2:
            self.fav[key] = self.rng.choice(options)
        return self.fav[key]

    def name(self, p):
        self.n += 1
        return f"{self.pre}{p}{self.n}"

    def _reg(self, var, regen, optim):
        self.vars[var.name] = (var, regen, optim)
        return var

    def ab(self):
        return self.B if self.rng.random() < self.aux_full else 1

    def new_opt(self, kind, d=2):
        b = self.B if self.rng.random() < self.optim_full else 1
        v = make_var(self.g, kind, b, self.name("x" + kind.lower()), d)
        return self._reg(v, lambda b, k=kind: group_tensor(self.g, k, b, d), True)

    def opt(self, kind, d=2, exclude=()):
        """A (mostly shared) optimisation variable."""
        p = self.pool.setdefault((kind, d if kind == "Vector" else 0, "o"), [])
        free = [v for v in p if all(v is not e for e in exclude)]
        if len(free) < 2 or (len(p) < 4 and self.rng.random() < 0.3):
            v = self.new_opt(kind, d)
            p.append(v)
            return v
        return self.rng.choice(free)

    def aux(self, kind, d=2):
        p = self.pool.setdefault((kind, d if kind == "Vector" else 0, "a"), [])
        if not p or (len(p) < 3 and self.rng.random() < 0.5):
            v = make_var(self.g, kind, self.ab(), self.name("a" + kind.lower()), d)
            p.append(self._reg(v, lambda b, k=kind: group_tensor(self.g, k, b, d), False))
        return self.rng.choice(p)

    def raw(self, key, regen, share=0.6):
        """Plain auxiliary Variable; regen(b) makes its tensor."""
        p = self.pool.setdefault((key, 0, "r"), [])
        if not p or self.rng.random() > share:
            v = th.Variable(regen(self.ab()), name=self.name(key))
            p.append(self._reg(v, regen, False))
        return self.rng.choice(p)

    # ------------------------------------------------------------- weights
    def weight(self, dim, share=0.5, zero=0.25):
        kind = self.rng.choice(["scale", "diag"])
        key = ("scale", 0) if kind == "scale" else ("diag", dim)
        p = self.wpool.setdefault(key, [])
        if p and self.rng.random() < share:
            return self.rng.choice(p)
        g, rng = self.g, self.rng

        def regen(b, n=1 if kind == "scale" else dim):
            t = g.t(b, n, lo=0.3, hi=2.0)
            for i in range(b):
                if rng.random() < zero:
                    t[i] = 0.0
            return t

        v = self._reg(th.Variable(regen(self.ab()), name=self.name("w")), regen, False)
        w = (th.ScaleCostWeight if kind == "scale" else th.DiagonalCostWeight)(
            v, name=self.name("wt")
        )
        p.append(w)
        return w

    def gp_weight(self, dof, dt):
        p = self.wpool.setdefault(("gp", dof, dt.name), [])
        if p and self.rng.random() < 0.5:
            return self.rng.choice(p)
        g = self.g

        def regen(b, n=dof):
            a = g.t(b, n, n)
            return a @ a.transpose(1, 2) + torch.eye(n, dtype=F64)

        q = self.raw(f"Qc{dof}", regen)
        w = eb.GPCostWeight(q, dt, name=self.name("gpw"))
        p.append(w)
        return w

    # ------------------------------------------------------ cost functions
    KINDS = [
        "local", "between", "mfb", "reproj", "coll_p", "coll_se2", "contact", "di", "gp",
        "hinge", "nonh_v", "nonh_se2", "push", "ad_dense", "ad_vmap", "ad_loop", "robust", "gnc",
    ]
    LOSSES = [th.WelschLoss, th.HuberLoss]

    def cost(self, kind=None, zero=0.25, wshare=0.5):
        kind = kind or self.rng.choice(self.KINDS)
        g, rng = self.g, self.rng
        nm = self.name("f_" + kind + "_")

        def W(dim):
            return self.weight(dim, zero=zero, share=wshare)

        def pos(b, n=1, lo=0.2, hi=1.0):
            return g.t(b, n, lo=lo, hi=hi)

        if kind == "local":
            k = self.pick("local", GROUPS)
            return th.Local(self.opt(k), self.aux(k), W(dof_of(k)), name=nm)
        if kind == "between":
            k = self.pick("between", GROUPS)
            a = self.opt(k)
            return th.Between(a, self.opt(k, exclude=[a]), self.aux(k), W(dof_of(k)), name=nm)
        if kind == "mfb":
            k = self.pick("mfb", ["SE2", "SE3", "SO3", "SO2", "Point2"])
            vs = []
            for _ in range(4):
                vs.append(self.opt(k, exclude=vs))
            return eb.MovingFrameBetween(*vs, self.aux(k), W(dof_of(k)), name=nm)
        if kind == "reproj":
            pt = self.pool.setdefault(("rpt", 0, "o"), [])

            def far(b):
                t = g.t(b, 3)
                t[:, 2] += 5.0
                return t

            if not pt or rng.random() < 0.4:
                v = th.Point3(tensor=far(self.B), name=self.name("wp"))
                pt.append(self._reg(v, far, True))
            pp = self.pool.setdefault(("rse3", 0, "o"), [])

            def near(b):
                return th.SE3.exp_map(g.t(b, 6) * 0.3).tensor

            if not pp or rng.random() < 0.4:
                v = th.SE3(tensor=near(self.B), name=self.name("cam"))
                pp.append(self._reg(v, near, True))

            def vec1(key):
                p = self.pool.setdefault((key, 0, "a1"), [])
                if not p or rng.random() < 0.5:
                    v = th.Vector(tensor=pos(self.ab()), name=self.name(key))
                    p.append(self._reg(v, lambda b: pos(b), False))
                return rng.choice(p)

            return eb.Reprojection(
                rng.choice(pp), rng.choice(pt), self.aux("Point2"), vec1("focal"),
                calib_k1=vec1("k1"), calib_k2=vec1("k2"), weight=W(2), name=nm,
            )
        if kind in ("coll_p", "coll_se2", "contact"):
            B = self.B

            def origin(b):
                return g.t(b, 2) * 0.1 - 1.5

            p = self.pool.setdefault(("org", 0, "a"), [])
            if not p:
                v = th.Point2(tensor=origin(B), name=self.name("org"))
                p.append(self._reg(v, origin, False))
            org = p[0]
            # the signed distance field requires one map per batch element
            sdf = self._full("sdf", lambda b: g.t(b, 8, 9))
            cell = self._full("cell", lambda b: pos(b, lo=0.3, hi=0.6))
            eps = self.raw("eps", lambda b: pos(b))
            if kind == "coll_p":
                return eb.Collision2D(self.opt("Point2"), org, sdf, cell, eps, W(1), name=nm)
            if kind == "coll_se2":
                return eb.Collision2D(self.opt("SE2"), org, sdf, cell, eps, W(1), name=nm)
            o = self.opt("SE2")
            return eb.EffectorObjectContactPlanar(
                o, self.opt("SE2", exclude=[o]), org, sdf, cell, eps, W(1), name=nm
            )
        if kind in ("di", "gp"):
            k = self.pick("di", ["Vector", "Point2", "SE2", "SO3", "SE3", "SO2"])
            d = dof_of(k)
            p1 = self.opt(k)
            v1 = self.opt("Vector", d, exclude=[p1])
            p2 = self.opt(k, d, exclude=[p1, v1])
            v2 = self.opt("Vector", d, exclude=[p1, v1, p2])
            dt = self.raw("dt", lambda b: pos(b, lo=0.5, hi=1.5))
            if kind == "di":
                return eb.DoubleIntegrator(p1, v1, p2, v2, dt, W(2 * d), name=nm)
            return eb.GPMotionModel(p1, v1, p2, v2, dt, self.gp_weight(d, dt), name=nm)
        if kind == "hinge":
            d = self.pick("hinge", [1, 2])
            lo = self.raw(f"lo{d}", lambda b: -pos(b, d, 0.3, 0.6))
            up = self.raw(f"up{d}", lambda b: pos(b, d, 0.3, 0.6))
            thr = self.raw(f"thr{d}", lambda b: pos(b, d, 0.0, 0.2))
            return eb.HingeCost(self.opt("Vector", d), lo, up, thr, W(d), name=nm)
        if kind == "nonh_v":
            p = self.opt("Vector", 3)
            return eb.Nonholonomic(p, self.opt("Vector", 3, exclude=[p]), W(1), name=nm)
        if kind == "nonh_se2":
            return eb.Nonholonomic(self.opt("SE2"), self.opt("Vector", 3), W(1), name=nm)
        if kind == "push":
            vs = []
            for _ in range(4):
                vs.append(self.opt("SE2", exclude=vs))
            c2 = self.raw("csq", lambda b: pos(b))
            return eb.QuasiStaticPushingPlanar(*vs, c2, W(3), name=nm)
        if kind.startswith("ad_"):
            mode = {"ad_dense": "dense", "ad_vmap": "vmap", "ad_loop": "loop_batch"}[kind]
            which = self.pick("ad", ["vec", "se2"])
            fn = rng.choice(AD_FNS[which] + ([_ad_branch] if mode != "vmap" else []))
            if which == "vec":
                o = [self.opt("Vector", 2)]
                o.append(self.opt("Vector", 2, exclude=o))
                a = [self.aux("Vector", 2), self.aux("Vector", 2)]
                while a[1] is a[0]:
                    self.pool[("Vector", 2, "a")].append(
                        self._reg(make_var(g, "Vector", self.ab(), self.name("av"), 2),
                                  lambda b: group_tensor(g, "Vector", b, 2), False))
                    a[1] = self.pool[("Vector", 2, "a")][-1]
                dim = 2
            else:
                o = [self.opt("SE2")]
                o.append(self.opt("SE2", exclude=o))
                a = [self.aux("Point2")]
                dim = 2
            if mode == "loop_batch":  # slices auxiliary variables per element
                a = [self._full_like(v) for v in a]
            return th.AutoDiffCostFunction(
                o, fn, dim, cost_weight=W(dim), aux_vars=a, name=nm, autograd_mode=mode
            )
        if kind in ("robust", "gnc"):
            inner = self.cost(
                self.pick("inner", ["local", "between", "hinge", "di", "ad_vmap"]), zero=zero, wshare=wshare
            )
            rad = self.raw("rad", lambda b: g.t(b, 1))
            fl = rng.random() < 0.4
            if kind == "gnc":
                mu = self.raw("mu", lambda b: pos(b, lo=1.0, hi=3.0))
                return th.GNCRobustCostFunction(
                    inner, th.GemanMcClureLoss, rad, mu, flatten_dims=fl, name=nm
                )
            return th.RobustCostFunction(
                inner, rng.choice(self.LOSSES), rad, flatten_dims=fl, name=nm
            )
        raise KeyError(kind)

    def _full(self, key, regen):
        p = self.pool.setdefault((key, 0, "full"), [])
        if not p:
            v = th.Variable(regen(self.B), name=self.name(key))
            self.vars[v.name] = (v, regen, None)  # None: always full batch size
            p.append(v)
        return p[0]

    def _full_like(self, v):
        if v.shape[0] == self.B:
            self.vars[v.name] = (v, self.vars[v.name][1], None)
            return v
        w = v.copy(new_name=self.name("af"))
        w.update(self.vars[v.name][1](self.B))
        self.vars[w.name] = (w, self.vars[v.name][1], None)
        return w

    def fresh(self, name, b):
        """A new valid tensor for a variable when the batch size is b."""
        v, regen, kind = self.vars[name]
        if kind is False and self.rng.random() > self.aux_full:
            return regen(1)
        if kind is True and self.rng.random() > self.optim_full:
            return regen(1)
        return regen(b)


def _ad_vec(optim_vars, aux_vars):
    x, y = optim_vars
    a, b = aux_vars
    return x.tensor * y.tensor * a.tensor - b.tensor.sin() + x.tensor**2


def _ad_se2(optim_vars, aux_vars):
    x, y = optim_vars
    p = x.between(y)
    return p.xy().tensor * p.theta() - aux_vars[0].tensor


def _ad_vec2(optim_vars, aux_vars):
    x, y = optim_vars
    a, b = aux_vars
    return x.tensor + y.tensor * b.tensor * 2.0 + a.tensor**2


def _ad_se2b(optim_vars, aux_vars):
    x, y = optim_vars
    return x.xy().tensor - y.xy().tensor * aux_vars[0].tensor


def _ad_branch(optim_vars, aux_vars):
    """Data-dependent control flow: not supported by every autograd mode."""
    x, y = optim_vars
    k = 2.0 if float(x.tensor.detach().abs().max()) >= 0.0 else 3.0
    p, q = x.tensor[:, :2], y.tensor[:, :2]
    return p * q * k + aux_vars[0].tensor


AD_FNS = {"vec": [_ad_vec, _ad_vec2], "se2": [_ad_se2, _ad_se2b]}
