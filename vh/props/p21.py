"""P21: typed group tensors (TypedMC graph replay, TypedTrace histories, Lie judge)."""
import contextlib
import math
import warnings
from concurrent.futures import ThreadPoolExecutor

import torch
import torchlie as lie
import torchlie.functional as lieF

from vh.core import call, ints
from vh.lie import CUBE, DIM, DOF, fx, mat, rand_el, to_param
from vh.props import p14
from vh.tlc import Graph, run_tlc, validate_traces

LT = {"SO3": lie.SO3, "SE3": lie.SE3}
FN = {"SO3": lieF.SO3, "SE3": lieF.SE3}
DT = {"f": torch.float32, "d": torch.float64}
D64 = torch.float64


# -------------------------------------------------- operators, judged by Lie.tla
class WrongKind(Exception):
    pass


class Lt:
    """torchlie.LieTensor front end for P14's event generators."""
    name = "torchlie"
    types = ["SO3", "SE3"]

    def __init__(self, rng):
        self.rng = rng

    def shapes(self, b):
        return self.rng.choice([((b,), (b,)), ((1,), (b,)), ((b,), (1,))])

    def obj(self, ty, x):
        ways = [lambda: lie.from_tensor(x, LT[ty]), lambda: lie.as_lietensor(x, LT[ty], dtype=x.dtype),
                lambda: lie.cast(x, ltype=LT[ty], dtype=x.dtype)]
        if not x.requires_grad:
            ways += [lambda: LT[ty](x), lambda: lie.LieTensor(x, LT[ty]), lambda: LT[ty].identity(1, dtype=x.dtype).new_lietensor(x)]
        return self.group(ty, self.rng.choice(ways)())

    def group(self, ty, o):
        if not isinstance(o, lie.LieTensor) or o.ltype is not LT[ty]:
            raise WrongKind(f"{type(o).__name__} {getattr(o, 'ltype', None)}")
        return o

    def plain(self, o):
        if isinstance(o, lie.LieTensor) or not isinstance(o, torch.Tensor):
            raise WrongKind(type(o).__name__)
        return o

    def jac(self, j, res):
        jacs, o = res
        if j is not None:
            j.extend(self.plain(k) for k in jacs)
        return o

    def pick(self, *fs):
        return self.rng.choice(fs)()

    def compose(self, ty, x, y, j=None):
        a, b = self.obj(ty, x), self.obj(ty, y)
        if j is None:
            o = self.pick(lambda: a.compose(b), lambda: lie.compose(a, b), lambda: a * b)
        else:
            o = self.jac(j, self.pick(lambda: a.jcompose(b), lambda: lie.jcompose(a, b)))
        return self.group(ty, o)._t

    def between(self, ty, x, y, j=None):
        a, b = self.obj(ty, x), self.obj(ty, y)
        return self.group(ty, self.pick(lambda: a.inv().compose(b), lambda: a.inv() * b))._t

    def inverse(self, ty, x, j=None):
        a = self.obj(ty, x)
        if j is None:
            o = self.pick(lambda: a.inv(), lambda: lie.inv(a))
        else:
            o = self.jac(j, self.pick(lambda: a.jinv(), lambda: lie.jinv(a)))
        return self.group(ty, o)._t

    def adjoint(self, ty, x):
        a = self.obj(ty, x)
        return self.plain(self.pick(lambda: a.adj(), lambda: lie.adj(a)))

    def exp(self, ty, v, j=None):
        o = LT[ty].exp(v) if j is None else self.jac(j, LT[ty].jexp(v))
        return self.group(ty, o)._t

    def log(self, ty, x, j=None):
        a = self.obj(ty, x)
        if j is None:
            o = self.pick(lambda: a.log(), lambda: lie.log(a), lambda: LT[ty].identity(1, dtype=x.dtype).local(a),
                          lambda: lie.local(LT[ty].identity(1, dtype=x.dtype), a))
        else:
            o = self.jac(j, self.pick(lambda: a.jlog(), lambda: lie.jlog(a)))
        return self.plain(o)

    def act(self, ty, x, p, j=None):
        a = self.obj(ty, x)
        if j is None:
            o = self.pick(lambda: a.transform(p), lambda: lie.transform(a, p), lambda: a @ p)
        else:
            o = self.jac(j, self.pick(lambda: a.jtransform(p), lambda: lie.jtransform(a, p)))
        return self.plain(o)

    def unact(self, ty, x, p, j=None):
        a = self.obj(ty, x)
        if j is None:
            o = self.pick(lambda: a.untransform(p), lambda: lie.untransform(a, p))
        else:
            o = self.jac(j, self.pick(lambda: a.juntransform(p), lambda: lie.juntransform(a, p)))
        return self.plain(o)

    def hat(self, ty, v): return self.plain(LT[ty].hat(v))
    def vee(self, ty, m): return self.plain(LT[ty].vee(m))
    def local(self, ty, x, y, j=None): return self.plain(self.obj(ty, x).local(self.obj(ty, y)))
    def retract(self, ty, x, d): return self.group(ty, self.obj(ty, x).retract(d))._t


def against_functional(rec, rng):
    """Operators without an exact oracle of their own return the functional values."""
    ty = rng.choice(["SO3", "SE3"])
    fe = Lt(rng)
    B = rng.choice([1, 2, 3])
    x = torch.stack([to_param(ty, mat(ty, rand_el(rng, ty))) for _ in range(B)])
    d = torch.tensor([[rng.randint(-12, 12) / 8 for _ in range(DOF[ty])] for _ in range(B)], dtype=D64)
    V = torch.tensor([[[rng.randint(-3, 3) for _ in range(x.shape[-1])] for _ in range(3)] for _ in range(B)], dtype=D64)
    L = torch.tensor([[[rng.randint(-3, 3) for _ in range(2)] for _ in range(3)] for _ in range(B)], dtype=D64)
    m = torch.tensor([[rng.randint(-3, 3) for _ in range(DOF[ty])] for _ in range(B)], dtype=D64)
    a = fe.obj(ty, x)
    cases = [
        ("retract", lambda: fe.group(ty, a.retract(d))._t, lambda: FN[ty].compose(x, FN[ty].exp(d))),
        ("local", lambda: fe.plain(a.local(a.retract(d))), lambda: FN[ty].log(FN[ty].compose(FN[ty].inv(x), FN[ty].compose(x, FN[ty].exp(d))))),
        ("left_act", lambda: fe.plain(rng.choice([a.left_act, lambda t: lie.left_act(a, t)])(L)), lambda: FN[ty].left_act(x, L)),
        ("left_project", lambda: fe.plain(rng.choice([a.left_project, lambda t: lie.left_project(a, t)])(V)), lambda: FN[ty].left_project(x, V)),
        ("lift", lambda: fe.plain(LT[ty].lift(m)), lambda: FN[ty].lift(m)),
        ("project", lambda: fe.plain(LT[ty].project(V)), lambda: FN[ty].project(V)),
    ]
    for name, f, ref in cases:
        tag, o = call(f)
        t2, w = call(ref)
        if t2 != "ok":
            continue
        if tag != "ok":
            rec.add((ty, name, str(o)[:200]), op="outcome", res=tag, exp="ok", what=name + "_outcome")
            continue
        rec.add((ty, name), op="outcome", res=str(tuple(o.shape)), exp=str(tuple(w.shape)), what=name + "_shape")
        if o.shape == w.shape:
            rec.add((ty, name, str(x.tolist())[:300]), op="same", x=fx(o.reshape(-1, o.shape[-1])), y=fx(w.reshape(-1, w.shape[-1])), tol=1, what=name + "_value")
    for name in ("rand", "randn", "identity"):
        dt = rng.choice([torch.float32, D64])
        rg = rng.random() < 0.5
        kw = {} if name == "identity" else {"generator": torch.Generator().manual_seed(7)}
        tag, o = call(getattr(LT[ty], name), B, dtype=dt, requires_grad=rg, **kw)
        kw = {} if name == "identity" else {"generator": torch.Generator().manual_seed(7)}
        w = getattr(FN[ty], name)(B, dtype=dt, requires_grad=rg, **kw)
        ok = tag == "ok" and isinstance(o, lie.LieTensor) and o.ltype is LT[ty] and o.dtype == dt and o.requires_grad == rg and o.is_leaf
        rec.add((ty, name, str(o)[:200]), op="outcome", res="ok" if ok else tag + " kind", exp="ok", what=name + "_kind")
        if ok:
            rec.add((ty, name), op="same", x=fx(o._t.detach().reshape(-1, 3)), y=fx(w.detach().reshape(-1, 3)), tol=1, what=name + "_value")


# ------------------------------------------------------------ object histories
BADOPS = {
    "sin": lambda g: torch.sin(g), "add": lambda g: g + g, "sub": lambda g: g - g, "scale": lambda g: 2 * g,
    "matmul": lambda g: torch.matmul(g, g), "sum": lambda g: g.sum(), "zero": lambda g: g.zero_(), "mul_": lambda g: g.mul_(2.0),
    "index": lambda g: g[0, 1], "jhat": lambda g: g.jhat(g._t), "jadjoint": lambda g: g.jadjoint(g._t), "stack": lambda g: torch.stack([g, g]),
    "copy_": lambda g: g.copy_(g), "neg": lambda g: -g, "setitem": lambda g: g.__setitem__(0, g[0]), "abs": lambda g: g.abs(),
}


class World:
    def __init__(self, n, rng):
        self.h = [None] * n
        self.rng = rng

    def apply(self, e):
        """Runs one event on the real objects; returns the outcome tag."""
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with self.checks(e):
                tag, v = call(self.run, e)
        self.err = v if tag != "ok" else None
        if tag == "ok" and "d" in e:
            self.h[e["d"] - 1] = v
        return tag

    def checks(self, e):
        """Group checks (off by default) are on whenever data outside the group are offered."""
        on = False
        if e["op"] in ("ctor", "from", "as", "new"):
            t = self.h[e["b" if e["op"] == "new" else "a"] - 1]
            t = (t._t if isinstance(t, lie.LieTensor) else t).detach().to(D64)[..., :3]
            eye = torch.eye(3, dtype=D64)
            on = bool((t @ t.transpose(1, 2) - eye).abs().max() > 1e-3 or (torch.linalg.det(t) - 1).abs().max() > 1e-3)
        return lieF.enable_checks() if on or self.rng.random() < 0.2 else contextlib.nullcontext()

    def run(self, e):
        rng, op = self.rng, e["op"]
        a = self.h[e["a"] - 1] if "a" in e else None
        b = self.h[e["b"] - 1] if "b" in e else None
        if op == "raw":
            return torch.tensor(e["rows"], dtype=DT[e["dt"]]).requires_grad_(e["rg"])
        if op == "ctor":
            return rng.choice([LT[e["ty"]], lambda t: lie.LieTensor(t, LT[e["ty"]])])(a)
        if op == "from":
            return rng.choice([lie.from_tensor, lie.LieTensor.from_tensor])(a, LT[e["ty"]])
        if op == "as":
            return rng.choice([lie.as_lietensor, lie.cast])(a, LT.get(e["ty"]), dtype=DT[e["dt"]])
        if op == "new":
            return a.new_lietensor(b)
        if op == "clone":
            return a.clone()
        if op == "slice":
            lo, hi = e["lo"] - 1, e["hi"]
            n = a.shape[0]
            ways = [lambda: a[lo:hi]]
            if hi == n:
                ways.append(lambda: a[lo:])
                ways.append(lambda: a[lo - n:])
            if hi == lo + 1:
                ways += [lambda: a[lo], lambda: a[lo - n]]
            return rng.choice(ways)()
        if op == "cat":
            return torch.cat([a, b])
        if op == "to":
            return a.to(DT[e["dt"]]) if rng.random() < 0.5 else a.to(dtype=DT[e["dt"]])
        if op == "compose":
            if not isinstance(b, lie.LieTensor):
                return a * b
            return rng.choice([lambda: a.compose(b), lambda: lie.compose(a, b), lambda: a.jcompose(b)[1]])()
        if op == "mul":
            return a * b
        if op == "between":
            return a.inv() * b
        if op == "inv":
            # whether an inverse sees its operand's storage is not specified
            return rng.choice([lambda: a.inv(), lambda: lie.inv(a), lambda: a.jinv()[1]])().clone()
        if op == "write":
            t = a._t if isinstance(a, lie.LieTensor) else a
            with torch.no_grad():
                t.copy_(torch.tensor(e["rows"], dtype=t.dtype))
            return None
        if op == "set":
            with torch.no_grad():
                a.set_(b)
            return None
        if op == "step":
            return self.step(a, e)
        if op == "bad":
            return BADOPS[e["f"]](a)
        if op == "eucl":
            with lie.as_euclidean():
                return {"add": lambda: rng.choice([torch.add(a, b), a + b]), "double": lambda: torch.mul(a, 2) + torch.mul(b, 0),
                        "copy": lambda: a.clone() + torch.mul(b, 0)}[e["f"]]()
        raise KeyError(op)

    def step(self, a, e):
        """In-place moves by a gradient whose projection is exactly representable."""
        M = torch.tensor(e["M"], dtype=a.dtype)
        if not e["marked"]:
            with torch.no_grad():
                f = self.rng.choice([lambda: a.add_(M), lambda: a.addcdiv_(M, torch.ones_like(M)), lambda: a.addcmul_(M, torch.ones_like(M))])
                return f()
        R, m = a._t.detach()[0, :, :3].to(D64), M[0, :, :3].to(D64)
        A = R.T @ m
        gain = e["c"] * (math.pi / 4 if float((A - A.T).abs().max()) > 0.5 else 1.0)
        way = self.rng.randrange(4 if a.is_leaf else 3)
        if way == 3:
            a.grad = -M if e["c"] > 0 else M
            torch.optim.SGD([a], lr=abs(gain)).step()
            a.grad = None
            return None
        # gradients read from a group tensor are marked, and so is what is computed from them
        holder = lie.LieTensor(a._t.detach(), a.ltype, requires_grad=True)
        holder.grad = M
        G = holder.grad
        with torch.no_grad():
            if way == 0:
                a.add_(G, alpha=gain)
            elif way == 1:
                a.addcdiv_(G * 3, torch.full_like(M, 3.0), value=gain)
            else:
                a.addcmul_(torch.full_like(M, 0.5), G * 2, value=gain)
        return None

    def observe(self):
        out = []
        ptr = []
        for i, x in enumerate(self.h):
            if x is None:
                out.append({"k": "none"})
                ptr.append(None)
                continue
            isl = isinstance(x, lie.LieTensor)
            t = x._t if isl else x
            p = t.untyped_storage().data_ptr()
            ptr.append(p)
            out.append({
                "k": "lie" if isl else "raw" if type(x) is torch.Tensor else type(x).__name__,
                "ty": str(x.ltype) if isl else "none",
                "dt": {torch.float32: "f", D64: "d"}.get(x.dtype, "?"),
                "rg": bool(x.requires_grad), "leaf": bool(x.is_leaf), "val": ints(t.detach(), tol=1e-4),
                "same": next(j for j in range(i + 1) if self.h[j] is x) + 1,
                "shares": next(j for j in range(i + 1) if ptr[j] == p) + 1,
            })
        return out


def build_start(st, rng):
    """A world in the given abstract state (slots, objects, storages all distinct)."""
    w = World(len(st["h"]), rng)
    for i, o in enumerate(st["h"]):
        if o:
            ob = st["obj"][o - 1]
            t = torch.tensor(st["st"][ob["st"] - 1], dtype=DT[ob["dt"]]).requires_grad_(ob["rg"])
            w.h[i] = t if ob["k"] == "raw" else LT[ob["ty"]](t)
    return w


def replay(ctx, g, obs, limit):
    rng = ctx.rng
    for start, walk in g.walks(rng, max_len=6, limit=limit):
        ctx.traces += 1
        w = build_start(g.state[start]["s"], rng)
        for i, (s, a, t) in enumerate(walk):
            ctx.events += 1
            tag = w.apply(a)
            got = w.observe()
            want = obs[(s, Graph.key(a))]
            if tag != a["r"] or got != want:
                ks = sorted({k for x, y in zip(got, want) for k in set(x) | set(y) if x.get(k) != y.get(k)})
                ctx.violation(f"group tensor {a['op']}: {tag if tag != a['r'] else ks}",
                              {"walk": [x[1] for x in walk[: i + 1]], "outcome": [tag, a["r"], str(w.err)[:200]], "got": got, "want": want},
                              key=f"{a['op']}:{tag if tag != a['r'] else ks}")
                break
        if len(ctx.violations) > 12:
            return


def member(rng, ty):
    q = list(rng.choice(CUBE))
    t = [rng.randint(-3, 3) for _ in range(3)] if ty == "SE3" else []
    return ints(mat(ty, {"q": q, "t": t}))


def history(rec, rng, n_ops):
    n = rng.choice([3, 4, 5])
    w = World(n, rng)
    hist = []
    rec.add("reset", op="reset", n=n)

    def emit(e):
        r = w.apply(e)
        hist.append({k: v for k, v in e.items() if k not in ("rows", "M")})
        e.update(r=r, post=w.observe())
        rec.add((list(hist), str(w.err)[:200]), **e)

    for i in range(n_ops):
        ob = w.observe()
        lies = [i + 1 for i, o in enumerate(ob) if o["k"] == "lie"]
        raws = [i + 1 for i, o in enumerate(ob) if o["k"] == "raw"]
        O = lambda i: ob[i - 1]  # noqa: E731
        alone = lambda i: all(O(j + 1)["k"] == "none" or O(j + 1)["shares"] != O(i)["shares"] or O(j + 1)["same"] == O(i)["same"] for j in range(n))  # noqa: E731
        pairs = [(a, b) for a in lies for b in lies if O(a)["dt"] == O(b)["dt"]]
        fit = [(a, b) for a, b in pairs if len({len(O(a)["val"]), len(O(b)["val"]), 1}) <= 2]
        rpairs = [(a, b) for a in lies for b in raws if O(a)["dt"] == O(b)["dt"]]
        d = rng.randint(1, n)
        ty = rng.choice(["SO3", "SE3"])
        op = rng.choice(["raw", "raw", "ctor", "from", "from", "as", "new", "clone", "slice", "cat", "to", "compose", "mul", "between",
                         "inv", "write", "set", "step", "step", "bad", "eucl"])
        if len(lies) + len(raws) < 2:
            op = "raw"
        if op == "raw":
            k = rng.random()
            rows = [member(rng, ty) for _ in range(rng.choice([1, 2, 3]))]
            if k < 0.1:
                rows[-1] = [[2 * c for c in r] for r in rows[-1]]
            elif k < 0.2:
                rows[0] = [[-c for c in r] for r in rows[0]]
            emit({"op": op, "d": d, "rows": rows, "dt": rng.choice("ffd"), "rg": rng.random() < 0.25})
        elif op in ("ctor", "from") and raws:
            a = rng.choice(raws)
            if rng.random() < 0.8:
                ty = "SE3" if len(O(a)["val"][0][0]) == 4 else "SO3"
            emit({"op": op, "d": d, "a": a, "ty": ty})
        elif op == "as":
            a = rng.choice(raws + lies)
            if O(a)["k"] == "lie":
                ty = O(a)["ty"]
            elif rng.random() < 0.8:
                ty = "SE3" if len(O(a)["val"][0][0]) == 4 else "SO3"
            elif rng.random() < 0.4:
                ty = "none"
            emit({"op": op, "d": d, "a": a, "ty": ty, "dt": rng.choice("fd")})
        elif op == "new" and lies:
            a = rng.choice(lies)
            emit({"op": op, "d": d, "a": a, "b": rng.choice([b for b in lies if O(b)["dt"] == O(a)["dt"]] + raws)})
        elif op in ("clone", "inv") and lies:
            emit({"op": op, "d": d, "a": rng.choice(lies)})
        elif op == "to" and lies:
            emit({"op": op, "d": d, "a": rng.choice(lies), "dt": rng.choice("fd")})
        elif op == "slice" and lies:
            a = rng.choice(lies)
            lo = rng.randint(1, len(O(a)["val"]))
            emit({"op": op, "d": d, "a": a, "lo": lo, "hi": rng.randint(lo, len(O(a)["val"]))})
        elif op == "cat" and pairs:
            a, b = rng.choice(pairs)
            if len(O(a)["val"]) + len(O(b)["val"]) <= 6:
                emit({"op": op, "d": d, "a": a, "b": b})
        elif op in ("compose", "mul", "between") and (fit or rpairs):
            a, b = rng.choice(fit) if fit and (not rpairs or rng.random() < 0.85) else rng.choice(rpairs)
            if max([abs(c) for r in O(a)["val"] + O(b)["val"] for x in r for c in x]) < 60:
                emit({"op": op, "d": d, "a": a, "b": b})
        elif op == "write":
            a = [i for i in raws + lies if not O(i)["rg"]]
            if a:
                a = rng.choice(a)
                ty = "SE3" if len(O(a)["val"][0][0]) == 4 else "SO3"
                emit({"op": op, "a": a, "rows": [member(rng, ty) for _ in O(a)["val"]]})
        elif op == "set":
            # aliases of the replaced storage keep it, which is not specified
            c = [(a, b) for a, b in pairs + rpairs if alone(a) and not O(a)["rg"] and not O(b)["rg"]]
            if c:
                a, b = rng.choice(c)
                emit({"op": op, "a": a, "b": b})
        elif op == "step":
            c = [a for a in lies if alone(a) and not O(a)["rg"]]
            if c:
                a = rng.choice(c)
                t, x = O(a)["ty"], O(a)["val"]
                sgn = rng.choice([1, 1, -1])
                if rng.random() < 0.1:
                    emit({"op": op, "a": a, "marked": False, "M": x, "c": 1})
                    continue
                trans = t == "SE3" and rng.random() < 0.4
                M = []
                for m in x:
                    R = torch.tensor([r[:3] for r in m])
                    S = torch.zeros(3, 3, dtype=R.dtype)
                    for i in range(3):
                        for j in range(i, 3):
                            S[i, j] = S[j, i] = rng.randint(-2, 2)
                    k, turns = rng.randrange(3), rng.choice([-3, -2, -1, 1, 2, 3])
                    if not trans:
                        i, j = [(1, 2), (0, 2), (0, 1)][k]
                        s = -1 if k == 1 else 1
                        S[i, j] -= s * turns
                        S[j, i] += s * turns
                    G = R @ S
                    if t == "SE3":
                        G = torch.cat([G, torch.tensor([[rng.randint(-2, 2) if trans else 0] for _ in range(3)])], 1)
                    M.append(G.tolist())
                emit({"op": op, "a": a, "marked": True, "M": M, "c": sgn})
        elif op == "bad" and lies:
            emit({"op": op, "a": rng.choice(lies), "f": rng.choice(sorted(BADOPS))})
        elif op == "eucl":
            c = [(a, b) for a, b in fit if O(a)["ty"] == O(b)["ty"]]
            if c:
                a, b = rng.choice(c)
                emit({"op": op, "d": d, "a": a, "b": b, "f": rng.choice(["add", "double", "copy"])})


class Rec:
    def __init__(self):
        self.ev, self.meta = [], []

    def add(self, meta, **e):
        self.ev.append(e)
        self.meta.append(meta)


def report(ctx, module, ev, meta, what, seen):
    parts, cur = [], 0
    while cur < len(ev):
        end = min(len(ev), cur + 3000)
        while end < len(ev) and module == "TypedTrace" and ev[end]["op"] not in ("reset", "same", "outcome"):
            end += 1
        parts.append((cur, ev[cur:end]))
        cur = end
    with ThreadPoolExecutor(4) as ex:
        out = list(ex.map(lambda p: validate_traces(module, module + ".cfg", p[1], timeout=800), parts))
    for (i, _), (rej, res) in zip(parts, out):
        ctx.model(res)
        for x in rej:
            k = i + x["line"] - 1
            for c in x["clauses"]:
                seen[c] = seen.get(c, 0) + 1
                if seen[c] <= 2:
                    ctx.violation(f"{what}: {c}", {"event": ev[k], "meta": str(meta[k])[:2000]}, key=c)


def run(ctx):
    rng = ctx.rng
    res = run_tlc("TypedMC", "TypedMC.cfg" if ctx.quick else "TypedMCdeep.cfg", timeout=700)
    ctx.model(res)
    g = Graph(res.prints)
    obs = {(Graph.key(p["s"]), Graph.key(p["a"])): p["obs"] for p in res.prints if "obs" in p}
    replay(ctx, g, obs, None if ctx.quick else 60000)
    seen = {}
    rec = Rec()
    for _ in range(ctx.n(60, 900)):
        against_functional(rec, rng)
    for _ in range(ctx.n(260, 5000)):
        history(rec, rng, rng.choice([8, 16, 30]))
    report(ctx, "TypedTrace", rec.ev, rec.meta, "group tensors", seen)
    r = p14.Rec(ctx)
    for _ in range(ctx.n(25, 350)):
        fe = Lt(rng)
        for ty in fe.types:
            r.guard(p14.algebra, fe, ty, torch.float32 if rng.random() < 0.2 else D64)
            r.guard(p14.gradients, fe, ty)
            if rng.random() < 0.3:
                r.guard(p14.near_pi, fe, ty)
                r.guard(p14.small, fe, ty)
                r.guard(p14.derivatives, fe, ty)
    report(ctx, "Lie", r.ev, r.meta, "group tensor operators", seen)
    ctx.events += len(rec.ev) + len(r.ev)
    ctx.traces += sum(e["op"] == "reset" for e in rec.ev) + len(r.ev)
    for e in rec.ev[:3] + r.ev[:2]:
        ctx.sample(e)
    ctx.extra["clauses_failing"] = seen
    ctx.assumptions += [
        "in-place moves start from tensors that share their storage with nobody else (aliases of a moved tensor are unspecified)",
        "binary operations take operands of one precision and broadcastable batch sizes; moves have exactly representable projections",
    ]
