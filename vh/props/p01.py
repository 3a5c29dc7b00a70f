"""P01: the objective's registry mirrors the registered cost functions."""
import warnings

import torch
import theseus as th

from vh.core import call
from vh.tlc import Graph, run_tlc, validate_traces
from vh.toys import ToyCost, ToyWeight

WTOK = 1000


class World:
    """Real objects for one catalog."""

    def __init__(self, cat):
        self.cat = cat
        self.vars = [
            th.Vector(
                tensor=torch.zeros(1, 1, dtype=torch.float64 if v["ok"] else torch.float32),
                name=v["name"],
            )
            for v in cat["vars"]
        ]
        self.ws = [
            ToyWeight([self.vars[i - 1] for i in w["aux"]], name=f"w{j}")
            for j, w in enumerate(cat["ws"])
        ]
        self.cfs = []
        for c in cat["cfs"]:
            d = c["dim"]
            self.cfs.append(
                ToyCost(
                    [self.vars[i - 1] for i in c["optim"]],
                    [self.vars[i - 1] for i in c["aux"]],
                    self.ws[c["w"] - 1],
                    [[[1]] * d] * len(c["optim"]),
                    [[[1]] * d] * len(c["aux"]),
                    [0] * d,
                    name=c["name"],
                )
            )
        self.obj = th.Objective(dtype=torch.float64)
        self.tok = {id(f): i + 1 for i, f in enumerate(self.cfs)}
        self.tok.update({id(w): WTOK + i + 1 for i, w in enumerate(self.ws)})
        self.vid = {id(v): i + 1 for i, v in enumerate(self.vars)}

    def toks(self, lst):
        return [self.tok.get(id(f), -1) for f in lst]

    def add(self, f):
        n0 = len(list(self.obj.cost_functions))
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            tag, _ = call(self.obj.add, self.cfs[f - 1])
        if tag == "ok" and w:
            tag = "dup"
        return tag

    def erase(self, name):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            tag, _ = call(self.obj.erase, name)
        if tag == "ok" and w:
            tag = "absent"
        return tag

    def obs(self):
        o = self.obj
        names = sorted({v["name"] for v in self.cat["vars"]})

        def conn(by_name, objs):
            out = []
            for n, v in objs.items():
                t1, a = call(by_name, n)
                t2, b = call(by_name, v)
                if t1 != "ok" or t2 != "ok":
                    out.append([-2])
                    continue
                out.append(self.toks(a) if self.toks(a) == self.toks(b) else [-3])
            return out

        ov = [self.vid.get(id(v), -1) for v in o.optim_vars.values()]
        av = [self.vid.get(id(v), -1) for v in o.aux_vars.values()]
        cfs = self.toks(o.cost_functions.values())
        ok = self.toks(iter(o)) == cfs
        ok &= all(v.name == n for n, v in o.optim_vars.items())
        ok &= all(v.name == n for n, v in o.aux_vars.items())
        ok &= all(c.name == n for n, c in o.cost_functions.items())
        # every query function must agree with the containers
        for n in names + ["nope"]:
            for has, get, dic in (
                (o.has_optim_var, o.get_optim_var, o.optim_vars),
                (o.has_aux_var, o.get_aux_var, o.aux_vars),
            ):
                ok &= has(n) == (n in dic) and get(n) is dic.get(n)
            for q, dic in (
                (o.get_functions_connected_to_optim_var, o.optim_vars),
                (o.get_functions_connected_to_aux_var, o.aux_vars),
            ):
                if n not in dic:
                    ok &= call(q, n)[0] == "ValueError"
        for v in self.vars:
            if not any(v is x for x in o.optim_vars.values()):
                ok &= call(o.get_functions_connected_to_optim_var, v)[0] == "ValueError"
            if not any(v is x for x in o.aux_vars.values()):
                ok &= call(o.get_functions_connected_to_aux_var, v)[0] == "ValueError"
        for c in self.cat["cfs"]:
            n = c["name"]
            ok &= o.has_cost_function(n) == (n in o.cost_functions)
            ok &= o.get_cost_function(n) is o.cost_functions.get(n)
        if not ok:
            cfs = [-9]
        s = o.size()
        if (s[0], s[1]) != (o.size_cost_functions(), o.size_variables()):
            s = (-1, -1)
        return {
            "cfs": cfs,
            "ov": ov,
            "av": av,
            "fo": conn(o.get_functions_connected_to_optim_var, o.optim_vars),
            "fa": conn(o.get_functions_connected_to_aux_var, o.aux_vars),
            "dim": o.dim(),
            "size": [s[0], s[1], o.size_aux_vars()],
        }


def gen_catalog(rng):
    nv = rng.randint(3, 8)
    vs = [{"name": f"v{i}", "ok": True} for i in range(nv)]
    for _ in range(rng.randint(0, 2)):  # namesakes
        vs.append({"name": f"v{rng.randrange(nv)}", "ok": True})
    if rng.random() < 0.4:
        vs.append({"name": "bad", "ok": False})
    nw = rng.randint(1, 4)
    split = rng.randint(1, nv - 1)

    def pick(lo, hi, kmin, kmax):
        return [rng.randint(lo, hi) for _ in range(rng.randint(kmin, kmax))]

    def anyvar(aux):
        r = rng.random()
        if r < 0.08:
            return rng.randint(1, len(vs))
        return rng.randint(split + 1, nv) if aux else rng.randint(1, split)

    ws = [{"aux": [anyvar(True) for _ in range(rng.choice([0, 1, 1, 2]))]} for _ in range(nw)]
    cfs = []
    for i in range(rng.randint(3, 9)):
        nm = f"f{i}" if rng.random() < 0.85 or not cfs else rng.choice(cfs)["name"]
        cfs.append(
            {
                "name": nm,
                "optim": [anyvar(False) for _ in range(rng.randint(1, 3))],
                "aux": [anyvar(True) for _ in range(rng.randint(0, 3))],
                "w": rng.randint(1, nw),
                "dim": rng.randint(1, 4),
            }
        )
    return {"vars": vs, "ws": ws, "cfs": cfs}


def run(ctx):
    # 1. design: exhaustive exploration; 2. every transition replayed on the code
    r = run_tlc("RegistryMC", "RegistryMC.cfg")
    ctx.model(r)
    cat = [p["cat"] for p in r.prints if "cat" in p][0]
    g = Graph(r.prints)
    for start, walk in g.walks(ctx.rng, max_len=ctx.n(60, 200)):
        w = World(cat)
        ctx.traces += 1
        for i, (s, a, t) in enumerate(walk):
            res = w.add(a["f"]) if a["op"] == "add" else w.erase(a["name"])
            obs = w.obs()
            ctx.events += 1
            if res != a["res"] or obs != g.state[t]:
                ctx.violation(
                    f"replayed transition {a} gave {res}",
                    {"walk": [x[1] for x in walk[: i + 1]], "got": obs, "want": g.state[t],
                     "cat": cat},
                )
                break
    ctx.sample({"walk": [x[1] for x in walk[:6]]})
    ctx.extra["graph_edges"] = g.n_edges

    # 3. code -> spec: random catalogs and histories, checked by TLC
    ev = []
    for h in range(ctx.n(150, 1500)):
        cat = gen_catalog(ctx.rng)
        w = World(cat)
        ev.append({"op": "reset", "cat": cat})
        ctx.traces += 1
        names = [c["name"] for c in cat["cfs"]]
        for _ in range(ctx.rng.randint(4, 25)):
            if ctx.rng.random() < 0.6:
                f = ctx.rng.randint(1, len(cat["cfs"]))
                ev.append({"op": "add", "f": f, "res": w.add(f), "obs": w.obs()})
            else:
                n = ctx.rng.choice(names + (["nope"] if ctx.rng.random() < 0.2 else []))
                ev.append({"op": "erase", "name": n, "res": w.erase(n), "obs": w.obs()})
            ctx.events += 1
    ctx.sample({"history": ev[:5]})
    rej, r = validate_traces("RegistryTrace", "RegistryTrace.cfg", ev)
    ctx.model(r)
    for x in rej:
        ln = x["line"] - 1
        st = max(i for i in range(ln + 1) if ev[i]["op"] == "reset")
        ctx.violation(
            f"history rejected: clauses {x['clauses']}",
            {"history": ev[st : ln + 1], "want": x["want"], "res": x["res"]},
        )
