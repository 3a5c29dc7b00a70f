"""Several real objectives related by copy(), for Copy.tla."""
import theseus as th

from vh import store
from vh.core import call


class Multi:
    def __init__(self, cat, val, reg, shipped, vec=()):
        self.cat = cat
        self.w = store.World(cat, val, reg, shipped)
        self.objs = [self.w.obj]

    # a World view of objective k: variables looked up by name in that objective
    def view(self, k):
        o = self.objs[k - 1]
        w = store.World.__new__(store.World)
        w.cat, w.obj, w.vz, w.cfs, w.weights = self.cat, o, None, None, None
        by = {**o.aux_vars, **o.optim_vars}
        w.vars = [by.get(s["name"]) for s in self.cat["vars"]]
        return w

    def vals(self):
        out = []
        for k in range(1, len(self.objs) + 1):
            w = self.view(k)
            out.append([
                [] if v is None else store.from_tensor(s, v.tensor)
                for s, v in zip(self.cat["vars"], w.vars)
            ])
        return out

    @staticmethod
    def objects(o):
        vs = []
        for c in o.cost_functions.values():
            for fn in (c, c.weight):
                vs += list(fn.optim_vars) + list(fn.aux_vars)
        return vs, list(o.cost_functions.values()), [c.weight for c in o.cost_functions.values()]

    def struct(self, k):
        o = self.objs[k - 1]
        cfs = list(o.cost_functions.values())
        st = []
        for c in cfs:
            st.append({
                "name": c.name,
                "o": [v.name for v in c.optim_vars],
                "a": [v.name for v in c.aux_vars],
                "w": [v.name for v in c.weight.aux_vars],
                "ws": 1 + next(i for i, x in enumerate(cfs) if x.weight is c.weight),
            })
        vs, _, ws = self.objects(o)
        allv = {**o.optim_vars, **o.aux_vars}
        uniq = all(allv.get(v.name) is v for v in vs)
        mine = {id(x) for g in self.objects(o) for x in g}
        disj = all(
            id(x) not in mine
            for j, p in enumerate(self.objs) if p is not o
            for g in self.objects(p) for x in g
        )
        return st, int(uniq), int(disj)

    def copy(self, k, deep=False):
        import copy as _copy

        tag, new = call(_copy.deepcopy, self.objs[k - 1]) if deep else call(self.objs[k - 1].copy)
        e = {"op": "copy", "k": k, "res": tag}
        if tag == "ok":
            self.objs.append(new)
            e["res"] = call(new.update, {})[0]
            e["struct"], e["uniq"], e["disj"] = self.struct(len(self.objs))
        e["vals"] = self.vals()
        return e

    def vectorize(self, k):
        th.Vectorize(self.objs[k - 1])
