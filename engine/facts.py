"""Loads the facts exported by driver/mirx and gives them a convenient shape."""
import json, os, re

class Facts:
    def __init__(self, path):
        j = json.load(open(path))
        self.types = j["types"]
        self.adts = j["adts"]
        self.defs = j["defs"]
        self.bodies = {b["id"]: b for b in j["bodies"]}
        self.impls = {i["id"]: i for i in j["impls"]}
        self.traits = {t["id"]: t for t in j["traits"]}
        self._ty = {}
        # method tables: trait uid -> list of impls
        self.by_trait = {}
        for i in j["impls"]:
            i["assoc"] = {x[0]: x[1] for x in i["items"] if len(x) == 2}
            i["items"] = [x for x in i["items"] if len(x) == 3]
            if "trait" in i:
                self.by_trait.setdefault(i["trait"], []).append(i)
        self.canon = {}
        for u, d in self.defs.items():
            self.canon.setdefault(d["canon"], []).append(u)

    # types as hashable tuples -----------------------------------------------------------------
    def ty(self, i):
        if i in self._ty: return self._ty[i]
        self._ty[i] = ("rec",)
        t = self.types[i]; k = t["k"]
        A = lambda: tuple(self.arg(x) for x in t.get("a", []))
        if k == "adt": r = ("adt", t["d"], A())
        elif k == "ref": r = ("ref", t["m"], self.ty(t["t"]))
        elif k == "ptr": r = ("ptr", t["m"], self.ty(t["t"]))
        elif k == "slice": r = ("slice", self.ty(t["t"]))
        elif k == "array": r = ("array", self.ty(t["t"]), t["n"])
        elif k == "tuple": r = ("tuple", A())
        elif k == "param": r = ("param", t["n"])
        elif k == "closure": r = ("closure", t["d"], A())
        elif k == "fndef": r = ("fndef", t["d"], A())
        elif k == "dyn": r = ("dyn", t.get("d"), A(), tuple((n, self.ty(x)) for n, x in t.get("proj", [])))
        elif k in ("int", "float"): r = (k, t["n"])
        elif k == "alias": r = ("alias", t["s"], A())
        elif k == "other": r = ("other", t["s"])
        else: r = (k,)
        self._ty[i] = r
        return r

    def arg(self, x):
        return self.ty(x) if isinstance(x, int) else ("lt",) if x == "'" else ("const", x)

    def name(self, uid): return self.defs[uid]["name"] if uid in self.defs else uid
    def cn(self, uid): return self.defs[uid]["canon"] if uid in self.defs else uid

def subst(t, env):
    """substitute type parameters"""
    if not isinstance(t, tuple): return t
    if t and t[0] == "param": return env.get(t[1], t)
    return tuple(subst(x, env) if isinstance(x, tuple) else x for x in t)
