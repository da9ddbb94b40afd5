"""Seeded generation of traces.  Everything random happens here; executing a trace draws nothing."""

from sim.kernel import COMMIT_FAULTS

BASE_WEIGHTS = {
    "add_root": 3,
    "add_child": 8,
    "add_sibling": 8,
    "move": 12,
    "delete": 3,
    "setval": 1,
    "revalue": 0.7,
    "load": 1,
    "fix": 0,
    "resort": 0,
    "begin": 1,
    "commit": 1,
    "rollback": 1,
    "restart": 1,
    "dep": 2,
    "undep": 1,
}


def swarm(rng, weights, drop=0.2):
    """Each run enables its own subset of operations with its own emphasis."""
    w = {}
    for k, v in weights.items():
        if not v:
            continue
        if k not in ("add_child", "add_sibling", "add_root", "dep", "undep") and rng.random() < drop:
            continue
        w[k] = v * rng.choice((0.5, 1, 1, 2, 3))
    return w


def pick_weighted(rng, w):
    total = sum(w.values())
    x = rng.random() * total
    for k, v in w.items():
        x -= v
        if x < 0:
            return k
    return k


def vals(rng, spread):
    return [rng.randrange(spread), rng.randrange(spread)]


def shape(rng, budget, depth=0):
    out = []
    while budget > 0 and len(out) < 4:
        k = rng.randrange(budget)
        kids = shape(rng, min(k, 4), depth + 1) if depth < 3 and k else []
        out.append([rng.randrange(6), rng.randrange(6), kids])
        budget -= 1 + k
    return out


MOVE_REL = ["any", "any", "sibself", "sib", "sib", "child", "desc", "anc", "self", "uncle", "leaf", "deep"]
DELETE_HOW = ["node", "node", "node", "qs", "qs_rev", "qs_note", "children", "descendants", "siblings", "all", "query"]
HANDLES = ["get", "get", "chain", "nav", "tree", "defer"]
SHELF = ["shelf", "shelf", "shelf", "shelf", "chain", "get"]


def fault(rng, kinds, maxk=14):
    kind = rng.choice(kinds)
    if kind in COMMIT_FAULTS:
        return {"kind": kind, "k": 1}
    if kind == "receiver":
        return {"kind": kind, "k": rng.choice((1, 1, 1, 2, 2, 3))}
    return {"kind": kind, "k": rng.choice((1, 2, 3, 4, 5, 6, 7, 8, 9, 10, rng.randrange(1, maxk + 1)))}


class Gen:
    def __init__(self, rng, family, weights=None, steps=(6, 20), fault_p=0.0, kinds=(), outer=True, warm=None, shelf=False, **cfg):
        self.rng = rng
        self.family = family
        w = dict(BASE_WEIGHTS)
        w.update(weights or {})
        if not outer:
            for k in ("begin", "commit", "rollback"):
                w[k] = 0
        if not family.sort:
            w["revalue"] = 0
        if not family.rich and not (family.mti and w.get("dep", 0) > 2):
            w["dep"] = w["undep"] = 0
        self.w = swarm(rng, w)
        self.n = rng.randint(*steps)
        self.fault_p = fault_p
        self.kinds = list(kinds)
        self.cfg = dict(cfg, shelf=True) if shelf else cfg
        self.spread = rng.choice((1, 2, 3, 6, 12))
        self.big = 1 << 16
        self.warm = warm if warm is not None else rng.randint(2, 7)
        self.del_how = rng.sample(DELETE_HOW, rng.randint(2, len(DELETE_HOW)))
        self.rels = rng.sample(MOVE_REL, rng.randint(4, len(MOVE_REL)))
        self.handles = SHELF if shelf else rng.choice((HANDLES, HANDLES, ["get"], ["chain"]))

    def sel(self):
        return self.rng.randrange(self.big)

    def step(self, op):
        rng = self.rng
        s = {"op": op, "c": rng.randrange(2)}
        if op in ("add_root", "add_child", "add_sibling"):
            s["d"] = vals(rng, self.spread)
            s["inst"] = rng.random() < 0.3
            if rng.random() < 0.06:
                s["copy"] = self.sel()
            if self.family.rich:
                s["tag"] = rng.randrange(4)
        if op in ("add_child", "add_sibling"):
            s["t"] = self.sel()
            if rng.random() < 0.4:
                s["rel"] = rng.choice(("leaf", "deep", "last"))
        if op in ("add_sibling", "move", "revalue"):
            s["p"] = self.sel()
        if op == "revalue":
            s["d"], s["uf"] = vals(rng, self.spread), rng.random() < 0.3
        if op in ("move", "revalue"):
            s["n"] = self.sel()
            s["t"] = self.sel()
            s["rel"] = rng.choice(self.rels)
            if rng.random() < 0.2:
                s["nrel"] = rng.choice(("leaf", "deep", "last"))
            s["same"] = rng.random() < 0.7
        if op == "delete":
            s["n"] = self.sel()
            s["how"] = rng.choice(self.del_how)
            if s["how"] == "all" and rng.random() < 0.7:
                s["how"] = "qs"
            if s["how"] == "query":
                s["style"] = rng.randrange(9)
            s["more"] = [self.sel() for _ in range(rng.randrange(5))]
            if rng.random() < 0.4:
                s["nrel"] = rng.choice(("leaf", "deep"))
        if op == "load":
            s["shape"] = shape(rng, rng.randint(1, 8))
            if rng.random() < 0.06:
                # more children than most branches ever get, below another node
                s["shape"].append([rng.randrange(6), rng.randrange(6), [[rng.randrange(6), rng.randrange(6), []] for _ in range(rng.randint(20, 60))]])
            s["under"] = rng.random() < 0.6
            s["t"] = self.sel()
            s["bulk"] = rng.random() < 0.4
            if rng.random() < 0.5:
                s["batch"] = rng.choice((1, 2, 3))
        if op == "resort":
            s["changes"] = [[self.sel(), vals(rng, self.spread)] for _ in range(rng.randint(1, 4))]
            s["under"] = rng.random() < 0.25
            s["t"] = self.sel()
        if op == "fix":
            s["paths"] = rng.random() < 0.7
            s["under"] = rng.random() < 0.3
            s["t"] = self.sel()
        if op in ("dep", "setval", "raw"):
            s["n"] = self.sel()
            s["k"] = rng.choice((0, 0, 1, 1, 2, 3, 3, 4))
            s["tag"] = rng.randrange(3)
            s["uf"] = rng.random() < 0.5
        if op in ("add_child", "add_sibling", "move", "delete", "setval"):
            s["h"] = rng.choice(self.handles)
            if self.handles is SHELF:
                s["c"] = 0
                if op != "delete" and rng.random() < 0.7:
                    s["rel"] = "shelf"
                if "p" in s and rng.random() < 0.6:
                    # (at the end, where it changes least of the rows of the others)
                    s["pos"] = "sorted-sibling" if self.family.sort else rng.choice(("last-sibling", None))
        if op in ("add_root", "add_child", "add_sibling", "move") and not self.family.mti and rng.random() < 0.08:
            s["api"] = 1
        if self.family.mti:
            s["mi"] = rng.randrange(2)
        if self.kinds and op not in ("begin", "rollback", "restart", "dep", "undep", "setval", "fix", "resort") and rng.random() < self.fault_p:
            s["f"] = fault(rng, self.kinds)
        return s

    def trace(self):
        steps = []
        kinds, self.kinds = self.kinds, []
        for _ in range(self.warm):
            steps.append(self.step(self.rng.choice(("add_root", "add_child", "add_child", "add_sibling"))))
        self.kinds = kinds
        while len(steps) < self.n + self.warm:
            steps.append(self.step(pick_weighted(self.rng, self.w)))
        return {"family": self.family.name, "cfg": self.cfg, "steps": steps}
