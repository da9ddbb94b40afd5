from sim.checks.common import Leg, WorldCheck, names
from sim.gen import Gen
from sim.world import TREE_FIELDS, Stats, StopRun, Violation, World


class ChainGen(Gen):
    def step(self, op):
        s = super().step(op)
        rng = self.rng
        if op in ("add_child", "add_sibling", "move", "delete", "setval"):
            s["c"] = 0
            s["h"] = rng.choice(("chain", "chain", "chain", "get", "nav", "defer"))
            if op in ("add_child", "move") and rng.random() < 0.2:
                s["h"], s["e"] = "early", rng.randrange(1 << 8)
            if op == "move":
                if rng.random() < 0.5:
                    s["nrel"] = "kept"
                if rng.random() < 0.5:
                    s["rel"] = "kept"
            elif op != "delete" and rng.random() < 0.6:
                s["rel"] = "kept"
        return s


class ChainWorld(World):
    """A request on reused objects that goes wrong counts if it goes right on fresh ones."""

    LATER = ("model", "sound", "reject")
    # (what additions and moves read from the database anyway, whatever the object says)
    SOFT = {("MP", "add_child"): "numchild", ("NS", "add_child"): "rgt", ("MP", "move"): "numchild"}

    def setup(self):
        self.versions = {}
        super().setup()

    def accept_quiet(self, now):
        super().accept_quiet(now)
        for u, r in now.raw.items():
            seen = self.versions.setdefault(u, [])
            if not seen or seen[-1] != r:
                seen.append(r)

    def accept(self, now):
        super().accept(now)
        self.versions = {}

    def handle(self, step, uid, ci):
        h = super().handle(step, uid, ci)
        soft = self.SOFT.get((self.fam.impl, step["op"]))
        if step.get("h") != "early" or soft is None or step["op"] == "move" and uid != self.moved:
            return h
        # an object read earlier: the node gained or lost children since, its place is the same
        row = self.snap.raw[uid]
        hard = [f for f in TREE_FIELDS[self.fam.impl] if f != soft]
        old = sorted({r[soft] for r in self.versions.get(uid, ()) if all(r[f] == row[f] for f in hard)} - {row[soft]})
        if old:
            setattr(h, soft, old[step["e"] % len(old)])
            self.stats.add("early_objects_used")
            self.reused += 1
            self.early = uid
        return h

    def op_move(self, step, ci):
        self.moved = self.pick(step.get("n", 0), rel=step.get("nrel"))
        self.early = None
        req = super().op_move(step, ci)
        if req and self.early and self.early in req["handles"] and len(req["handles"]) == 1:
            return None
        if req and self.early:
            req["early"] = self.early
        return req

    def check_handles(self, req, now, label):
        u = req.get("early")
        if u and self.before_raw[u]["path"] == now.raw[u]["path"]:
            # nothing to do, so nothing had to be read
            return
        super().check_handles(req, now, label)

    def after_ok(self, step, ci, req, before, now, model, o, label):
        self.before_raw = before.raw
        super().after_ok(step, ci, req, before, now, model, o, label)
        u = req.get("early")
        if u and before.raw[u]["path"] == now.raw[u]["path"]:
            self.chain = {}

    def fail(self, oracle, kind, msg):
        if self.reused and oracle in self.LATER:
            raise Violation("chained", f"with the objects of the previous request: {kind}: {msg}", self.step_no)
        super().fail(oracle, kind, msg)


class C07(WorldCheck):
    id = "C07"
    title = "node objects used in an operation match the database"
    rule = (
        "A run is one seeded history in which requests are mostly chained on the objects returned by and passed to the previous one; "
        "after every successful addition or move the created or moved object and the target object are compared, attribute by attribute "
        "and read by read, with the stored rows, and the next request on them must have the effect it describes."
    )
    oracles = ("handles",)
    world = ChainWorld
    weights = {"move": 16, "delete": 2, "load": 0.5, "restart": 0.3, "setval": 0.3}
    legs = (Leg("sqlite", "sqlite", 480, 40000, jobs=4), Leg("pg", "pg", 340, 30000, jobs=4))

    def families(self, leg):
        fams = names(leg.engine)
        if leg.engine == "pg":
            fams = fams + [n for n in fams if n.startswith("LT")] * 2
        return fams

    def generator(self, rng, leg, fam, kw):
        return ChainGen(rng, fam, **kw)

    def execute(self, trace, leg, stats, keep_log=False):
        try:
            return super().execute(trace, leg, stats, keep_log)
        except Violation as v:
            if v.kind != "chained":
                raise
            fresh = dict(trace, steps=[{k: x for k, x in s.items() if k != "h"} for s in trace["steps"]])
            w = World(fresh, leg.engine, ("model", "sound", "reject"), stats=Stats())
            try:
                w.run()
            except (Violation, StopRun):
                s = StopRun("also wrong on fresh objects")
                s.log = v.log
                raise s from None
            raise


CHECK = C07()
