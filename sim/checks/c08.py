from sim.checks.common import Leg, WorldCheck, names
from sim.mirror import Mirror
from sim.world import World


class MirrorWorld(World):
    def setup(self):
        super().setup()
        self.mirror = Mirror(self)
        self.mirror.load(self)

    def tree_model(self):
        return self.fam.base

    def step(self, step):
        if step["op"] == "load" and step.get("bulk") and self.fam.impl == "MP":
            # Django sends no signals for bulk_create
            super().step(step)
            self.mirror.load(self)
            return
        super().step(step)

    def after_ok(self, step, ci, req, before, now, model, o, label):
        if step["op"] == "load" and step.get("bulk"):
            self.mirror.load(self)
        super().after_ok(step, ci, req, before, now, model, o, label)


class C08(WorldCheck):
    id = "C08"
    title = "signals describe every stored path or interval change"
    rule = (
        "A run is one seeded history during which a simulated external index, updated only by the published signals and by saves of single nodes, "
        "is compared position by position with the rows after every successful request; it is reloaded only after failures and bulk_create."
    )
    oracles = ("mirror",)
    world = MirrorWorld
    weights = {"fix": 2, "resort": 1.5, "move": 16, "delete": 5, "load": 1.5, "restart": 0.2, "setval": 0.5}
    fault_p = 0.05
    legs = (Leg("sqlite", "sqlite", 1300, 60000, jobs=4), Leg("pg", "pg", 900, 40000, jobs=4))

    def families(self, leg):
        fams = names(leg.engine, impls=("MP", "NS", "LT"))
        if leg.engine == "pg":
            fams = fams + [n for n in fams if n.startswith("LT")] * 3
        return fams


CHECK = C08()
