from sim.checks.common import Leg, WorldCheck, names


# (objects read long ago: more requests on few nodes)
KEPT = {"add_root": 1, "restart": 0.2, "begin": 0.5, "load": 0.3, "move": 14}


class C01(WorldCheck):
    id = "C01"
    title = "any history of operations yields the tree it describes"
    rule = (
        "A run is one seeded history (warm-up additions, then additions, moves, deletions, bulk loads, repairs, saves, "
        "caller transactions and process restarts) on one model family; after every request the rows are decoded "
        "independently of treebeard and compared with the same request on a plain ordered forest."
    )
    oracles = ("model", "runaway", "~sound")
    weights = {"fix": 0.5}
    legs = (
        Leg("sqlite", "sqlite", 1500, 60000, jobs=4),
        Leg("pg", "pg", 1300, 50000, jobs=4),
        Leg("sqlite-kept", "sqlite", 400, 15000, jobs=2, gen={"shelf": True, "warm": 6, "steps": (10, 30), "weights": KEPT}),
        Leg("sqlite-long", "sqlite", 60, 3000, jobs=1, gen={"steps": (80, 160), "warm": 10}),
    )

    def families(self, leg):
        fams = names(leg.engine)
        if leg.engine == "pg":
            fams = fams + [n for n in fams if n.startswith("LT")] * 4
        return fams


CHECK = C01()
