from sim.checks.common import Leg, WorldCheck


# (objects read long ago: more requests on few nodes)
KEPT = {"add_root": 1, "restart": 0.2, "begin": 0.5, "load": 0.3, "move": 14}


class C02(WorldCheck):
    id = "C02"
    title = "stored bookkeeping is exact after every request"
    rule = (
        "A run is one seeded history of requests on one model family in which database errors, lost replies, killed transactions, "
        "failing commits, interruptions, failing receivers and process deaths are injected at seeded points; after every request, "
        "successful or not, the stored columns are checked by an independent decoder and by find_problems()."
    )
    oracles = ("sound", "find_problems", "~model")
    weights = {"fix": 0.5, "bad": 0}
    fault_p = 0.35
    legs = (
        Leg("sqlite", "sqlite", 700, 50000, jobs=4),
        Leg("pg", "pg", 600, 40000, jobs=4),
        Leg("sqlite-kept", "sqlite", 240, 10000, jobs=2, gen={"shelf": True, "warm": 6, "steps": (10, 30), "weights": KEPT}),
        Leg("sqlite-long", "sqlite", 16, 2000, jobs=1, gen={"steps": (60, 140), "warm": 8}),
    )


CHECK = C02()
