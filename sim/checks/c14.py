from sim.checks.common import Leg, WorldCheck
from sim.gen import Gen
from sim.runner import StopRun, Violation
from sim.world import Stats, World


class BadGen(Gen):
    def step(self, op):
        s = super().step(op)
        if op == "bad":
            rng = self.rng
            s.update(kind=rng.randrange(8), n=self.sel(), t=self.sel(), s=self.sel(), p=self.sel(), d=[rng.randrange(6), 0])
            s["rel"] = rng.choice(("any", "sib", "child", "desc", "anc", "self", "uncle"))
            s["inst"] = rng.random() < 0.5
            s["same"] = rng.random() < 0.6
            s["h"] = rng.choice(self.handles)
            if rng.random() < 0.2:
                s["nrel"] = rng.choice(("leaf", "deep", "last"))
        return s

    def trace(self):
        """Often the refused request is followed by a valid one on the same objects."""
        tr = super().trace()
        out = []
        for s in tr["steps"]:
            out.append(s)
            if s["op"] == "bad" and self.rng.random() < 0.6:
                nxt = self.step(self.rng.choice(("move", "add_sibling", "add_child")))
                nxt.update(c=s["c"], h="chain")
                if nxt["op"] == "move":
                    nxt.update(n=s["n"], t=s["t"], rel=s["rel"])
                    nxt.pop("nrel", None)
                    if "nrel" in s:
                        nxt["nrel"] = s["nrel"]
                else:
                    nxt["t"] = s["n"]
                    nxt.pop("rel", None)
                    if "nrel" in s:
                        nxt["rel"] = s["nrel"]
                out.append(nxt)
        tr["steps"] = out
        return tr


class BadWorld(World):
    """A valid request that goes wrong after a refused one counts if it goes right without the refused one."""

    LATER = ("model", "sound", "handles")

    def fail(self, oracle, kind, msg):
        if self.judge_later and self.after_bad and oracle in self.LATER:
            raise Violation("after-rejection", f"{kind}: {msg}", self.step_no)
        super().fail(oracle, kind, msg)

    judge_later = True


class C14(WorldCheck):
    id = "C14"
    title = "invalid requests are refused with no effect"
    rule = (
        "A run is one seeded history in which invalid requests of every kind (unknown, forbidden and unsupported positions, "
        "moves below the node itself, saved, doubled and missing new nodes) are mixed with valid ones that reuse the same objects, "
        "alone and inside caller transactions; exception type, rows and objects are compared before and after each refusal."
    )
    oracles = ("reject", "reject_state", "reject_handles")
    weights = {"bad": 16, "move": 8, "load": 0.5, "restart": 0.5, "begin": 2, "commit": 1.5}
    world = BadWorld
    legs = (Leg("sqlite", "sqlite", 900, 40000, jobs=4), Leg("pg", "pg", 700, 30000, jobs=4))

    def execute(self, trace, leg, stats, keep_log=False):
        try:
            return super().execute(trace, leg, stats, keep_log)
        except Violation as v:
            if v.kind != "after-rejection":
                raise
            clean = dict(trace, steps=[s for s in trace["steps"] if s["op"] != "bad"])
            w = World(clean, leg.engine, ("model", "sound", "handles"), stats=Stats())
            try:
                w.run()
            except (Violation, StopRun):
                s = StopRun("model also wrong without the refused requests")
                s.log = v.log
                raise s from None
            raise

    def generator(self, rng, leg, fam, kw):
        return BadGen(rng, fam, **kw)


CHECK = C14()
