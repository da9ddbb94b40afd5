from sim.checks.common import Leg, WorldCheck
from sim.kernel import COMMIT_FAULTS, STATEMENT_FAULTS
from sim.world import Stats, StopRun, Violation, World

SWEEPS = [k for k in STATEMENT_FAULTS if k not in ("fetch_err", "integrity")] + ["fetch_err", "receiver"]


class AtomicWorld(World):
    """A request that reports success after a fault has to have its whole effect."""

    hit = None

    def after_ok(self, step, ci, req, before, now, model, o, label):
        self.hit = o.fired
        super().after_ok(step, ci, req, before, now, model, o, label)
        self.hit = None

    def fail(self, oracle, kind, msg):
        if self.hit and oracle in ("model", "sound"):
            raise Violation("swallowed", f"reported as done although only a part happened: {msg}", self.step_no)
        super().fail(oracle, kind, msg)


class C03(WorldCheck):
    id = "C03"
    title = "tree operations are all-or-nothing"
    rule = (
        "A run is one seeded history; seeded requests are hit by one fault each, and some requests are swept: repeated with the fault one "
        "statement (fetch, signal) later each time until the request gets through. After every failed request the rows must be exactly those "
        "from before it (or, when only the reply to the commit was lost, those after it), also inside caller transactions and after restarts."
    )
    oracles = ("atomic",)
    world = AtomicWorld
    weights = {"load": 2.5, "delete": 5, "move": 14, "begin": 1.5, "fix": 0, "setval": 0.3}
    fault_p = 0.4
    gen_opts = {"steps": (5, 14)}
    legs = (Leg("sqlite", "sqlite", 2000, 80000, jobs=4), Leg("pg", "pg", 1200, 50000, jobs=4))

    def decorate(self, rng, leg, fam, trace):
        n = rng.choice((0, 0, 1, 2))
        cand = [s for s in trace["steps"][2:] if s["op"] in ("add_root", "add_child", "add_sibling", "move", "delete", "load")]
        for s in rng.sample(cand, min(n, len(cand))):
            s.pop("f", None)
            s["sweep"] = rng.choice(SWEEPS)
        for s in trace["steps"]:
            if s["op"] == "commit" and rng.random() < 0.3:
                s["f"] = {"kind": rng.choice(COMMIT_FAULTS), "k": 1}
        return trace

    def execute(self, trace, leg, stats, keep_log=False):
        try:
            return super().execute(trace, leg, stats, keep_log)
        except Violation as v:
            if v.kind != "swallowed":
                raise
            steps = [{k: x for k, x in s.items() if i != v.step or k not in ("f", "sweep")} for i, s in enumerate(trace["steps"])]
            w = World(dict(trace, steps=steps), leg.engine, ("model", "sound"), stats=Stats())
            try:
                w.run()
            except Violation as again:
                if again.step == v.step:
                    s = StopRun("also wrong without the fault")
                    s.log = v.log
                    raise s from None
            except StopRun:
                pass
            raise


CHECK = C03()
