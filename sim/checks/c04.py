from sim.checks.c10 import TripWorld
from sim.checks.common import EVERY_FAULT, Leg, WorldCheck
from sim.gen import fault
from sim.observer import Observer, describe
from sim.world import StopRun, Violation

WATCHED = ("add_root", "add_child", "add_sibling", "move", "delete", "load", "trip", "begin", "commit", "rollback")

OURS = ("seen-early", "half-applied", "not-visible")


class WatchedWorld(TripWorld):
    """Another connection looks at the tables after every statement, fetch, signal and commit of a request."""

    watching = False

    def setup(self):
        self.eye = None
        super().setup()
        self.eye = Observer(self.fam, self.conn, self.engine)
        for c in self.clients:
            c.observer = self.look

    def teardown(self):
        super().teardown()
        if self.eye is not None:
            self.eye.close()

    def look(self, client, conn):
        if self.watching:
            s = self.eye.look()
            self.stats.add("observations")
            if self.seen[-1] != s:
                self.seen.append(s)

    def on_signal(self, name, sender, kw):
        self.look(None, None)

    def step(self, step):
        self.watched = step["op"] in WATCHED
        try:
            super().step(step)
        except Violation as v:
            if v.kind in OURS:
                raise
            raise StopRun(f"other property: {v}") from v

    def call(self, fn, ci=0, fault=None):
        if not self.watched or self.eye is None:
            return super().call(fn, ci, fault)
        pre = self.eye.look()
        inside = self.conn.in_atomic_block
        self.seen = [pre]
        self.watching = True
        try:
            o = super().call(fn, ci, fault)
        finally:
            self.watching = False
        final = self.eye.look()
        seen = self.seen if self.seen[-1] == final else [*self.seen, final]
        what = f"step {self.step_no} {self.trace['steps'][self.step_no]['op']}" if self.step_no < len(self.trace["steps"]) else "at the end"
        if o.fired:
            what += f" [{o.fired}]"
        tabs = self.eye.tables
        still = inside and self.conn.in_atomic_block
        if still and len(seen) > 1:
            raise Violation("seen-early", f"{what}: inside the caller's transaction, others see {describe(seen[0], seen[1], tabs)}", self.step_no)
        if len(seen) > 2 or (len(seen) == 2 and seen != [pre, final]):
            raise Violation("half-applied", f"{what}: between before and after, others saw: {describe(pre, seen[1], tabs)}", self.step_no)
        if o.kind == "ok" and not self.conn.in_atomic_block and self.conn.connection is not None:
            mine = self.eye.look(self.conn)
            if mine != final:
                raise Violation("not-visible", f"{what}: finished, but others do not see it: {describe(mine, final, tabs)}", self.step_no)
        if pre != final:
            self.stats.add("requests_seen_to_take_effect")
        if still:
            self.stats.add("requests_watched_inside_a_transaction")
        return o


class C04(WorldCheck):
    id = "C04"
    title = "others never see a half-applied operation"
    rule = (
        "A run is one seeded history, with and without faults; after every statement, signal and commit of a request a second connection reads all tables "
        "concerned in one snapshot. The sequence of different contents it has seen must be [before] or [before, after]; inside a caller's transaction only "
        "[before], and after a finished request what its own connection sees."
    )
    oracles = ()
    world = WatchedWorld
    weights = {"load": 4, "delete": 6, "move": 12, "begin": 1.5, "setval": 0.3, "restart": 0.5}
    fault_p = 0.15
    gen_opts = {"warm": 4, "steps": (5, 14)}
    legs = (Leg("sqlite", "sqlite", 2000, 90000, jobs=4, files=True), Leg("pg", "pg", 850, 60000, jobs=4))

    def decorate(self, rng, leg, fam, trace):
        for s in trace["steps"]:
            if s["op"] == "load" and rng.random() < 0.5:
                s.update(op="trip", branch=rng.random() < 0.5, keep=rng.random() < 0.5, json=False,
                         dest=rng.choice(("table", "under", "root", "taken")), t=rng.randrange(1 << 16), u=rng.randrange(1 << 16))  # fmt: skip
                s.setdefault("h", "get")
                if rng.random() < 0.2:
                    s["f"] = fault(rng, EVERY_FAULT, maxk=25)
        return trace


CHECK = C04()
