from django.db import connections

from sim import boot, kernel
from sim.checks.c10 import TripWorld
from sim.checks.c16 import DEPTHS, C16, ReadWorld
from sim.checks.common import EVERY_FAULT, Leg, WorldCheck, names
from sim.families import raw_rows
from sim.gen import fault
from sim.world import StopRun, Violation, World

CONTROL = ("BEGIN", "SAVEPOINT", "RELEASE", "ROLLBACK", "COMMIT")


class RoutedWorld(ReadWorld, TripWorld):
    """The model is routed to the database "other"; "default" holds another tree of the same model."""

    def setup(self):
        self.decoy()
        boot.ROUTE["alias"] = "other"
        self.stray = None
        super().setup()
        for c in self.clients:
            c.on_statement = self.on_statement

    def decoy(self):
        boot.ROUTE["alias"] = None
        w = World({"family": self.fam.name, "cfg": {}, "steps": self.trace["decoy"]}, self.engine, (), alias="default")
        try:
            w.run()
        except StopRun:
            pass
        self.other_tables = [m for m in {m._meta.concrete_model for m in (*self.fam.models, *self.fam.extra_tables)}]
        self.default_rows = self.rows_of_default()
        self.stats.add("nodes_in_the_other_database", len(self.default_rows[0]))

    def rows_of_default(self):
        from django.db.models import QuerySet

        with kernel.quiet():
            out = [raw_rows(self.fam, "default")]
            for m in sorted(self.other_tables, key=lambda m: m._meta.db_table):
                out.append(list(QuerySet(m, using="default").order_by("pk").values()))
                for f in m._meta.local_many_to_many:
                    out.append(list(QuerySet(f.remote_field.through, using="default").order_by("pk").values()))
            return out

    def manager(self, mi=0):
        return self.fam.models[mi % len(self.fam.models)].objects

    def on_statement(self, conn, verb, table):
        if conn.alias != "other" and verb not in CONTROL and self.stray is None:
            self.stray = f"{verb} {table} on {conn.alias}"

    def on_signal(self, name, sender, kw):
        if kw.get("using") != "other" and self.stray is None:
            self.stray = f"signal {name} says it is about database {kw.get('using')}"

    def step(self, step):
        if step["op"] == "trip":
            self.old = {}  # (its nodes may come back as others)
        try:
            super().step(step)
        finally:
            conn = connections["default"]
            dead = self.engine == "pg" and conn.connection is not None and conn.connection.closed
            if conn.in_atomic_block or conn.needs_rollback or dead:
                with kernel.quiet():
                    conn.sim_after_crash()
        if self.stray:
            raise Violation("wrong-database", f"step {self.step_no} {step['op']}: {self.stray}", self.step_no)
        self.compare_default(step)

    def compare_default(self, step):
        rows = self.rows_of_default()
        if rows != self.default_rows:
            d = [(a, b) for x, y in zip(self.default_rows, rows) for a, b in zip(x, y) if a != b][:2]
            raise Violation("other-database-changed", f"step {self.step_no} {step['op']}: the tree in the default database changed: {d}", self.step_no)

    def teardown(self):
        super().teardown()
        boot.ROUTE["alias"] = None

    def fail(self, oracle, kind, msg):
        raise Violation(f"routed-{kind}", msg, self.step_no)


class C18(WorldCheck):
    id = "C18"
    title = "operations act on, and are atomic in, only their database"
    rule = (
        "A run is one seeded history, with faults, on a tree routed to a second database while a different tree of the same model (same keys and positions "
        "in use) is stored in the default one; after every request the routed tree is compared with the reference forest or the state before, the default "
        "tree with its rows at the start, and no statement or signal may concern the default database."
    )
    oracles = ("model", "sound", "atomic", "reject", "reject_state", "load", "runaway", "find_problems")
    world = RoutedWorld
    weights = {"load": 4, "delete": 5, "move": 12, "fix": 2.5, "resort": 1, "dep": 3, "setval": 1}
    fault_p = 0.22
    gen_opts = {"warm": 4, "steps": (6, 16)}
    legs = (Leg("sqlite", "sqlite", 500, 40000, jobs=4), Leg("pg", "pg", 280, 25000, jobs=4))

    def need_other(self, leg):
        return True

    def alias(self, leg):
        return "other"

    def families(self, leg):
        return [n for n in names(leg.engine) if n.startswith(("MP", "NS", "AL", "LT")) and n not in ("MPShallow",)]

    def decorate(self, rng, leg, fam, trace):
        decoy = self.generator(rng, leg, fam, {"warm": 3, "steps": (2, 8), "outer": False, "weights": {"delete": 1, "load": 2, "restart": 0, "dep": 3}})
        trace["decoy"] = decoy.trace()["steps"]
        out = []
        for s in trace["steps"]:
            if s["op"] == "load" and rng.random() < 0.5:
                s.update(op="trip", branch=rng.random() < 0.5, keep=rng.random() < 0.5, json=False,
                         dest=rng.choice(("table", "under", "root", "taken")), t=rng.randrange(1 << 16), u=rng.randrange(1 << 16))  # fmt: skip
                s.setdefault("h", "get")
                if rng.random() < 0.25:
                    s["f"] = fault(rng, EVERY_FAULT, maxk=25)
            if s["op"] == "fix" and rng.random() < 0.6:
                # (depths and counts are right before, so that renumbering is all there is to do)
                s.update(paths=True, f=fault(rng, EVERY_FAULT, maxk=30))
            out.append(s)
            if rng.random() < 0.06:
                out.append({"op": "reads", "c": 0, "sel": [rng.randrange(1 << 16) for _ in range(2)],
                            "hows": [rng.choice(C16.HOWS) for _ in range(3)], "depths": rng.sample(DEPTHS, 1)})  # fmt: skip
        trace["steps"] = out
        return trace

    def shrink_keys(self, trace):
        return ("steps", "decoy")


CHECK = C18()
