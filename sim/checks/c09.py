from django.apps import apps
from django.db.models import QuerySet

from sim.checks.common import Leg, WorldCheck, names
from sim.kernel import quiet
from sim.world import Violation, World


class DeleteWorld(World):
    """Looks at every table that a deletion may touch."""

    def tables(self):
        fam = self.fam
        ms = fam.concrete
        out = list(ms)
        out += [m for m in fam.extra_tables]
        for m in ms:
            out += [f.remote_field.through for f in m._meta.local_many_to_many]
        return out

    def all_rows(self):
        with quiet():
            return {
                m._meta.db_table: {r["pk"]: r for r in QuerySet(m, using=self.alias).values("pk", *[f.attname for f in m._meta.local_concrete_fields])}
                for m in self.tables()
            }

    def step(self, step):
        self.deleting = None
        super().step(step)
        self.deleting = None

    def delete_oracle(self, req):
        self.deleting = req
        req["rows"] = self.all_rows()
        req["check"] = lambda o, before, now: self.check_deleted(req, o, before)

    def fail(self, oracle, kind, msg):
        """What a deletion does wrong to the tree itself belongs here as well."""
        if self.deleting is not None and oracle in ("model", "sound", "reject", "reject_state", "atomic"):
            raise Violation("delete-" + kind, msg, self.step_no)
        super().fail(oracle, kind, msg)

    def judge(self, step, ci, req, before, model, rejects, o, label, in_outer):
        super().judge(step, ci, req, before, model, rejects, o, label, in_outer)
        if self.deleting is req and o.kind == "error" and not in_outer and not o.landed:
            rows = self.all_rows()
            if rows != req["rows"]:
                self.fail("delete", "failed-but-changed", f"step {self.step_no} {label} raised {o.exc!r}: " + self.diff(req["rows"], rows))

    def diff(self, want, got):
        out = []
        for t in want:
            for pk in sorted(set(want[t]) | set(got[t]), key=str):
                if want[t].get(pk) != got[t].get(pk):
                    out.append(f"{t} {pk}: should be {want[t].get(pk)}, is {got[t].get(pk)}")
        return "; ".join(out[:3])

    def check_deleted(self, req, o, before):
        fam = self.fam
        gone = {before.pk[u] for u in req["gone"]}
        want = {t: dict(rows) for t, rows in req["rows"].items()}
        base = fam.base._meta.concrete_model
        tree_tables = {m._meta.concrete_model._meta.db_table for m in fam.models}
        for t in tree_tables:
            want[t] = {pk: r for pk, r in want[t].items() if pk not in gone}
        if fam.rich:
            cascade, null, protect, sub = (m._meta.db_table for m in fam.rich)
            dead = {pk for pk, r in want[cascade].items() if r["node_id"] in gone}
            want[cascade] = {pk: r for pk, r in want[cascade].items() if pk not in dead}
            want[sub] = {pk: r for pk, r in want[sub].items() if r["dep_id"] not in dead}
            want[null] = {pk: dict(r, node_id=None) if r["node_id"] in gone else r for pk, r in want[null].items()}
            for f in base._meta.local_many_to_many:
                th = f.remote_field.through
                col = f.m2m_field_name() + "_id"
                t = th._meta.db_table
                want[t] = {pk: r for pk, r in want[t].items() if r[col] not in gone}
        if fam.mti and fam.extra_tables:
            t = fam.extra_tables[0]._meta.db_table
            want[t] = {pk: r for pk, r in want[t].items() if r["item_id"] not in gone}
        got = self.all_rows()
        label = req["label"]
        skip = base._meta.db_table  # positions of the remaining nodes change; the tree itself is judged by the model
        for t in want:
            if t == skip:
                if set(want[t]) != set(got[t]):
                    self.fail("delete", "wrong-nodes", f"step {self.step_no} {label}: {sorted(set(want[t]) ^ set(got[t]), key=str)}")
            elif want[t] != got[t]:
                self.fail("delete", "dependants", f"step {self.step_no} {label}: " + self.diff({t: want[t]}, {t: got[t]}))
        # return value
        lost = {t: len(req["rows"][t]) - len(got[t]) for t in got}
        try:
            count, per = o.value
        except (TypeError, ValueError):
            self.fail("delete", "wrong-count", f"step {self.step_no} {label} returned {o.value!r}")
        bytable = {}
        for lbl, n in per.items():
            t = apps.get_model(lbl)._meta.db_table
            bytable[t] = bytable.get(t, 0) + n
        bytable = {t: n for t, n in bytable.items() if n}
        if count != sum(lost.values()) or bytable != {t: n for t, n in lost.items() if n}:
            self.fail("delete", "wrong-count", f"step {self.step_no} {label} returned {o.value!r}, rows lost {lost}")
        self.stats.add("nodes_deleted", len(gone))
        self.stats.add("dependants_deleted", sum(n for t, n in lost.items() if t not in tree_tables))


class C09(WorldCheck):
    id = "C09"
    title = "deleting removes exactly the subtrees and their dependants"
    rule = (
        "A run is one seeded history that grows trees with dependants (cascading, nulling, protecting, second-level, many-to-many, child-model rows) "
        "and deletes nodes and overlapping, unordered or filtered sets of nodes in every documented way, with a few faults; after each deletion every row "
        "of every table involved and the returned counts are compared with the expected ones."
    )
    oracles = ("delete",)
    world = DeleteWorld
    weights = {"delete": 16, "dep": 10, "undep": 1.5, "move": 5, "load": 3, "restart": 0.2, "setval": 1}
    fault_p = 0.06
    gen_opts = {"warm": 8, "steps": (8, 26)}
    legs = (Leg("sqlite", "sqlite", 1000, 50000, jobs=4), Leg("pg", "pg", 700, 30000, jobs=4))

    def families(self, leg):
        fams = names(leg.engine)
        return fams + [n for n in fams if n.endswith(("Rich", "Mti"))] * 4


CHECK = C09()
