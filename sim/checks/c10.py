import json

from django.core.serializers.json import DjangoJSONEncoder
from django.db.models import QuerySet

from sim.checks.common import Leg, WorldCheck, names
from sim.families import observe
from sim.forest import Reject
from sim.gen import fault
from sim.kernel import quiet
from sim.world import StopRun, Violation, World, _count, _fan, _height


class TripWorld(World):
    """Dumps a tree or a branch and loads it again somewhere."""

    def tag_map(self):
        """{uid: sorted tags}"""
        if not self.fam.rich:
            return {}
        f = self.fam.base._meta.get_field("tags")
        th = f.remote_field.through
        with quiet():
            rows = QuerySet(th, using=self.alias).values_list(f.m2m_field_name() + "_id", f.m2m_reverse_field_name() + "_id")
            bypk = {pk: u for u, pk in self.snap.pk.items()}
            out = {}
            for node, tag in rows:
                out.setdefault(bypk.get(node, node), []).append(tag)
        return {u: sorted(t) for u, t in out.items()}

    def tree_model(self):
        return self.fam.base

    def op_trip(self, step, ci):
        m, fam = self.model, self.fam
        nodes = m.nodes()
        branch = self.pick(step["t"]) if step.get("branch") and nodes else None
        keep = bool(step.get("keep"))
        mgr = self.manager(len(fam.models) - 1)
        bh = self.handle(step, branch, ci) if branch else None
        if bh is not None and fam.mti:
            bh = self.get(branch, 1)
        before = self.snap
        tags = self.tag_map()
        where = f"step {self.step_no} dump_bulk({branch}, keep_ids={keep})"
        o = self.call(lambda: mgr.dump_bulk(parent=bh, keep_ids=keep), ci, step.get("df"))
        if o.kind == "crash" or self.broken_outer() or (self.outer and o.kind == "cancel"):
            raise StopRun("fault in a dump ended the caller's transaction")
        now = observe(fam, self.alias)
        if now.raw != before.raw:
            raise Violation("dump-changed", f"{where} changed the tree", self.step_no)
        if o.kind != "ok":
            if not o.fired:
                raise Violation("dump-failed", f"{where}: {o.exc!r}", self.step_no)
            self.chain = {}
            return None
        self.stats.add("dumps")
        tops = [branch] if branch else m.children[None]
        self.check_dump(where, o.value, tops, keep, tags)
        dump = o.value
        if step.get("json"):
            dump = json.loads(json.dumps(dump, cls=DjangoJSONEncoder))
            self.stats.add("dumps_through_json")
        # where it goes
        dest = step.get("dest", "under")
        if dest == "table":
            self.load_into_empty(step, ci, dump, keep, tags)
        elif dest == "taken" and keep and nodes:
            self.load_taken(step, ci, dump)
        else:
            parent = self.pick(step["u"]) if dest == "under" and nodes else None
            prefix = self.new_uid("c") + "."
            for d in self.flat(dump):
                d.pop(fam.base._meta.pk.attname, None)
                d["data"]["uid"] = prefix + d["data"]["uid"]
            self.load(step, ci, dump, parent, False, {prefix + u: t for u, t in tags.items()})
        return None

    def flat(self, dump):
        for d in dump:
            yield d
            yield from self.flat(d.get("children", []))

    def check_dump(self, where, dump, tops, keep, tags):
        m, fam = self.model, self.fam
        pk = fam.base._meta.pk.attname

        def bad(msg):
            raise Violation("wrong-dump", f"{where}: {msg}", self.step_no)

        def rec(items, want, parent):
            try:
                got = [d["data"]["uid"] for d in items]
            except (KeyError, TypeError) as e:
                bad(f"malformed: {e!r} in {str(items)[:200]}")
            if sorted(got) != sorted(want):
                bad(f"children of {parent} are {want}, dump has {got}")
            if fam.sort:
                keys = [fam.key(m.data[u]) for u in got]
                if keys != sorted(keys):
                    bad(f"children of {parent} out of order in the dump: {got}")
            elif got != want:
                bad(f"children of {parent} are {want}, dump has {got}")
            for d in items:
                u = d["data"]["uid"]
                for k, v in m.data[u].items():
                    if d["data"].get(k) != v:
                        bad(f"{k} of {u} is {v!r}, dump has {d['data'].get(k)!r}")
                if fam.rich and sorted(d["data"].get("tags", [])) != tags.get(u, []):
                    bad(f"tags of {u} are {tags.get(u, [])}, dump has {d['data'].get('tags')}")
                if keep and str(d.get(pk)) != str(self.snap.pk[u]):
                    bad(f"key of {u} is {self.snap.pk[u]!r}, dump has {d.get(pk)!r}")
                if not keep and pk in d:
                    bad(f"key of {u} in a dump without keys")
                rec(d.get("children", []), m.children[u], u)

        rec(dump, tops, None)

    def items(self, dump):
        cols = list(self.fam.rich and ("val1", "val2", "note", "tag") or ("val1", "val2", "note"))
        return [(d["data"]["uid"], {c: d["data"][c] for c in cols}, self.items(d.get("children", []))) for d in dump]

    def load(self, step, ci, dump, parent, keep, tags, rejects=None, retry=True):
        fam = self.fam
        items = self.items(dump)
        mgr = self.manager(len(fam.models) - 1)
        kw = {}
        if fam.impl == "MP" and step.get("bulk"):
            kw["bulk_create"] = True
            if step.get("batch"):
                kw["batch_size"] = step["batch"]
        pks = {d["data"]["uid"]: d.get(fam.base._meta.pk.attname) for d in self.flat(dump)}
        ph = None
        if parent is not None:
            ph = self.get(parent, 1) if fam.mti else self.handle(step, parent, ci)
        label = f"load_bulk({_count(items)} dumped nodes under {parent}, keep_ids={keep}{', bulk_create' if kw else ''})"
        n = _count(items)

        def expect(m):
            if rejects:
                raise Reject(*rejects)
            m.load(items, parent)

        def check(o, before, now):
            new = {now.pk[u] for u in now.raw if u not in before.raw}
            got = list(o.value) if isinstance(o.value, (list, tuple)) else o.value
            if not isinstance(got, list) or len(got) != n or set(got) != new:
                raise Violation("wrong-ids", f"step {self.step_no} {label} returned {got!r}, created {sorted(map(str, new))}", self.step_no)
            if keep:
                for u, k in pks.items():
                    if str(now.pk[u]) != str(k):
                        raise Violation("keys-not-kept", f"step {self.step_no} {label}: {u} has key {now.pk[u]!r}, dumped with {k!r}", self.step_no)
            have = self.tag_map()
            for u in pks:
                if have.get(u, []) != tags.get(u, []):
                    raise Violation("relations", f"step {self.step_no} {label}: tags of {u} are {have.get(u, [])}, dumped {tags.get(u, [])}", self.step_no)
            self.stats.add("loads_of_dumps")
            self.stats.add("loads_with_keys", int(keep))

        def do():
            # (what is passed in may be changed by loading it, as Django's deserializers do)
            return mgr.load_bulk(json.loads(json.dumps(dump, cls=DjangoJSONEncoder)), parent=ph, keep_ids=keep, **kw)

        req = {
            "label": label,
            "do": do,
            "expect": expect,
            "room": (parent, len(items), _height(items), _fan(items)),
            "handles": {},
            "check": check,
        }
        rel, before, in_outer = self.tag_map(), self.snap, self.outer is not None
        o = self.request(step, ci, req)
        if keep:
            self.restart_sequences()
        if o.kind != "ok" and not o.landed:
            if not in_outer and self.tag_map() != rel:
                raise Violation("failed-load-left-relations", f"step {self.step_no} {label}", self.step_no)
            # (an outer transaction may have ended together with the request, and undone the emptying)
            if o.fired and not rejects and retry and self.snap.raw == before.raw:
                self.stats.add("loads_retried_after_fault")
                self.load({k: v for k, v in step.items() if k != "f"}, ci, dump, parent, keep, tags, retry=False)

    def fail(self, oracle, kind, msg):
        if self.tripping and oracle in ("model", "sound", "atomic", "reject", "reject_state", "runaway"):
            raise Violation("load-" + kind, msg, self.step_no)
        super().fail(oracle, kind, msg)

    tripping = False

    def step(self, step):
        self.tripping = step["op"] == "trip"
        super().step(step)

    def load_into_empty(self, step, ci, dump, keep, tags):
        fam = self.fam
        with quiet():
            ms = fam.concrete
            extra = list(reversed(fam.rich)) if fam.rich else list(fam.extra_tables)
            for m in ms:
                extra += [f.remote_field.through for f in m._meta.local_many_to_many]
            for m in [*extra, *ms]:
                qs = QuerySet(m, using=self.alias)
                qs._raw_delete(self.alias)
        self.chain = {}
        self.accept(observe(fam, self.alias))
        self.load(step, ci, dump, None, keep, tags)

    def load_taken(self, step, ci, dump):
        """One of the keys is in use."""
        fam = self.fam
        pk = fam.base._meta.pk.attname
        flat = list(self.flat(dump))
        hit = step["u"] % len(flat)
        if len(flat) == 1 or step.get("whole"):
            self.stats.add("loads_with_used_keys")
            return self.load(step, ci, dump, None, True, {}, rejects=("IntegrityError",))
        base = max([p for p in self.snap.pk.values() if isinstance(p, int)], default=0) + 1000
        for i, d in enumerate(flat):
            if i != hit:
                if not isinstance(d[pk], int):
                    return
                d[pk] = base + i
            d["data"]["uid"] = self.new_uid("k") + d["data"]["uid"]
        self.stats.add("loads_with_used_keys")
        parent = self.pick(step["t"]) if step.get("under") else None
        self.load(step, ci, dump, parent, True, {}, rejects=("IntegrityError",))

    def restart_sequences(self):
        """As after any load of given keys into PostgreSQL (never backwards: sequences ignore rollbacks)."""
        model = self.fam.base._meta.concrete_model
        if self.engine != "pg" or self.conn.needs_rollback or "Auto" not in type(model._meta.pk).__name__:
            return
        t, pk = model._meta.db_table, model._meta.pk.column
        with quiet(), self.conn.cursor() as c:
            c.execute(
                f"SELECT setval(s, GREATEST(nextval(s), (SELECT COALESCE(MAX({pk}), 1) FROM {t}))) "
                f"FROM (SELECT pg_get_serial_sequence('{t}', '{pk}') AS s) q"
            )


class C10(WorldCheck):
    id = "C10"
    title = "dumping and loading a tree round-trips"
    rule = (
        "A run is one seeded history in which trees and branches are dumped and the dump (or its JSON copy) is loaded into the emptied table, under a "
        "node, as new roots or over keys that are in use, both loading paths, with and without kept keys, with faults in dump and load and a second "
        "attempt after a failed load; dump, resulting tree, keys, relations and returned keys are compared with the reference forest."
    )
    oracles = ("load",)
    world = TripWorld
    weights = {"load": 7, "delete": 2, "dep": 4, "undep": 0, "move": 8, "restart": 0.2, "setval": 1}
    gen_opts = {"warm": 5, "steps": (6, 16)}
    legs = (Leg("sqlite", "sqlite", 900, 40000, jobs=4), Leg("pg", "pg", 600, 25000, jobs=4))

    def families(self, leg):
        fams = names(leg.engine)
        return fams + [n for n in fams if n.endswith(("Rich", "Uuid", "Sorted"))]

    def decorate(self, rng, leg, fam, trace):
        n = 0
        for s in trace["steps"]:
            if s["op"] == "dep":
                s["k"] = 3
            trip = s["op"] == "load" and rng.random() < 0.8
            if trip or (s is trace["steps"][-1] and not n):
                n += 1
                s["op"] = "trip"
                s["branch"] = rng.random() < 0.5
                s["keep"] = rng.random() < 0.5
                s["json"] = rng.random() < 0.4
                s["dest"] = rng.choice(("table", "table", "under", "under", "root", "taken"))
                s["t"], s["u"] = rng.randrange(1 << 16), rng.randrange(1 << 16)
                s["bulk"] = rng.random() < 0.5
                s["whole"] = rng.random() < 0.3
                if rng.random() < 0.5:
                    s["batch"] = rng.choice((1, 2, 3))
                s.setdefault("h", rng.choice(("get", "chain", "tree")))
                if rng.random() < 0.35:
                    s["f"] = fault(rng, self.kinds, maxk=30)
                if rng.random() < 0.08:
                    s["df"] = fault(rng, ("err_before", "err_after", "fetch_err", "cancel"), maxk=6)
        if rng.random() < 0.06:
            # a branch with many children
            kids = [[rng.randrange(6), rng.randrange(6), []] for _ in range(rng.randint(30, 70))]
            at = rng.randrange(3)
            trace["steps"].insert(at, {"op": "load", "c": 0, "shape": [[0, 0, kids]], "under": at > 0, "t": rng.randrange(1 << 16), "bulk": False})
        return trace


CHECK = C10()
