from django.db.models import QuerySet

from sim.checks.common import Leg, WorldCheck, names
from sim.families import observe
from sim.forest import Forest, Reject
from sim.kernel import quiet
from sim.world import StopRun, Violation, World

CUTS = ("err_before", "err_after", "cancel", "crash", "crash_after", "fetch_err", "receiver")
FIX_FAULTS = ("err_before", "err_after", "txn_killed", "cancel", "crash", "crash_after", "fetch_err", "receiver", "commit_fail", "crash_commit")


class RepairWorld(World):
    """Wrecks the bookkeeping, or lets operations die half way on a database without transactions, and repairs."""

    def op_wreck(self, step, ci):
        fam, nodes = self.fam, self.model.nodes()
        if not nodes:
            return None
        if fam.sort and step.get("slots"):
            # (out of order now)
            step = dict(step, fix=dict(step["fix"], paths=True, under=False))
        with quiet():
            self.displace(step.get("slots", ()), nodes)
            for sel, what, v in step["vals"]:
                u = nodes[sel % len(nodes)]
                r = self.snap.raw[u]
                vals = {}
                if what in (0, 2):
                    vals["depth"] = (0, 1, r["depth"] + 1, max(0, r["depth"] - 1), 40, r["depth"])[v % 6]
                if what in (1, 2):
                    vals["numchild"] = (0, 1, r["numchild"] + 1, max(0, r["numchild"] - 1), 99, r["numchild"])[v % 6]
                QuerySet(fam.base._meta.concrete_model, using=self.alias).filter(pk=r["pk"]).update(**vals)
                self.stats.add("values_wrecked")
        self.chain = {}
        self.repair(step, ci)
        return None

    def displace(self, slots, nodes):
        """Branches at other free positions of their groups, like what dead moves and deletions leave; 0 is where moves put branches for a while."""
        fam, n = self.fam, self.fam.base.steplen
        model = fam.base._meta.concrete_model
        cap, alpha = fam.capacity(), fam.base.alphabet
        paths = {u: r["path"] for u, r in self.snap.raw.items()}
        for sel, pos in slots:
            u = nodes[sel % len(nodes)]
            old = paths[u]
            group = {fam.last_step(paths[x]) for x in self.model.siblings(u)}
            free = [i for i in range(min(cap, max(group) + 3) + 1) if i not in group]
            if not free:
                continue
            x = free[0] if pos % 3 == 0 else free[pos % len(free)]
            text = ""
            for _ in range(n):
                text = alpha[x % len(alpha)] + text
                x //= len(alpha)
            new = old[:-n] + text
            for v in self.model.subtree(u):
                paths[v] = new + paths[v][len(old) :]
                QuerySet(model, using=self.alias).filter(pk=self.snap.pk[v]).update(path=paths[v])
            self.stats.add("branches_displaced")

    def op_cut(self, step, ci):
        """An operation that stops for good half way, every statement before that being durable."""
        if self.engine != "sqlite" or self.outer:
            return None
        inner = step["inner"]
        req = getattr(self, "op_" + inner["op"])(inner, ci)
        if req is None:
            return None
        before = self.snap
        try:
            model = self.model.copy()
            req["expect"](model)
        except Reject:
            return None
        self.conn.sim_nontransactional = True
        try:
            o = self.call(req["do"], ci, step["f"])
        finally:
            self.conn.sim_nontransactional = False
        self.chain = {}
        now = observe(self.fam, self.alias)
        if not o.fired:
            if o.kind != "ok" and type(o.exc).__name__ != "PathOverflow":
                raise StopRun(f"{req['label']} without transactions: {o.exc!r}")
            self.stats.add("cuts_that_came_too_late")
        elif now.raw != before.raw:
            self.stats.add("cuts_that_left_something")
        self.repair(step, ci)
        return None

    def hard(self, snap):
        """What no repair promises to mend."""
        return [p for p in snap.problems if "numchild" not in p and "depth" not in p]

    def repair(self, step, ci):
        fam, spec = self.fam, step["fix"]
        start = observe(fam, self.alias)
        want = Forest.of(start, fam.key if fam.sort else None)
        hard = self.hard(start)
        zero = any(not fam.last_step(r["path"]) for r in start.raw.values()) if not hard else False
        paths = (bool(spec["paths"]) or zero) and not hard
        parent = None
        if spec["under"] and not hard and not zero:
            good = [
                u
                for u in want.nodes()
                if start.raw[u]["depth"] == want.depth(u) and all(start.raw[a]["depth"] == want.depth(a) for a in want.ancestors(u))
            ]
            if good:
                parent = good[spec["t"] % len(good)]
        scope = set(want.subtree(parent)) if parent else set(start.raw)
        name = f"fix_tree({'fix_paths=True' if paths else ''}{', parent=' + parent if parent else ''})"
        if paths and fam.sort:
            for p, cs in want.children.items():
                if parent is None or p in scope:
                    cs.sort(key=lambda u: fam.key(start.data[u]))
        mgr = self.manager(0)
        nontx = self.engine == "sqlite" and not self.outer and spec["nontx"] and (fam.sort or not zero)
        faults = [] if self.outer else list(spec["faults"])
        complete = False
        for f in [*faults, None, None]:
            with quiet():
                ph = fam.models[0].objects.filter(pk=start.pk[parent]).first() or fam.base.objects.get(pk=start.pk[parent]) if parent else None
            if nontx and f:
                self.conn.sim_nontransactional = True
                if f["kind"] not in CUTS:
                    f = dict(f, kind="crash")
            previous = observe(fam, self.alias)
            try:
                o = self.call(lambda: mgr.fix_tree(fix_paths=True, parent=ph) if paths else mgr.fix_tree(parent=ph), ci, f)
            finally:
                self.conn.sim_nontransactional = False
            self.stats.add("repairs")
            now = observe(fam, self.alias)
            self.outside(name, start, now, scope)
            base = previous if complete else start
            where = f"step {self.step_no} {name}"
            if o.kind != "ok" and o.fired:
                self.stats.add("repairs_interrupted")
                self.still_same_tree(f"{where} interrupted ({o.fired})", base, now, paths and nontx, want)
                if not nontx and now.raw != base.raw:
                    self.stats.add("interrupted_repairs_that_got_somewhere")
                continue
            if o.kind != "ok":
                raise Violation("repair-failed", f"{where}: {type(o.exc).__name__}: {str(o.exc)[:200]}", self.step_no)
            complete = True
            self.exact(where, start, now, scope, hard)
            self.still_same_tree(where, start, now, paths, want, done=True)
            if not nontx and not hard:
                # nodes with equal sort values stay in the order they had
                for p, cs in want.children.items():
                    if cs != now.children.get(p, []):
                        raise Violation("order-changed", f"{where}: children of {p} should be {cs}, are {now.children.get(p)}", self.step_no)
            if paths:
                for p, cs in now.children.items():
                    if parent is None or p in scope:
                        steps = [fam.last_step(now.raw[c]["path"]) for c in cs]
                        if steps != list(range(1, len(cs) + 1)):
                            raise Violation("not-consecutive", f"{where}: children of {p} at positions {steps}", self.step_no)
            if f is None and previous.raw == now.raw and o.kind == "ok":
                self.stats.add("repairs_with_nothing_to_do")
            if not hard and parent is None and not self.outer:
                with quiet():
                    probs = mgr.find_problems()
                if any(probs):
                    raise Violation("problems-remain", f"{where}: find_problems says {probs}", self.step_no)
        if previous.raw != now.raw:
            raise Violation("not-idempotent", f"step {self.step_no} {name}: a second repair changed something", self.step_no)
        if hard:
            raise StopRun("cut left " + hard[0])
        if now.problems and parent:
            # the rest of the tree is still damaged
            with quiet():
                mgr.fix_tree()
            now = observe(fam, self.alias)
            self.exact("fix_tree() of the rest", start, now, set(now.raw), [])
        self.accept_quiet(now)

    def exact(self, where, start, now, scope, hard):
        n = self.fam.base.steplen
        count = {}
        for r in now.raw.values():
            count[r["path"][:-n]] = count.get(r["path"][:-n], 0) + 1
        for u, r in now.raw.items():
            if u not in scope:
                continue
            if r["depth"] != len(r["path"]) // n:
                raise Violation("wrong-depth", f"{where}: depth of {u} ({r['path']}) is {r['depth']}", self.step_no)
            if r["numchild"] != count.get(r["path"], 0):
                raise Violation("wrong-numchild", f"{where}: numchild of {u} is {r['numchild']}, it has {count.get(r['path'], 0)}", self.step_no)

    def outside(self, name, start, now, scope):
        for u, r in start.raw.items():
            if u not in scope and now.raw.get(u) != r:
                raise Violation("outside-changed", f"step {self.step_no} {name}: {u} is not in the branch: {r} became {now.raw.get(u)}", self.step_no)

    def still_same_tree(self, where, start, now, paths, want, done=False):
        if sorted(start.raw) != sorted(now.raw):
            raise Violation("nodes-changed", f"{where}: nodes {sorted(start.raw)} became {sorted(now.raw)}", self.step_no)
        for u, r in start.raw.items():
            g = now.raw[u]
            for k in r:
                if k in ("depth", "numchild") or (k == "path" and paths):
                    continue
                if g[k] != r[k]:
                    raise Violation("rows-changed", f"{where}: {k} of {u} was {r[k]!r}, is {g[k]!r}", self.step_no)
        hard = self.hard(now)
        if hard and not self.hard(start):
            raise Violation("damaged-further", f"{where}: {hard[:3]}", self.step_no)
        if self.hard(start):
            return
        if done:
            d = want.diff(now)
            if d:
                raise Violation("tree-changed", f"{where}: {d}", self.step_no)
        elif now.parent != start.parent:
            raise Violation("tree-changed", f"{where}: parents {start.parent} became {now.parent}", self.step_no)


class C11(WorldCheck):
    id = "C11"
    title = "repairing a materialized path tree restores exact bookkeeping"
    rule = (
        "A run is one seeded history on a materialized path tree in which stored depths and child counts are overwritten, or requests die at a seeded "
        "statement on a database without transactions; the repair (with and without paths, whole or one branch) is itself made to fail or die at seeded "
        "statements and run again; the rows afterwards are compared with the bookkeeping recomputed from the paths and with the tree before."
    )
    oracles = ("model",)
    stub = WorldCheck.stub + "; the database without transactions (SQLite, every statement durable at once, rollback and savepoints without effect)"
    world = RepairWorld
    weights = {"load": 2, "move": 8, "add_child": 9, "fix": 1, "resort": 2}
    gen_opts = {"warm": 5, "steps": (4, 14)}
    legs = (Leg("sqlite", "sqlite", 720, 60000, jobs=5), Leg("pg", "pg", 380, 30000, jobs=3))

    def families(self, leg):
        return names(leg.engine, impls=("MP",))

    def fixspec(self, rng):
        faults = []
        for _ in range(rng.choice((0, 0, 0, 1, 1, 2, 3))):
            kind = rng.choice(FIX_FAULTS)
            faults.append({"kind": kind, "k": 1 if "commit" in kind else rng.choice((1, 2, 3, 4, 5, 6, rng.randrange(1, 30)))})
        return {"paths": rng.random() < 0.55, "under": rng.random() < 0.35, "t": rng.randrange(1 << 16), "faults": faults,
                "nontx": rng.random() < 0.5}  # fmt: skip

    def decorate(self, rng, leg, fam, trace):
        steps = []
        for i, s in enumerate(trace["steps"]):
            last = i == len(trace["steps"]) - 1
            if leg.engine == "sqlite" and i > 2 and s["op"] in ("add_root", "add_child", "add_sibling", "move", "delete", "load") and rng.random() < 0.45:
                kind = rng.choice(CUTS)
                k = rng.choice((1, 2, 3)) if kind == "receiver" else rng.choice((2, 3, 4, 5, 6, 7, 8, 9, rng.randrange(2, 24)))
                s.setdefault("h", "get")
                s = {"op": "cut", "c": s.get("c", 0), "inner": s, "f": {"kind": kind, "k": k}, "fix": self.fixspec(rng)}
            steps.append(s)
            if i > 2 and (last or rng.random() < 0.2):
                vals = [[rng.randrange(1 << 16), rng.randrange(3), rng.randrange(6)] for _ in range(rng.randint(1, 6))]
                w = {"op": "wreck", "c": 0, "vals": vals, "fix": self.fixspec(rng)}
                if rng.random() < 0.5:
                    w["slots"] = [[rng.randrange(1 << 16), rng.randrange(1 << 8)] for _ in range(rng.randint(1, 5))]
                    if rng.random() < 0.3:
                        w["vals"] = []
                steps.append(w)
        trace["steps"] = steps
        return trace


CHECK = C11()
