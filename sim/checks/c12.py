from django.db.models import QuerySet

from sim.checks.common import Leg, WorldCheck, names
from sim.families import observe, raw_rows
from sim.kernel import quiet
from sim.world import Violation, World

MP_LISTS = ("evil_chars", "bad_steplen", "orphans", "wrong_depth", "wrong_numchild")
NS_LISTS = ("reversed", "overlapping", "duplicate_tree_ids", "wrong_depth")
BAD_CHARS = "*~!%_é "
READ_FAULTS = ("err_before", "fetch_err", "cancel", "err_after")


class ProblemWorld(World):
    """Damages stored rows behind the application's back, looks at the report, puts the rows back."""

    def op_corrupt(self, step, ci):
        fam, nodes = self.fam, self.model.nodes()
        if not nodes:
            return None
        before = self.snap
        self.lists = MP_LISTS if fam.impl == "MP" else NS_LISTS
        mi = step.get("mi", 0)
        self.either = None
        self.report_on(step, mi, before, {}, set(), {}, "undamaged tree")
        for u in dict.fromkeys(nodes[s % len(nodes)] for s in step["scope"]):
            self.scoped(step, mi, before, u, {}, set(), "undamaged tree")
        self.either = None
        done = getattr(self, "damage_" + fam.impl)(step, nodes)
        if done is None:
            return None
        what, updates, must, may, free = done
        # must: {uid: list}, may: uids that may appear anywhere, free: {uid: lists it may appear in}
        with quiet():
            for u, vals in updates.items():
                if vals is None:
                    QuerySet(fam.base, using=self.alias).filter(pk=before.pk[u])._raw_delete(self.alias)
                else:
                    QuerySet(fam.base._meta.concrete_model, using=self.alias).filter(pk=before.pk[u]).update(**vals)
        self.stats.add("damage_" + what.split(" ")[0])
        damaged = {r["uid"]: r for r in raw_rows(fam, self.alias)}
        where = f"{what} on {', '.join(sorted(updates))}"
        self.report_on(step, mi, damaged, must, may, free, where)
        for s in step["scope"]:
            # (some of the time exactly the damaged node)
            u = sorted(updates)[s % len(updates)] if s % 4 == 0 else nodes[s % len(nodes)]
            if self.scope_ok(what, u, updates, before, damaged):
                inside = self.inside(u, damaged)
                self.scoped(step, mi, damaged, u, {k: v for k, v in must.items() if k in inside}, may & inside, where, free, inside)
        # the administrator restores the rows
        with quiet():
            for u, vals in updates.items():
                QuerySet(fam.base._meta.concrete_model, using=self.alias).filter(pk=before.pk[u]).update(
                    **{k: before.raw[u][k] for k in vals}
                )
        self.either = None
        now = observe(fam, self.alias)
        if now.raw != before.raw:
            raise Violation("report-changed-something", f"step {self.step_no} {where}: rows changed", self.step_no)
        return None

    # ---- judging a report
    def ask(self, step, mi, parent=None):
        mgr = self.manager(mi)
        ph = self.get(parent, mi) if parent else None
        before = raw_rows(self.fam, self.alias)
        f = step.get("rf") if not self.outer else None
        o = self.call(lambda: mgr.find_problems(parent=ph) if ph is not None else mgr.find_problems(), self.ci, f)
        if o.kind != "ok" and o.fired:
            self.stats.add("reports_repeated_after_fault")
            o = self.call(lambda: mgr.find_problems(parent=ph), self.ci)
        self.stats.add("reports")
        if o.kind != "ok":
            raise Violation("report-failed", f"step {self.step_no}: find_problems({parent}) raised {o.exc!r}", self.step_no)
        if raw_rows(self.fam, self.alias) != before:
            raise Violation("report-changed-something", f"step {self.step_no}: find_problems({parent}) changed rows", self.step_no)
        return o.value

    def named(self, value, rows):
        raw = rows.raw if hasattr(rows, "raw") else rows
        bypk = {r["pk"]: u for u, r in raw.items()}
        out = {}
        for name, pks in zip(self.lists, value, strict=True):
            for pk in pks:
                u = bypk.get(pk, f"key {pk}")
                if u in out:
                    return None, f"{u} is listed under {out[u]} and {name}"
                out[u] = name
        return out, ""

    def report_on(self, step, mi, rows, must, may, free, where, parent=None, inside=None):
        try:
            got, err = self.named(self.ask(step, mi, parent), rows)
        except (ValueError, TypeError) as e:
            got, err = None, f"malformed report: {e}"
        name = f"step {self.step_no}: find_problems({parent or ''}) with {where}"
        if got is None:
            raise Violation("report", f"{name}: {err}", self.step_no)
        for u, kind in must.items():
            kinds = (kind,) if isinstance(kind, str) else kind
            if got.get(u) not in kinds:
                raise Violation("report", f"{name}: {u} should be under {' or '.join(map(str, kinds))}, reported: {got}", self.step_no)
        if self.either and parent is None and not any(got.get(x) == "overlapping" for x in self.either):
            raise Violation("report", f"{name}: {' or '.join(self.either)} should be under overlapping, reported: {got}", self.step_no)
        for u in got:
            if u not in must and u not in may and got[u] not in free.get(u, ()):
                raise Violation("report", f"{name}: {u} is reported as {got[u]}, there is nothing wrong with it", self.step_no)
        return got

    def scoped(self, step, mi, rows, u, must, may, where, free=None, inside=None):
        free = {k: v for k, v in (free or {}).items() if inside is None or k in inside}
        self.report_on(step, mi, rows, must, may, free, where, parent=u)
        self.stats.add("reports_of_branches")

    def scope_ok(self, what, u, updates, before, damaged):
        """The node asked about, and all above it, are undamaged; the damage is clearly inside or outside."""
        if what in ("values", "two-values"):
            # depths and counts are wrong, every node is where it belongs
            return True
        if u not in damaged or u in updates or any(a in updates for a in self.model.ancestors(u)):
            return False
        if self.fam.impl == "MP":
            # a node with a sound path of its own; whose ancestors' paths still lead to it
            return True
        p = damaged[u]
        for d in updates:
            r = damaged.get(d)
            if r is None:
                continue
            lo, hi = min(r["lft"], r["rgt"]), max(r["lft"], r["rgt"])
            same = r["tree_id"] == p["tree_id"]
            if same and not (p["lft"] < lo and hi < p["rgt"]) and not (hi < p["lft"] or p["rgt"] < lo):
                return False
        return True

    def inside(self, u, damaged):
        if self.fam.impl == "MP":
            return {x for x, r in damaged.items() if r["path"].startswith(damaged[u]["path"])}
        p = damaged[u]
        return {
            x
            for x, r in damaged.items()
            if r["tree_id"] == p["tree_id"] and min(r["lft"], r["rgt"]) >= p["lft"] and max(r["lft"], r["rgt"]) <= p["rgt"]
        }

    # ---- damage
    def damage_MP(self, step, nodes):
        fam, m, snap = self.fam, self.model, self.snap
        base = fam.base
        n, alpha, maxlen = base.steplen, base.alphabet, base._meta.get_field("path").max_length
        u = nodes[step["n"] % len(nodes)]
        path = snap.raw[u]["path"]
        paths = {r["path"] for r in snap.raw.values()}
        a = step["a"]
        kind = step["kind"] % 7
        par = m.parent[u]
        kids = {c: "orphans" for c in m.children[u]}
        # (how a row with a malformed path counts among the children of the nodes above it is not defined)
        hazy = {x: ("wrong_numchild",) for x in m.ancestors(u)}
        if kind == 0:
            i = a % len(path)
            bad = [c for c in BAD_CHARS if c not in alpha]
            new = path[:i] + bad[step["b"] % len(bad)] + path[i + 1 :]
            return "evil-char", {u: {"path": new}}, {u: "evil_chars", **kids}, set(), hazy
        if kind == 1:
            if n == 1:
                return None
            cut = 1 + a % (n - 1)
            new = path[:-cut]
            if new in paths:
                return None
            return "truncated", {u: {"path": new}}, {u: "bad_steplen", **kids}, set(), hazy
        if kind == 2:
            if n == 1:
                return None
            new = path + "".join(alpha[(a + i) % len(alpha)] for i in range(1 + a % (n - 1)))
            if len(new) > maxlen or new in paths:
                return None
            return "lengthened", {u: {"path": new}}, {u: "bad_steplen", **kids}, set(), hazy
        if kind == 3:
            # under a parent that does not exist
            if len(path) == n or len(path) + 0 > maxlen:
                return None
            for k in range(a, a + 60):
                x, digits = k * 7 + 1, []
                for _ in range(n):
                    digits.append(alpha[x % len(alpha)])
                    x //= len(alpha)
                step_ = "".join(digits)
                new = path[: -2 * n] + step_ + path[-n:]
                sub = tuple(snap.raw[c]["path"] for c in m.subtree(u))
                if new[:-n] not in paths and not any(p.startswith(new[:-n]) for p in paths) and not new.startswith(sub):
                    break
            else:
                return None
            return "orphaned", {u: {"path": new}}, {u: "orphans", **kids, par: "wrong_numchild"}, set(), {}
        if kind in (4, 5):
            # several independent wrong values at once
            updates, must = {}, {}
            for j in range(1 + step["b"] % 3):
                x = nodes[(step["n"] + j * 5) % len(nodes)]
                if x in updates:
                    continue
                if (kind + j) % 2 == 0:
                    d = snap.raw[x]["depth"] + ((a + j) % 5 + 1) * (1 if (a + j) % 2 or snap.raw[x]["depth"] < 7 else -1)
                    updates[x] = {"depth": d}
                    must[x] = "wrong_depth"
                else:
                    c = snap.raw[x]["numchild"]
                    w = (a + j) % 3
                    updates[x] = {"numchild": 0 if w == 0 and c else c + 1 + w}
                    must[x] = "wrong_numchild"
            return "values", updates, must, set(), {}
        # both values of one node: one report
        c = snap.raw[u]["numchild"]
        return "two-values", {u: {"depth": snap.raw[u]["depth"] + 1 + a % 3, "numchild": c + 1}}, {u: ("wrong_depth", "wrong_numchild")}, set(), {}

    def damage_NS(self, step, nodes):
        m, snap = self.model, self.snap
        u = nodes[step["n"] % len(nodes)]
        r = snap.raw[u]
        a = step["a"]
        below = set(m.subtree(u)[1:])
        kind = step["kind"] % 6
        par = m.parent[u]
        if kind == 0:
            return "reversed", {u: {"lft": r["rgt"], "rgt": r["lft"]}}, {u: "reversed"}, below, {}
        if kind == 1:
            rgt = r["lft"] - (a % 2 if r["lft"] > 1 else 0)
            return "reversed", {u: {"rgt": rgt}}, {u: "reversed"}, below, {}
        if kind == 2:
            if par is None:
                return None
            rgt = snap.raw[par]["rgt"] + a % 4
            # what is to the right of it may be inside or overlap it now, but is itself in order
            return "overlapping", {u: {"rgt": rgt}}, {u: "overlapping"}, below, {}
        if kind == 3:
            # into the next sibling
            sibs = m.siblings(u)
            i = sibs.index(u)
            if par is None or i + 1 >= len(sibs):
                return None
            s = sibs[i + 1]
            rgt = snap.raw[s]["lft"] + a % (snap.raw[s]["rgt"] - snap.raw[s]["lft"])
            may = {u, s, *m.subtree(s), *below}
            self.either = (u, s)
            return "overlapping-sibling", {u: {"rgt": rgt}}, {}, may, {}
        if kind == 4:
            # a lone root in somebody else's tree
            lone = [x for x in m.children[None] if not m.children[x]]
            others = [x for x in m.children[None]]
            if not lone or len(others) < 2:
                return None
            x = lone[step["n"] % len(lone)]
            others.remove(x)
            t = snap.raw[others[a % len(others)]]
            return (
                "same-tree",
                {x: {"tree_id": t["tree_id"], "lft": t["rgt"] + 1, "rgt": t["rgt"] + 2}},
                {x: "duplicate_tree_ids"},
                set(),
                {t["uid"]: ("duplicate_tree_ids",)},
            )
        updates, must = {}, {}
        for j in range(1 + step["b"] % 3):
            x = nodes[(step["n"] + j * 5) % len(nodes)]
            if x not in updates:
                d = snap.raw[x]["depth"]
                updates[x] = {"depth": d + 1 + (a + j) % 3 if d < 2 or (a + j) % 2 else d - 1}
                must[x] = "wrong_depth"
        return "values", updates, must, set(), {}


class C12(WorldCheck):
    id = "C12"
    title = "the problem finder reports every corrupted node and only those"
    rule = (
        "A run is one seeded history on a materialized path or nested sets tree in which stored rows are damaged at seeded points (bad characters, shortened, "
        "lengthened and orphaned paths, wrong depths and child counts; reversed and overlapping intervals, shared tree ids) and put back afterwards; the "
        "report, whole and limited to branches, sometimes failing once, is compared with the damage, and no row may change."
    )
    oracles = ()
    world = ProblemWorld
    weights = {"load": 2, "move": 8, "add_child": 9}
    gen_opts = {"warm": 5, "steps": (4, 12)}
    legs = (Leg("sqlite", "sqlite", 640, 60000, jobs=4), Leg("pg", "pg", 420, 40000, jobs=4))

    def families(self, leg):
        return names(leg.engine, impls=("MP", "NS"))

    def decorate(self, rng, leg, fam, trace):
        steps = []
        for i, s in enumerate(trace["steps"]):
            steps.append(s)
            if i > 2 and (rng.random() < 0.45 or i == len(trace["steps"]) - 1):
                c = {"op": "corrupt", "c": s.get("c", 0), "kind": rng.randrange(42), "n": rng.randrange(1 << 16), "a": rng.randrange(1 << 10),
                     "b": rng.randrange(6), "scope": [rng.randrange(1 << 16) for _ in range(rng.choice((0, 1, 3)))]}  # fmt: skip
                if fam.mti:
                    c["mi"] = rng.randrange(2)
                if rng.random() < 0.15:
                    c["rf"] = {"kind": rng.choice(READ_FAULTS), "k": rng.choice((1, 2, 3))}
                steps.append(c)
        trace["steps"] = steps
        return trace


CHECK = C12()
