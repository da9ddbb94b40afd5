import itertools
import threading

from django.db import DatabaseError, transaction

from sim.checks.c05 import FAULTS, order
from sim.checks.common import Leg, WorldCheck, names
from sim.families import observe
from sim.forest import Forest, Reject
from sim.sched import Sched
from sim.world import StopRun, Violation, World

SERIAL = ("add_root", "add_child", "add_sibling", "move", "delete", "load", "setval", "read")


class Gone(Exception):
    """The node the request is about does not exist (any more)."""


class SerialWorld(World):
    """Several clients, each request in a transaction of its own, in which it also fetches its nodes."""

    def setup(self):
        self.tl = threading.local()
        super().setup()

    # what a request does for itself in its thread
    def get(self, uid, mi=0):
        if not getattr(self.tl, "on", False):
            return super().get(uid, mi)
        self.tl.needs.append(uid)
        m = self.fam.models[mi % len(self.fam.models)]
        h = m.objects.filter(pk=self.snap.pk[uid]).first()
        if h is None and m is not self.fam.base:
            h = self.fam.base.objects.filter(pk=self.snap.pk[uid]).first()
        if h is None:
            raise Gone(uid)
        return h

    def new_uid(self, suffix=""):
        return super().new_uid(suffix) + getattr(self.tl, "tag", "")

    def op_read(self, step, ci):
        n = self.pick(step.get("t", 0)) if step.get("under") else None
        h = self.get(n) if n else None

        def do():
            if step.get("how", 0) % 2 and self.fam.impl != "AL":
                return [(x.uid, info["level"]) for x, info in self.manager(0 if not self.fam.mti else 1).get_annotated_list(h)]
            return [(x.uid, None) for x in self.manager(0 if not self.fam.mti else 1).get_tree(h)]

        def expect(m):
            return m.subtree(n) if n else m.nodes()

        return {"label": f"get_tree({n})", "do": do, "expect": expect, "handles": {}, "read": True}

    def step(self, step):
        if step["op"] == "round":
            if self.outer:
                self.end_outer(True)
            self.ci = 0
            self.round(step)
            return
        super().step(step)

    def options(self, step):
        if self.engine == "sqlite":
            return {"transaction_mode": (None, "IMMEDIATE")[step.get("mode", 0) % 2]}
        from psycopg import IsolationLevel

        return {"isolation_level": IsolationLevel.SERIALIZABLE}

    def job(self, ci, k, r):
        rec = {"uid": f"{ci}.{k}", "op": r["op"]}

        def fn():
            self.tl.on, self.tl.tag = True, f".{ci}.{k}"
            for left in reversed(range(1 + r.get("retry", 0))):
                self.tl.needs = rec["needs"] = []
                rec["expect"] = None
                try:
                    with transaction.atomic(using=self.alias):
                        req = getattr(self, "op_" + r["op"])(r, ci)
                        if req is None:
                            return None
                        rec["expect"], rec["label"], rec["read"] = req["expect"], req["label"], req.get("read")
                        return req["do"]()
                except DatabaseError:
                    if not left or self.clients[ci].fired:
                        raise
                    self.stats.add("retries_after_serialisation_failures")

        return rec, fn

    def round(self, step):
        if not self.model.nodes():
            return
        before = self.snap
        plans, n = [], 0
        for ci, reqs in enumerate(step["reqs"][: len(self.clients)]):
            jobs = []
            for k, r in enumerate(reqs):
                if n < 4:
                    jobs.append((*self.job(ci, k, r), r.get("f")))
                    n += 1
            plans.append(jobs)
        sched = Sched(self.engine, self.alias, self.log, step["order"], self.stats, busy_wait=bool(step.get("wait")), options=self.options(step))
        outcomes = sched.run([(self.clients[i], [(fn, f) for _, fn, f in jobs]) for i, jobs in enumerate(plans)])
        now = observe(self.fam, self.alias)
        self.chain = {}
        self.stats.add("rounds")
        done = []
        for jobs, outs in zip(plans, outcomes):
            for (rec, _, _), o in zip(jobs, outs):
                if o.kind == "runaway":
                    raise StopRun("runaway")
                if o.landed:
                    done.append((rec, "ok", None))
                elif o.kind == "ok":
                    if rec["expect"] is not None:
                        done.append((rec, "ok", o.value))
                elif o.fired or isinstance(o.exc, DatabaseError):
                    self.stats.add("requests_failed")
                else:
                    done.append((rec, type(o.exc).__name__, o.exc))
        self.stats.add("requests_done", len(done))
        if len(done) > 1:
            self.stats.add("rounds_with_several_requests")
        self.explain(before, now, done)
        self.accept_quiet(now)

    def explain(self, before, now, done):
        """Some order of the requests that took effect must give the stored tree, and what each of them returned."""
        base = Forest.of(before, self.fam.key if self.fam.sort else None)
        why = []
        tried = 0
        for perm in itertools.permutations(range(len(done))):
            m = base.copy()
            tried += 1
            bad = None
            for i in perm:
                rec, kind, value = done[i]
                bad = self.apply(m, rec, kind, value)
                if bad:
                    break
            bad = bad or m.diff(now)
            if not bad:
                if now.problems:
                    raise Violation("bookkeeping", f"step {self.step_no}: {[r.get('label') for r, _, _ in done]}: {'; '.join(now.problems[:3])}", self.step_no)
                self.stats.add("orders_tried", tried)
                if perm != tuple(sorted(perm)):
                    self.stats.add("rounds_explained_by_another_order_than_the_first")
                return
            why.append(bad)
        odd = [k for _, k, _ in done if k not in ("ok", "Gone", "InvalidMoveToDescendant")]
        raise Violation(
            "unexpected-exception" if odd else "not-serialisable",
            f"step {self.step_no}: no order of {[(r.get('label'), k) for r, k, _ in done]} gives the stored tree: {why[0]}; {'; '.join(now.problems[:2])}",
            self.step_no,
        )

    def apply(self, m, rec, kind, value):
        gone = [u for u in rec["needs"] if u not in m.parent]
        if gone:
            return "" if kind == "Gone" else f"{gone} gone, {rec.get('label')} gave {kind}"
        if rec["expect"] is None:
            return f"{rec['op']} gave {kind}"
        try:
            want = rec["expect"](m)
        except Reject as e:
            return "" if kind in e.names else f"{rec['label']} gave {kind}, expected {e}"
        if kind != "ok":
            return f"{rec['label']} gave {kind}: {value}"
        if rec.get("read") and value is not None:
            return self.compare_read(m, rec, want, value)
        return ""

    def compare_read(self, m, rec, want, value):
        got = [u for u, _ in value]
        if self.fam.sort:
            # nodes with equal sort values may come in any order, each with its descendants after it
            ok = sorted(got) == sorted(want)
            last, path = {}, []
            for i, u in enumerate(got if ok else ()):
                while path and path[-1] != m.parent[u]:
                    path.pop()
                top = not path and (i == 0 or m.parent[u] is None)
                k = self.fam.key(m.data[u])
                ok = ok and bool(path or top) and last.get(m.parent[u], k) <= k
                last[m.parent[u]] = k
                path.append(u)
        else:
            ok = got == want
        if not ok:
            return f"{rec['label']} read {got}, expected {want}"
        return ""


class C06(WorldCheck):
    id = "C06"
    title = "serialisable concurrent requests equal some serial order"
    rule = (
        "A run is one seeded tree and rounds of at most four requests (additions, moves, deletions, loads, saves, reads) by 2-3 clients in transactions of their "
        "own on SQLite or PostgreSQL at SERIALIZABLE, some retried after serialisation failures; the trace decides at every statement, commit and rollback who "
        "goes on and who fails. The stored tree and everything returned must be explained by one order of the requests that took effect (all are tried)."
    )
    stub = WorldCheck.stub + "; the thread scheduler and the deadlock detector's choice of victim"
    oracles = ()
    world = SerialWorld
    weights = {"load": 0.5, "delete": 1, "move": 5, "begin": 0, "commit": 0, "rollback": 0, "restart": 0, "dep": 0, "undep": 0, "setval": 0}
    gen_opts = {"warm": 5, "steps": (1, 4), "outer": False}
    legs = (
        Leg("pg", "pg", 1100, 40000, jobs=6),
        Leg("sqlite", "sqlite", 800, 30000, jobs=3, files=True),
        Leg("journal", "sqlite", 150, 10000, jobs=1, files=True, init="PRAGMA synchronous=OFF;"),
    )

    def families(self, leg):
        out = [n for n in names(leg.engine) if not n.startswith(("MPTiny", "MPBinary", "MPShallow", "MPTwo", "MPOdd"))]
        return [n for n in out if not n.endswith("Rich")]

    def generator(self, rng, leg, fam, kw):
        g = super().generator(rng, leg, fam, kw)
        self.g = g
        return g

    def decorate(self, rng, leg, fam, trace):
        trace["cfg"]["clients"] = rng.choice((2, 2, 3))
        steps, rounds = [], 0
        for i, s in enumerate(trace["steps"]):
            steps.append(s)
            if i >= 2 and rng.random() < 0.4:
                steps.append(self.round(rng, fam, trace))
                rounds += 1
        for _ in range(2 - min(2, rounds)):
            steps.append(self.round(rng, fam, trace))
        trace["steps"] = steps
        return trace

    def round(self, rng, fam, trace):
        reqs, n = [], trace["cfg"]["clients"]
        hot = rng.random() < 0.3  # everybody reorders siblings
        for _ in range(n):
            rs = []
            for _ in range(rng.choice((1, 1, 2)) if n == 2 else rng.choice((1, 1, 1, 2))):
                op = rng.choice(("add_root", "add_child", "add_child", "add_sibling", "add_sibling", "move", "move", "move", "delete", "load", "setval", "read"))
                if hot:
                    op = rng.choice(("move", "move", "move", "add_sibling"))
                r = self.g.step(op) if op != "read" else {"op": "read", "under": rng.random() < 0.4, "t": self.g.sel(), "how": rng.randrange(2)}
                r.pop("f", None)
                r["h"] = "get"
                if hot and op == "move":
                    r["rel"] = "sib"
                if op == "delete":
                    r["how"] = rng.choice(("node", "node", "qs", "qs_rev"))
                r["retry"] = rng.choice((0, 0, 1, 2))
                if rng.random() < (0.12, 0.04)[hot]:
                    kind = rng.choice(FAULTS)
                    r["f"] = {"kind": kind, "k": 1 if kind == "receiver" or "commit" in kind else rng.randint(1, 10)}
                rs.append(r)
            reqs.append(rs)
        return {"op": "round", "reqs": reqs, "order": order(rng, 60), "mode": rng.randrange(2), "wait": rng.random() < 0.5}


CHECK = C06()
