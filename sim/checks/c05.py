from django.db import DatabaseError

from sim.checks.common import Leg, WorldCheck, names
from sim.families import observe
from sim.forest import Forest
from sim.gen import Gen
from sim.kernel import quiet
from sim.sched import Sched
from sim.world import StopRun, Violation, World

FAULTS = ("err_before", "err_after", "txn_killed", "crash", "crash_after", "cancel", "fetch_err", "receiver",
          "commit_fail", "commit_ambig", "crash_commit", "crash_committed")  # fmt: skip


class CrowdWorld(World):
    """Several clients add children to one node at the same time."""

    burst = (None, {})

    def step(self, step):
        if step["op"] == "round":
            self.end_outer(True) if self.outer else None
            self.ci = 0
            self.round(step)
            return
        if step["op"] not in ("reads",):
            self.burst = (None, {})
        super().step(step)

    def options(self, step):
        return {"transaction_mode": (None, "IMMEDIATE")[step.get("mode", 0) % 2]} if self.engine == "sqlite" else {}

    def parent_handle(self, t, ci, req):
        """The client's copy of the node: from before the round, from before earlier rounds, or kept from its own last addition."""
        mi = req.get("mi", 0)
        old = self.burst[1]
        if req.get("h") == "old" and (ci, mi) in old:
            self.stats.add("outdated_copies_of_the_node")
            return old[ci, mi]
        if req.get("h") == "first" and ("first", mi) in old:
            self.stats.add("outdated_copies_of_the_node")
            with quiet():
                h = old["first", mi]
                return type(h).from_db(self.alias, [f.attname for f in h._meta.concrete_fields], [getattr(h, f.attname) for f in h._meta.concrete_fields])
        h = self.get(t, mi)
        old.setdefault(("first", mi), h)
        old[ci, mi] = h
        return h

    def round(self, step):
        fam = self.fam
        t = self.pick(step["t"], rel=step.get("rel"))
        if step.get("again") and self.burst[0] in self.model.parent:
            t = self.burst[0]
        if t is None:
            return
        if self.burst[0] != t:
            self.burst = (t, {})
        before = self.snap
        plans = []
        for ci, reqs in enumerate(step["reqs"][: len(self.clients)]):
            jobs = []
            for k, r in enumerate(reqs):
                uid = f"s{self.step_no}.{ci}.{k}"
                data = self.data(r)
                mi = r.get("mi", 0)
                h = self.parent_handle(t, ci, r)
                args = self.create_args(r, uid, data, mi)
                jobs.append((uid, data, lambda h=h, args=args, mi=mi: self.manager(mi).add_child(h, **args), r.get("f")))
            plans.append(jobs)
        sched = Sched(self.engine, self.alias, self.log, step["order"], self.stats, busy_wait=bool(step.get("wait")), options=self.options(step))
        outcomes = sched.run([(self.clients[i], [(fn, f) for _, _, fn, f in jobs]) for i, jobs in enumerate(plans)])
        now = observe(fam, self.alias)
        self.stats.add("rounds")
        done, failed = [], []
        for jobs, outs in zip(plans, outcomes):
            for (uid, data, _, _), o in zip(jobs, outs):
                if o.kind == "ok" or o.landed:
                    done.append((uid, data))
                    self.stats.add("additions_done")
                    continue
                failed.append(uid)
                if o.kind == "runaway":
                    raise StopRun("runaway")
                if o.fired:
                    self.stats.add("additions_failed_by_fault")
                elif not isinstance(o.exc, DatabaseError):
                    if type(o.exc).__name__ == "PathOverflow" and fam.small:
                        continue
                    raise Violation("unexpected-exception", f"step {self.step_no}: concurrent add_child({t}) raised {type(o.exc).__name__}: {str(o.exc)[:200]}", self.step_no)
                else:
                    self.stats.add("additions_refused_by_database")
        if len(done) > 1:
            self.stats.add("rounds_with_several_additions")
        self.judge_round(t, before, now, done, failed)
        self.accept_quiet(now)
        self.chain = {}

    def judge_round(self, t, before, now, done, failed):
        what = f"step {self.step_no}: {len(done)} concurrent additions under {t}"
        left = [u for u in failed if any(x == u or x.startswith(u + "#") for x in now.raw)]
        if left:
            raise Violation("failed-but-stored", f"{what}: {left} failed, yet stored", self.step_no)
        lost = [u for u, _ in done if u not in now.raw]
        if lost:
            raise Violation("lost", f"{what}: {lost} succeeded, not stored", self.step_no)
        if now.problems:
            raise Violation("bookkeeping", f"{what}: {'; '.join(now.problems[:3])}", self.step_no)
        m = Forest.of(before, self.fam.key if self.fam.sort else None)
        data = dict(done)
        # the order in which they were added is free: take the one that is stored
        for u in sorted(data, key=lambda u: now.children[now.parent[u]].index(u)):
            m.add(u, data[u], t)
        d = m.diff(now)
        if d:
            raise Violation("no-such-order", f"{what}: no order of the successful additions gives the stored tree: {d}", self.step_no)


def order(rng, n):
    """Who goes on, decision by decision."""
    how = rng.random()
    if how < 0.45:  # anybody, any time
        return [rng.randrange(6) for _ in range(n)]
    if how < 0.85:  # long stretches
        p = rng.choice((0.15, 0.3, 0.5))
        return [rng.randrange(6) if rng.random() < p else -1 for _ in range(n)]
    k = rng.randrange(1, 12)  # one preemption
    return [rng.randrange(6)] + [-1] * k + [rng.randrange(6)] + [-1] * 3


class C05(WorldCheck):
    id = "C05"
    title = "concurrent additions of children to the same node"
    rule = (
        "A run is one seeded tree and rounds in which 2-3 clients (threads with their own connections) add children to one node; the trace decides at every "
        "statement, commit and rollback which client goes on, who is struck by a fault and who is the victim of a deadlock. After each round the stored tree "
        "is compared with the tree before plus the successful additions in some order. Digests are over the complete event logs (every decision included)."
    )
    stub = WorldCheck.stub + "; the thread scheduler and the deadlock detector's choice of victim"
    oracles = ()
    world = CrowdWorld
    weights = {"load": 0.5, "delete": 1.5, "move": 5, "begin": 0, "commit": 0, "rollback": 0, "restart": 0, "dep": 0, "undep": 0, "setval": 0}
    gen_opts = {"warm": 3, "steps": (1, 4), "outer": False}
    legs = (
        Leg("pg", "pg", 580, 40000, jobs=5),
        Leg("sqlite", "sqlite", 480, 30000, jobs=2, files=True),
        Leg("journal", "sqlite", 200, 10000, jobs=1, files=True, init="PRAGMA synchronous=OFF;"),
    )

    def families(self, leg):
        return [n for n in names(leg.engine, impls=("MP", "NS", "LT")) if not n.startswith(("MPTiny", "MPBinary", "MPShallow"))]

    def decorate(self, rng, leg, fam, trace):
        trace["cfg"]["clients"] = rng.choice((2, 2, 3))
        steps = []
        rounds = 0
        for i, s in enumerate(trace["steps"]):
            steps.append(s)
            if i >= 1 and rng.random() < 0.35:
                steps += self.rounds(rng, fam, trace)
                rounds += 1
        if not rounds:
            steps += self.rounds(rng, fam, trace)
        trace["steps"] = steps
        return trace

    def rounds(self, rng, fam, trace):
        out = []
        t, rel = rng.randrange(1 << 16), rng.choice((None, "leaf", "leaf", "deep", "last"))
        for again in range(rng.choice((1, 1, 2, 3))):
            reqs = []
            for _ in range(trace["cfg"]["clients"]):
                rs = []
                for _ in range(rng.choice((1, 1, 1, 2))):
                    spread = rng.choice((1, 2, 6))
                    r = {"d": [rng.randrange(spread), rng.randrange(spread)], "inst": rng.random() < 0.3, "h": rng.choice(("get", "old", "old", "first"))}
                    if fam.mti:
                        r["mi"] = rng.randrange(2)
                    if fam.rich:
                        r["tag"] = rng.randrange(4)
                    if rng.random() < 0.15:
                        kind = rng.choice(FAULTS)
                        r["f"] = {"kind": kind, "k": 1 if kind == "receiver" or "commit" in kind else rng.randint(1, 6)}
                    rs.append(r)
                reqs.append(rs)
            out.append({"op": "round", "again": again > 0, "t": t, "rel": rel, "reqs": reqs, "order": order(rng, 40), "mode": rng.randrange(2), "wait": rng.random() < 0.5})
        return out


CHECK = C05()
