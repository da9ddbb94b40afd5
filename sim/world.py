"""Executes one trace: a history of requests by several clients against one tree, with
faults, crashes and restarts, judged by the oracles the check has switched on.

Execution is a pure function of (trace, code under test)."""

import contextlib
import copy
import hashlib

from django.db import connections, transaction
from django.db.models import F, ProtectedError, Q
from django.db.models.signals import post_save

from sim import kernel
from sim.families import families, observe
from sim.forest import CHILD_POS, Forest, Reject
from sim.kernel import AppError, Client, EventLog, HarnessError, SimCancel, SimCrash, SimRunaway, quiet


class Violation(Exception):
    def __init__(self, kind, msg, step=None):
        self.kind = kind
        self.msg = msg
        self.step = step
        super().__init__(f"{kind}: {msg}")


class StopRun(Exception):
    """Something outside the checked property went wrong: the run ends without a verdict."""

    def __init__(self, why):
        self.why = why
        super().__init__(why)


REJECTS = ("InvalidPosition", "InvalidMoveToDescendant", "NodeAlreadySaved", "MissingNodeOrderBy", "ValueError")

TREE_FIELDS = {
    "MP": ("path", "depth", "numchild"),
    "NS": ("tree_id", "lft", "rgt", "depth"),
    "AL": ("parent_id", "sib_order"),
    "LT": ("path",),
}


class Stats:
    def __init__(self):
        self.c = {}
        self.states = None

    def add(self, k, n=1):
        self.c[k] = self.c.get(k, 0) + n


class Outcome:
    __slots__ = ("kind", "exc", "value", "fired", "landed")

    def __init__(self):
        self.kind = "ok"
        self.exc = None
        self.value = None
        self.fired = None
        self.landed = False


class World:
    def __init__(self, trace, engine, oracles, alias="default", keep_log=False, stats=None):
        self.trace = trace
        self.engine = engine
        self.alias = alias
        self.fam = families()[trace["family"]]
        self.oracles = frozenset(oracles)
        self.log = EventLog(keep=keep_log)
        self.stats = stats or Stats()
        self.cfg = trace.get("cfg", {})
        self.conn = connections[alias]
        self.clients = [Client(f"c{i}", self.log, engine=engine) for i in range(self.cfg.get("clients", 2))]
        self.outer = None  # (atomic context, snapshot, forest) of an outer transaction
        self.chain = {}  # client index -> handles known to be fresh {uid: instance}
        self.shelf = {}  # (client, model, uid) -> an object the client read or used at some time
        self.step_no = 0
        self.mirror = None
        self.receivers = []
        self.stmts = 0
        self.dep_no = 0
        self.tag_pks = []

    # ------------------------------------------------------------------ oracles
    def on(self, name):
        return name in self.oracles

    def fail(self, oracle, kind, msg):
        """A check only judges what belongs to its property."""
        if oracle in self.oracles:
            raise Violation(kind, msg, self.step_no)
        self.stats.add("ended_by_other_property")
        raise StopRun(f"{oracle}/{kind}: {msg}")

    def passed_over(self, oracle):
        """True when this check goes on where that oracle, of another property, would have stopped."""
        if "~" + oracle not in self.oracles:
            return False
        self.stats.add("passed_over_" + oracle)
        return True

    # ------------------------------------------------------------------ life cycle
    def setup(self):
        from sim.boot import reset_tables
        from sim.simapp import models as M

        self.log.add("family", self.fam.name, self.engine)
        M._uuid_counter[0] = 0
        reset_tables(self.engine, self.fam.tables(self.engine), self.alias)
        if self.fam.rich:
            with quiet():
                self.tag_pks = [M.Tag.objects.using(self.alias).create(name=f"t{i}").pk for i in range(3)]
        self.snap = observe(self.fam, self.alias)
        self.model = Forest(self.fam.key if self.fam.sort else None)
        self._connect()

    def teardown(self):
        for sig, fn in self.receivers:
            sig.disconnect(fn)
        self.receivers = []
        kernel.bind(None)
        if self.outer:
            with contextlib.suppress(BaseException):
                self.outer[0].__exit__(RuntimeError, RuntimeError("end"), None)
            self.outer = None
        with contextlib.suppress(Exception):
            if self.conn.in_atomic_block or self.conn.needs_rollback:
                self.conn.sim_after_crash()
        self.conn.sim_nontransactional = False

    def run(self):
        self.setup()
        try:
            for i, step in enumerate(self.trace["steps"]):
                self.step_no = i
                self.step(step)
            self.finish()
        finally:
            self.teardown()

    def finish(self):
        if self.outer:
            self.end_outer(commit=True)

    # ------------------------------------------------------------------ signals
    def _connect(self):
        impl = self.fam.impl
        world = self

        def hook(sig, name):
            def receiver(sender, **kw):
                kw.pop("signal", None)
                c = kernel.current()
                if c is None:
                    return
                if name == "post_save" and not isinstance(kw["instance"], world.fam.base):
                    return
                world.stats.add(f"signal_{name}")
                world.on_signal(name, sender, kw)
                if world.mirror is not None:
                    world.mirror.receive(name, sender, kw)
                c.signal(name)

            sig.connect(receiver, weak=False)
            self.receivers.append((sig, receiver))

        hook(post_save, "post_save")
        if impl == "MP":
            from treebeard import mp_tree as m

            for n in ("path_updated", "nodes_deleted"):
                hook(getattr(m, n), n)
        elif impl == "NS":
            from treebeard import ns_tree as m

            for n in ("gap_altered", "tree_ids_incremented", "subtree_moved", "nodes_deleted"):
                hook(getattr(m, n), n)
        elif impl == "LT":
            from treebeard import ltree as m

            for n in ("subtree_moved_right", "subtree_moved", "nodes_deleted"):
                hook(getattr(m, n), n)

    def on_signal(self, name, sender, kw):
        pass

    # ------------------------------------------------------------------ selecting nodes
    def pick(self, sel, near=None, rel=None):
        """An integer selector resolved against the model's nodes; None when the tree is empty."""
        nodes = self.model.nodes()
        if not nodes:
            return None
        if rel == "kept":  # a node whose object the client still has from its last request
            cand = [u for u in self.chain.get(self.ci, {}) if u in self.model.parent and u != near]
            if cand:
                return cand[sel % len(cand)]
        if rel == "shelf":  # a node whose object the client has had for a while
            cand = [u for c, _, u in self.shelf if c == self.ci and u in self.model.parent and u != near]
            if cand:
                return cand[sel % len(cand)]
        if near is not None and rel:
            m = self.model
            cand = {
                "sib": lambda: [u for u in m.siblings(near) if u != near],
                "sibself": lambda: list(m.siblings(near)),
                "child": lambda: list(m.children[near]),
                "desc": lambda: m.subtree(near)[1:],
                "anc": lambda: m.ancestors(near),
                "self": lambda: [near],
                "uncle": lambda: [u for u in m.siblings(m.parent[near]) if m.parent[near]] if m.parent[near] else [],
            }.get(rel, lambda: [])()
            if cand:
                return cand[sel % len(cand)]
        if rel == "leaf":
            cand = [u for u in nodes if not self.model.children[u]]
            return cand[sel % len(cand)]
        if rel == "deep":
            cand = sorted(nodes, key=lambda u: -self.model.depth(u))[: max(1, len(nodes) // 3)]
            return cand[sel % len(cand)]
        if rel == "last":
            cs = self.model.children[None]
            return cs[-1]
        return nodes[sel % len(nodes)]

    def manager(self, mi=0):
        return self.fam.models[mi % len(self.fam.models)].objects.db_manager(self.alias) if self.alias != "default" else (
            self.fam.models[mi % len(self.fam.models)].objects
        )

    def get(self, uid, mi=0):
        """A fresh handle, as a client would obtain it (outside fault injection)."""
        with quiet():
            m = self.fam.models[mi % len(self.fam.models)]
            h = m.objects.filter(pk=self.snap.pk[uid]).first()
            if h is None:
                h = self.fam.base.objects.get(pk=self.snap.pk[uid])
            return h

    def handle(self, step, uid, ci):
        how = step.get("h", "get")
        mi = step.get("mi", 0)
        kept = self.chain.get(ci, {}).get(uid)
        if how == "chain" and kept is not None:
            self.stats.add("kept_handle_reused")
            self.reused += 1
            return kept
        if how == "shelf":
            return self.shelved(uid, ci, mi)
        if how == "defer":
            with quiet():
                fields = ["note", "val1", *TREE_FIELDS[self.fam.impl]]
                if self.fam.sort and "sib_order" in fields:
                    fields.remove("sib_order")
                h = self.manager(mi).filter(pk=self.snap.pk[uid]).defer(fields[step.get("t", 0) % len(fields)]).first()
                return h if h is not None else self.get(uid, mi)
        if how == "nav":
            with quiet():
                mgr = self.manager(mi)
                p = self.model.parent[uid]
                if p is None:
                    qs = mgr.get_root_nodes()
                else:
                    qs = mgr.get_children(self.get(p, mi))
                for h in qs:
                    if h.pk == self.snap.pk[uid]:
                        return h
        if how == "tree":
            with quiet():
                for h in self.manager(mi).get_tree():
                    if h.pk == self.snap.pk[uid]:
                        return h
        return self.get(uid, mi)

    def shelved(self, uid, ci, mi):
        """
        An object the client has had for a while.  Its own columns are what is stored, or the client would have
        read it again; what it remembers about others (its parent, its depth) dates from then.
        """
        h = self.shelf.get((ci, mi, uid))
        if h is not None and self.current(h, uid):
            self.stats.add("shelved_objects_used")
            self.reused += 1
            return h
        return self.keep(uid, ci, mi)

    def keep(self, uid, ci, mi):
        h = self.shelf[ci, mi, uid] = self.get(uid, mi)
        with quiet():
            self.manager(mi).get_parent(h)
            h.get_depth()
        return h

    def read_all(self, ci):
        """The client reads every node it has no current object of."""
        for mi in range(len(self.fam.models)):
            for uid in self.model.nodes():
                h = self.shelf.get((ci, mi, uid))
                if h is None or not self.current(h, uid):
                    self.keep(uid, ci, mi)

    def current(self, h, uid):
        row = self.snap.raw[uid]
        for f, want in row.items():
            if f == "sib_order" and self.fam.sort or f == "pk":
                continue
            got = getattr(h, f, want)
            if f == "path":
                got, want = str(got), str(want)
            if got != want:
                return False
        return h.pk == row["pk"]

    def data(self, step):
        d = step.get("d", [0, 0])
        out = {"val1": d[0], "val2": d[1], "note": f"note{self.step_no}"}
        if self.fam.words:
            out["note"] = WORDS[(3 * d[0] + d[1]) % len(WORDS)]
        if self.fam.rich:
            t = step.get("tag", 0) % 4
            out["tag"] = self.tag_pks[t - 1] if t else None
        return out

    def new_uid(self, suffix=""):
        return f"s{self.step_no}{suffix}"

    def create_args(self, step, uid, data, mi=0):
        kw = {"uid": uid, **data}
        if "tag" in kw:
            kw["tag_id"] = kw.pop("tag")
        m = self.fam.models[mi % len(self.fam.models)]
        if step.get("copy") is not None and self.model.nodes():
            return {"instance": self.copied(self.pick(step["copy"]), mi, m, kw)}
        if step.get("inst"):
            return {"instance": m(**kw)}
        return {"create_kwargs": kw}

    def copied(self, uid, mi, m, kw):
        """A copy of a node object, made the way Django documents it."""
        h = self.get(uid, mi)
        if type(h) is not m:
            return m(**kw)
        with quiet():
            self.manager(mi).get_parent(h)
            h.get_depth()
        h.pk = h.id = None
        h._state.adding = True
        for k, v in kw.items():
            setattr(h, k, v)
        self.stats.add("copied_objects_added")
        return h

    def old_args(self, step, uid, data, mi=0):
        """For the deprecated methods of the model."""
        a = self.create_args(step, uid, data, mi)
        return a if "instance" in a else a["create_kwargs"]

    # ------------------------------------------------------------------ running one request
    def call(self, fn, ci=0, fault=None):
        c = self.clients[ci % len(self.clients)]
        o = Outcome()
        if fault and self.conn.sim_nontransactional and fault["kind"] == "txn_killed":
            fault = dict(fault, kind="err_before")
        c.arm(fault)
        c.dead = False
        kernel.bind(c)
        try:
            with kernel.watchdog():
                o.value = fn()
        except SimCrash as e:
            o.kind, o.exc = "crash", e
        except SimCancel as e:
            o.kind, o.exc = "cancel", e
        except SimRunaway as e:
            o.kind, o.exc = "runaway", e
        except (Violation, StopRun, HarnessError):
            raise
        except Exception as e:
            o.kind, o.exc = "error", e
        finally:
            kernel.bind(None)
            o.fired = c.disarm()
            o.landed = c.commit_landed
        self.stmts += c.op_stmts
        self.stats.add("sim_statements", c.op_stmts)
        if o.fired:
            self.stats.add("fault_" + o.fired)
        if o.kind == "runaway":
            self.fail("runaway", "never-ends", f"step {self.step_no}: still going after {c.op_stmts} statements")
        if c.dead or o.kind == "crash":
            c.dead = True
            self.recover(c)
        elif not self.conn.in_atomic_block:
            self._revive()
        self.log.add("out", o.kind, type(o.exc).__name__ if o.exc else "")
        return o

    def _revive(self):
        raw = self.conn.connection
        if raw is not None and self.engine == "pg" and raw.closed:
            with quiet():
                self.conn.close()

    def recover(self, c):
        """The process died: its connection is gone, a new process starts with nothing in memory."""
        self.conn.sim_after_crash()
        self.chain = {}
        self.shelf = {}
        c.dead = False
        if self.outer:
            _, snap, forest = self.outer
            self.outer = None
            self.snap, self.model = snap, forest
        self.stats.add("restarts")

    def broken_outer(self):
        """True when the outer transaction can only be rolled back."""
        if not self.outer:
            return False
        if self.conn.needs_rollback or self.conn.closed_in_transaction or self.conn.connection is None:
            return True
        if self.engine == "pg":
            raw = self.conn.connection
            return raw.closed or raw.info.transaction_status not in (0, 1, 2)
        return not self.conn.connection.in_transaction and not self.conn.sim_nontransactional

    # outer transactions
    def begin_outer(self, ci):
        if self.outer:
            return
        ctx = transaction.atomic(using=self.alias)
        o = self.call(ctx.__enter__, ci)
        if o.kind != "ok":
            raise StopRun("begin failed")
        self.outer = (ctx, self.snap, self.model.copy())
        self.stats.add("outer_transactions")

    def end_outer(self, commit, ci=0, fault=None):
        if not self.outer:
            return
        ctx, snap, forest = self.outer
        broken = self.broken_outer()
        self.outer = None
        if commit and not broken:
            before = self.snap
            o = self.call(lambda: ctx.__exit__(None, None, None), ci, fault)
            self._revive()
            if o.kind == "ok":
                self.settle("commit", before, None)
                return
            if o.kind == "crash" or o.fired:
                self.chain = {}
                self.shelf = {}
                now = observe(self.fam, self.alias)
                want = before if o.landed else snap
                self.same_state(now, want, f"after {o.fired} at the commit of the caller's transaction")
                self.accept(now)
                return
            raise StopRun(f"commit failed: {o.exc!r}")
        o = self.call(lambda: ctx.__exit__(RuntimeError, RuntimeError("rollback"), None), ci)
        self._revive()
        self.chain = {}
        self.shelf = {}
        now = observe(self.fam, self.alias)
        self.same_state(now, snap, "after the caller rolled back")
        self.accept(now)
        if self.mirror is not None:
            self.mirror.load(self)

    def accept(self, now):
        self.snap = now
        self.model = Forest.of(now, self.fam.key if self.fam.sort else None)
        if self.mirror is not None:
            self.mirror.load(self)

    # ------------------------------------------------------------------ judging
    def same_state(self, now, want, when):
        if now.raw == want.raw:
            return
        diffs = []
        for u in sorted(set(now.raw) | set(want.raw)):
            if now.raw.get(u) != want.raw.get(u):
                diffs.append(f"{u}: {_short(want.raw.get(u))} became {_short(now.raw.get(u))}")
        self.fail("atomic", "partial", f"step {self.step_no} {when}: {'; '.join(diffs[:4])}")

    def settle(self, label, now, expect):
        """State after a successful request."""
        if expect is not None:
            d = expect.diff(now)
            if d and not self.passed_over("model"):
                self.fail("model", "wrong-tree", f"step {self.step_no} {label}: {d}")
        self.sound(now, label)
        self.accept_quiet(now)

    def accept_quiet(self, now):
        self.snap = now
        self.model = Forest.of(now, self.fam.key if self.fam.sort else None)
        self.note_state(now)

    def note_state(self, now):
        if self.stats.states is not None:

            def rec(p):
                return [(self.fam.key(now.data[c]) if self.fam.sort else 0, rec(c)) for c in now.children.get(p, ())]

            txt = repr((self.engine, self.fam.name, rec(None)))
            self.stats.states.add(int.from_bytes(hashlib.blake2b(txt.encode(), digest_size=8).digest(), "big"))

    def sound(self, now, label):
        if now.problems and not self.passed_over("sound"):
            self.fail("sound", "bookkeeping", f"step {self.step_no} {label}: {'; '.join(now.problems[:3])}")
        if self.on("find_problems") and self.fam.impl in ("MP", "NS") and not self.conn.needs_rollback:
            with quiet():
                for mi in range(len(self.fam.models)):
                    probs = self.fam.models[mi].objects.find_problems()
                    if any(probs):
                        self.fail("find_problems", "false-problem", f"step {self.step_no} {label}: find_problems {probs}")

    # ------------------------------------------------------------------ steps
    def step(self, step):
        op = step["op"]
        ci = self.ci = step.get("c", 0) % len(self.clients)
        self.reused = 0
        if self.cfg.get("shelf") and not self.broken_outer():
            self.read_all(ci)
        if op == "begin":
            return self.begin_outer(ci)
        if op == "commit":
            return self.end_outer(True, ci, step.get("f"))
        if op == "rollback":
            return self.end_outer(False, ci)
        if op == "restart":
            if not self.outer:
                self.conn.sim_after_crash()
                self.chain = {}
                self.shelf = {}
                self.stats.add("restarts")
            return
        req = getattr(self, "op_" + op)(step, ci)
        if req is None:
            self.stats.add("skipped")
            return
        if "sweep" in step and not self.outer:
            return self.sweep(op, step, ci)
        self.request(step, ci, req)

    SWEEP_MAX = 60

    def sweep(self, op, step, ci):
        """The same request again and again, failing one statement later each time, until it gets through."""
        step = dict(step, h="get" if step.get("h") == "chain" else step.get("h", "get"))
        for k in range(1, self.SWEEP_MAX + 1):
            req = getattr(self, "op_" + op)(step, ci)
            if req is None:
                return
            s = dict(step, f={"kind": step["sweep"], "k": k} if k < self.SWEEP_MAX else None)
            o = self.request(s, ci, req)
            if not o.fired or o.landed:
                return
            self.stats.add("swept_fault_positions")

    def request(self, step, ci, req):
        """req: dict(label, do, expect(model) -> None, handles {uid: obj}, created uid)"""
        before = self.snap
        model = self.model.copy()
        rejects = None
        try:
            req["expect"](model)
        except Reject as r:
            rejects = r
        self.stats.add("requests")
        self.stats.add("op_" + step["op"])
        if self.mirror is not None:
            self.mirror.begin(self)
        in_outer = self.outer is not None
        if self.hooks_before:
            self.hooks_before(step, req)
        if self.on("reject_handles"):
            req["attrs"] = [(u, h, attrs_of(h)) for u, h in [*req.get("handles", {}).items(), *req.get("objects", [])]]
        o = self.call(req["do"], ci, step.get("f"))
        label = req["label"]
        self.judge(step, ci, req, before, model, rejects, o, label, in_outer)
        return o

    hooks_before = None
    after_bad = False  # a refused request is part of this history

    def judge(self, step, ci, req, before, model, rejects, o, label, in_outer):
        if o.fired:
            label += f" [{o.fired}]"
        if o.kind == "crash":
            # recover() already dropped an outer transaction with the process
            now = observe(self.fam, self.alias)
            if o.landed and not in_outer:
                self.ambiguous(now, model, label)
            else:
                self.same_state(now, self.snap, f"{label}: process died in the middle")
                self.sound(now, label)
            self.accept(now)
            return
        if self.outer and o.kind == "error" and rejects is not None and not o.fired and self.broken_outer():
            self.fail("reject_state", "rejected-and-broke-transaction", f"step {self.step_no} {label} raised {o.exc!r}, the caller's transaction is unusable")
        if self.outer and (o.kind == "cancel" or self.broken_outer()):
            # (an interruption goes through the caller's transaction block as well)
            self.chain = {}
            if o.kind == "ok":
                raise StopRun("request succeeded but its transaction is unusable")
            if not o.fired and not self.expected_error(o, rejects, req, before):
                if rejects is not None:
                    self.fail("reject", "wrong-exception", f"step {self.step_no} {label}: {o.exc!r}")
                self.unexpected(o, label)
            self.end_outer(False, ci)
            return
        now = observe(self.fam, self.alias)
        if o.kind == "ok":
            if rejects is not None and not o.fired:
                self.fail(
                    "reject", "accepted", f"step {self.step_no} {label}: accepted, {rejects.names} expected"
                )
            if rejects is not None:
                raise StopRun("accepted")
            self.after_ok(step, ci, req, before, now, model, o, label)
            return
        # the request failed
        if o.fired:
            if o.landed and not in_outer:
                self.ambiguous(now, model if rejects is None else None, label)
                self.sound(now, label)
            else:
                self.same_state(now, before, f"{label} failed with {type(o.exc).__name__}")
                self.sound(now, label)
            self.chain = {}
            self.shelf = {}
            self.accept(now)
            return
        name = type(o.exc).__name__
        if not self.expected_error(o, rejects, req, before):
            if rejects is not None:
                self.fail("reject", "wrong-exception", f"step {self.step_no} {label}: {name} raised, {' or '.join(rejects.names)} expected")
            self.unexpected(o, label)
        self.stats.add("rejected_" + name)
        if now.raw != before.raw:
            self.fail("reject_state", "rejected-but-changed", f"step {self.step_no} {label} raised {name}: " + _rawdiff(before, now))
        if self.on("reject_handles") and rejects is not None:
            for uid, h, attrs in req["attrs"]:
                if attrs != attrs_of(h):
                    d = {k: (attrs.get(k), v) for k, v in attrs_of(h).items() if attrs.get(k) != v}
                    self.fail("reject_handles", "rejected-but-object-changed", f"step {self.step_no} {label} raised {name}, {uid} in memory: {d}")
        self.sound(now, label)
        self.accept_quiet(now)
        if self.mirror is not None:
            self.mirror.load(self)
        self.after_reject(step, ci, req, now, o)

    def after_reject(self, step, ci, req, now, o):
        if self.on("reject_handles") and step["op"] == "bad":
            self.after_bad = True
            # a refused request leaves the caller's objects as good as they were
            self.chain = {ci: {**self.chain.get(ci, {}), **req.get("handles", {})}}

    def ambiguous(self, now, model, label):
        """The commit was sent and landed, the caller got an error: all of it must be there."""
        if model is not None:
            d = model.diff(now)
            if d:
                self.fail("atomic", "partial", f"step {self.step_no} {label}: committed, but {d}")

    def after_ok(self, step, ci, req, before, now, model, o, label):
        self.settle(label, now, model)
        self.stats.add("ok_" + step["op"])
        handles = dict(req.get("handles", {}))
        if req.get("created") and o.value is not None:
            handles[req["created"]] = o.value
        if self.on("handles"):
            self.check_handles(dict(req, handles=handles), now, label)
            if req.get("twin"):
                u, h = req["twin"]
                self.check_handles(dict(req, handles={u: h}), now, f"{label} (two objects)")
        if self.mirror is not None:
            self.mirror.compare(self, label)
        # handles of everybody else may be stale now; this client's node and target are fresh
        self.chain = {ci: handles}
        for u, h in handles.items():
            if u in now.raw:
                self.shelf.setdefault((ci, step.get("mi", 0), u), h)
        if "check" in req:
            req["check"](o, before, now)

    def unexpected(self, o, label):
        self.fail(
            "model",
            "unexpected-exception",
            f"step {self.step_no} {label}: {type(o.exc).__name__}: {str(o.exc)[:200]}",
        )

    def expected_error(self, o, rejects, req, before):
        name = type(o.exc).__name__
        if rejects is not None and name in rejects.names:
            return True
        if name == "PathOverflow" and self.fam.impl == "MP" and self.overflow_ok(req, before):
            return True
        return False

    def overflow_ok(self, req, before):
        """Path overflow belongs to C15; everybody else only knows that it may happen in small trees."""
        return self.fam.small

    # ------------------------------------------------------------------ handles
    def check_handles(self, req, now, label):
        for uid, h in req.get("handles", {}).items():
            if h is None or uid not in now.raw:
                continue
            row = now.raw[uid]
            for f in TREE_FIELDS[self.fam.impl]:
                if f == "sib_order" and self.fam.sort:
                    continue
                want = row[f]
                got = getattr(h, f)
                if f == "path" and self.fam.impl == "LT":
                    want, got = str(want), str(got)
                if want != got:
                    self.fail("handles", "stale-handle", f"step {self.step_no} {label}: {uid}.{f} is {got!r} in memory, {want!r} stored")
            if h.pk != row["pk"]:
                self.fail("handles", "stale-handle", f"step {self.step_no} {label}: {uid} pk {h.pk!r}, {row['pk']!r} stored")
            self.check_reads_of(uid, h, now, label)

    reused = 0
    ci = 0

    def check_reads_of(self, uid, h, now, label):
        """Reads through the handle agree with the stored tree."""
        m = Forest.of(now, self.fam.key if self.fam.sort else None)
        mgr = self.manager(0)
        # (reading may refresh what an object remembers, and the client has not read anything)
        if self.step_no % 3:
            h = copy.copy(h)
        with quiet():
            par = mgr.get_parent(h)
            facts = [
                ("get_depth", h.get_depth(), m.depth(uid)),
                ("is_root", h.is_root(), m.parent[uid] is None),
                ("is_leaf", h.is_leaf(), not m.children[uid]),
                ("get_parent", par.uid if par is not None else None, m.parent[uid]),
                ("get_children_count", mgr.get_children_count(h), len(m.children[uid])),
                ("get_descendant_count", mgr.get_descendant_count(h), len(m.subtree(uid)) - 1),
                ("get_children", sorted(x.uid for x in mgr.get_children(h)), sorted(m.children[uid])),
                ("get_siblings", sorted(x.uid for x in mgr.get_siblings(h)), sorted(m.siblings(uid))),
                ("get_ancestors", [x.uid for x in mgr.get_ancestors(h)], m.ancestors(uid)),
                ("get_descendants", sorted(x.uid for x in mgr.get_descendants(h)), sorted(m.subtree(uid)[1:])),
                ("get_root", mgr.get_root(h).uid, (m.ancestors(uid) or [uid])[0]),
            ]
            if not self.fam.sort:
                sibs, kids = m.siblings(uid), m.children[uid]
                i = sibs.index(uid)
                name = lambda x: x.uid if x is not None else None  # noqa: E731
                facts += [
                    ("get_next_sibling", name(mgr.get_next_sibling(h)), sibs[i + 1] if i + 1 < len(sibs) else None),
                    ("get_prev_sibling", name(mgr.get_prev_sibling(h)), sibs[i - 1] if i else None),
                    ("get_first_child", name(mgr.get_first_child(h)), kids[0] if kids else None),
                    ("get_last_child", name(mgr.get_last_child(h)), kids[-1] if kids else None),
                ]
        for name, got, want in facts:
            if got != want:
                self.fail("handles", "stale-read", f"step {self.step_no} {label}: {name} of {uid} gives {got!r}, stored tree has {want!r}")

    # ------------------------------------------------------------------ operations
    def op_add_root(self, step, ci):
        uid, data = self.new_uid(), self.data(step)
        mi = step.get("mi", 0)
        return {
            "label": f"add_root({uid})",
            "do": lambda: (
                self.fam.models[mi].add_root(**self.old_args(step, uid, data, mi))
                if step.get("api")
                else self.manager(mi).add_root(**self.create_args(step, uid, data, mi))
            ),
            "expect": lambda m: m.add(uid, data, None),
            "room": (None, 1, 1, 1),
            "handles": {},
            "created": uid,
        }

    def op_add_child(self, step, ci):
        t = self.pick(step.get("t", 0), rel=step.get("rel"))
        if t is None:
            return self.op_add_root(step, ci)
        uid, data = self.new_uid(), self.data(step)
        mi = step.get("mi", 0)
        th = self.handle(step, t, ci)
        return {
            "label": f"add_child({t}, {uid})",
            "do": lambda: (
                th.add_child(**self.old_args(step, uid, data, mi))
                if step.get("api")
                else self.manager(mi).add_child(th, **self.create_args(step, uid, data, mi))
            ),
            "expect": lambda m: m.add(uid, data, t),
            "room": (t, 1, 1, 1),
            "handles": {t: th},
            "created": uid,
        }

    def op_add_sibling(self, step, ci):
        t = self.pick(step.get("t", 0), rel=step.get("rel"))
        if t is None:
            return self.op_add_root(step, ci)
        uid, data = self.new_uid(), self.data(step)
        mi = step.get("mi", 0)
        pos = self.pos(step, False)
        th = self.handle(step, t, ci)
        return {
            "label": f"add_sibling({t}, {pos!r}, {uid})",
            "do": lambda: (
                th.add_sibling(pos, **self.old_args(step, uid, data, mi))
                if step.get("api")
                else self.manager(mi).add_sibling(th, pos, **self.create_args(step, uid, data, mi))
            ),
            "expect": lambda m: m.add_sibling(uid, data, t, pos),
            "room": (self.model.parent[t], 1, 1, 1),
            "handles": {t: th},
            "created": uid,
        }

    def pos(self, step, move):
        """Positions are stored by index so that a step stays valid for any family."""
        if "pos" in step:
            return step["pos"]
        i = step.get("p", 0)
        if self.fam.sort:
            opts = ["sorted-sibling", None, "sorted-child"] if move else ["sorted-sibling", None]
        elif move:
            opts = ["first-child", "last-child", "first-sibling", "left", "right", "last-sibling", None]
        else:
            opts = ["first-sibling", "left", "right", "last-sibling", None]
        return opts[i % len(opts)]

    def op_move(self, step, ci):
        n = self.pick(step.get("n", 0), rel=step.get("nrel"))
        if n is None:
            return None
        t = self.pick(step.get("t", 0), near=n, rel=step.get("rel"))
        mi = step.get("mi", 0)
        pos = self.pos(step, True)
        nh = self.handle(step, n, ci)
        twin = t == n and not step.get("same", True)
        th = nh if t == n and not twin else self.get(t, mi) if twin else self.handle(step, t, ci)
        return {
            "label": f"move({n}, {t}, {pos!r})",
            "do": lambda: nh.move(th, pos) if step.get("api") else self.manager(mi).move(nh, th, pos),
            "expect": lambda m: m.move(n, t, pos),
            "room": (t if pos in CHILD_POS else self.model.parent[t], 1, self.model.height(n), 1),
            "handles": {n: nh} if t == n else {n: nh, t: th},
            "twin": (n, th) if twin else None,
        }

    def op_revalue(self, step, ci):
        """The application gives a node other sort values and puts it in its place, in one transaction."""
        if not self.fam.sort:
            return None
        n = self.pick(step.get("n", 0), rel=step.get("nrel"))
        if n is None:
            return None
        t = self.pick(step.get("t", 0), near=n, rel=step.get("rel"))
        mi = step.get("mi", 0)
        pos = self.pos(step, True)
        if t in self.model.subtree(n)[1:] or (t == n and pos == "sorted-child"):
            return None
        d = self.data({"d": step["d"], "tag": 0})
        new = {f: d[f] for f, _ in self.fam.sort}
        nh = self.get(n, mi)
        th = nh if t == n else self.get(t, mi)

        def do():
            with transaction.atomic(using=self.alias):
                for f, v in new.items():
                    setattr(nh, f, v)
                nh.save(update_fields=list(new)) if step.get("uf") else nh.save()
                self.manager(mi).move(nh, th, pos)

        def expect(m):
            m.data[n].update(new)
            m.move(n, t, pos)

        return {
            "label": f"save {new} and move({n}, {t}, {pos!r})",
            "do": do,
            "expect": expect,
            "room": (t if pos in CHILD_POS else self.model.parent[t], 1, self.model.height(n), 1),
            "handles": {n: nh} if t == n else {n: nh, t: th},
        }

    def op_delete(self, step, ci):
        n = self.pick(step.get("n", 0), rel=step.get("nrel"))
        if n is None:
            return None
        how = step.get("how", "node")
        mi = step.get("mi", 0)
        mgr = self.manager(mi)
        sel = [n]
        nodes = self.model.nodes()
        if how in ("qs", "qs_rev", "qs_note", "qs_depth"):
            for k in step.get("more", []):
                u = nodes[k % len(nodes)]
                if u not in sel:
                    sel.append(u)
        if self.fam.mti and mi % 2 == 0 and how not in ("node",):
            with quiet():
                items = set(self.fam.models[0].objects.values_list("uid", flat=True))
        else:
            items = None
        if how == "node":
            h = self.handle(step, n, ci)
            fn = h.delete
        elif how == "children":
            h = self.handle(step, n, ci)
            sel = list(self.model.children[n])
            fn = lambda: mgr.get_children(h).delete()  # noqa: E731
            items = None
        elif how == "descendants" and self.fam.impl != "AL":
            h = self.handle(step, n, ci)
            sel = self.model.subtree(n)[1:]
            fn = lambda: mgr.get_descendants(h).delete()  # noqa: E731
            items = None
        elif how == "siblings":
            h = self.handle(step, n, ci)
            sel = list(self.model.siblings(n))
            fn = lambda: mgr.get_siblings(h).delete()  # noqa: E731
            items = None
        elif how == "all":
            sel = nodes
            fn = lambda: mgr.all().delete()  # noqa: E731
        elif how == "query":
            qs = self.a_query(mgr, step, [self.snap.pk[u] for u in sel + [nodes[k % len(nodes)] for k in step.get("more", [])]])
            with quiet():
                sel = sorted({x.uid for x in qs()})
            fn = lambda: qs().delete()  # noqa: E731
            items = None
        else:
            pks = [self.snap.pk[u] for u in sel]
            if how == "qs_rev":
                fn = lambda: mgr.filter(pk__in=pks).order_by("-uid").delete()  # noqa: E731
            elif how == "qs_note":
                notes = [self.model.data[u]["note"] for u in sel]
                sel = [u for u in nodes if self.model.data[u]["note"] in notes]
                fn = lambda: mgr.filter(note__in=notes).delete()  # noqa: E731
            else:
                fn = lambda: mgr.filter(pk__in=pks).delete()  # noqa: E731
        if items is not None:
            sel = [u for u in sel if u in items]
        gone = set()
        for u in sel:
            gone.update(self.model.subtree(u))
        protected = self.protected(gone)

        def expect(m):
            if protected:
                raise Reject("ProtectedError")
            m.delete(sel)

        req = {
            "label": f"delete[{how}]({sorted(sel)})",
            "do": fn,
            "expect": expect,
            "handles": {},
            "gone": gone,
        }
        if self.on("delete"):
            self.delete_oracle(req)
        return req

    def a_query(self, mgr, step, pks):
        """Conditions on the tree's own columns, on relations and on subqueries."""
        impl, style, k = self.fam.impl, step.get("style", 0) % 9, step.get("n", 0) % 3 + 1
        if style == 0:  # leaves
            on = {"MP": Q(numchild=0), "NS": Q(rgt=F("lft") + 1), "AL": Q(children_set=None), "LT": Q(path__depth__gte=2)}[impl]
            return lambda: mgr.filter(on, pk__in=pks)
        if style == 1:  # a level
            if impl == "AL":
                return lambda: mgr.filter(**{"__".join(["parent"] * k): None})
            return lambda: mgr.filter(**{"path__depth" if impl == "LT" else "depth": k})
        if style == 2:  # a row for each of many relations
            if self.fam.rich:
                return lambda: mgr.filter(tags__isnull=False)
            if impl == "AL":
                return lambda: mgr.filter(children_set__isnull=False, pk__in=pks)
            style = 4
        if style == 3:
            return lambda: mgr.filter(pk__in=pks).only("uid")
        if style == 4:
            return lambda: mgr.filter(pk__in=mgr.filter(pk__in=pks).order_by("-uid").values("pk"))
        if style == 5:
            return lambda: mgr.exclude(pk__in=pks)
        if style == 6:
            return lambda: mgr.filter(pk__in=pks).annotate(more=F("val1") + 1).filter(more__gt=k)
        if style == 7:
            return lambda: mgr.filter(pk__in=pks).distinct().order_by("note")
        return lambda: mgr.filter(pk__in=pks[:1]) | mgr.filter(pk__in=pks[1:])

    def protected(self, gone):
        if not self.fam.rich:
            return False
        with quiet():
            pks = [self.snap.pk[u] for u in gone]
            return self.fam.rich[2].objects.using(self.alias).filter(node_id__in=pks).exists()

    UNKNOWN_POS = ("", "first", "last", "child", "LEFT", "right-sibling", "middle", "first-child", "last-child", "sorted-child")

    def op_bad(self, step, ci):
        """A request the documentation rules out."""
        kind = step.get("kind", 0) % 8
        n = self.pick(step.get("n", 0), rel=step.get("nrel"))
        if n is None and kind not in (5, 6, 7):
            return None
        t = self.pick(step.get("t", 0), near=n, rel=step.get("rel")) if n is not None else None
        m, mi = self.model, step.get("mi", 0)
        uid, data = self.new_uid(), self.data(step)
        names = set()
        objects = []

        def expect(_):
            raise Reject(*sorted(names))

        req = {"expect": expect, "handles": {}, "objects": objects}
        p = step.get("p", 0)
        mgr = self.manager(mi)
        if kind in (0, 2):  # add_sibling with a wrong position
            if kind == 0:
                pos = self.UNKNOWN_POS[p % len(self.UNKNOWN_POS)]
                names.add("InvalidPosition")
            elif self.fam.sort:
                pos = ("first-sibling", "left", "right", "last-sibling")[p % 4]
                names.add("InvalidPosition")
            else:
                pos = "sorted-sibling"
                names.add("MissingNodeOrderBy")
            h = self.handle(step, n, ci)
            args = self.create_args(step, uid, data, mi)
            if "instance" in args:
                objects.append((uid, args["instance"]))
            req.update(label=f"add_sibling({n}, {pos!r}, {uid})", do=lambda: mgr.add_sibling(h, pos, **args), handles={n: h})
            return req
        if kind in (1, 3):
            if kind == 1:
                pos = self.UNKNOWN_POS[p % 7]
                names.add("InvalidPosition")
            elif self.fam.sort:
                pos = ("first-sibling", "left", "right", "last-sibling", "first-child", "last-child")[p % 6]
                names.add("InvalidPosition")
            else:
                pos = ("sorted-sibling", "sorted-child")[p % 2]
                names.add("MissingNodeOrderBy")
            below = t in m.subtree(n)[1:] or (t == n and pos.endswith("child"))
            if below:
                names.add("InvalidMoveToDescendant")
        elif kind == 4:
            sub = m.subtree(n)
            t = sub[step.get("t", 0) % len(sub)]
            if self.fam.sort:
                opts = ["sorted-child"] + (["sorted-sibling", None] if t != n else [])
            else:
                opts = ["first-child", "last-child"]
                if t != n:
                    opts += ["first-sibling", "left", "right", "last-sibling", None]
            pos = opts[p % len(opts)]
            names.add("InvalidMoveToDescendant")
        if kind in (1, 3, 4):
            nh = self.handle(step, n, ci)
            if t != n:
                th = self.handle(step, t, ci)
            elif step.get("same", True):
                th = nh
            else:
                th = self.get(n, mi)
                objects.append((n, th))
            req.update(
                label=f"move({n}, {t}, {pos!r})",
                do=lambda: mgr.move(nh, th, pos),
                handles={n: nh} if t == n else {n: nh, t: th},
            )
            return req
        # wrong arguments for the new node
        how = ("root", "child", "sibling")[p % 3] if n is not None else "root"
        args = self.create_args(dict(step, inst=True), uid, data, mi)
        kw = self.create_args(dict(step, inst=False), uid, data, mi)
        if kind == 5:
            if n is None:
                return None
            saved = self.pick(step.get("s", 0))
            sh = self.handle(step, saved, ci)
            args = {"instance": sh}
            objects.append((saved, sh))
            names.add("NodeAlreadySaved")
        elif kind == 6:
            objects.append((uid, args["instance"]))
            args.update(kw)
            names.add("ValueError")
        else:
            args = {}
            names.add("ValueError")
        if how == "root":
            req.update(label=f"add_root({sorted(args)})", do=lambda: mgr.add_root(**args))
        else:
            h = self.handle(step, n, ci)
            req["handles"] = {n: h}
            if how == "child":
                req.update(label=f"add_child({n}, {sorted(args)})", do=lambda: mgr.add_child(h, **args))
            else:
                req.update(label=f"add_sibling({n}, None, {sorted(args)})", do=lambda: mgr.add_sibling(h, None, **args))
        return req

    # dependants
    def op_dep(self, step, ci):
        n = self.pick(step.get("n", 0))
        if n is None:
            return None
        kind = step.get("k", 0) % 5
        self.dep_no += 1
        name = f"d{self.dep_no}"
        with quiet():
            if self.fam.mti:
                if not self.fam.extra_tables:
                    return None
                item = self.fam.models[0]._base_manager.using(self.alias).filter(pk=self.snap.pk[n]).first()
                if item is not None:
                    self.fam.extra_tables[0].objects.using(self.alias).create(item=item, name=name)
            elif not self.fam.rich:
                return None
            elif kind == 3:
                h = self.get(n)
                h.tags.add(self.tag_pks[step.get("tag", 0) % len(self.tag_pks)])
            elif kind == 4:
                d = self.fam.rich[0].objects.using(self.alias).create(node_id=self.snap.pk[n], name=name)
                self.fam.rich[3].objects.using(self.alias).create(dep=d, name=name)
            else:
                self.fam.rich[kind].objects.using(self.alias).create(node_id=self.snap.pk[n], name=name)
        self.stats.add("dependants")
        return None

    def op_undep(self, step, ci):
        if self.fam.rich:
            with quiet():
                self.fam.rich[2].objects.using(self.alias).all().delete()
        return None

    def op_setval(self, step, ci):
        """The application changes a field that has nothing to do with the tree."""
        n = self.pick(step.get("n", 0))
        if n is None:
            return None
        h = self.handle(step, n, ci)
        note = h.note if self.fam.words else f"note{self.step_no}"

        def do():
            h.note = note
            h.save(update_fields=["note"]) if step.get("uf") else h.save()

        def expect(m):
            m.data[n]["note"] = note

        return {"label": f"save({n})", "do": do, "expect": expect, "handles": {n: h}}

    # bulk loading
    def shape(self, spec, step, prefix):
        """spec: nested lists of [v1, v2, children]"""
        out = []
        for i, (v1, v2, kids) in enumerate(spec):
            uid = f"{prefix}.{i}"
            data = {"val1": v1, "val2": v2, "note": WORDS[v1 % len(WORDS)] if self.fam.words else f"b{v1}"}
            if self.fam.rich:
                data["tag"] = self.tag_pks[v1 % 3]
            out.append((uid, data, self.shape(kids, step, uid)))
        return out

    def bulk_data(self, items):
        out = []
        for uid, data, kids in items:
            d = {"uid": uid, **data}
            if self.fam.rich:
                d["tags"] = [self.tag_pks[data["val1"] % 3]]
            item = {"data": d}
            if kids:
                item["children"] = self.bulk_data(kids)
            out.append(item)
        return out

    def op_load(self, step, ci):
        parent = None
        if step.get("under"):
            parent = self.pick(step.get("t", 0))
        items = self.shape(step.get("shape", []), step, self.new_uid("b"))
        mi = step.get("mi", 0)
        ph = self.handle(step, parent, ci) if parent else None
        kw = {}
        if self.fam.impl == "MP" and step.get("bulk") and not self.fam.mti and not self.fam.sort:
            kw["bulk_create"] = True
            if step.get("batch"):
                kw["batch_size"] = step["batch"]
        data = self.bulk_data(items)
        n = _count(items)

        def check(o, before, now):
            if self.on("load"):
                ids = o.value
                new = {now.pk[u] for u in now.raw if u not in before.raw}
                if len(ids) != n or set(ids) != new:
                    self.fail("load", "wrong-ids", f"step {self.step_no}: load_bulk returned {ids!r}, created {sorted(map(str, new))}")

        return {
            "label": f"load_bulk({n} nodes under {parent}{', bulk_create' if kw else ''})",
            "do": lambda: self.manager(mi).load_bulk(data, parent=ph, keep_ids=False, **kw),
            "expect": lambda m: m.load(items, parent),
            "room": (parent, len(items), _height(items), _fan(items)),
            "handles": {},
            "check": check,
        }

    def op_resort(self, step, ci):
        """Sorted values change, then the tree is put in order again (by itself, or by repairing the paths)."""
        if not self.fam.sort or self.fam.impl not in ("MP", "AL"):
            return None
        nodes = self.model.nodes()
        if not nodes:
            return None
        changes = {}
        for k, d in step.get("changes", []):
            changes[nodes[k % len(nodes)]] = self.data({"d": d, "tag": 0})
        parent = None
        if step.get("under"):
            parent = self.pick(step.get("t", 0))
            changes = {u: d for u, d in changes.items() if u in self.model.subtree(parent)[1:]}

        def do():
            for u, d in changes.items():
                h = self.get(u)
                for f, _ in self.fam.sort:
                    setattr(h, f, d[f])
                h.save()
            if self.fam.impl == "MP":
                self.manager(0).fix_tree(fix_paths=True, parent=self.get(parent) if parent else None)

        def expect(m):
            for u, d in changes.items():
                for f, _ in self.fam.sort:
                    m.data[u][f] = d[f]
            for cs in m.children.values():
                cs.sort(key=lambda u: m.key(m.data[u]))

        return {"label": f"resort({changes}, {parent})", "do": do, "expect": expect, "handles": {}}

    def op_fix(self, step, ci):
        if self.fam.impl != "MP":
            return None
        parent = self.pick(step.get("t", 0)) if step.get("under") else None
        ph = self.handle(step, parent, ci) if parent else None
        return {
            "label": f"fix_tree({bool(step.get('paths'))}, {parent})",
            "do": lambda: self.manager(0).fix_tree(fix_paths=bool(step.get("paths")), parent=ph),
            "expect": lambda m: None,
            "handles": {},
        }

    def delete_oracle(self, req):
        pass


WORDS = ("pear", "fig", "figs", "apple", "kiwi", "p", "Fig", "")


def attrs_of(h):
    d = {f.attname: getattr(h, f.attname, None) for f in h._meta.concrete_fields}
    d["adding"] = h._state.adding
    return {k: str(v) for k, v in d.items()}


def _height(items):
    return 1 + max([_height(k) for _, _, k in items], default=0) if items else 0


def _fan(items):
    return max([len(items), *(_fan(k) for _, _, k in items)])


def _count(items):
    return sum(1 + _count(k) for _, _, k in items)


def _short(raw):
    if raw is None:
        return "nothing"
    return "{" + ", ".join(f"{k}={v}" for k, v in raw.items() if k not in ("pk", "uid", "val1", "val2", "note")) + "}"


def _rawdiff(before, now):
    diffs = []
    for u in sorted(set(now.raw) | set(before.raw)):
        if now.raw.get(u) != before.raw.get(u):
            diffs.append(f"{u}: {_short(before.raw.get(u))} became {_short(now.raw.get(u))}")
    return "; ".join(diffs[:4])


__all__ = ["World", "Violation", "StopRun", "AppError", "ProtectedError"]
