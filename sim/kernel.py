"""Simulation kernel: the seam every database interaction of the code under test
goes through, the fault injector, the event log and the seeded choices.

The code under test (treebeard and Django's ORM) is real.  The database *connection* is
the seam: ``sim.backends`` subclass Django's own SQLite / PostgreSQL backends and report
every statement, fetch, commit and rollback here, before and after it happens.  Whatever
is decided here (which client runs next, which statement fails and how, where a process
dies) is a pure function of the trace being executed.
"""

import hashlib
import signal
import threading

from django.db.utils import OperationalError


class SimCrash(BaseException):
    """The simulated process died: nothing it does afterwards reaches the database."""


class SimCancel(BaseException):
    """The operation was interrupted from outside (signal / worker time-out)."""


class SimRunaway(BaseException):
    """An operation exceeded the statement budget (never terminates)."""


class AppError(Exception):
    """Raised by an application signal receiver."""


class HarnessError(Exception):
    """The harness itself is wrong; never reported as a violation."""


_tls = threading.local()


def current():
    return getattr(_tls, "client", None)


def bind(client):
    _tls.client = client


class quiet:
    """Statements issued inside are the harness's own: not counted, not faulted, not scheduled."""

    def __enter__(self):
        self.prev = getattr(_tls, "client", None)
        _tls.client = None
        return self

    def __exit__(self, *exc):
        _tls.client = self.prev
        return False


STATEMENT_BUDGET = 6000
WALL_BUDGET = 40  # seconds for one request; a normal one takes milliseconds


class watchdog:
    """Ends a request that loops without talking to the database (main thread only)."""

    def __init__(self, seconds=WALL_BUDGET):
        self.seconds = seconds

    def __enter__(self):
        self.on = threading.current_thread() is threading.main_thread()
        if self.on:
            self.prev = signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *exc):
        if self.on:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.prev)
        return False


def _alarm(sig, frame):
    raise SimRunaway("no end in sight")


def verb(sql):
    s = str(sql).lstrip().split(None, 1)
    return s[0].upper() if s else "?"


def table_of(sql):
    s = str(sql)
    for key in ('UPDATE "', 'INTO "', 'FROM "'):
        i = s.find(key)
        if i >= 0:
            j = s.find('"', i + len(key))
            return s[i + len(key) : j]
    return ""


class EventLog:
    def __init__(self, keep=False):
        self.h = hashlib.sha256()
        self.n = 0
        self.keep = [] if keep else None

    def add(self, *parts):
        line = "|".join(str(p) for p in parts)
        self.h.update(line.encode() + b"\n")
        self.n += 1
        if self.keep is not None:
            self.keep.append(line)

    def digest(self):
        return self.h.hexdigest()[:16]


# Faults that hit a statement, and the ones that hit a commit
STATEMENT_FAULTS = ("err_before", "err_after", "txn_killed", "crash", "crash_after", "cancel", "fetch_err", "integrity")
COMMIT_FAULTS = ("commit_fail", "commit_ambig", "crash_commit", "crash_committed")
SIGNAL_FAULTS = ("receiver",)
ALL_FAULTS = STATEMENT_FAULTS + COMMIT_FAULTS + SIGNAL_FAULTS


class Client:
    """One simulated process using the tree (its own connection, its own handles)."""

    def __init__(self, name, log, sched=None, engine="sqlite"):
        self.name = name
        self.log = log
        self.sched = sched
        self.engine = engine
        self.fault = None  # {"kind":..., "k":...}
        self.fired = None
        self.commit_landed = False
        self.dead = False
        self.count = {"stmt": 0, "fetch": 0, "signal": 0, "commit": 0}
        self.total_stmts = 0
        self.op_stmts = 0
        self.observer = None  # called after every statement/commit (reader interleavings)
        self.in_observer = False
        self.on_statement = None
        self.blocked = False

    # ---- fault arming
    def arm(self, fault):
        self.fault = dict(fault) if fault else None
        self.fired = None
        self.commit_landed = False
        self.op_stmts = 0
        self._pending = self._pending_commit = None
        self.count = {"stmt": 0, "fetch": 0, "signal": 0, "commit": 0}

    def disarm(self):
        fired, self.fault = self.fired, None
        return fired

    def _hit(self, counter):
        self.count[counter] += 1
        f = self.fault
        return f is not None and self.fired is None and self.count[counter] == f["k"]

    def _fire(self):
        self.fired = self.fault["kind"]
        self.log.add(self.name, "FAULT", self.fired)

    # ---- hooks called by the backends
    def before_execute(self, conn, sql):
        if self.dead:
            raise SimCrash("dead process")
        self.op_stmts += 1
        self.total_stmts += 1
        if self.op_stmts > STATEMENT_BUDGET:
            raise SimRunaway("statement budget exceeded")
        v, t = verb(sql), table_of(sql)
        if self.on_statement is not None:
            self.on_statement(conn, v, t)
        if self.sched is not None:
            self.sched.park(self, v, t, conn)
            if self.dead:
                raise SimCrash("dead process")
        self.log.add(self.name, v, t)
        f = self.fault
        if f is None or f["kind"] not in STATEMENT_FAULTS or f["kind"] == "fetch_err":
            self.count["stmt"] += 1
            return
        if v in ("ROLLBACK",):  # recovery itself is not a target
            return
        if not self._hit("stmt"):
            return
        kind = f["kind"]
        if kind == "err_after" and v == "BEGIN":
            kind = "err_before"
        if kind == "err_after" or kind == "crash_after":
            self._pending = kind
            return
        self._fire()
        if kind == "err_before":
            conn.sim_abort_statement()
            raise _operr(conn, "injected: statement failed")
        if kind == "integrity":
            conn.sim_abort_statement()
            conn.errors_occurred = conn.errors_occurred
            from django.db.utils import IntegrityError

            raise IntegrityError("injected: constraint violated by a concurrent writer")
        if kind == "txn_killed":
            conn.sim_kill_transaction()
            raise _operr(conn, "injected: server rolled the transaction back")
        if kind == "cancel":
            conn.sim_abort_statement()
            raise SimCancel("injected: interrupted")
        if kind == "crash":
            self.crash(conn)

    _pending = None

    def after_execute(self, conn, sql):
        kind, self._pending = self._pending, None
        if kind == "err_after":
            self._fire()
            conn.sim_abort_statement()
            raise _operr(conn, "injected: reply lost")
        if kind == "crash_after":
            self._fire()
            self.crash(conn)
        self._observe(conn)

    def before_fetch(self, conn):
        f = self.fault
        if f is not None and f["kind"] == "fetch_err" and self._hit("fetch"):
            self._fire()
            conn.sim_abort_statement()
            raise _operr(conn, "injected: error while fetching rows")

    def before_commit(self, conn):
        if self.dead:
            raise SimCrash("dead process")
        if self.sched is not None:
            self.sched.park(self, "COMMIT", "", conn)
            if self.dead:
                raise SimCrash("dead process")
        self.log.add(self.name, "COMMIT")
        f = self.fault
        if f is not None and f["kind"] in COMMIT_FAULTS and self._hit("commit"):
            kind = f["kind"]
            if kind == "commit_fail":
                self._fire()
                conn.sim_kill_transaction()
                raise _operr(conn, "injected: commit failed")
            if kind == "crash_commit":
                self._fire()
                self.crash(conn)
            self._pending_commit = kind

    _pending_commit = None

    def after_commit(self, conn):
        kind, self._pending_commit = self._pending_commit, None
        if kind:
            self._fire()
            self.commit_landed = True
            if kind == "commit_ambig":
                raise _operr(conn, "injected: connection lost after commit was sent")
            self.crash(conn)
        self._observe(conn)

    def before_rollback(self, conn):
        if self.dead:
            raise SimCrash("dead process")
        if self.sched is not None:
            self.sched.park(self, "ROLLBACK", "", conn)
            if self.dead:
                raise SimCrash("dead process")
        self.log.add(self.name, "ROLLBACK")

    def crash(self, conn):
        self.dead = True
        conn.sim_kill_transaction()
        raise SimCrash("injected: process killed")

    def signal(self, name):
        """Called by the receivers the harness connects."""
        f = self.fault
        if f is not None and f["kind"] == "receiver" and self._hit("signal"):
            self._fire()
            raise AppError("injected: receiver failed")

    def _observe(self, conn):
        if self.observer and not self.in_observer:
            self.in_observer = True
            try:
                with quiet():
                    self.observer(self, conn)
            finally:
                self.in_observer = False


def _operr(conn, msg):
    conn.errors_occurred = True
    return OperationalError(msg)
