"""The scheduler of concurrent clients.

Every client runs in its own thread with its own database connection, but only one of
them runs at a time: each stops (parks) at the seam before every statement, commit and
rollback, and the trace decides who goes on.  A PostgreSQL statement that has to wait for
a lock is recognised by the server's own wait graph; its server process is frozen until
the lock has been granted, so that two clients set free by the same commit still run one
after the other.  When everybody waits, the trace picks the one that is cancelled, as the
server's deadlock detector would.  On SQLite a client either gets "database is locked" at
once or, if the trace says so, waits like SQLite's busy handler until somebody has finished
a transaction."""

import contextlib
import ctypes
import gc
import os
import signal
import sys
import threading
import time

from django.db import connections

from sim import kernel
from sim.kernel import HarnessError, SimCancel, SimCrash, SimRunaway, quiet
from sim.world import Outcome, StopRun

NEW, PARKED, RUNNING, BLOCKED, BUSY, DONE = "new", "parked", "running", "blocked", "busy", "done"


def forget(e):
    """Frames in tracebacks would keep cursors open, and with them locks."""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        e.__traceback__ = None
        e = e.__cause__ or e.__context__


class Slot:
    def __init__(self, i, client, jobs):
        self.i, self.client, self.jobs = i, client, jobs
        self.go = threading.Semaphore(0)
        self.back = threading.Event()
        self.state = NEW
        self.at = None
        self.conn = None
        self.pid = None
        self.error = None
        self.outcomes = []
        self.thread = None
        self.give_up = False
        self.since = 0


class Sched:
    def __init__(self, engine, alias, log, order, stats, busy_wait=False, options=None):
        self.engine, self.alias, self.log, self.stats = engine, alias, log, stats
        self.order = list(order)
        self.busy_wait = busy_wait
        self.options = options or {}
        self.slots = []
        self.by_client = {}
        self.grants = 0
        self.ticks = 0
        self.last = 0
        self.waits = 0

    # ------------------------------------------------------------- in the client's thread
    def park(self, client, verb, table, conn):
        s = self.by_client[client]
        s.at = (verb, table)
        s.conn = conn
        raw = conn.connection
        s.pid = raw.info.backend_pid if self.engine == "pg" and raw is not None and not raw.closed else None
        self._stop(s, PARKED)

    def _stop(self, s, state):
        s.state = state
        s.back.set()
        s.go.acquire()
        s.state = RUNNING

    def busy(self, client):
        """A SQLite statement found the database locked: True when it should be tried again."""
        s = self.by_client[client]
        if not self.busy_wait:
            return False
        self.stats.add("sched_busy_waits")
        self._stop(s, BUSY)
        return not s.give_up

    def _body(self, s):
        kernel.bind(s.client)
        try:
            conn = connections[self.alias]
            s.conn = conn
            # (for this connection and the ones that follow it)
            conn.settings_dict = {**conn.settings_dict, "OPTIONS": {**conn.settings_dict["OPTIONS"], **self.options}}
            with quiet():
                conn.ensure_connection()
            self._stop(s, PARKED)
            for fn, fault in s.jobs:
                o = Outcome()
                s.outcomes.append(o)
                c = s.client
                c.arm(fault)
                c.dead = False
                try:
                    o.value = fn()
                except SimCrash as e:
                    o.kind, o.exc = "crash", e
                except SimCancel as e:
                    o.kind, o.exc = "cancel", e
                except SimRunaway as e:
                    o.kind, o.exc = "runaway", e
                except (StopRun, HarnessError):
                    raise
                except Exception as e:
                    if os.environ.get("SIM_TB"):
                        import traceback

                        traceback.print_exc()
                    o.kind, o.exc = "error", e
                forget(o.exc)
                o.fired = c.disarm()
                o.landed = c.commit_landed
                self.log.add(c.name, "done", o.kind, type(o.exc).__name__ if o.exc else "")
                if o.fired:
                    self.stats.add("fault_" + o.fired)
                self.stats.add("sim_statements", c.op_stmts)
                if c.dead or o.kind in ("crash", "runaway"):
                    c.dead = False
                    with quiet():
                        conn.sim_after_crash()
                    break
                if not conn.in_atomic_block and self.engine == "pg" and conn.connection is not None and conn.connection.closed:
                    with quiet():
                        conn.close()
        except BaseException as e:  # noqa: B036
            s.error = e
        finally:
            with contextlib.suppress(BaseException), quiet():
                connections[self.alias].close()
            kernel.bind(None)
            s.state = DONE
            s.back.set()

    # ------------------------------------------------------------- in the main thread
    def run(self, work):
        """work: list of (client, [(fn, fault), ...]) -> outcomes per client."""
        for i, (client, jobs) in enumerate(work):
            s = Slot(i, client, jobs)
            self.slots.append(s)
            self.by_client[client] = s
            client.sched = self
        try:
            for s in self.slots:
                s.thread = threading.Thread(target=self._body, args=(s,), daemon=True)
                s.state = RUNNING
                s.thread.start()
                self.settle(s)
            while self.turn():
                pass
        finally:
            self.release()
            for s in self.slots:
                s.client.sched = None
        gc.collect()
        for s in self.slots:
            if s.error is not None:
                raise s.error
        self.stats.add("sched_decisions", self.grants)
        return [s.outcomes for s in self.slots]

    def turn(self):
        ready = [s for s in self.slots if s.state == PARKED]
        if not ready:
            waiting = [s for s in self.slots if s.state in (BLOCKED, BUSY)]
            if not waiting:
                return False
            self.resolve(waiting)
            return True
        s = self.choose(ready)
        self.grants += 1
        if self.grants > 20000:
            raise HarnessError("the scheduler makes no progress")
        self.log.add("go", s.i)
        self.resume(s)
        self.settle(s)
        self.wake(s)
        return True

    def choose(self, ready):
        """One number of the trace per decision: negative means go on with the same client."""
        k = self.order.pop(0) if self.order else -1
        if k < 0:
            for s in ready:
                if s.i == self.last:
                    return s
            k = 0
        s = ready[k % len(ready)]
        if s.i != self.last:
            self.stats.add("sched_switches")
        self.last = s.i
        return s

    def resume(self, s):
        s.back.clear()
        s.state = RUNNING
        s.go.release()

    def settle(self, s, cancelled=False):
        """Until the client parks, finishes or waits for a lock."""
        t0 = time.time()
        wait = 0.002
        while not s.back.wait(wait):
            if self.engine == "pg" and s.pid and not cancelled and self.waits_for_lock(s):
                if s.back.is_set():
                    break
                self.freeze(s)
                return
            wait = 0.001
            if time.time() - t0 > kernel.WALL_BUDGET:
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(s.thread.ident), ctypes.py_object(SimRunaway))
                s.back.wait(20)
                if s.back.is_set():
                    break
                raise HarnessError(f"client {s.i} is stuck after {s.at}")

    def waits_for_lock(self, s):
        from sim.backends.simpg import base

        return base.MONITOR.execute("SELECT cardinality(pg_blocking_pids(%s))", [s.pid]).fetchone()[0] > 0

    def freeze(self, s):
        os.kill(s.pid, signal.SIGSTOP)
        s.state = BLOCKED
        self.waits += 1
        s.since = self.waits
        self.log.add("waits", s.i, *s.at)
        self.stats.add("sched_lock_waits")

    def thaw(self, s):
        with contextlib.suppress(ProcessLookupError):
            os.kill(s.pid, signal.SIGCONT)
        s.state = RUNNING

    def wake(self, mover):
        """Those who can go on after what ``mover`` has just done."""
        if self.engine == "sqlite":
            raw = mover.conn.connection if mover.conn is not None else None
            if mover.state == DONE or (mover.state != BUSY and (raw is None or not raw.in_transaction)):
                for s in self.slots:
                    if s.state == BUSY and s is not mover:
                        s.state = PARKED
            return
        again = True
        while again:
            again = False
            for s in sorted(self.slots, key=lambda s: s.since):
                if s.state == BLOCKED and not self.waits_for_lock(s):
                    self.log.add("wakes", s.i)
                    self.thaw(s)
                    self.settle(s)
                    again = True
                    break

    def resolve(self, waiting):
        k = self.order.pop(0) if self.order else 0
        s = waiting[abs(k) % len(waiting)]
        if s.state == BUSY:
            s.give_up = True
            self.log.add("timeout", s.i)
            self.stats.add("sched_busy_timeouts")
            self.resume(s)
            self.settle(s)
            s.give_up = False
            self.wake(s)
            return
        from sim.backends.simpg import base

        self.log.add("deadlock", s.i)
        self.stats.add("sched_deadlocks")
        base.MONITOR.execute("SELECT pg_cancel_backend(%s)", [s.pid])
        self.thaw(s)
        self.settle(s, cancelled=True)
        self.wake(s)

    def release(self):
        """Whatever happened, no thread and no frozen server process is left behind."""
        for s in self.slots:
            if s.state == BLOCKED:
                self.thaw(s)
        for s in self.slots:
            t = time.time()
            while s.state != DONE and s.thread is not None and time.time() - t < 30:
                s.client.dead = True
                s.go.release()
                s.thread.join(0.01)
            if s.state != DONE and s.thread is not None:
                print("sim: a client thread did not end", file=sys.stderr)
                os._exit(2)
            if s.thread is not None:
                s.thread.join(10)
