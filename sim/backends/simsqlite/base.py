from django.db.backends.sqlite3 import base
from django.db.utils import OperationalError

from sim import kernel
from sim.backends.mixin import SimMixin


class DatabaseWrapper(SimMixin, base.DatabaseWrapper):
    vendor = "sqlite"

    def sim_abort_statement(self):
        """A failed statement leaves the rest of the transaction usable (SQLite)."""

    def sim_kill_transaction(self):
        """The engine rolled everything back (disk full, I/O error, process death)."""
        if self.connection is not None and not self.sim_nontransactional:
            if self.connection.in_transaction:
                self.connection.rollback()

    def sim_after_crash(self):
        self.sim_reset()
        if self.is_in_memory_db():
            if self.connection is not None:
                if self.connection.in_transaction:
                    self.connection.rollback()
                self.connection.isolation_level = None
                self.autocommit = True
        else:
            if self.connection is not None:
                self.connection.close()
            self.connection = None

    sim_reading = False  # the open transaction has already read or written something

    def sim_patiently(self, client, fn, *args):
        if client.sched is None:
            return fn(*args)
        commit = not args
        while True:
            raw = self.connection
            idle = raw is None or not raw.in_transaction or not self.sim_reading
            try:
                r = fn(*args)
            except OperationalError as e:
                name = getattr(e.__cause__, "sqlite_errorname", "")
                # (like SQLite, which does not wait when waiting may be a deadlock or cannot help)
                if name != "SQLITE_BUSY" or not (idle or commit) or not client.sched.busy(client):
                    raise
                continue
            raw = self.connection
            first = kernel.verb(args[0]) if args else "COMMIT"
            self.sim_reading = bool(raw is not None and raw.in_transaction and first != "BEGIN")
            return r

    # --- non-transactional storage
    def _start_transaction_under_autocommit(self):
        if self.sim_nontransactional:
            return
        super()._start_transaction_under_autocommit()

    def _savepoint(self, sid):
        if not self.sim_nontransactional:
            super()._savepoint(sid)

    def _savepoint_rollback(self, sid):
        if not self.sim_nontransactional:
            super()._savepoint_rollback(sid)

    def _savepoint_commit(self, sid):
        if not self.sim_nontransactional:
            super()._savepoint_commit(sid)

    def _set_autocommit(self, autocommit):
        if self.sim_nontransactional:
            autocommit = True
        super()._set_autocommit(autocommit)
