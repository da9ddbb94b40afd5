"""Shared part of the simulated backends: every statement, fetch, commit and rollback is
reported to the client bound to the running thread (sim.kernel)."""

from django.db.backends.utils import CursorWrapper

from sim import kernel


class SimCursorWrapper(CursorWrapper):
    def execute(self, sql, params=None):
        c = kernel.current()
        if c is None:
            return super().execute(sql, params)
        c.before_execute(self.db, sql)
        r = self.db.sim_patiently(c, super().execute, sql, params)
        c.after_execute(self.db, sql)
        return r

    def executemany(self, sql, param_list):
        c = kernel.current()
        if c is None:
            return super().executemany(sql, param_list)
        c.before_execute(self.db, sql)
        r = self.db.sim_patiently(c, super().executemany, sql, param_list)
        c.after_execute(self.db, sql)
        return r

    def _fetch(self, name, *args):
        c = kernel.current()
        if c is not None:
            c.before_fetch(self.db)
        with self.db.wrap_database_errors:
            return getattr(self.cursor, name)(*args)

    def fetchone(self):
        return self._fetch("fetchone")

    def fetchmany(self, *args):
        return self._fetch("fetchmany", *args)

    def fetchall(self):
        return self._fetch("fetchall")

    def __iter__(self):
        with self.db.wrap_database_errors:
            for row in self.cursor:
                yield row


class SimMixin:
    # When True the database ignores transactions (MyISAM-like): every statement is
    # durable at once and rollback undoes nothing.
    sim_nontransactional = False

    def sim_patiently(self, client, fn, *args):
        """Runs a statement, again if somebody else had the database locked and the client can wait."""
        return fn(*args)

    def make_cursor(self, cursor):
        return SimCursorWrapper(cursor, self)

    def make_debug_cursor(self, cursor):
        return SimCursorWrapper(cursor, self)

    def _commit(self):
        c = kernel.current()
        if c is None or self.connection is None:
            return super()._commit()
        c.before_commit(self)
        r = self.sim_patiently(c, super()._commit)
        c.after_commit(self)
        return r

    def _rollback(self):
        c = kernel.current()
        if c is None or self.connection is None:
            return super()._rollback()
        c.before_rollback(self)
        return super()._rollback()

    def sim_reset(self):
        """Bring the wrapper back to a clean autocommit state after a simulated crash:
        what a fresh process would start with."""
        self.in_atomic_block = False
        self.savepoint_ids = []
        self.savepoint_state = 0
        self.needs_rollback = False
        self.rollback_exc = None
        self.commit_on_exit = True
        self.atomic_blocks = []
        self.run_on_commit = []
        self.run_commit_hooks_on_set_autocommit_on = False
        self.closed_in_transaction = False
        self.errors_occurred = False
