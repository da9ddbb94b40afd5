from django.db.backends.postgresql import base

from sim import kernel
from sim.backends.mixin import SimMixin


class DatabaseWrapper(SimMixin, base.DatabaseWrapper):
    vendor = "postgresql"

    def sim_abort_statement(self):
        """A failed statement puts the real server's transaction into the aborted state."""
        raw = self.connection
        if raw is None or raw.closed or raw.autocommit:
            return
        try:
            raw.execute("SELECT 1/0")
        except Exception:
            pass

    def sim_kill_transaction(self):
        """The server (or the network) drops the connection; the server rolls back."""
        raw = self.connection
        if raw is None or raw.closed:
            return
        pid = raw.info.backend_pid
        raw.close()
        _wait_gone(pid)

    def sim_after_crash(self):
        self.sim_kill_transaction()
        self.sim_reset()
        self.connection = None


MONITOR = None  # set by sim.boot: a psycopg connection in autocommit used by the harness only


def _wait_gone(pid):
    import time

    if MONITOR is None:
        return
    for _ in range(20000):
        n = MONITOR.execute("SELECT count(*) FROM pg_stat_activity WHERE pid = %s", [pid]).fetchone()[0]
        if not n:
            return
        time.sleep(0.0005)
    raise kernel.HarnessError("backend did not go away")
