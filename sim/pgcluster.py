"""A throw-away PostgreSQL cluster (unix socket only) for one check."""

import glob
import os
import shutil
import subprocess
import tempfile
import time


class Cluster:
    def __init__(self):
        bins = sorted(glob.glob("/usr/lib/postgresql/*/bin"))
        if not bins:
            raise RuntimeError("no PostgreSQL binaries")
        self.bin = bins[-1]
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        self.dir = tempfile.mkdtemp(prefix="tbsim-pg.", dir=base)
        os.chmod(self.dir, 0o755)
        self.pg = os.path.join(self.dir, "pg")
        subprocess.run(["install", "-d", "-o", "postgres", "-g", "postgres", "-m", "700", self.pg], check=True)
        self.started = False

    def _run(self, *args, **kw):
        return subprocess.run(
            ["setpriv", "--reuid=postgres", "--regid=postgres", "--clear-groups", "env", "HOME=" + self.pg, *args],
            cwd=self.pg,
            stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL,
            stderr=subprocess.STDOUT,
            **kw,
        )

    def start(self):
        data = os.path.join(self.pg, "data")
        r = self._run(
            self.bin + "/initdb", "-D", data, "-U", "treebeard", "--auth=trust", "-E", "UTF8",
            "--locale=C.UTF-8", "--no-sync",
        )  # fmt: skip
        if r.returncode:
            raise RuntimeError("initdb failed")
        opts = (
            f"-k {self.pg} -c listen_addresses='' -c fsync=off -c full_page_writes=off -c synchronous_commit=off "
            "-c max_connections=200 -c deadlock_timeout=600s -c autovacuum=off -c shared_buffers=256MB "
            "-c max_wal_size=4GB -c checkpoint_timeout=1h -c jit=off -c max_parallel_workers_per_gather=0"
        )
        r = self._run(
            self.bin + "/pg_ctl", "-w", "-t", "120", "-D", data, "-l", self.pg + "/log", "-o", opts, "start"
        )
        if r.returncode:
            try:
                log = open(self.pg + "/log").read()[-2000:]
            except OSError:
                log = ""
            raise RuntimeError("PostgreSQL did not start: " + log)
        self.started = True
        # the socket directory must be reachable by root only: it is, we are root
        return self

    def admin(self):
        import psycopg

        for i in range(50):
            try:
                return psycopg.connect(host=self.pg, user="treebeard", dbname="postgres", autocommit=True)
            except psycopg.OperationalError:
                if i == 49:
                    raise
                time.sleep(0.1)

    def stop(self):
        if self.started:
            self._run(self.bin + "/pg_ctl", "-w", "-m", "immediate", "-D", os.path.join(self.pg, "data"), "stop")
            self.started = False
        shutil.rmtree(self.dir, ignore_errors=True)
