"""Runs many seeded simulations of one check in parallel, shrinks and files what fails.

A run is a pure function of (leg, trace, code under test); a trace is a pure function of
(VERIF_SEED, check, leg, index).  How many worker processes share the runs changes
nothing but the wall time."""

import gc
import hashlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

from sim import boot
from sim.kernel import HarnessError, SimRunaway
from sim.world import StopRun, Stats, Violation

EVIDENCE = os.path.join(boot.VERIF, "evidence")
WALL_CAP = {"quick": 420, "thorough": 3 * 3600}


class Leg:
    """One configuration of a check: an engine plus how many runs of each tier."""

    def __init__(self, name, engine, quick, thorough, jobs=4, **opts):
        self.name, self.engine, self.quick, self.thorough, self.jobs = name, engine, quick, thorough, jobs
        self.opts = opts


class Check:
    id = ""
    title = ""
    legs = ()
    rule = ""
    real = "treebeard, Django ORM and transaction management, SQLite / PostgreSQL engines and drivers"
    stub = "the caller (generated requests), process death, the database's faults"
    assumptions = ()

    def gen(self, rng, leg):
        raise NotImplementedError

    def execute(self, trace, leg, stats, keep_log=False):
        """Returns the event log; raises Violation or StopRun."""
        raise NotImplementedError

    def prepare(self, leg, env):
        """Called once in every worker, after Django has been configured."""

    def need_other(self, leg):
        return False

    def shrink_keys(self, trace):
        """The lists of the trace from which elements may be dropped."""
        return ("steps",)

    def extra_evidence(self):
        return {}


def seed_of(*parts):
    return int.from_bytes(hashlib.sha256("/".join(map(str, parts)).encode()).digest()[:8], "big")


def trace_of(check, leg, seed, i):
    return check.gen(random.Random(seed_of(seed, check.id, leg.name, i)), leg)


# ---------------------------------------------------------------- environment of a worker
class Env:
    """Where the databases of this check live."""

    def __init__(self, dirname, cluster=None):
        self.dir = dirname
        self.cluster = cluster


def fresh_env(engines):
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    d = tempfile.mkdtemp(prefix="tbsim.", dir=base)
    cluster = None
    if "pg" in engines:
        from sim.pgcluster import Cluster

        cluster = Cluster()
        try:
            cluster.start()
        except BaseException:
            cluster.stop()
            raise
    return Env(d, cluster)


def drop_env(env):
    if env.cluster:
        env.cluster.stop()
    shutil.rmtree(env.dir, ignore_errors=True)


def pg_template(env):
    a = env.cluster.admin()
    a.execute("CREATE DATABASE tmpl")
    a.close()

    def go():
        boot.configure("pg", boot.pg_databases(env.cluster.pg, "tmpl", "tmpl"))
        boot.create_schema("pg")
        from django.db import connections

        connections.close_all()

    run_child(go)


def run_child(fn):
    """fn() in a forked process; its failure is ours."""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            fn()
            os._exit(0)
        except BaseException:
            traceback.print_exc()
            sys.stderr.flush()
            os._exit(2)
    _, st = os.waitpid(pid, 0)
    if st:
        raise HarnessError(f"child failed with status {st}")


def enter_worker(check, leg, env, w):
    """Configure Django in this (forked) process for one leg."""
    if leg.engine == "sqlite":
        if leg.opts.get("files"):
            d = os.path.join(env.dir, f"w{w}")
            os.makedirs(d, exist_ok=True)
            dbs = boot.sqlite_databases(os.path.join(d, "default.db"), os.path.join(d, "other.db"))
            for db in dbs.values():
                if os.path.exists(db["NAME"]):
                    os.unlink(db["NAME"])
                db["OPTIONS"]["init_command"] = leg.opts.get("init", "PRAGMA journal_mode=WAL; PRAGMA synchronous=OFF;")
        else:
            dbs = boot.sqlite_databases()
        boot.configure("sqlite", dbs)
        boot.create_schema("sqlite")
        if check.need_other(leg):
            boot.create_schema("sqlite", "other")
    else:
        a = env.cluster.admin()
        names = [f"w{w}"] + ([f"o{w}"] if check.need_other(leg) else [])
        for n in names:
            a.execute(f"DROP DATABASE IF EXISTS {n} WITH (FORCE)")
            a.execute(f"CREATE DATABASE {n} TEMPLATE tmpl")
        boot.configure("pg", boot.pg_databases(env.cluster.pg, names[0], names[-1]))
        from sim.backends.simpg import base

        base.MONITOR = a
    check.prepare(leg, env)
    # no finaliser of the code under test may run at a moment the simulator did not choose
    gc.collect()
    gc.freeze()
    gc.disable()


def execute_guarded(check, trace, leg, stats, keep_log=False):
    """-> (violation or None, log, why the run ended early or None)"""
    gc.collect()
    try:
        log = check.execute(trace, leg, stats, keep_log)
        return None, log, None
    except SimRunaway as e:
        return None, None, f"hang outside a request: {e}"
    except Violation as v:
        return v, getattr(v, "log", None), None
    except StopRun as s:
        return None, getattr(s, "log", None), s.why


# ---------------------------------------------------------------- workers
def worker(check, leg, env, wno, w, jobs, n, seed, outdir, best_path, deadline, want_digests):
    enter_worker(check, leg, env, wno)  # databases are named after wno, results after w
    stats = Stats()
    out = {"runs": 0, "stops": {}, "violation": None, "samples": [], "digests": {}, "cut": False}
    states, digests = set(), set()
    stats.states = states
    t0 = time.time()
    for i in range(w, n, jobs):
        if out["violation"] is None and os.path.exists(best_path):
            try:
                best = int(open(best_path).read() or n)
            except ValueError:
                best = n
            if i > best:
                break
        if time.time() > deadline:
            out["cut"] = True
            break
        trace = trace_of(check, leg, seed, i)
        v, log, why = execute_guarded(check, trace, leg, stats)
        out["runs"] += 1
        if log is not None:
            digests.add(int(log.digest(), 16))
            if want_digests:
                out["digests"][i] = log.digest()
        if why:
            k = " ".join(why.split()[:1])[:60]
            out["stops"][k] = out["stops"].get(k, 0) + 1
            out.setdefault("stop_samples", []).append([i, why[:300]]) if len(out.get("stop_samples", [])) < 5 else None
        if len(out["samples"]) < 1 and not why and not v:
            out["samples"].append({"leg": leg.name, "index": i, "trace": trace})
        if v:
            out["violation"] = {"index": i, "kind": v.kind, "msg": v.msg, "trace": trace, "leg": leg.name}
            with open(best_path + f".{w}", "w") as f:
                f.write(str(i))
            os.replace(best_path + f".{w}", best_path)
            break
    out["wall"] = time.time() - t0
    out["stats"] = stats.c
    base = os.path.join(outdir, f"{leg.name}.{w}")
    import array

    with open(base + ".states", "wb") as f:
        f.write(array.array("Q", sorted(states)).tobytes())
    with open(base + ".runs", "wb") as f:
        f.write(array.array("Q", sorted(digests)).tobytes())
    with open(base + ".json", "w") as f:
        json.dump(out, f)


def spawn(fn):
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    try:
        os.setpgid(0, 0)
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        fn()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(2)


def run_check(check, tier, seed, scale=1.0, jobs_scale=1, want_digests=False):
    t0 = time.time()
    engines = {leg.engine for leg in check.legs}
    env = fresh_env(engines)
    pids = {}

    def bye(sig, frame):
        for p in pids:
            try:
                os.killpg(p, signal.SIGKILL)
            except OSError:
                pass
        drop_env(env)
        os._exit(2)

    signal.signal(signal.SIGTERM, bye)
    signal.signal(signal.SIGINT, bye)
    try:
        if env.cluster:
            pg_template(env)
        outdir = os.path.join(env.dir, "out")
        os.makedirs(outdir)
        deadline = t0 + WALL_CAP[tier]
        plan = []
        wno = 0
        for leg in check.legs:
            n = max(1, int((leg.quick if tier == "quick" else leg.thorough) * scale))
            jobs = max(1, int(leg.jobs * jobs_scale))
            plan.append((leg, n, jobs))
            best = os.path.join(outdir, f"best.{leg.name}")
            for w in range(jobs):
                # the index of the worker within its leg shares the runs; wno names its databases
                pids[
                    spawn(
                        lambda leg=leg, w=w, jobs=jobs, n=n, best=best, wno=wno: worker(
                            check, leg, env, wno, w, jobs, n, seed, outdir, best, deadline, want_digests
                        )
                    )
                ] = (leg.name, w)
                wno += 1
        bad = []
        while pids:
            pid, st = os.wait()
            if pid in pids:
                name = pids.pop(pid)
                if st:
                    bad.append((name, st))
                    for p in pids:
                        os.killpg(p, signal.SIGKILL)
        if bad:
            raise HarnessError(f"workers failed: {bad}")
        res = collect(outdir, plan)
        res["wall"] = time.time() - t0
        if res["violations"]:
            res["replay"] = file_violation(check, res["violations"][0], env, seed, tier)
        return res
    finally:
        drop_env(env)


def collect(outdir, plan):
    import array

    tot = {"runs": 0, "stats": {}, "stops": {}, "samples": [], "violations": [], "legs": {}, "digests": {}, "cut": False}
    states, digests = set(), set()
    for leg, n, jobs in plan:
        runs, wall = 0, 0.0
        for w in range(jobs):
            base = os.path.join(outdir, f"{leg.name}.{w}")
            with open(base + ".json") as f:
                o = json.load(f)
            for ext, s in ((".states", states), (".runs", digests)):
                a = array.array("Q")
                with open(base + ext, "rb") as f:
                    a.frombytes(f.read())
                s.update(a)
            runs += o["runs"]
            wall = max(wall, o["wall"])
            for k, v in o["stats"].items():
                tot["stats"][k] = tot["stats"].get(k, 0) + v
            for k, v in o["stops"].items():
                tot["stops"][k] = tot["stops"].get(k, 0) + v
            tot.setdefault("stop_samples", []).extend(o.get("stop_samples", []))
            tot["samples"] += o["samples"]
            tot["cut"] |= o["cut"]
            for i, d in o["digests"].items():
                tot["digests"][f"{leg.name}/{i}"] = d
            if o["violation"]:
                tot["violations"].append(o["violation"])
        tot["legs"][leg.name] = {"runs": runs, "planned": n, "engine": leg.engine, "processes": jobs, "wall_s": round(wall, 1)}
        tot["runs"] += runs
    order = {leg.name: k for k, (leg, _, _) in enumerate(plan)}
    tot["violations"].sort(key=lambda v: (v["index"], order[v["leg"]]))
    tot["states"], tot["distinct_runs"] = len(states), len(digests)
    return tot


# ---------------------------------------------------------------- shrinking and replay files
def file_violation(check, viol, env, seed, tier):
    leg = next(x for x in check.legs if x.name == viol["leg"])
    os.makedirs(os.path.join(EVIDENCE, "replays"), exist_ok=True)
    path = os.path.join(EVIDENCE, "replays", f"{check.id}-{leg.name}-{seed}-{viol['index']}.json")
    tmp = os.path.join(env.dir, "shrunk.json")

    def go():
        from sim.shrink import shrink

        enter_worker(check, leg, env, "s")
        trace, v, log, tries = shrink(check, leg, viol, budget_s=60 if tier == "quick" else 240)
        with open(tmp, "w") as f:
            json.dump({"trace": trace, "kind": v.kind, "msg": v.msg, "log": log.keep if log else None,
                       "digest": log.digest() if log else None, "tries": tries}, f)  # fmt: skip

    try:
        run_child(go)
        with open(tmp) as f:
            s = json.load(f)
    except Exception as e:  # shrinking is a convenience; the original trace is as good a replay
        s = {"trace": viol["trace"], "kind": viol["kind"], "msg": viol["msg"], "digest": None, "log": None,
             "tries": 0, "note": f"not minimised: {e}"}  # fmt: skip
    rec = {
        "property": check.id,
        "leg": leg.name,
        "engine": leg.engine,
        "seed": seed,
        "index": viol["index"],
        "violation": {"kind": s["kind"], "message": s["msg"]},
        "first_seen_as": {"kind": viol["kind"], "message": viol["msg"], "steps": len(viol["trace"].get("steps", []))},
        "trace": s["trace"],
        "event_log_digest": s["digest"],
        "event_log": (s["log"] or [])[-400:],
        "shrink_executions": s["tries"],
        "replay_with": f"/verif/check {check.id} --replay {path}",
    }
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    return path


def replay(check, path):
    with open(path) as f:
        rec = json.load(f)
    leg = next(x for x in check.legs if x.name == rec["leg"])
    env = fresh_env({leg.engine})
    res = os.path.join(env.dir, "replay.json")
    try:
        if env.cluster:
            pg_template(env)

        def go():
            enter_worker(check, leg, env, "r")
            v, log, why = execute_guarded(check, rec["trace"], leg, Stats(), keep_log=True)
            with open(res, "w") as f:
                json.dump({"kind": v.kind if v else None, "msg": v.msg if v else None, "why": why,
                           "digest": log.digest() if log else None, "log": log.keep if log else None}, f)  # fmt: skip

        run_child(go)
        with open(res) as f:
            return rec, json.load(f)
    finally:
        drop_env(env)

