"""Developer tool: run many seeds of one oracle set and group the violations."""
import random, sys, os, collections, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import boot
sys.path.insert(0, boot.REPO)

def main():
    engine, oracles, fams, n, fp = sys.argv[1], sys.argv[2].split(","), sys.argv[3].split(","), int(sys.argv[4]), float(sys.argv[5])
    if engine == "sqlite":
        boot.configure("sqlite", boot.sqlite_databases())
    else:
        from sim.pgcluster import Cluster
        import atexit
        cl = Cluster(); atexit.register(cl.stop); cl.start()
        a = cl.admin(); a.execute("create database w0"); a.execute("create database o0")
        boot.configure("pg", boot.pg_databases(cl.pg, "w0", "o0"))
        from sim.backends.simpg import base
        base.MONITOR = a
    boot.create_schema(engine)
    from sim.families import families
    from sim.gen import Gen
    from sim.world import World, Violation, StopRun, Stats
    from sim.kernel import STATEMENT_FAULTS, COMMIT_FAULTS
    st = Stats()
    groups = collections.defaultdict(list)
    import time
    t0=time.time()
    kinds = STATEMENT_FAULTS + COMMIT_FAULTS + ("receiver",) if fp else ()
    for i in (map(int, sys.argv[6].split(",")) if len(sys.argv) > 6 else range(n)):
        rng = random.Random(f"x{i}")
        fam = families()[fams[i % len(fams)]]
        tr = Gen(rng, fam, fault_p=fp, kinds=kinds, weights={"fix": 1}).trace()
        w = World(tr, engine, oracles, stats=st)
        try:
            w.run()
            st.add("run_ok")
        except Violation as v:
            groups[(fam.name, v.kind, v.msg.split("[")[-1][:14] if fp else "")].append((i, v.msg))
        except StopRun as s:
            st.add("stop"); groups[("stop", fam.name, s.why[:40])].append((i, s.why))
    print(round(time.time()-t0,1), "s")
    for k, v in sorted(groups.items(), key=str):
        print(len(v), k, v[0])
    print(json.dumps(st.c, indent=None))
main()
