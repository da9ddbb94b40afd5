from sim.checks.common import Leg, WorldCheck, families, names
from sim.kernel import quiet
from sim.world import World


class SortedWorld(World):
    def settle(self, label, now, expect):
        super().settle(label, now, expect)
        key, m = self.fam.key, self.model
        with quiet():
            mgr = self.manager(0)
            groups = [(None, "get_root_nodes", [x.uid for x in mgr.get_root_nodes()])]
            nodes = m.nodes()
            for u in nodes[:8]:
                h = self.get(u)
                groups.append((u, "get_children", [x.uid for x in mgr.get_children(h)]))
                groups.append((m.parent[u], "get_siblings", [x.uid for x in mgr.get_siblings(h)]))
            tree = [x.uid for x in mgr.get_tree()]
        by_parent = {}
        for u in tree:
            by_parent.setdefault(m.parent.get(u), []).append(u)
        groups += [(p, "get_tree", us) for p, us in by_parent.items()]
        for p, read, us in groups:
            keys = [key(m.data[u]) for u in us]
            if keys != sorted(keys):
                self.fail("model", "unsorted", f"step {self.step_no} {label}: {read} returns the children of {p} as {list(zip(us, keys))}")
            if sorted(us) != sorted(m.children[p]):
                self.fail("reads", "wrong-read", f"step {self.step_no} {label}: {read} of {p}: {us}, stored {m.children[p]}")


class C13(WorldCheck):
    id = "C13"
    title = "sorted trees keep every group of siblings in order"
    rule = (
        "A run is one seeded history of sorted additions, moves, bulk loads, deletions and value changes followed by a repair, with few or many "
        "equal sort values; after every request every group of siblings, as stored and as read, is checked against the sort fields."
    )
    oracles = ("model",)
    world = SortedWorld
    weights = {"move": 14, "resort": 2.5, "revalue": 6, "load": 1.5, "fix": 0.5, "restart": 0.3, "setval": 0.5}
    legs = (Leg("sqlite", "sqlite", 800, 40000, jobs=4), Leg("pg", "pg", 600, 30000, jobs=4))

    def families(self, leg):
        fams = [n for n in names(leg.engine) if families()[n].sort]
        return fams + [n for n in fams if n.startswith("LT")] * 2


CHECK = C13()
