"""A copy of the stored positions kept up to date from the published signals only, the way
an external search index would do it."""

from sim.families import raw_rows
from sim.world import HarnessError


class Mirror:
    def __init__(self, world):
        self.w = world
        self.impl = world.fam.impl
        self.pos = {}
        self.problem = None
        self.recv = 0

    # ---- life cycle
    def load(self, world):
        self.pos = {r["pk"]: self.of_row(r) for r in raw_rows(world.fam, world.alias)}
        self.problem = None

    def begin(self, world):
        self.problem = None
        self.recv = 0

    def of_row(self, r):
        if self.impl == "MP":
            return (r["path"], r["depth"])
        if self.impl == "NS":
            return (r["tree_id"], r["lft"], r["rgt"], r["depth"])
        return tuple(r["path"])

    # ---- signals
    def receive(self, name, sender, kw):
        self.recv += 1
        w = self.w
        if kw.get("using") != w.alias:
            self.problem = f"{name} names database {kw.get('using')!r}, the tree is in {w.alias!r}"
        base = w.fam.base
        if name != "post_save" and sender is not w.tree_model():
            self.problem = f"{name} sent by {sender!r}"
        getattr(self, name)(**kw)
        del base

    def post_save(self, instance, **kw):
        if self.impl == "MP":
            p = (instance.path, instance.depth)
        elif self.impl == "NS":
            p = (instance.tree_id, instance.lft, instance.rgt, instance.depth)
        else:
            p = tuple(instance.path)
        self.pos[instance.pk] = p

    # materialized path
    def path_updated(self, old_path, new_path, **kw):
        steplen = self.w.fam.base.steplen
        for pk, (path, depth) in list(self.pos.items()):
            if path.startswith(old_path):
                path = new_path + path[len(old_path) :]
                if len(old_path) != len(new_path):
                    depth = len(path) // steplen
                self.pos[pk] = (path, depth)

    def nodes_deleted(self, **kw):
        if self.impl == "MP":
            pks, paths = set(kw["pks_to_remove"]), list(kw["paths_to_remove"])
            self.pos = {
                pk: p for pk, p in self.pos.items() if pk not in pks and not any(p[0].startswith(x) for x in paths)
            }
        elif self.impl == "NS":
            self.pos = {
                pk: p
                for pk, p in self.pos.items()
                if not any(p[0] == t and lft <= p[1] <= rgt for t, lft, rgt in kw["removed_ranges"])
            }
        else:
            paths = [tuple(str(x).split(".")) for x in kw["paths_to_remove"]]
            self.pos = {pk: p for pk, p in self.pos.items() if not any(p[: len(x)] == x for x in paths)}

    # nested sets
    def gap_altered(self, tree_id, start_index, offset, **kw):
        for pk, (t, lft, rgt, d) in list(self.pos.items()):
            if t == tree_id:
                self.pos[pk] = (t, lft + offset if lft >= start_index else lft, rgt + offset if rgt >= start_index else rgt, d)

    def tree_ids_incremented(self, min_tree_id, **kw):
        for pk, (t, lft, rgt, d) in list(self.pos.items()):
            if t >= min_tree_id:
                self.pos[pk] = (t + 1, lft, rgt, d)

    def subtree_moved(self, **kw):
        if self.impl == "NS":
            for pk, (t, lft, rgt, d) in list(self.pos.items()):
                if t == kw["tree_id"] and kw["lft"] <= lft <= kw["rgt"]:
                    o = kw["index_offset"]
                    self.pos[pk] = (kw["target_tree_id"], lft + o, rgt + o, d + kw["depth_offset"])
            return
        old, new = tuple(kw["old_path"]), tuple(kw["new_path"])
        for pk, p in list(self.pos.items()):
            if p[: len(old)] == old:
                self.pos[pk] = new + p[len(old) :]

    # ltree
    def subtree_moved_right(self, path, **kw):
        start = tuple(path)
        n = len(start)
        for pk, p in list(self.pos.items()):
            if len(p) >= n and p[: n - 1] == start[:-1] and p[n - 1] >= start[-1]:
                self.pos[pk] = p[: n - 1] + (p[n - 1] + "A",) + p[n:]

    # ---- judging
    def compare(self, world, label):
        if self.problem:
            world.fail("mirror", "wrong-signal", f"step {world.step_no} {label}: {self.problem}")
        rows = {r["pk"]: self.of_row(r) for r in raw_rows(world.fam, world.alias)}
        if rows != self.pos:
            uid = {pk: u for u, pk in world.snap.pk.items()}
            d = [
                f"{uid.get(pk, pk)}: signals give {self.pos.get(pk)}, stored {rows.get(pk)}"
                for pk in sorted(set(rows) | set(self.pos), key=str)
                if rows.get(pk) != self.pos.get(pk)
            ]
            world.fail("mirror", "signals-incomplete", f"step {world.step_no} {label} ({self.recv} signals): {'; '.join(d[:4])}")


__all__ = ["Mirror", "HarnessError"]
