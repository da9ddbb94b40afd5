from sim.checks.common import Leg, WorldCheck, families
from sim.world import Violation, World


class RoomWorld(World):
    """Judges path overflow against the room there was."""

    def overflow_ok(self, req, before):
        room = req.get("room")
        if room is None:
            return False
        parent, count, height, fan = room
        fam, cap = self.fam, self.fam.capacity()
        depth = self.model.depth(parent) if parent else 0
        if depth + height > fam.max_depth():
            self.stats.add("overflow_depth")
            return True
        steps = [
            fam.last_step(before.raw[u]["path"]) for u in before.children.get(parent, []) if u in before.raw
        ]
        if max(steps, default=0) + count > cap or fan > cap:
            self.stats.add("overflow_siblings")
            return True
        return False

    def unexpected(self, o, label):
        if type(o.exc).__name__ == "PathOverflow" or self.fam.impl == "LT":
            raise Violation("refused-with-room", f"step {self.step_no} {label}: {type(o.exc).__name__}: {str(o.exc)[:200]}", self.step_no)
        super().unexpected(o, label)

    def settle(self, label, now, expect):
        super().settle(label, now, expect)
        if label.startswith("fix_tree(True"):
            for p, cs in now.children.items():
                if not self.fix_all and not self.fix_scope(p):
                    continue
                steps = [self.fam.last_step(now.raw[c]["path"]) for c in cs]
                if sorted(steps) != list(range(1, len(cs) + 1)):
                    self.fail("model", "room-not-reclaimed", f"step {self.step_no} {label}: children of {p} at positions {sorted(steps)}")

    fix_all = True

    def fix_scope(self, p):
        return p is not None and p in self.fix_nodes

    def op_fix(self, step, ci):
        parent = self.pick(step.get("t", 0)) if step.get("under") else None
        self.fix_all = parent is None
        self.fix_nodes = set(self.model.subtree(parent)) if parent else set()
        return super().op_fix(step, ci)


class C15(WorldCheck):
    id = "C15"
    title = "running out of path space is refused cleanly"
    rule = (
        "A run is one seeded history near the sibling and depth limits of materialized path models with several step lengths, alphabets and column "
        "sizes (and of ltree label insertion); every refusal is judged against the room there was and must change nothing, every acceptance must give "
        "the described tree with well-formed paths, and repaired paths must be consecutive."
    )
    oracles = ("model", "sound", "reject_state", "runaway")
    world = RoomWorld
    weights = {"add_root": 6, "add_child": 12, "add_sibling": 14, "move": 16, "delete": 3, "fix": 2.5, "resort": 2, "load": 2, "restart": 0.2, "setval": 0.2}
    gen_opts = {"steps": (14, 40), "warm": 6}
    legs = (
        Leg("sqlite", "sqlite", 700, 40000, jobs=4),
        Leg("pg", "pg", 450, 20000, jobs=3),
        Leg("ltree", "pg", 150, 6000, jobs=2, lt=True),
    )

    def families(self, leg):
        if leg.opts.get("lt"):
            return ["LTPlain", "LTPlain", "LTSorted"]
        return [n for n, f in families().items() if f.small]

    def decorate(self, rng, leg, fam, trace):
        focus = rng.random()
        for s in trace["steps"]:
            if leg.opts.get("lt"):
                # keep inserting at the same place: labels get longer
                if s["op"] == "add_sibling" and focus < 0.7:
                    s["p"] = rng.choice((0, 1, 1, 2))
                    s["t"] = rng.randrange(3)
                    s.pop("rel", None)
            elif s["op"] in ("add_child", "add_sibling") and rng.random() < focus:
                s["t"] = rng.randrange(3)
                s.pop("rel", None)
        return trace


CHECK = C15()
