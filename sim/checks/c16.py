from sim.checks.common import Leg, WorldCheck
from sim.families import observe
from sim.forest import Forest
from sim.kernel import quiet
from sim.world import Violation, World

DEPTHS = (None, 0, 1, 2, 3, 40)
READ_FAULTS = ("err_before", "err_after", "fetch_err", "cancel", "txn_killed")


class ReadWorld(World):
    """Sweeps the read operations."""

    def setup(self):
        self.old = {}  # objects obtained earlier in the history
        super().setup()

    def recover(self, c):
        super().recover(c)
        self.old = {}

    def op_reads(self, step, ci):
        m = self.model
        nodes = m.nodes()
        fam = self.fam
        self.bad_fault = step.get("rf") if not self.outer else None
        self.n_read = 0
        self.api = step.get("api")
        mi = step.get("mi", 0)
        mgr = self.manager(mi)
        self.mgr = mgr
        self.cls = fam.models[0] if fam.models[0]._meta.proxy and not fam.mti else fam.base
        before = self.snap
        self.ord = Forest.of(before, fam.key if fam.sort else None)
        self.loose = fam.impl == "AL" and fam.sort  # ties have no order that is stored
        self.where = f"step {self.step_no}"
        self.tree_reads(step, ci, mgr)
        picked = nodes if len(nodes) <= 5 else [nodes[s % len(nodes)] for s in step["sel"]]
        for i, u in enumerate(dict.fromkeys(picked)):
            h = self.obtain(u, step["hows"][i % len(step["hows"])], ci, mi)
            self.node_reads(u, h, mgr, step)
            other = nodes[step["sel"][(i + 1) % len(step["sel"])] % len(nodes)]
            for v in dict.fromkeys([other, m.parent[u], u, *(m.children[u][:1])]):
                if v is not None:
                    self.relations(u, h, v, self.obtain(v, "get", ci, mi))
            self.old[u] = h
        now = observe(fam, self.alias)
        if now.raw != before.raw:
            raise Violation("read-changed-something", f"{self.where}: reading changed the tree", self.step_no)
        return None

    def obtain(self, u, how, ci, mi):
        fam, m = self.fam, self.model
        mgr = self.manager(mi)
        self.how = how
        pk = self.snap.pk[u]
        if how == "chain":
            kept = self.chain.get(ci, {}).get(u)
            if kept is not None and kept.pk == pk:
                self.stats.add("reads_through_kept_objects")
                return kept
        if how == "refresh" and u in self.old and self.old[u].pk == pk:
            h = self.old[u]
            with quiet():
                h.refresh_from_db()
            self.stats.add("reads_through_refreshed_objects")
            return h
        with quiet():
            src = None
            if how == "nav":
                p = m.parent[u]
                src = mgr.get_root_nodes() if p is None else mgr.get_children(self.get(p, mi))
            elif how == "tree":
                src = mgr.get_tree()
            elif how == "sibs":
                src = mgr.get_siblings(self.get(u, mi))
            elif how == "desc" and m.parent[u] is not None:
                src = mgr.get_descendants(self.get(m.ancestors(u)[0], mi))
            elif how == "anc" and m.children[u]:
                src = mgr.get_ancestors(self.get(m.children[u][0], mi))
            elif how == "par" and m.children[u]:
                src = [mgr.get_parent(self.get(m.children[u][-1], mi))]
            elif how == "ann":
                src = [x[0] for x in mgr.get_annotated_list()]
            elif how == "group":
                p = m.parent[u]
                src = mgr.get_descendants_group_count(None if p is None else self.get(p, mi))
            elif how == "only":
                src = fam.base.objects.only("pk").filter(pk=pk)
            for h in src if src is not None else ():
                if h.pk == pk:
                    self.stats.add(f"objects_from_{how}")
                    return h
        return self.get(u, mi)

    # ---- one read
    def read(self, name, fn, want, kind):
        self.n_read += 1
        f = None
        if self.bad_fault and self.n_read == self.bad_fault["at"]:
            f = {"kind": self.bad_fault["kind"], "k": self.bad_fault["k"]}
        box = []

        def run():
            v = fn()
            if kind in ("order", "set", "count", "annotated", "group"):
                if kind != "annotated" and hasattr(v, "query"):
                    n = v.count()
                    v2 = list(v)
                    if n != len(v2):
                        box.append(f"count() says {n}, {len(v2)} nodes listed")
                    v = v2
                else:
                    v = list(v)
            return v

        o = self.call(run, self.ci, f)
        if o.kind != "ok" and o.fired:
            # the same read on the same objects once more
            self.stats.add("reads_repeated_after_fault")
            box = []
            o = self.call(run, self.ci)
        self.stats.add("reads")
        if o.kind != "ok":
            self.bad(name, f"{type(o.exc).__name__}: {str(o.exc)[:200]}", want)
        if box:
            self.bad(name, box[0], want)
        got = o.value
        if kind == "value":
            if got != want or (isinstance(want, bool) and not isinstance(got, bool)) or (type(want) is int and type(got) is not int):
                self.bad(name, got, want)
        elif kind == "node":
            if (got.uid if got is not None else None) != want:
                self.bad(name, got, want)
            if got is not None:
                self.typed(name, got)
        elif kind == "nodes_of_key":  # any of these
            if (got.uid if got is not None else None) not in want:
                self.bad(name, got, want)
        elif kind == "order":
            uids = [x.uid for x in got]
            if self.loose:
                if sorted(uids) != sorted(want) or not self.loose_order(uids):
                    self.bad(name, uids, want)
            elif uids != want:
                self.bad(name, uids, want)
            for x in got:
                self.typed(name, x)
                self.fields(name, x)
        elif kind == "group":
            uids = [x.uid for x in got]
            if (sorted(uids) != sorted(want)) if self.loose else (uids != list(want)):
                self.bad(name, uids, list(want))
            for x in got:
                if x.descendants_count != want[x.uid]:
                    self.bad(f"{name} of {x.uid}", x.descendants_count, want[x.uid])
        elif kind == "annotated":
            self.annotated(name, got, want)
        return got

    def bad(self, name, got, want):
        raise Violation("wrong-read", f"{self.where} {name} gives {got}, the stored tree has {want}", self.step_no)

    def typed(self, name, x):
        if not isinstance(x, self.cls):
            self.bad(name, type(x).__name__ + " objects", self.cls.__name__)

    def fields(self, name, x):
        """What came with the node is what is stored."""
        raw = self.snap.raw[x.uid]
        for f in ("val1", "val2", "note"):
            if getattr(x, f) != raw[f]:
                self.bad(f"{name}: {f} of {x.uid}", getattr(x, f), raw[f])

    def loose_order(self, uids):
        """Depth first, every group of siblings by its keys."""
        m, fam = self.ord, self.fam
        have = set(uids)
        seen = []
        for u in uids:
            p = m.parent[u]
            if p in have:
                while seen and seen[-1] != p:
                    seen.pop()
                if not seen:
                    return False
            else:
                seen = []
            seen.append(u)
        for p in {m.parent[u] for u in uids}:
            keys = [fam.key(m.data[u]) for u in uids if m.parent[u] == p]
            if keys != sorted(keys):
                return False
        return True

    def dfs(self, top, limit=None):
        """top: uid or None; limit: levels below top (roots are level 1 below None)"""
        m = self.ord
        out = [] if top is None else [top]

        def rec(p, lvl):
            if limit is not None and lvl > limit:
                return
            for c in m.children[p]:
                out.append(c)
                rec(c, lvl + 1)

        rec(top, 1)
        return out

    def annotated(self, name, got, want):
        """want: uids in depth-first order, already limited"""
        m = self.ord
        uids = [x[0].uid for x in got]
        if (sorted(uids) != sorted(want) or not self.loose_order(uids)) if self.loose else uids != want:
            self.bad(name, uids, want)
        if not uids:
            return
        top = m.depth(uids[0])
        for i, (node, info) in enumerate(got):
            d = m.depth(node.uid)
            prev = m.depth(uids[i - 1]) if i else None
            nxt = m.depth(uids[i + 1]) if i + 1 < len(uids) else top - 1
            exp = {"open": prev is None or d > prev, "close": list(range(0, max(0, d - nxt))), "level": d - top}
            if dict(info) != exp:
                self.bad(f"{name}: annotation of {node.uid}", dict(info), exp)

    # ---- all of them
    def tree_reads(self, step, ci, mgr):
        m = self.ord
        roots = m.children[None]
        r = self.read
        lim = step.get("depths", DEPTHS)
        r("get_root_nodes()", mgr.get_root_nodes, roots, "order")
        if self.loose:
            kk = [self.fam.key(m.data[u]) for u in roots]
            first = [u for u, k in zip(roots, kk) if k == min(kk)] or [None]
            last = [u for u, k in zip(roots, kk) if k == max(kk)] or [None]
            r("get_first_root_node()", mgr.get_first_root_node, first, "nodes_of_key")
            r("get_last_root_node()", mgr.get_last_root_node, last, "nodes_of_key")
        else:
            r("get_first_root_node()", mgr.get_first_root_node, roots[0] if roots else None, "node")
            r("get_last_root_node()", mgr.get_last_root_node, roots[-1] if roots else None, "node")
        for d in lim:
            r(f"get_tree(max_depth={d})", lambda d=d: mgr.get_tree(max_depth=d), self.dfs(None, d), "order")
        r("get_annotated_list()", mgr.get_annotated_list, self.dfs(None), "annotated")
        for d in lim:
            if d:
                r(f"get_annotated_list(max_depth={d})", lambda d=d: mgr.get_annotated_list(max_depth=d), self.dfs(None, d), "annotated")
        r("get_annotated_list_qs()", lambda: mgr.get_annotated_list_qs(mgr.get_tree()), self.dfs(None), "annotated")
        r("get_descendants_group_count()", mgr.get_descendants_group_count, {u: len(m.subtree(u)) - 1 for u in roots}, "group")

    def node_reads(self, u, h, mgr, step):
        m, fam = self.ord, self.fam
        kids, sibs, anc = m.children[u], m.siblings(u), m.ancestors(u)
        i = sibs.index(u)
        what = f"of {u} ({self.how})"

        def r(name, want, kind, *args, **kw):
            if self.api and hasattr(h, name):
                fn = lambda: getattr(h, name)(*args, **kw)  # noqa: E731
            else:
                fn = lambda: getattr(mgr, name)(h, *args, **kw)  # noqa: E731
            extra = ", ".join([*map(str, args), *(f"{k}={v}" for k, v in kw.items())])
            return self.read(f"{name}({extra}) {what}", fn, want, kind)

        def own(name, want):
            self.read(f"{name} {what}", getattr(h, name), want, "value")

        own("get_depth", len(anc) + 1)
        own("is_root", not anc)
        own("is_leaf", not kids)
        r("get_parent", m.parent[u], "node")
        r("get_parent", m.parent[u], "node", True)
        r("get_root", (anc or [u])[0], "node")
        r("get_ancestors", anc, "order")
        r("get_children", kids, "order")
        r("get_children_count", len(kids), "value")
        got = r("get_siblings", sibs, "order")
        if self.loose:
            keys = [fam.key(m.data[s]) for s in sibs]
            lo = [s for s, k in zip(sibs, keys) if k == min(keys)]
            hi = [s for s, k in zip(sibs, keys) if k == max(keys)]
            r("get_first_sibling", lo, "nodes_of_key")
            r("get_last_sibling", hi, "nodes_of_key")
            listed = [x.uid for x in got]
            j = listed.index(u)
            r("get_prev_sibling", listed[j - 1] if j else None, "node")
            r("get_next_sibling", listed[j + 1] if j + 1 < len(listed) else None, "node")
            ck = [fam.key(m.data[s]) for s in kids]
            r("get_first_child", [c for c, k in zip(kids, ck) if k == min(ck)] or [None], "nodes_of_key")
            r("get_last_child", [c for c, k in zip(kids, ck) if k == max(ck)] or [None], "nodes_of_key")
        else:
            r("get_first_sibling", sibs[0], "node")
            r("get_last_sibling", sibs[-1], "node")
            r("get_prev_sibling", sibs[i - 1] if i else None, "node")
            r("get_next_sibling", sibs[i + 1] if i + 1 < len(sibs) else None, "node")
            r("get_first_child", kids[0] if kids else None, "node")
            r("get_last_child", kids[-1] if kids else None, "node")
        r("get_descendants", self.dfs(u)[1:], "order")
        r("get_descendants", self.dfs(u), "order", include_self=True)
        r("get_descendant_count", len(self.dfs(u)) - 1, "value")
        for d in step.get("depths", DEPTHS):
            r("get_descendants", self.dfs(u, d)[1:], "order", max_depth=d)
            r("get_descendants", self.dfs(u, d), "order", include_self=True, max_depth=d)
            r("get_descendant_count", len(self.dfs(u, d)) - 1, "value", max_depth=d)
            self.read(f"get_tree(max_depth={d}) {what}", lambda d=d: mgr.get_tree(h, max_depth=d), self.dfs(u, d), "order")
        self.read(f"get_annotated_list {what}", lambda: mgr.get_annotated_list(h), self.dfs(u), "annotated")
        self.read(f"get_descendants_group_count {what}", lambda: mgr.get_descendants_group_count(h), {c: len(m.subtree(c)) - 1 for c in kids}, "group")

    def relations(self, u, h, v, hv):
        m = self.ord
        for name, want in (
            ("is_sibling_of", v in m.siblings(u)),
            ("is_child_of", m.parent[u] == v),
            ("is_descendant_of", v in m.ancestors(u)),
        ):
            self.read(f"{u}.{name}({v}) ({self.how})", lambda: getattr(h, name)(hv), want, "value")


class C16(WorldCheck):
    id = "C16"
    title = "all read operations agree with the stored tree"
    rule = (
        "A run is one seeded history in which, at seeded points, every read operation is made on the tree and on a selection of nodes, through objects "
        "obtained in eleven different ways (also objects that an operation left behind and old objects refreshed), some of them failing once and "
        "repeated on the same object; every result is compared with the decoded stored rows, which must not change."
    )
    oracles = ()
    world = ReadWorld
    weights = {"load": 2, "move": 10, "add_child": 9}
    gen_opts = {"warm": 5, "steps": (5, 14)}
    legs = (Leg("sqlite", "sqlite", 280, 25000, jobs=4), Leg("pg", "pg", 170, 15000, jobs=4))
    HOWS = ("get", "chain", "refresh", "refresh", "nav", "tree", "sibs", "desc", "anc", "par", "ann", "group", "only")

    def decorate(self, rng, leg, fam, trace):
        steps = []
        n = rng.choice((1, 2, 2, 3))
        at = set(rng.sample(range(len(trace["steps"])), min(n, len(trace["steps"])))) | {len(trace["steps"]) - 1}
        for i, s in enumerate(trace["steps"]):
            steps.append(s)
            if i in at:
                r = {"op": "reads", "c": s.get("c", 0), "sel": [rng.randrange(1 << 16) for _ in range(4)],
                     "hows": [rng.choice(self.HOWS) for _ in range(5)], "depths": rng.sample(DEPTHS, 3)}  # fmt: skip
                if fam.mti:
                    r["mi"] = rng.randrange(2)
                if rng.random() < 0.2 and not fam.mti:
                    r["api"] = 1
                if rng.random() < 0.6:
                    r["rf"] = {"at": rng.randint(1, 60), "kind": rng.choice(READ_FAULTS), "k": rng.choice((1, 1, 1, 2, 3))}
                steps.append(r)
        trace["steps"] = steps
        return trace


CHECK = C16()
