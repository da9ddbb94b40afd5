"""Families of tree models, and the harness's own decoder of what is stored.

``observe`` reads the raw rows (no treebeard code) and decodes the forest from the stored
columns, independently for every implementation.  It returns the decoded forest together
with everything that is wrong with the stored bookkeeping."""

import os

from sim.kernel import quiet

IMPLS = ("MP", "NS", "AL", "LT")


class Family:
    def __init__(self, name, impl, models, sort=None, rich=None, engines=("sqlite", "pg"), extra_tables=()):
        self.name = name
        self.impl = impl
        self.models = models  # user-facing models, index 0 is the default; the last one is the base
        self.base = models[-1]
        self.sort = sort  # list of (field, descending)
        self.rich = rich
        self.engines = engines
        self.extra_tables = list(extra_tables)
        self.mti = len(models) > 1
        self.concrete = list(dict.fromkeys(m._meta.concrete_model for m in models))
        self.words = bool(sort) and sort[0][0] == "note"
        self.has_max = impl == "MP"

    def tables(self, engine):
        from sim.boot import tables_of

        ms = list(self.models)
        if self.rich:  # they share Tag
            ms = []
            for f in families().values():
                if f.rich and engine in f.engines:
                    ms += [*f.models, *reversed(f.extra_tables[1:])]
            ms.append(self.extra_tables[0])
            return tables_of(list(reversed(ms)))
        return tables_of(list(reversed(ms)) + self.extra_tables)

    def key(self, data):
        return tuple((_reverse(data[f]) if desc else data[f]) for f, desc in self.sort)

    def capacity(self):
        m = self.base
        return len(m.alphabet) ** m.steplen - 1

    def last_step(self, path):
        """The number that the last step of a path stands for."""
        n = 0
        for c in path[-self.base.steplen :]:
            n = n * len(self.base.alphabet) + self.base.alphabet.index(c)
        return n

    def max_depth(self):
        m = self.base
        return m._meta.get_field("path").max_length // m.steplen


def _reverse(v):
    return -v if isinstance(v, int) else tuple([-ord(c) for c in v] + [1])


_CACHE = {}


def families():
    if _CACHE:
        return _CACHE
    from sim.simapp import models as M

    sort = [("val1", False), ("val2", True)]
    for impl in IMPLS:
        eng = ("pg",) if impl == "LT" else ("sqlite", "pg")

        def add(name, models, **kw):
            _CACHE[name] = Family(name, impl, models, engines=eng, **kw)

        g = lambda s: getattr(M, impl + s)  # noqa: E731
        add(f"{impl}Plain", [g("Plain")])
        add(f"{impl}Sorted", [g("Sorted")], sort=sort)
        add(f"{impl}Words", [g("Words")], sort=[("note", True), ("val1", False), ("val2", True)])
        add(f"{impl}Uuid", [g("Uuid")])
        add(f"{impl}Proxy", [g("Proxy")], extra_tables=[])
        add(f"{impl}Mti", [g("MtiItem"), g("MtiBase")], extra_tables=[g("DepItem")])
        add(f"{impl}MtiProxy", [g("MtiProxy"), g("MtiBase")], extra_tables=[g("DepItem")])
        add(f"{impl}MtiSorted", [g("MtiSorted"), g("MtiSortedBase")], sort=sort)
        deps = [g("DepCascade"), g("DepNull"), g("DepProtect"), g("DepSub")]
        add(f"{impl}Rich", [g("Rich")], rich=deps, extra_tables=[M.Tag, *deps])
    for name in ("MPTiny", "MPTwo", "MPOdd", "MPBinary", "MPShallow"):
        _CACHE[name] = Family(name, "MP", [getattr(M, name)])
    _CACHE["MPTinySorted"] = Family("MPTinySorted", "MP", [M.MPTinySorted], sort=sort)
    _CACHE["MPTwoSorted"] = Family("MPTwoSorted", "MP", [M.MPTwoSorted], sort=sort)
    for f in _CACHE.values():
        f.small = f.impl == "MP" and f.capacity() < 1000
    return _CACHE


ONLY = os.environ.get("SIM_FAMILIES", "").split()  # (to look into one)


def names(engine, *, impls=IMPLS, variants=None):
    return [
        n
        for n, f in families().items()
        if engine in f.engines and f.impl in impls and (variants is None or n[len(f.impl) :] in variants) and (not ONLY or n in ONLY)
    ]


DATA = ("val1", "val2", "note")


class Snapshot:
    """The decoded content of a family's table."""

    __slots__ = ("rows", "problems", "parent", "children", "data", "raw", "pk")

    def __init__(self):
        self.problems = []
        self.parent = {}
        self.children = {None: []}
        self.data = {}
        self.raw = {}
        self.pk = {}

    def shape(self):
        def rec(u):
            return [(c, rec(c)) for c in self.children.get(u, [])]

        return rec(None)

    def order(self):
        out = []

        def rec(u):
            for c in self.children.get(u, []):
                out.append(c)
                rec(c)

        rec(None)
        return out


def raw_rows(fam, alias="default"):
    cols = ["pk", "uid", *DATA]
    if fam.impl == "MP":
        cols += ["path", "depth", "numchild"]
    elif fam.impl == "NS":
        cols += ["tree_id", "lft", "rgt", "depth"]
    elif fam.impl == "AL":
        cols += ["parent_id"] + ([] if fam.sort else ["sib_order"])
    else:
        cols += ["path"]
    if fam.rich:
        cols += ["tag_id"]
    base = fam.base
    if base._meta.proxy:
        base = base._meta.concrete_model
    from django.db.models import QuerySet

    with quiet():
        return list(QuerySet(base, using=alias).order_by("pk").values(*cols))


def decode(fam, rows):
    s = Snapshot()
    seen = set()
    for r in rows:
        u = r["uid"]
        if u in seen:
            s.problems.append(f"node {u} stored twice")
            u = f"{u}#{r['pk']}"
        seen.add(u)
        s.raw[u] = r
        s.pk[u] = r["pk"]
        s.data[u] = {k: r[k] for k in DATA}
        if fam.rich:
            s.data[u]["tag"] = r["tag_id"]
    getattr(_Decode, fam.impl)(fam, s)
    return s


def observe(fam, alias="default"):
    return decode(fam, raw_rows(fam, alias))


class _Decode:
    @staticmethod
    def _finish(s, placed):
        """placed: list of (uid, parent uid) in sibling order."""
        for u, p in placed:
            s.parent[u] = p
            s.children.setdefault(p, []).append(u)
            s.children.setdefault(u, s.children.get(u, []))

    @staticmethod
    def MP(fam, s):
        base = fam.base
        steplen, alphabet = base.steplen, base.alphabet
        maxlen = base._meta.get_field("path").max_length
        bypath = {}
        for u, r in s.raw.items():
            p = r["path"]
            if not p or len(p) % steplen:
                s.problems.append(f"{u}: path {p!r} is not a whole number of steps")
            if any(c not in alphabet for c in p):
                s.problems.append(f"{u}: path {p!r} has characters outside the alphabet")
            if len(p) > maxlen:
                s.problems.append(f"{u}: path {p!r} longer than the column")
            if p in bypath:
                s.problems.append(f"{u}: path {p!r} used twice")
            bypath[p] = u
            if r["depth"] * steplen != len(p):
                s.problems.append(f"{u}: depth {r['depth']} stored for path {p!r}")
        placed = []
        count = {u: 0 for u in s.raw}
        for p in sorted(bypath):
            u = bypath[p]
            if len(p) <= steplen:
                placed.append((u, None))
                continue
            pu = bypath.get(p[:-steplen])
            if pu is None:
                s.problems.append(f"{u}: path {p!r} has no parent row")
                placed.append((u, None))
            else:
                count[pu] += 1
                placed.append((u, pu))
        for u, r in s.raw.items():
            if r["numchild"] != count[u]:
                s.problems.append(f"{u}: numchild {r['numchild']} stored, {count[u]} children")
        _Decode._finish(s, placed)

    @staticmethod
    def NS(fam, s):
        trees = {}
        for u, r in s.raw.items():
            trees.setdefault(r["tree_id"], []).append(u)
        placed = []
        for t in sorted(trees):
            us = sorted(trees[t], key=lambda u: (s.raw[u]["lft"], s.raw[u]["rgt"], u))
            vals = sorted(x for u in us for x in (s.raw[u]["lft"], s.raw[u]["rgt"]))
            if vals != list(range(1, 2 * len(us) + 1)):
                s.problems.append(
                    f"tree {t}: boundaries {[(u, s.raw[u]['lft'], s.raw[u]['rgt']) for u in us]} are not 1..{2 * len(us)}"
                )
            stack = []
            roots = 0
            for u in us:
                r = s.raw[u]
                if r["rgt"] <= r["lft"]:
                    s.problems.append(f"{u}: lft {r['lft']} rgt {r['rgt']}")
                while stack and s.raw[stack[-1]]["rgt"] < r["lft"]:
                    stack.pop()
                if stack and s.raw[stack[-1]]["rgt"] < r["rgt"]:
                    s.problems.append(f"{u}: overlaps {stack[-1]}")
                if not stack:
                    roots += 1
                placed.append((u, stack[-1] if stack else None))
                stack.append(u)
                if r["depth"] != len(stack):
                    s.problems.append(f"{u}: depth {r['depth']} stored, is at {len(stack)}")
            if roots != 1:
                s.problems.append(f"tree {t}: {roots} roots share it")
        _Decode._finish(s, placed)

    @staticmethod
    def AL(fam, s):
        bypk = {pk: u for u, pk in s.pk.items()}
        groups = {}
        for u, r in s.raw.items():
            p = r["parent_id"]
            if p is not None and p not in bypk:
                s.problems.append(f"{u}: parent {p} does not exist")
                p = None
            groups.setdefault(bypk.get(p), []).append(u)
        placed = []
        for p, us in groups.items():
            if fam.sort:
                us.sort(key=lambda u: (fam.key(s.data[u]), u))
            else:
                us.sort(key=lambda u: (s.raw[u]["sib_order"], u))
                orders = [s.raw[u]["sib_order"] for u in us]
                if len(set(orders)) != len(orders):
                    s.problems.append(f"children of {p}: sibling order not distinct {list(zip(us, orders))}")
            placed += [(u, p) for u in us]
        _Decode._finish(s, placed)
        # cycles
        reach = set(s.order())
        for u in s.raw:
            if u not in reach:
                s.problems.append(f"{u}: is its own ancestor")

    @staticmethod
    def LT(fam, s):
        bypath = {}
        for u, r in s.raw.items():
            p = tuple(r["path"])
            if not p:
                s.problems.append(f"{u}: empty path")
            if p in bypath:
                s.problems.append(f"{u}: path {'.'.join(p)} used twice")
            bypath[p] = u
        placed = []
        for p in sorted(bypath):
            u = bypath[p]
            if len(p) == 1:
                placed.append((u, None))
                continue
            pu = bypath.get(p[:-1])
            if pu is None:
                s.problems.append(f"{u}: path {'.'.join(p)} has no parent row")
            placed.append((u, pu))
        _Decode._finish(s, placed)
