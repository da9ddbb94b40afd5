"""Models of the simulated application.  Real treebeard base classes, nothing overridden.

For each tree implementation there is a set of variants: plain, sorted (node_order_by),
uuid (UUID primary key), proxy, mti (multi-table inheritance) and rich (foreign keys,
many-to-many and dependants), plus MP variants with little room in their paths."""

import uuid

from django.db import models

from treebeard.al_tree import AL_Node, AL_NodeManager
from treebeard.ltree import LT_Node
from treebeard.mp_tree import MP_Node
from treebeard.ns_tree import NS_Node

_uuid_counter = [0]


def sim_uuid():
    """Seeded: a counter reset at the start of every run."""
    _uuid_counter[0] += 1
    return uuid.uuid5(uuid.NAMESPACE_OID, f"treebeard-sim-{_uuid_counter[0]}")


class Tag(models.Model):
    name = models.CharField(max_length=20)


class Data(models.Model):
    uid = models.CharField(max_length=40)
    val1 = models.IntegerField(default=0)
    val2 = models.IntegerField(default=0)
    note = models.CharField(max_length=40, default="")

    class Meta:
        abstract = True

    def __str__(self):
        return self.uid


SORT = ["val1", "-val2"]


def _make(impl, base):
    g = globals()

    def define(name, bases, attrs, meta=None):
        attrs = {"__module__": __name__, "__qualname__": name, **attrs}
        if meta is not None:
            attrs["Meta"] = type("Meta", (), meta)
        elif impl == "LT":
            attrs["Meta"] = type("Meta", (base.Meta,), {"abstract": False})
        g[name] = type(bases[0])(name, bases, attrs)
        return g[name]

    def tree_fields(name, sorted_=False):
        if impl != "AL":
            return {"node_order_by": list(SORT)} if sorted_ else {}
        f = {
            "parent": models.ForeignKey(
                "self", related_name="children_set", null=True, db_index=True, on_delete=models.CASCADE
            )
        }
        if sorted_:
            f["node_order_by"] = list(SORT)
        else:
            f["sib_order"] = models.PositiveIntegerField()
        return f

    plain = define(f"{impl}Plain", (base, Data), tree_fields("Plain"))
    define(f"{impl}Sorted", (base, Data), tree_fields("Sorted", True))
    words = define(f"{impl}Words", (base, Data), tree_fields("Words", True))
    words.node_order_by = ["-note", "val1", "-val2"]
    define(
        f"{impl}Uuid",
        (base, Data),
        {"id": models.UUIDField(primary_key=True, default=sim_uuid), **tree_fields("Uuid")},
    )
    define(f"{impl}Proxy", (plain,), {}, meta={"proxy": True})
    mtib = define(f"{impl}MtiBase", (base, Data), tree_fields("MtiBase"))
    define(
        f"{impl}MtiItem",
        (mtib,),
        {"extra": models.CharField(max_length=20, default="x")},
        meta={},
    )
    define(f"{impl}MtiProxy", (g[f"{impl}MtiItem"],), {}, meta={"proxy": True})
    sortb = define(f"{impl}MtiSortedBase", (base, Data), tree_fields("MtiSortedBase", True))
    define(
        f"{impl}MtiSorted",
        (sortb,),
        {"extra": models.CharField(max_length=20, default="x")},
        meta={},
    )
    rich = define(
        f"{impl}Rich",
        (base, Data),
        {
            **tree_fields("Rich"),
            "tag": models.ForeignKey(Tag, null=True, on_delete=models.SET_NULL, related_name="+"),
            "tags": models.ManyToManyField(Tag, related_name="+"),
        },
    )
    for kind, on_delete, null in (
        ("Cascade", models.CASCADE, False),
        ("Null", models.SET_NULL, True),
        ("Protect", models.PROTECT, False),
    ):
        define(
            f"{impl}Dep{kind}",
            (models.Model,),
            {
                "node": models.ForeignKey(rich, null=null, on_delete=on_delete, related_name=f"dep_{kind.lower()}"),
                "name": models.CharField(max_length=40),
            },
            meta={},
        )
    define(
        f"{impl}DepSub",
        (models.Model,),
        {
            "dep": models.ForeignKey(g[f"{impl}DepCascade"], on_delete=models.CASCADE, related_name="subs"),
            "name": models.CharField(max_length=40),
        },
        meta={},
    )
    define(
        f"{impl}DepItem",
        (models.Model,),
        {
            "item": models.ForeignKey(g[f"{impl}MtiItem"], on_delete=models.CASCADE, related_name="deps"),
            "name": models.CharField(max_length=40),
        },
        meta={},
    )


for _impl, _base in (("MP", MP_Node), ("NS", NS_Node), ("AL", AL_Node), ("LT", LT_Node)):
    _make(_impl, _base)


class MPTiny(MP_Node, Data):
    """Nine siblings per parent, six levels."""

    steplen = 1
    alphabet = "0123456789"
    path = models.CharField(max_length=6, unique=True)


class MPTwo(MP_Node, Data):
    """Two-character steps over a four-letter alphabet: fifteen siblings per parent."""

    steplen = 2
    alphabet = "0123"
    path = models.CharField(max_length=12, unique=True)


class MPTinySorted(MP_Node, Data):
    steplen = 1
    alphabet = "0123456789AB"
    path = models.CharField(max_length=5, unique=True)
    node_order_by = ["val1", "-val2"]


class MPTwoSorted(MP_Node, Data):
    steplen = 2
    alphabet = "012"
    path = models.CharField(max_length=9, unique=True)
    node_order_by = ["val1", "-val2"]


class MPOdd(MP_Node, Data):
    """The column is longer than three steps, but not long enough for a fourth."""

    steplen = 3
    alphabet = "01"
    path = models.CharField(max_length=11, unique=True)


class MPBinary(MP_Node, Data):
    """Three siblings per parent."""

    steplen = 2
    alphabet = "01"
    path = models.CharField(max_length=10, unique=True)


class MPShallow(MP_Node, Data):
    """Two levels only, with the default alphabet."""

    steplen = 1
    path = models.CharField(max_length=2, unique=True)
