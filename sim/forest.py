"""The reference model: an ordered forest held in two dictionaries."""


class Reject(Exception):
    """The reference model refuses the request; ``names`` are the acceptable exceptions."""

    def __init__(self, *names):
        self.names = names
        super().__init__(" or ".join(names))


CHILD_POS = ("first-child", "last-child", "sorted-child")
SIB_POS = ("first-sibling", "left", "right", "last-sibling", "sorted-sibling")


class Forest:
    def __init__(self, key=None):
        self.children = {None: []}
        self.parent = {}
        self.data = {}
        self.key = key  # data -> sort key, or None

    def copy(self):
        f = Forest(self.key)
        f.children = {k: list(v) for k, v in self.children.items()}
        f.parent = dict(self.parent)
        f.data = {k: dict(v) for k, v in self.data.items()}
        return f

    @classmethod
    def of(cls, snap, key=None):
        f = cls(key)
        f.children = {k: list(v) for k, v in snap.children.items()}
        f.parent = dict(snap.parent)
        f.data = {k: dict(v) for k, v in snap.data.items()}
        for u in snap.parent:
            f.children.setdefault(u, [])
        return f

    # ---- queries
    def nodes(self):
        out = []

        def rec(u):
            for c in self.children[u]:
                out.append(c)
                rec(c)

        rec(None)
        return out

    def depth(self, u):
        d = 0
        while u is not None:
            u = self.parent[u]
            d += 1
        return d

    def ancestors(self, u):
        out = []
        u = self.parent[u]
        while u is not None:
            out.insert(0, u)
            u = self.parent[u]
        return out

    def subtree(self, u):
        out = [u]
        for c in self.children[u]:
            out += self.subtree(c)
        return out

    def height(self, u):
        return 1 + max([self.height(c) for c in self.children[u]], default=0)

    def siblings(self, u):
        return self.children[self.parent[u]]

    # ---- changes
    def _place(self, u, parent, index):
        sibs = self.children[parent]
        if self.key is not None:
            k = self.key(self.data[u])
            index = len(sibs)
            for i, s in enumerate(sibs):
                if self.key(self.data[s]) > k:
                    index = i
                    break
        sibs.insert(index, u)
        self.parent[u] = parent
        self.children.setdefault(u, [])

    def check_pos(self, pos, move):
        valid = SIB_POS + (CHILD_POS if move else ())
        srt = ("sorted-sibling", "sorted-child") if move else ("sorted-sibling",)
        if pos is None:
            pos = "sorted-sibling" if self.key else "last-sibling"
        if pos not in valid:
            raise Reject("InvalidPosition")
        if self.key and pos not in srt:
            raise Reject("InvalidPosition")
        if not self.key and pos in srt:
            raise Reject("MissingNodeOrderBy")
        return pos

    def add(self, u, data, parent):
        self.data[u] = dict(data)
        self._place(u, parent, len(self.children[parent]))

    def _sib_index(self, t, pos):
        sibs = self.siblings(t)
        i = sibs.index(t)
        return {"first-sibling": 0, "left": i, "right": i + 1, "last-sibling": len(sibs), "sorted-sibling": 0}[pos]

    def add_sibling(self, u, data, target, pos):
        pos = self.check_pos(pos, False)
        self.data[u] = dict(data)
        self._place(u, self.parent[target], self._sib_index(target, pos))

    def move(self, n, t, pos):
        pos = self.check_pos(pos, True)
        if pos in CHILD_POS:
            if t in self.subtree(n):
                raise Reject("InvalidMoveToDescendant")
            parent = t
        else:
            if t != n and t in self.subtree(n):
                raise Reject("InvalidMoveToDescendant")
            parent = self.parent[t]
        if self.key is not None:
            old = self.parent[n]
            self.children[old].remove(n)
            self._place(n, parent, 0)
            return
        if t == n:
            sibs = self.siblings(n)
            if pos in ("left", "right"):
                return
            sibs.remove(n)
            sibs.insert(0 if pos == "first-sibling" else len(sibs), n)
            return
        self.children[self.parent[n]].remove(n)
        if pos in CHILD_POS:
            index = 0 if pos == "first-child" else len(self.children[parent])
        else:
            index = self._sib_index(t, pos)
        self._place(n, parent, index)

    def delete(self, nodes):
        gone = []
        for n in nodes:
            if n in self.parent:
                for u in reversed(self.subtree(n)):
                    gone.append(u)
                    self.children[self.parent[u]].remove(u)
                    del self.children[u], self.parent[u], self.data[u]
        return gone

    def load(self, items, parent):
        """items: list of (uid, data, children)."""
        for u, data, kids in items:
            self.add(u, data, parent)
            self.load(kids, u)

    # ---- comparison
    def diff(self, snap):
        """What differs between this forest and the stored one; '' when they agree."""
        if set(self.parent) != set(snap.parent):
            return (
                f"nodes differ: missing {sorted(set(self.parent) - set(snap.parent))}, "
                f"unexpected {sorted(set(snap.parent) - set(self.parent))}"
            )
        for u in self.parent:
            if self.parent[u] != snap.parent[u]:
                return f"{u} should be under {self.parent[u]}, is under {snap.parent[u]}"
        for u in self.data:
            a, b = self.data[u], snap.data[u]
            for k in a:
                if a[k] != b.get(k):
                    return f"{u}: {k} should be {a[k]!r}, is {b.get(k)!r}"
        for p, cs in self.children.items():
            got = snap.children.get(p, [])
            if self.key is not None:
                if [self.key(self.data[c]) for c in got] != sorted(self.key(self.data[c]) for c in got):
                    return f"children of {p} out of order: {[(c, self.key(self.data[c])) for c in got]}"
            elif cs != got:
                return f"children of {p} should be {cs}, are {got}"
        return ""
