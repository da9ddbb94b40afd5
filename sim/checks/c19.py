import json
import re


from sim.adminsite import USERS
from sim.checks.c17 import NAMES, AdminWorld
from sim.checks.common import Leg, WorldCheck, names
from sim.families import observe
from sim.kernel import quiet
from sim.world import Violation

READ_FAULTS = ("err_before", "err_after", "fetch_err", "cancel", "crash_before", "txn_killed")
ROW = re.compile(r'<a[^>]*href="[^"]*/admin/simapp/\w+/([^/"]+)/change/[^"]*"[^>]*>([^<]*)</a>')
CONTEXT = re.compile(r'<script id="tree-context" type="application/json">(.*?)</script>', re.S)


class ListWorld(AdminWorld):
    """People look at the list of the tree in the admin and open branches of it, while the tree changes."""

    def step(self, step):
        self.remember()
        if step["op"] in ("list", "branch"):
            self.ci = step.get("c", 0) % len(self.clients)
            getattr(self, "do_" + step["op"])(step)
            return
        super().step(step)

    # ------------------------------------------------------------------ asking
    def query(self, step):
        q = {}
        if step.get("q") is not None:
            q["q"] = self.words(step["q"])
        if step.get("flt") is not None:
            q["val2__exact"] = str(step["flt"])
        if step.get("o"):
            # (people who may delete have a column of checkboxes)
            boss, _, acts = USERS[NAMES[step["u"] % len(NAMES)]]
            q["o"] = ("" if step["o"] > 0 else "-") + ("2" if boss or "delete" in acts else "1")
        return q

    def words(self, k):
        return ("s1", "s", "note", "pear", "b", "zzz")[k % 6]

    def matches(self, uid, q):
        d = self.model.data[uid]
        if "q" in q and q["q"].lower() not in uid.lower() and q["q"].lower() not in d["note"].lower():
            return False
        return "val2__exact" not in q or d["val2"] == int(q["val2__exact"])

    def ask(self, step, path, q, page, where):
        """The rows of one page as [(key, text, context)], the number of pages; or why there is none."""
        user = NAMES[step["u"] % len(NAMES)]
        before, rest = self.snap, self.rest()
        out = []

        def do():
            r = self.http(user, "get", path, dict(q, p=str(page)) if page > 1 else q)
            if hasattr(r, "render"):
                r.render()
            return r

        for f in (step.get("f"), None):
            o = self.call(do, self.ci, f)
            if observe(self.fam, self.alias).raw != before.raw or self.rest() != rest:
                raise Violation("page-changed", f"{where}: the tree changed", self.step_no)
            if not (o.kind != "ok" and o.fired):
                break
            self.stats.add("pages_asked_for_again")
        if o.kind != "ok":
            out = type(o.exc).__name__
            if out not in ("PermissionDenied", "Http404"):
                raise Violation("page-failed", f"{where}: {out}: {str(o.exc)[:200]}", self.step_no)
            return out, 0
        r = o.value
        if r.status_code != 200:
            return f"status {r.status_code}", 0
        text = r.content.decode()
        if path.endswith("/") and "/children/" in path:
            d = json.loads(text)
            html, ctx, pages = d["result_html"], d["tree_context"], d["num_pages"]
            if d["page"] != page:
                raise Violation("wrong-page", f"{where}: page {d['page']} instead of {page}", self.step_no)
        else:
            m = CONTEXT.search(text)
            html = text
            ctx = json.loads(m.group(1)) if m else []
            pages = r.context_data["cl"].paginator.num_pages
        rows = ROW.findall(html[html.find("<tbody") :] if "<tbody" in html else "")
        if len(rows) != len(ctx):
            raise Violation("rows-and-context", f"{where}: {len(rows)} rows and {len(ctx)} entries of tree information", self.step_no)
        self.stats.add("pages_shown")
        return [(k, t, c) for (k, t), c in zip(rows, ctx)], pages

    # ------------------------------------------------------------------ judging
    def do_list(self, step):
        """The whole tree, opened as far as it goes, like somebody who clicks on everything."""
        mi = step.get("mi", 0)
        q = self.query(step)
        if not self.level(step, None, mi, q):
            return
        todo, n = list(self.shown), 0
        while todo and n < step.get("clicks", 5):
            u = todo.pop(0)
            n += 1
            if self.level(step, u, mi, q):
                todo = self.shown + todo

    def do_branch(self, step):
        mi = step.get("mi", 0)
        ever = sorted(self.everpk)
        if not ever:
            return
        u = ever[step["n"] % len(ever)] if step.get("late") else self.pick(step["n"], rel=step.get("nrel"))
        if u is not None:
            self.level(step, u, mi, self.query(step))

    def level(self, step, parent, mi, q):
        """All pages of one level; True when it was shown."""
        user = NAMES[step["u"] % len(NAMES)]
        boss, staff, acts = USERS[user]
        m, here = self.model, self.covered(mi)
        where = f"step {self.step_no}: {user} looks at {'the list' if parent is None else 'the children of ' + parent} {q or ''}"
        path = self.url(mi, "" if parent is None else f"children/{self.everpk[parent]}/")
        allowed = staff and (boss or "view" in acts or "change" in acts)
        self.shown = []
        rows, page, pages = [], 1, 1
        while page <= pages:
            got, pages = self.ask(step, path, q, page, where)
            if isinstance(got, str):
                if allowed and (parent is None or parent in here):
                    raise Violation("not-shown", f"{where}: {got}", self.step_no)
                self.stats.add("pages_refused")
                return False
            rows += got
            page += 1
            step = {k: v for k, v in step.items() if k != "f"}
        if not allowed:
            raise Violation("shown-without-permission", f"{where}: {len(rows)} rows", self.step_no)
        if parent is not None and parent not in here:
            raise Violation("shown", f"{where}: it does not exist, yet {len(rows)} rows are shown", self.step_no)
        byk = {str(self.snap.pk[u]): u for u in m.parent}
        for k, t, c in rows:
            if k not in byk or t != byk[k] or c["node-id"] != k:
                raise Violation("wrong-row", f"{where}: a row {t!r} with key {k} and information about {c['node-id']}", self.step_no)
        got = [byk[k] for k, _, _ in rows]
        want = [u for u in m.children[parent] if u in here and self.matches(u, q)]
        if sorted(got) != sorted(want):
            raise Violation("wrong-nodes", f"{where}: shows {got}, should be {want}", self.step_no)
        if q.get("o"):
            vals = [m.data[u]["val1"] for u in got]
            if vals != sorted(vals, reverse=q["o"][0] == "-"):
                raise Violation("wrong-order", f"{where}: shows {got} with {vals}", self.step_no)
        elif self.fam.sort:
            keys = [self.fam.key(m.data[u]) for u in got]
            if keys != sorted(keys):
                raise Violation("wrong-order", f"{where}: shows {list(zip(got, keys))}", self.step_no)
        elif got != want:
            raise Violation("wrong-order", f"{where}: shows {got}, the order is {want}", self.step_no)
        for k, t, c in rows:
            u = byk[k]
            kids = m.children[u]
            seen = [x for x in kids if x in here]
            has = [0, 1] if kids and not seen else [int(bool(seen))]
            facts = [
                ("parent-id", str(self.snap.pk[parent]) if parent else "0", "is"),
                ("level", m.depth(u), "is"),
                ("can-change", int(self.may(user, "change", u)), "is"),
            ]
            for name, w, _ in facts:
                if c[name] != w:
                    raise Violation("wrong-information", f"{where}: {name} of {u} is {c[name]!r}, should be {w!r}", self.step_no)
            if c["has-children"] not in has:
                raise Violation("wrong-information", f"{where}: has-children of {u} is {c['has-children']!r}, its children are {kids}", self.step_no)
            if c["has-children"]:
                self.shown.append(u)
        self.stats.add("levels_compared")
        return True


class C19(WorldCheck):
    id = "C19"
    title = "the admin's tree pages show exactly the stored tree"
    rule = (
        "A run is one seeded history in which users with different permissions open the list of the tree in the real admin and its branches, page by page, "
        "searched, filtered and sorted or not, with outdated keys, with requests that fail and are repeated, while programs change the tree; every row and "
        "the tree information that goes with it is compared with the rows of the tree decoded independently, and showing must not change anything."
    )
    real = "treebeard (admin, template tags, managers), Django admin change list, templates and permissions, ORM, SQLite / PostgreSQL"
    stub = "browser and HTTP server (in-process requests to the resolved views, the page's rows read from its HTML), middleware, sessions; " + WorldCheck.stub
    oracles = ()
    world = ListWorld
    weights = {"delete": 2, "move": 9, "add_child": 9, "load": 1, "begin": 0, "commit": 0, "rollback": 0, "restart": 0.3, "setval": 0.5, "dep": 0}
    gen_opts = {"warm": 5, "steps": (3, 9), "outer": False}
    legs = (Leg("sqlite", "sqlite", 800, 40000, jobs=4), Leg("pg", "pg", 600, 30000, jobs=4))

    def families(self, leg):
        return [n for n in names(leg.engine) if n not in ("MPBinary", "MPShallow")]

    def prepare(self, leg, env):
        from django.template.loader import get_template
        from django.urls import resolve

        from sim import adminsite

        with quiet():
            adminsite.make_users(leg.engine)
            resolve("/admin/")
            get_template("admin/tree_change_list.html")

    def decorate(self, rng, leg, fam, trace):
        out = []
        for i, s in enumerate(trace["steps"]):
            out.append(s)
            if i >= 2 and rng.random() < 0.6:
                out.append(self.look(rng, fam))
        trace["steps"] = out
        return trace

    def look(self, rng, fam):
        big = 1 << 16
        s = {"op": rng.choice(("list", "list", "branch")), "u": rng.choice((0, 0, 1, 1, 2, 4, rng.randrange(len(NAMES)))), "c": rng.randrange(2)}
        if fam.mti:
            s["mi"] = rng.randrange(2)
        if rng.random() < 0.25:
            s["q"] = rng.randrange(6)
        if rng.random() < 0.15:
            s["flt"] = rng.randrange(4)
        if rng.random() < 0.15:
            s["o"] = rng.choice((1, -1))
        if s["op"] == "list":
            s["clicks"] = rng.choice((0, 3, 8, 30))
        else:
            s.update(n=rng.randrange(big), late=rng.random() < 0.3)
        if rng.random() < 0.2:
            s["f"] = {"kind": rng.choice(READ_FAULTS), "k": rng.randrange(1, 10)}
        return s


CHECK = C19()
