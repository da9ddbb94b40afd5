import itertools
import json
import uuid

from django.db import transaction
from django.db.models import QuerySet

from sim import adminsite
from sim.adminsite import LOCK, USERS
from sim.boot import reset_tables
from sim.checks.c05 import order
from sim.checks.common import EVERY_FAULT, Leg, WorldCheck, names
from sim.families import observe
from sim.forest import Reject
from sim.gen import fault, vals
from sim.kernel import COMMIT_FAULTS, quiet
from sim.sched import Sched
from sim.world import StopRun, Violation, World

NAMES = list(USERS)


def serializable():
    from psycopg import IsolationLevel

    return {"isolation_level": IsolationLevel.SERIALIZABLE}


class AdminWorld(World):
    """Several users work on the same tree through the admin: pages are opened, sent, sent late, sent twice."""

    def setup(self):
        super().setup()
        reset_tables(self.engine, ["django_admin_log"], self.alias)
        self.pages = []
        self.everpk = {}
        self.last = None
        self.subs = 0
        self.together_now = False

    # ------------------------------------------------------------------ requests
    def http(self, user, method, path, data=None):
        from django.contrib.auth.models import AnonymousUser, User
        from django.contrib.messages.storage.cookie import CookieStorage
        from django.test import RequestFactory
        from django.urls import resolve

        request = getattr(RequestFactory(), method)(path, data or {})
        request._dont_enforce_csrf_checks = True
        request.session = {}
        request._messages = CookieStorage(request)
        request.user = User.objects.get(username=user) if user else AnonymousUser()
        match = resolve(path)
        return match.func(request, *match.args, **match.kwargs)

    def url(self, mi, rest):
        m = self.fam.models[mi % len(self.fam.models)]
        return f"/admin/simapp/{m._meta.model_name}/{rest}"

    def may(self, user, action, uid=None, m=None):
        boss, staff, acts = USERS[user]
        if action == "change" and uid is not None and (m or self.model).data[uid]["val2"] == LOCK:
            return False
        return staff and (boss or action in acts)

    def items(self):
        """The nodes that the first model of the family covers."""
        if not self.fam.mti:
            return set(self.model.parent)
        with quiet():
            return set(QuerySet(self.fam.models[0], using=self.alias).values_list("uid", flat=True))

    frozen = None  # what was stored before several requests ran at once

    def covered(self, mi):
        if self.frozen:
            return self.frozen["items"] if mi % len(self.fam.models) == 0 else self.frozen["all"]
        return self.items() if mi % len(self.fam.models) == 0 else set(self.model.parent)

    def rest(self):
        """Everything besides the tree that a request may change."""
        from django.contrib.admin.models import LogEntry

        with quiet():
            out = [list(QuerySet(LogEntry).order_by("pk").values_list("object_repr", "action_flag", "user_id"))]
            ms = list(self.fam.extra_tables)
            if self.fam.mti:
                ms.append(self.fam.models[0])
            for m in ms:
                out.append(sorted(map(repr, QuerySet(m, using=self.alias).values())))
            if self.fam.rich:
                th = self.fam.base._meta.get_field("tags").remote_field.through
                out.append(sorted(map(repr, QuerySet(th, using=self.alias).values_list())))
        return out

    def remember(self):
        self.everpk.update(self.snap.pk)

    # ------------------------------------------------------------------ steps
    def step(self, step):
        self.remember()
        op = step["op"]
        if op in ("open", "submit", "drag", "remove", "removemany", "again", "together"):
            self.ci = step.get("c", 0) % len(self.clients)
            self.chain = {}
            if op in ("open", "together"):
                getattr(self, "do_" + op)(step)
                return
            r = getattr(self, "make_" + op)(step)
            if r is not None:
                self.send(r, step)
            return
        super().step(step)

    def do_open(self, step):
        user, mi = NAMES[step["u"] % len(NAMES)], step.get("mi", 0)
        n = None if step.get("add") else self.pick(step["n"], rel=step.get("nrel"))
        if not step.get("add") and n is None:
            return
        path = self.url(mi, "add/" if n is None else f"{self.snap.pk[n]}/change/")

        def do():
            r = self.http(user, "get", path)
            if step.get("render") and hasattr(r, "render"):
                r.render()
            return r

        before, rest = self.snap, self.rest()
        o = self.call(do, self.ci, step.get("f"))
        where = f"step {self.step_no}: {user} opens the page of {n}"
        now = observe(self.fam, self.alias)
        if now.raw != before.raw or self.rest() != rest:
            raise Violation("page-changed", f"{where}: the tree changed", self.step_no)
        if o.kind != "ok":
            if not o.fired and type(o.exc).__name__ not in ("PermissionDenied", "Http404"):
                raise Violation("page-failed", f"{where}: {type(o.exc).__name__}: {o.exc}", self.step_no)
            return
        ctx = getattr(o.value, "context_data", None)
        if o.value.status_code != 200 or not ctx or "adminform" not in ctx:
            return
        can = self.may(user, "change", n) if n else self.may(user, "add")
        if not can:
            return
        with quiet():
            form = ctx["adminform"].form
            self.stats.add("pages_opened")
            if n in self.covered(mi) or n is None:
                self.check_choices(where, form, n)
            data = self.page_data(form, ctx)
        self.pages.append({"user": user, "mi": mi, "n": n, "data": data, "path": path, "raw": now.raw})

    def check_choices(self, where, form, n):
        offered = [getattr(k, "value", k) for k, _ in form.fields["treebeard_ref_node"].choices]
        offered = [str(k) for k in offered if k not in ("", None)]
        hidden = set(self.model.subtree(n)) if n else set()
        want = [str(self.snap.pk[u]) for u in self.model.nodes() if u not in hidden]
        bad = [u for u in hidden if str(self.snap.pk[u]) in offered]
        if bad:
            raise Violation("invalid-choice-offered", f"{where}: {bad} offered as new positions", self.step_no)
        if sorted(offered) != sorted(want):
            raise Violation("choices", f"{where}: offered {offered}, the tree has {want}", self.step_no)
        if not self.fam.sort and offered != want:
            raise Violation("choices-order", f"{where}: offered {offered}, the order of the tree is {want}", self.step_no)

    def page_data(self, form, ctx):
        data = {}

        def put(f):
            for bf in f:
                v = bf.value()
                if v is None:
                    continue
                if hasattr(v, "pk"):
                    v = v.pk
                if isinstance(v, (list, tuple)):
                    v = [str(getattr(x, "pk", x)) for x in v]
                data[bf.html_name] = v if isinstance(v, list) else str(v)

        put(form)
        for fs in ctx.get("inline_admin_formsets", ()):
            put(fs.formset.management_form)
            for f in fs.formset.forms:
                put(f)
        return data

    # what users change on a page before they send it
    def make_submit(self, step):
        if not self.pages:
            return None
        page = self.pages[-1] if step.get("newest") else self.pages[step["page"] % len(self.pages)]
        user = page["user"] if step.get("as") is None else NAMES[step["as"] % len(NAMES)]
        data, n, mi = dict(page["data"]), page["n"], page["mi"]
        self.subs += 1
        changed = bool(step.get("set"))
        if n is None:
            data["uid"] = f"p{self.step_no}.{self.subs}"
            self.renew_key(data)
            if not step.get("set"):
                step = dict(step, set=[0, 0])
        if step.get("set"):
            d = self.data({"d": step["set"], "tag": 0})
            data.update(val1=str(d["val1"]), val2=str(d["val2"]), note=d["note"] or "empty")
        if self.fam.rich:
            if "tag" in step or n is None:
                data["tag"] = str(self.tag_pks[step.get("tag", 0) % 3])
                data["tags"] = [str(self.tag_pks[k % 3]) for k in sorted(set(step.get("tags", [0])))]
            if step.get("inline"):
                pre = "dep_cascade"
                k = int(data.get(f"{pre}-TOTAL_FORMS", "1")) - 1
                data[f"{pre}-{k}-name"] = f"inline{self.subs}"
        ref = None
        if "pos" in step:
            changed = True
            opts = ("sorted-child", "sorted-sibling") if self.fam.sort else ("first-child", "left", "right")
            data["treebeard_position"] = opts[step["pos"] % len(opts)]
            data["treebeard_ref_node"] = ""
            if step.get("ref") is not None:
                if n is not None and n in self.model.parent and step.get("rel"):
                    ref = self.pick(step["ref"], near=n, rel=step["rel"])
                else:
                    ever = sorted(self.everpk)
                    ref = ever[step["ref"] % len(ever)] if ever else None
                if ref is not None:
                    data["treebeard_ref_node"] = str(self.everpk[ref])
        broken = step.get("broken")
        if broken == 0:
            data["note"] = ""
        elif broken == 1:
            data["val1"] = "many"
        elif broken == 2:
            data["treebeard_position"] = "bogus"
        elif broken == 3:
            data["treebeard_ref_node"] = "0" if not self.fam.name.endswith("Uuid") else "00000000-0000-0000-0000-000000000000"
        elif broken == 4 and self.fam.rich:
            data["dep_cascade-0-name"] = "n" * 60
        elif broken == 5:
            data["uid"] = ""
        elif broken == 6:
            data["treebeard_position"] = "first-child" if self.fam.sort else "sorted-child"
        if not changed and n is not None and broken is None:
            self.stats.add("unchanged_pages_sent")
        same = page["raw"] if n is not None and data == page["data"] else None
        return {"same": same, "kind": "page", "user": user, "mi": mi, "n": n, "path": page["path"], "data": data, "direct": step.get("direct")}

    def renew_key(self, data):
        """The page chose the key: a deleted node's key is not used for another node, the harness tells them apart by key."""
        if self.fam.name.endswith("Uuid") and data.get("id") in map(str, self.everpk.values()):
            if self.together_now or data["id"] not in map(str, self.snap.pk.values()):
                data["id"] = str(uuid.uuid5(uuid.NAMESPACE_OID, data["uid"]))

    def make_drag(self, step):
        user, mi = NAMES[step["u"] % len(NAMES)], step.get("mi", 0)
        ever = sorted(self.everpk)
        if not ever:
            return None
        if step.get("late"):
            n, t = ever[step["n"] % len(ever)], ever[step["t"] % len(ever)]
        else:
            n = self.pick(step["n"], rel=step.get("nrel"))
            if n is None:
                return None
            t = self.pick(step["t"], near=n, rel=step.get("rel"))
        data = {"node": str(self.everpk[n]), "target": str(self.everpk[t]), "relation": ("child", "sibling")[step["rl"] % 2]}
        if step.get("broken") is not None:
            data.update([{"relation": "parent"}, {"node": ""}, {"target": "x"}, {"relation": ""}][step["broken"] % 4])
        return {"kind": "drag", "user": user, "mi": mi, "n": n, "t": t, "path": self.url(mi, "move/"), "data": data, "get": step.get("get")}

    def make_remove(self, step):
        user, mi = NAMES[step["u"] % len(NAMES)], step.get("mi", 0)
        ever = sorted(self.everpk)
        n = (ever[step["n"] % len(ever)] if ever else None) if step.get("late") else self.pick(step["n"], rel="leaf" if step.get("leaf") else None)
        if n is None:
            return None
        return {"kind": "remove", "user": user, "mi": mi, "n": n, "path": self.url(mi, f"{self.everpk[n]}/delete/"), "data": {"post": "yes"}}

    def make_removemany(self, step):
        """Nodes ticked on the list and deleted together."""
        user, mi = NAMES[step["u"] % len(NAMES)], step.get("mi", 0)
        ever = sorted(self.everpk)
        ns = []
        for j, k in enumerate(step["ns"]):
            n = (ever[k % len(ever)] if ever else None) if step.get("late") else self.pick(k, near=ns[0] if ns else None, rel=step.get("rel") if ns else None)
            if n is not None and n not in ns:
                ns.append(n)
        if not ns:
            return None
        data = {"action": "delete_selected", "_selected_action": [str(self.everpk[n]) for n in ns], "select_across": "0", "index": "0"}
        if not step.get("unsure"):
            data["post"] = "yes"
        return {"kind": "removemany", "user": user, "mi": mi, "n": None, "ns": ns, "path": self.url(mi, ""), "data": data}

    def make_again(self, step):
        """The button was pressed twice."""
        if self.last is None:
            return None
        r = dict(self.last, data=dict(self.last["data"]))
        if r["kind"] == "page" and r["n"] is None and r["data"].get("uid"):
            # (the harness tells nodes apart by uid)
            self.subs += 1
            r["data"]["uid"] = f"p{self.step_no}.{self.subs}"
            self.renew_key(r["data"])
        self.stats.add("repeated_submissions")
        return r

    # ------------------------------------------------------------------ sending and judging
    def direct(self, r):
        """A view of the application that uses the node form itself."""
        form_class = adminsite.site()._registry[self.fam.models[r["mi"] % len(self.fam.models)]].form
        from django.http import QueryDict

        q = QueryDict(mutable=True)
        for k, v in r["data"].items():
            q.setlist(k, v) if isinstance(v, list) else q.__setitem__(k, v)
        with transaction.atomic(using=self.alias):
            inst = None
            if r["n"] is not None:
                inst = self.fam.models[r["mi"] % len(self.fam.models)].objects.filter(pk=self.everpk[r["n"]]).first()
                if inst is None:
                    return None
            form = form_class(q, instance=inst)
            if form.is_valid():
                form.save()
            return None

    def send(self, r, step):
        """Sends the request; with a sweep, again and again, failing one statement later each time."""
        self.last = r
        if "sweep" not in step:
            self.send_once(r, step.get("f"))
            return
        for k in range(1, self.SWEEP_MAX + 1):
            o = self.send_once(dict(r, data=dict(r["data"])), {"kind": step["sweep"], "k": k} if k < self.SWEEP_MAX else None)
            if not o.fired or o.landed or o.kind == "ok":
                return
            self.stats.add("swept_fault_positions")

    SWEEP_MAX = 120

    def send_once(self, r, fault_):
        before, rest, model = self.snap, self.rest(), self.model.copy()
        had = []
        if r["kind"] == "page" and r["n"] in self.snap.pk and self.fam.rich:
            with quiet():
                had = self.inline_rows(self.snap.pk[r["n"]])
        self.stats.add("submissions")
        direct = r.get("direct") and r["kind"] == "page"
        if direct:
            self.stats.add("submissions_through_the_form_alone")
        try:
            applied, why = self.expected(model, r, direct), ""
        except Reject as e:
            applied, why, model = False, ",".join(e.names), self.model.copy()
        where = f"step {self.step_no}: {r['user']} {r['kind']} {r['n']} {self.brief(r)}"
        method = "get" if r.get("get") else "post"
        if r.get("get"):
            applied, model = False, self.model.copy()
        o = self.call((lambda: self.direct(r)) if direct else (lambda: self.http(r["user"], method, r["path"], r["data"])), self.ci, fault_)
        now = observe(self.fam, self.alias)
        if o.fired and (o.kind == "ok" or not o.landed):
            # (an error that hit somebody who could do without the statement)
            applied = applied and o.kind == "ok"
        elif o.kind not in ("ok", "error") and not o.fired:
            raise StopRun(o.kind)
        if o.kind == "error" and not o.fired and applied:
            if type(o.exc).__name__ == "PathOverflow" and self.fam.small:
                applied = False
            else:
                raise Violation("request-failed", f"{where}: {type(o.exc).__name__}: {str(o.exc)[:200]}", self.step_no)
        if applied and not o.fired and self.fam.small and r["kind"] == "drag" and o.value.status_code == 400:
            applied = False  # no room
        if applied and o.fired and o.kind != "ok" and self.fam.small and r["kind"] == "drag" and now.raw == before.raw:
            applied = False  # (perhaps no room: the answer was lost)
        if applied:
            self.stats.add("applied_" + r["kind"])
            d = model.diff(now)
            if d:
                raise Violation("wrong-effect", f"{where} [{o.fired}]: {d}", self.step_no)
            if now.problems:
                raise Violation("bookkeeping", f"{where}: {now.problems[:3]}", self.step_no)
            self.check_rest(where, r, rest, now, direct, had)
        else:
            self.stats.add("without_effect_" + r["kind"])
            if now.raw != before.raw:
                d = [f"{u}: {before.raw.get(u)} became {now.raw.get(u)}" for u in sorted({*before.raw, *now.raw}) if before.raw.get(u) != now.raw.get(u)]
                raise Violation("unwanted-effect", f"{where} ({why or o.fired or 'not permitted or not valid'}): {'; '.join(d[:3])}", self.step_no)
            # (Django writes the log of the nodes ticked on the list in a transaction of its own)
            if (self.rest()[1:] != rest[1:]) if r["kind"] == "removemany" else self.rest() != rest:
                raise Violation("unwanted-effect", f"{where} ({why or o.fired or 'not permitted or not valid'}): related rows or log changed", self.step_no)
        if r.get("same") == before.raw and now.raw != before.raw:
            d = [f"{u}: {before.raw.get(u)} became {now.raw.get(u)}" for u in sorted(now.raw) if before.raw.get(u) != now.raw.get(u)]
            raise Violation("unchanged-page-changed-the-tree", f"{where}: {'; '.join(d[:3])}", self.step_no)
        self.accept_quiet(now)
        self.remember()
        return o

    # ------------------------------------------------------------------ requests at the same time
    def do_together(self, step):
        """Requests of several people run at once; what is stored must be the result of some order of them."""
        from django.contrib.admin.models import LogEntry

        if not self.model.nodes():
            return
        plans, self.together_now = [], True
        for ci, s in enumerate(step["reqs"][: len(self.clients)]):
            r = getattr(self, "make_" + s["op"])(s)
            if r is None:
                continue
            r["direct"] = False
            method = "get" if r.get("get") else "post"
            plans.append((ci, r, s.get("f"), lambda r=r, method=method: self.http(r["user"], method, r["path"], r["data"])))
        self.together_now = False
        if len(plans) < 2:
            return
        before = self.snap
        self.frozen = {"items": self.items(), "all": set(self.model.parent), "protected": set(), "inline": set()}
        with quiet():
            logged = QuerySet(LogEntry).count()
            if self.fam.rich:
                byk = {v: k for k, v in self.snap.pk.items()}
                self.frozen["protected"] = {byk.get(k) for k in self.fam.rich[2].objects.using(self.alias).values_list("node_id", flat=True)}
                self.frozen["inline"] = {str(k) for k in QuerySet(self.fam.rich[0], using=self.alias).values_list("pk", flat=True)}
        options = {"transaction_mode": (None, "IMMEDIATE")[step.get("mode", 0) % 2]} if self.engine == "sqlite" else serializable()
        sched = Sched(self.engine, self.alias, self.log, step["order"], self.stats, busy_wait=bool(step.get("wait")), options=options)
        outs = sched.run([(self.clients[ci], [(fn, f)]) for ci, _, f, fn in plans])
        now = observe(self.fam, self.alias)
        self.stats.add("rounds_of_requests_at_once")
        done, failed = [], []
        for (_, r, _, _), (o, *_) in zip(plans, outs):
            if o.kind == "runaway":
                raise StopRun("runaway")
            if o.kind == "ok" or o.landed:
                done.append((r, o.value.status_code if o.kind == "ok" else None))
            else:
                failed.append(f"{r['user']} {r['kind']} {r['n']}: {type(o.exc).__name__}")
        self.stats.add("requests_done_at_once", len(done))
        self.stats.add("requests_failed_at_once", len(failed))
        why, many = [], any(r["kind"] == "removemany" for _, r, _, _ in plans)
        for perm in itertools.permutations(done):
            m, logs = self.copy_of(before), 0
            for r, status in perm:
                if self.fam.small and status == 400:
                    continue  # no room
                try:
                    applied = not r.get("get") and self.expected(m, r, False)
                except Reject:
                    applied = False
                good = status in (None, 302) if r["kind"] != "drag" else status in (None, 200)
                if applied and not good:
                    why.append(f"{r['user']} {r['kind']} {r['n']} was answered with {status}")
                    break
                logs += bool(applied) and r["kind"] != "drag"
            else:
                d = m.diff(now)
                with quiet():
                    n = QuerySet(LogEntry).count() - logged
                if not d and (n == logs or many):
                    if now.problems:
                        raise Violation("bookkeeping", f"step {self.step_no} at once: {now.problems[:3]}", self.step_no)
                    break
                why.append(d or f"{n} log entries instead of {logs}")
        else:
            names = [f"{r['user']} {r['kind']} {r['n']} {self.brief(r)}: {s}" for r, s in done]
            raise Violation("not-serialisable", f"step {self.step_no}: no order of {names} (failed: {failed}) gives the stored tree: {why[0]}; {now.problems[:2]}", self.step_no)
        self.frozen = None
        self.accept_quiet(now)
        self.remember()

    def copy_of(self, snap):
        from sim.forest import Forest

        return Forest.of(snap, self.fam.key if self.fam.sort else None)

    def brief(self, r):
        d = r["data"]
        if r["kind"] == "page":
            inv = {str(pk): u for u, pk in self.everpk.items()}
            return f"({d.get('treebeard_position')} {inv.get(d.get('treebeard_ref_node'), d.get('treebeard_ref_node'))}, {d.get('val1')}, {d.get('val2')}, {d.get('note')})"
        return json.dumps(d) + (f" target {r['t']}" if "t" in r else "")

    def expected(self, m, r, direct):
        """Applies the request to the model; False when nothing may happen."""
        user, n, d = r["user"], r["n"], r["data"]
        here = self.covered(r["mi"]) & set(m.parent)
        live = {str(self.snap.pk[u]): u for u in m.parent if u in self.snap.pk}
        if n is not None and n not in here:
            return False
        if r["kind"] == "removemany":
            ns = [u for u in r["ns"] if u in here]
            if not ns or "post" not in d or not self.may(user, "delete"):
                return False
            gone = {x for u in ns for x in m.subtree(u)}
            if self.frozen["protected"] & gone if self.frozen else self.protected(gone):
                return False
            r["rows"] = len(ns)
            m.delete([u for u in ns if not any(u != v and u in m.subtree(v) for v in ns)])
            return True
        if r["kind"] == "drag":
            if not self.may(user, "change", n, m) or d["relation"] not in ("child", "sibling"):
                return False
            if live.get(d["node"]) != n or live.get(d["target"]) != r["t"] or r["t"] not in here:
                return False
            pos = {"child": "sorted-child", "sibling": "sorted-sibling"} if self.fam.sort else {"child": "last-child", "sibling": "left"}
            m.move(n, r["t"], pos[d["relation"]])
            return True
        if r["kind"] == "remove":
            if not self.may(user, "delete"):
                return False
            gone = set(m.subtree(n))
            if self.frozen["protected"] & gone if self.frozen else self.protected(gone):
                return False
            m.delete([n])
            return True
        # a page
        if not direct and not (self.may(user, "change", n, m) if n else self.may(user, "add")):
            return False
        pos, ref = d.get("treebeard_position"), d.get("treebeard_ref_node") or None
        if pos not in (("sorted-child", "sorted-sibling") if self.fam.sort else ("first-child", "left", "right")):
            return False
        if ref is not None:
            ref = live.get(ref)
            if ref is None or (n is not None and ref in m.subtree(n)):
                return False
        if not d.get("uid") or not d.get("note") or not d.get("val1", "").isdigit():
            return False
        new = {"val1": int(d["val1"]), "val2": int(d["val2"]), "note": d["note"]}
        if self.fam.rich:
            if not d.get("tag") or not d.get("tags"):
                return False
            new["tag"] = int(d["tag"])
            if not direct and any(k.startswith("dep_cascade-") and k.endswith("-name") and len(v) > 40 for k, v in d.items()):
                return False
            if not direct and self.inline_gone(d):
                return False
        if n is None:
            if self.fam.name.endswith("Uuid"):
                # the page chose the key; sent twice it is refused the second time
                taken = m.__dict__.setdefault("taken", set())
                if d["id"] in live or d["id"] in taken:
                    return False
                taken.add(d["id"])
            m.add(d["uid"], new, ref)
            if ref is not None:
                m.move(d["uid"], ref, pos)
            return True
        m.data[n].update(new)
        if ref is not None:
            m.move(n, ref, pos)
        elif self.fam.sort:
            m.move(n, m.children[None][0], "sorted-sibling")
        else:
            m.move(n, m.children[None][0], "first-sibling")
        return True

    def inline_gone(self, d):
        """An inline row of the page does not exist any more."""
        with quiet():
            have = self.frozen["inline"] if self.frozen else {str(k) for k in QuerySet(self.fam.rich[0], using=self.alias).values_list("pk", flat=True)}
        return any(k.startswith("dep_cascade-") and k.endswith("-id") and v and v not in have for k, v in d.items())

    def check_rest(self, where, r, rest, now, direct, had):
        after = self.rest()
        logged = len(after[0]) - len(rest[0])
        if r["kind"] == "removemany":
            if logged != r["rows"]:
                raise Violation("not-once", f"{where}: {logged} log entries for {r['rows']} nodes", self.step_no)
        elif r["kind"] != "drag" and not direct and logged != 1:
            raise Violation("not-once", f"{where}: {logged} log entries for one request", self.step_no)
        if r["kind"] == "page" and self.fam.rich:
            uid = r["data"]["uid"]
            th = self.fam.base._meta.get_field("tags").remote_field.through
            f = self.fam.base._meta.get_field("tags")
            with quiet():
                tags = sorted(QuerySet(th, using=self.alias).filter(**{f.m2m_field_name() + "_id": now.pk[uid]}).values_list(f.m2m_reverse_field_name() + "_id", flat=True))
                if tags != sorted(int(t) for t in r["data"]["tags"]):
                    raise Violation("relations", f"{where}: tags {tags}, sent {r['data']['tags']}", self.step_no)
                if not direct:
                    want = [v for k, v in r["data"].items() if k.startswith("dep_cascade-") and k.endswith("-name") and v and not r["data"].get(k[:-4] + "id")]
                    got = self.inline_rows(now.pk[uid])
                    if got != sorted(had + want):
                        raise Violation("inline-rows", f"{where}: rows {got}, had {had}, sent {want}", self.step_no)

    def inline_rows(self, pk):
        return sorted(QuerySet(self.fam.rich[0], using=self.alias).filter(node_id=pk).values_list("name", flat=True))


class C17(WorldCheck):
    id = "C17"
    title = "admin requests have exactly the effect they describe, or none"
    rule = (
        "A run is one seeded history in which users with different permissions open pages of the real admin, and send them at once, late, changed, broken, as "
        "somebody else or twice, drag and drop and delete nodes, with faults, while programs work on the same tree; after each request the tree, related rows "
        "and the admin log are compared with what the request describes, applied to the reference forest, or with the rows before."
    )
    real = "treebeard (admin views, forms, managers), Django admin, forms and permissions, ORM and transactions, SQLite / PostgreSQL"
    stub = "browser and HTTP server (in-process requests to the resolved views), middleware, sessions; " + WorldCheck.stub
    oracles = ()
    world = AdminWorld
    weights = {"load": 0.3, "delete": 0.7, "move": 2, "add_child": 2, "add_sibling": 2, "add_root": 1, "begin": 0, "commit": 0, "rollback": 0, "restart": 0.2, "setval": 0.5, "dep": 1}
    gen_opts = {"warm": 4, "steps": (2, 6), "outer": False}
    legs = (
        Leg("sqlite", "sqlite", 800, 40000, jobs=3),
        Leg("pg", "pg", 520, 25000, jobs=3),
        Leg("at-once", "sqlite", 300, 15000, jobs=2, files=True, together=True),
        Leg("pg-at-once", "pg", 300, 15000, jobs=2, together=True),
    )

    def families(self, leg):
        return [n for n in names(leg.engine) if n not in ("MPBinary", "MPShallow")]

    def prepare(self, leg, env):
        from django.urls import resolve

        with quiet():
            adminsite.make_users(leg.engine)
            resolve("/admin/")

    def decorate(self, rng, leg, fam, trace):
        out = []
        users = rng.choice(([0, 1], [0, 1, 2], list(range(len(NAMES))), [1, 2, 3, 4]))
        for i, s in enumerate(trace["steps"]):
            out.append(s)
            if i >= 2:
                if leg.opts.get("together"):
                    out.append(self.together(rng, fam, users, trace))
                for _ in range(rng.choice((1, 1, 2, 3))):
                    out.append(self.web(rng, fam, users))
        trace["steps"] = out
        return trace

    def together(self, rng, fam, users, trace):
        n = trace["cfg"]["clients"] = 3
        reqs = []
        while len(reqs) < n:
            s = self.web(rng, fam, (0, 0, 1, *users))
            if s["op"] in ("submit", "drag", "remove", "removemany"):
                s.pop("sweep", None)
                if s["op"] == "submit" and rng.random() < 0.5:
                    s["newest"] = False
                if rng.random() < 0.8:
                    s.pop("f", None)
                reqs.append(s)
        return {"op": "together", "reqs": reqs, "order": order(rng, 80), "mode": rng.randrange(2), "wait": rng.random() < 0.5}

    RELS = (None, "any", "sib", "sib", "child", "desc", "anc", "self", "uncle")

    def web(self, rng, fam, users):
        big = 1 << 16
        op = rng.choice(("open", "open", "open", "submit", "submit", "submit", "submit", "drag", "drag", "remove", "removemany", "again"))
        s = {"op": op, "u": rng.choice(users), "c": rng.randrange(2)}
        if fam.mti:
            s["mi"] = rng.randrange(2)
        if op == "open":
            s.update(n=rng.randrange(big), add=rng.random() < 0.3, render=rng.random() < 0.1)
        elif op == "submit":
            s.update(newest=rng.random() < 0.6, page=rng.randrange(big))
            if rng.random() < 0.5:
                s["set"] = vals(rng, rng.choice((2, 6, 12)))
            if rng.random() < 0.6:
                s["pos"] = rng.randrange(6)
                s["ref"] = rng.randrange(big) if rng.random() < 0.85 else None
                s["rel"] = rng.choice(self.RELS)
            if rng.random() < 0.12:
                s["broken"] = rng.randrange(7)
            if rng.random() < 0.08:
                s["as"] = rng.choice(users)
            if fam.rich:
                s["tag"], s["tags"] = rng.randrange(3), [rng.randrange(3) for _ in range(2)]
                s["inline"] = rng.random() < 0.3
            s["direct"] = rng.random() < 0.2
        elif op == "drag":
            s.update(n=rng.randrange(big), t=rng.randrange(big), rel=rng.choice(self.RELS), rl=rng.randrange(2), late=rng.random() < 0.15)
            if rng.random() < 0.06:
                s["broken"] = rng.randrange(4)
            s["get"] = rng.random() < 0.03
        elif op == "remove":
            s.update(n=rng.randrange(big), leaf=rng.random() < 0.6, late=rng.random() < 0.15)
        elif op == "removemany":
            s.update(ns=[rng.randrange(big) for _ in range(rng.choice((1, 1, 2, 3)))], rel=rng.choice(self.RELS), late=rng.random() < 0.15)
            if rng.random() < 0.1:
                s["unsure"] = True
        if op != "open" and rng.random() < 0.04:
            s["sweep"] = rng.choice(("err_before", "err_after", "fetch_err", "cancel", "crash_before", "crash_after"))
        elif op != "open" and rng.random() < 0.12:
            s["f"] = fault(rng, EVERY_FAULT, maxk=30)
            if s["f"]["kind"] not in COMMIT_FAULTS and s["f"]["kind"] != "receiver":
                s["f"]["k"] = rng.randrange(1, 41)
        return s


CHECK = C17()
