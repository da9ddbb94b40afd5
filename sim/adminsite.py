"""The admin of the simulated application, and the people who use it."""

from sim.families import families

LOCK = 5  # nodes with this val2 may not be changed by anybody (an object permission of the application)

USERS = {  # name: (superuser, staff, permissions)
    "boss": (True, True, ()),
    "editor": (False, True, ("add", "change", "delete", "view")),
    "changer": (False, True, ("change",)),
    "adder": (False, True, ("add",)),
    "viewer": (False, True, ("view",)),
    "nobody": (False, True, ()),
    "customer": (False, False, ("add", "change", "delete", "view")),
}
_SITE = []


def site():
    if _SITE:
        return _SITE[0]
    from django.contrib import admin

    from treebeard.admin import TreeAdmin
    from treebeard.forms import movenodeform_factory

    class App(TreeAdmin):
        list_display = ("uid", "val1")
        list_per_page = 3
        search_fields = ("uid", "note")
        list_filter = ("val2",)

        def has_change_permission(self, request, obj=None):
            return super().has_change_permission(request, obj) and not (obj is not None and obj.val2 == LOCK)

        def has_inline_permissions(self, *a):
            return True

    s = admin.AdminSite(name="admin")
    seen = set()
    for fam in families().values():
        for m in fam.models:
            if m in seen:
                continue
            seen.add(m)
            attrs = {"form": movenodeform_factory(m)}
            if fam.rich:

                class Inline(admin.TabularInline):
                    model = fam.rich[0]
                    extra = 1

                    def has_add_permission(self, request, obj=None):
                        return True

                    has_change_permission = has_delete_permission = has_view_permission = has_add_permission

                attrs["inlines"] = [Inline]
            s.register(m, type(m.__name__ + "Admin", (App,), attrs))
    _SITE.append(s)
    return s


def make_users(engine):
    from django.apps import apps
    from django.contrib.auth.models import Permission, User
    from django.contrib.contenttypes.models import ContentType

    perms = {}
    for fam in families().values():
        if engine not in fam.engines:
            continue
        for m in fam.models:
            ct = ContentType.objects.get_for_model(m, for_concrete_model=False)
            ContentType.objects.get_for_model(m)
            for action in ("add", "change", "delete", "view"):
                code = f"{action}_{m._meta.model_name}"
                perms.setdefault(action, []).append(
                    Permission.objects.get_or_create(content_type=ct, codename=code, defaults={"name": code})[0]
                )
    for m in apps.get_models():
        if m._meta.app_label != "simapp" or engine == "pg" or not m.__name__.startswith("LT"):
            ContentType.objects.get_for_model(m)
    for name, (boss, staff, acts) in USERS.items():
        u = User.objects.create(username=name, is_superuser=boss, is_staff=staff, password="x")
        u.user_permissions.set([p for a in acts for p in perms[a]])
