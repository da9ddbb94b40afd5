"""Configures Django for one simulated process group and creates the schema."""

import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ROUTE = {"alias": None}


class Router:
    def db_for_read(self, model, **hints):
        return ROUTE["alias"] if model._meta.app_label == "simapp" else None

    db_for_write = db_for_read

    def allow_relation(self, obj1, obj2, **hints):
        return True


def configure(engine, databases):
    from django.conf import settings

    settings.configure(
        DEBUG=False,
        SECRET_KEY="sim",
        USE_TZ=True,
        DATABASES=databases,
        DATABASE_ROUTERS=["sim.boot.Router"],
        DEFAULT_AUTO_FIELD="django.db.models.AutoField",
        INSTALLED_APPS=[
            "django.contrib.contenttypes",
            "django.contrib.auth",
            "django.contrib.sessions",
            "django.contrib.messages",
            "django.contrib.admin",
            "treebeard",
            "sim.simapp.apps.SimAppConfig",
        ],
        ROOT_URLCONF="sim.simapp.urls",
        TEMPLATES=[
            {
                "BACKEND": "django.template.backends.django.DjangoTemplates",
                "APP_DIRS": True,
                "OPTIONS": {
                    "context_processors": [
                        "django.template.context_processors.request",
                        "django.contrib.auth.context_processors.auth",
                        "django.contrib.messages.context_processors.messages",
                    ]
                },
            }
        ],
        MIDDLEWARE=[],
        ALLOWED_HOSTS=["*"],
        STATIC_URL="/static/",
        PASSWORD_HASHERS=["django.contrib.auth.hashers.MD5PasswordHasher"],
        LOGGING_CONFIG=None,
    )
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import django

    django.setup()
    import treebeard

    if not os.path.realpath(treebeard.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"treebeard imported from {treebeard.__file__}, not from {REPO}")


def sqlite_databases(default=":memory:", other=":memory:"):
    def one(name):
        return {"ENGINE": "sim.backends.simsqlite", "NAME": name, "OPTIONS": {"timeout": 0, "check_same_thread": False}}

    return {"default": one(default), "other": one(other)}


def pg_databases(host, default, other):
    def one(name):
        return {
            "ENGINE": "sim.backends.simpg",
            "NAME": name,
            "USER": "treebeard",
            "HOST": host,
            "PORT": "",
            "OPTIONS": {},
        }

    return {"default": one(default), "other": one(other)}


def all_models(engine):
    from django.apps import apps

    out = []
    for m in apps.get_models(include_auto_created=False):
        if engine == "sqlite" and m._meta.app_label == "simapp" and m.__name__.startswith("LT"):
            continue
        if m._meta.proxy or not m._meta.managed:
            continue
        out.append(m)
    return out


def create_schema(engine, alias="default"):
    from django.db import connections

    conn = connections[alias]
    if engine == "sqlite" and alias == "default" and not conn.is_in_memory_db():
        pass
    with conn.schema_editor() as ed:
        if engine == "pg":
            ed.execute("CREATE EXTENSION IF NOT EXISTS ltree")
        for m in all_models(engine):
            ed.create_model(m)


def tables_of(models_):
    out = []
    for m in models_:
        if m._meta.proxy:
            m = m._meta.concrete_model
        if m._meta.db_table not in out:
            out.append(m._meta.db_table)
        for f in m._meta.local_many_to_many:
            t = f.remote_field.through._meta.db_table
            if t not in out:
                out.append(t)
    return out


def reset_tables(engine, tables, alias="default"):
    """Empty the tables and restart their sequences; the harness's own statements."""
    from django.db import connections

    from sim.kernel import quiet

    conn = connections[alias]
    with quiet():
        conn.ensure_connection()
        if engine == "sqlite":
            raw = conn.connection
            if raw.in_transaction:
                raw.rollback()
            raw.execute("BEGIN")
            for t in reversed(tables):
                raw.execute(f'DELETE FROM "{t}"')
            raw.execute("DELETE FROM sqlite_sequence")
            raw.execute("COMMIT")
        else:
            with conn.cursor() as c:
                c.execute("TRUNCATE " + ", ".join(f'"{t}"' for t in tables) + " RESTART IDENTITY CASCADE")


def die(msg):
    sys.stdout.flush()
    print(msg, file=sys.stderr)
    sys.stderr.flush()
    os._exit(2)
