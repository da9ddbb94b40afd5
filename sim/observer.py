"""A second connection to the same database, outside Django: what everybody else can see."""

from sim.boot import tables_of


class Observer:
    """Reads the tables of a family, all of them in one snapshot."""

    def __init__(self, fam, conn, engine):
        self.engine = engine
        self.tables = sorted(set(tables_of([*fam.models, *fam.extra_tables])))
        if engine == "sqlite":
            import sqlite3

            self.raw = sqlite3.connect(conn.settings_dict["NAME"], timeout=0, isolation_level=None, check_same_thread=False)
        else:
            import psycopg

            s = conn.settings_dict
            self.raw = psycopg.connect(host=s["HOST"], user=s["USER"], dbname=s["NAME"], autocommit=True)
            # one statement reads one snapshot
            self.sql = "SELECT " + ", ".join(f"(SELECT array_agg(t::text ORDER BY t::text) FROM \"{x}\" t)" for x in self.tables)

    def look(self, conn=None):
        """{table: sorted rows}, through this connection (or through a Django connection)."""
        if self.engine == "sqlite":
            raw = conn.connection if conn is not None else self.raw
            own = not raw.in_transaction
            if own:
                raw.execute("BEGIN")
            try:
                return tuple(tuple(sorted(raw.execute(f'SELECT * FROM "{t}"').fetchall(), key=repr)) for t in self.tables)
            finally:
                if own:
                    raw.execute("COMMIT")
        raw = conn.connection if conn is not None else self.raw
        row = raw.execute(self.sql).fetchone()
        return tuple(tuple(x or ()) for x in row)

    def close(self):
        self.raw.close()


def describe(a, b, tables):
    out = []
    for t, x, y in zip(tables, a, b):
        x, y = set(x), set(y)
        if x != y:
            out.append(f"{t}: {len(x - y)} rows missing, {len(y - x)} rows different or new, e.g. {sorted(map(str, x - y))[:1]} / {sorted(map(str, y - x))[:1]}")
    return "; ".join(out)
