"""Writes MANIFEST.json and known_findings.json."""
import json, os, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(VERIF, "properties.jsonl"))]

TECH = "deterministic simulation with fault injection: "
NOTES = {
    "C01": ("seeded request histories by several clients on real SQLite and PostgreSQL, refined step by step against an ordered-forest reference model",
            "Seeded sampling of histories (a few thousand runs quick), not exhaustive; the reference model is the harness's own."),
    "C02": ("seeded histories with faults at seeded statements, fetches, commits and receivers; stored rows decoded by independent code after every request",
            "Samples fault points and histories; the decoder of stored rows shares no code with treebeard."),
    "C03": ("seeded single faults plus sweeps that move one fault through every statement of a request; row-for-row comparison with the state before",
            "Faults are injected at the database connection; only real SQLite/PostgreSQL rollback decides what survives."),
    "C04": ("a second connection reads the tree at every statement and commit boundary of a running request, with and without faults",
            "READ COMMITTED PostgreSQL and SQLite WAL; the observer sees committed data only."),
    "C05": ("seeded schedules of real client threads parked at every statement; lock waits and deadlocks resolved by the scheduler; result compared with some order of the successful additions",
            "2-3 clients, PostgreSQL READ COMMITTED and SQLite; interleaving granularity is one statement."),
    "C06": ("seeded schedules of clients with arbitrary requests at SERIALIZABLE / SQLite; result compared with every permutation of the successful requests",
            "At most four concurrent requests per round so that every order can be tried."),
    "C07": ("seeded histories that chain requests on kept node objects; objects compared with stored rows, differential rerun with fresh objects",
            "Samples histories."),
    "C08": ("seeded histories with a mirror fed only by the tree's signals, compared with the stored rows after every request",
            "The mirror is the harness's own; row saves are taken from post_save."),
    "C09": ("seeded histories with dependants and faults; every row of every table concerned compared after each deletion",
            "Samples histories and sets of nodes."),
    "C10": ("seeded histories with dump/load round trips, JSON copies, both loading paths and faults; result compared with the reference forest",
            "Samples trees and fault points."),
    "C11": ("operations cut short on a simulated non-transactional database, seeded corruption, repairs that are interrupted and rerun; rows compared with the intended bookkeeping",
            "Non-transactional storage is simulated on SQLite by making every statement durable at once."),
    "C12": ("seeded storage corruption injected into trees grown by seeded histories; report compared with the harness's classification",
            "Only corruption kinds with one defensible classification are injected."),
    "C13": ("seeded histories on sorted trees, order of stored groups and of every read compared with the sort key",
            "Samples histories."),
    "C14": ("seeded histories with refused requests; rows and objects compared, differential rerun without the refused requests",
            "Samples histories."),
    "C15": ("seeded histories on models with little path space; every refusal judged against the room there was",
            "Several step lengths and alphabets, not all."),
    "C16": ("seeded histories with full sweeps of read operations compared with the reference forest; rows compared before and after",
            "Samples histories; reads are swept on every node."),
    "C17": ("seeded interleavings of several users' admin sessions (outdated pages, repeated submissions, permissions, faults) on the real admin views via in-process requests",
            "Browser and HTTP server are replaced by in-process requests."),
    "C18": ("seeded histories with faults on a routed second database while a different tree of the same model lives in the default one; both compared after every request",
            "Samples histories and fault points."),
    "C19": ("seeded histories in which users with different permissions walk the admin's list of the tree and its branches page by page, with outdated keys and failing requests; every row compared with the decoded tree",
            "Browser and HTTP server are replaced by in-process requests; the pages' JavaScript does not run."),
}
NA = {
    "N01": "A pure function of its arguments: no schedule, clock, fault, I/O or history for a simulator to decide.",
    "N02": "A pure function of its arguments (its use during histories is covered by C01 and C15): nothing for a simulator to decide.",
    "N03": "A pure function of a string: no schedule, fault or history is involved.",
    "N04": "One call delegating to another: no schedule, fault or history is involved (the results of the deprecated methods themselves are part of C01).",
}
done = {f[:-3].upper() for f in os.listdir(os.path.join(VERIF, "sim", "checks")) if f.startswith("c") and f[1:3].isdigit()}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i in done:
        t, note = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i} --tier thorough", "technique": TECH + t,
                       "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "The check for this property is still being built."})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c 'import django, psycopg'", "checks": checks, "not_applicable": na}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

FIXED = [
    ("C18", "5e4f69a", "tree operations opened their transaction on the default database instead of the one the model is routed to (C03 there as well)"),
    ("C03", "9ed665a", "delete() of MP, NS and LT querysets was not atomic: an error half way left wrong child counts or gaps (also C02, C04)"),
    ("C15", "f096aaa", "moves in a full group of MP siblings overflowed the temporary path"),
    ("C15", "c9d7cf1", "move and load_bulk of a branch deeper than the path column stored or raised a database error instead of PathOverflow"),
    ("C07", "d725f85", "MP node and target objects kept outdated path, depth or numchild after moves and additions"),
    ("C07", "19deee6", "NS, AL and LT node and target objects kept outdated positions after moves and additions"),
    ("C01", "3a63064", "NS last-sibling used an outdated parent interval"),
    ("C01", "bdfc75f", "nodes of multi-table models were compared by class instead of key"),
    ("C01", "ecd28b5", "ltree put a new last root or sorted node at the wrong place"),
    ("C01", "8702dd3", "ltree moved siblings to the right in an order that collided"),
    ("C16", "d5ab973", "max_depth=0 was taken as no limit, and the descendant count of nested sets was not an integer"),
    ("C16", "6630710", "get_annotated_list ignored max_depth on adjacency list and ltree trees"),
    ("C16", "b9a8361", "adjacency list get_next_sibling/get_prev_sibling were wrong in sorted trees"),
    ("C17", "78810fd", "the admin's drag-and-drop move was not one transaction"),
    ("C15", "689eae9", "fix_tree(fix_paths=True) failed on a full group of siblings (C11 as well)"),
    ("C10", "d1e6bc0", "adding or loading a node whose primary key is in use overwrote the existing row"),
    ("C16", "01a9df4", "reading the path of an ltree node loaded with it deferred raised KeyError"),
    ("C11", "0d4ca50", "fix_tree(fix_paths=True) shuffled nodes with equal sort values each time it ran on PostgreSQL"),
    ("C17", "6090b64", "the form of AL nodes offered the node itself and its descendants (multi-table inheritance) and accepted them in every AL tree"),
    ("C17", "c07dcb1", "editing a field with descending sort order in the form left the node at its old position"),
    ("C11", "a526cce", "fix_tree(fix_paths=True) raised PathOverflow when a dead move had left a node at position 0 and the last position was taken"),
    ("C17", "8054820", "a drag and drop in the admin read the nodes before its transaction: an AL node deleted by another request in between was saved back into the table"),
    ("C01", "944cfa8", "a copy of an AL node's object (pk removed) added as a root was stored below the parent of the original"),
    ("C02", "1d66bcf", "a copy of an MP node's object (pk removed) was stored with the numchild of the original"),
    ("C16", "f402603", "get_parent() of a proxy of an inherited AL model raised DoesNotExist when the parent is no instance of the inherited model"),
    ("C07", "abbb11c", "a copy of a node's object (pk removed), added elsewhere, went on giving the parent or depth of the original"),
]
with open(os.path.join(VERIF, "known_findings.json"), "w") as f:
    json.dump({"findings": [{"property": p, "status": "fixed", "commit": c, "entry": f"fixed: property={p} {c} {w}"} for p, c, w in FIXED]}, f, indent=1)
    f.write("\n")
