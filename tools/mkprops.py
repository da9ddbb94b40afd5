"""Writes properties.jsonl (kept as a script so that the wording lives in one reviewable place)."""
import json, os
P = []
MP, NS, AL, LT = "treebeard/mp_tree.py", "treebeard/ns_tree.py", "treebeard/al_tree.py", "treebeard/ltree/__init__.py"
MOD, UT, AD, FO = "treebeard/models.py", "treebeard/utils.py", "treebeard/admin.py", "treebeard/forms.py"
NUM = "treebeard/numconv.py"


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook="none: Django's database backend is the seam"):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "state": [{"name": a, "meaning": b} for a, b in state],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


TREESTATE = [
    ("path/depth/numchild", "materialized path: position, level and cached child count of a node"),
    ("tree_id/lft/rgt/depth", "nested sets: the interval a node covers in its tree"),
    ("parent/sib_order", "adjacency list: parent row and position among siblings"),
    ("ltree path", "label path of a node; label order is sibling order"),
]
OPS = [("add_root", MP), ("add_child", MP), ("add_sibling", MP), ("move", MP), ("delete", MP),
       ("add/move/delete", NS), ("add/move/delete", AL), ("add/move/delete", LT)]

p("C01", "Any history of tree operations yields exactly the tree it describes",
  "After any sequence of accepted additions (root, child, or sibling at a given position), moves (every documented position, with or without descendants) and deletions, the stored tree has exactly the nodes, parents, sibling order and node data that the same requests produce on a plain ordered forest, and nodes not concerned are untouched. "
  "This holds for materialized path, nested sets, adjacency list and ltree trees, with integer or UUID keys, proxy models and multi-table inheritance, whichever way the caller obtained the node objects it passes in. "
  "Every request ends after a bounded number of database statements.",
  ["histories", "inputs", "configurations"],
  "all finite histories of requests on all tree implementations and model variants, including requests reusing the node objects of earlier requests",
  "tests check a handful of fixed trees and single operations; wrong results need particular combinations of position, label/path exhaustion, depth and earlier history",
  [MP, NS, AL, LT, MOD], OPS, TREESTATE, ["rows read back after every request, decoded independently of treebeard"])

p("C02", "Stored tree bookkeeping is exact after every request, successful or not",
  "After every request, whether it succeeded, was refused or failed half way, the stored bookkeeping is exactly consistent with the tree: paths well formed, unique and with an existing parent, stored depths and child counts exact, nested-set intervals contiguous, properly nested and one root per tree, sibling orders distinct. "
  "The built-in problem finder reports nothing for such a tree.",
  ["histories", "fault_sequences", "crash_points"],
  "all histories of requests with database errors, crashes and interruptions injected at any statement",
  "tests look at the bookkeeping of small fixed trees after one or two operations and never after a failed one",
  [MP, NS, AL, LT], OPS + [("find_problems", MP), ("find_problems", NS)], TREESTATE, ["rows read back after every request", "find_problems() result"])

p("C03", "Every tree operation is all-or-nothing under errors, crashes and interrupts",
  "When an addition, move, deletion or bulk load fails for any reason - a database error at any statement or fetch, a constraint violation, a commit that fails, an exception in a signal receiver, an interruption, the death of the process - the database is exactly as it was before the request. "
  "When only the reply to the commit is lost, all of the request's effects are there. "
  "Inside a caller's own transaction a failed request is undone without disturbing the caller's earlier work, and rolling back the caller's transaction undoes its requests completely.",
  ["fault_sequences", "crash_points", "histories"],
  "every request, every statement/fetch/commit/signal position of it, every fault kind, after any history, with and without an enclosing transaction",
  "tests never make a statement fail in the middle of an operation; atomicity is a property of all crash points",
  [UT, MP, NS, AL, LT, MOD], [("atomic", UT), ("delete", MP), ("delete", NS), ("delete", LT), ("load_bulk", MOD)], TREESTATE,
  ["rows of the tree before and after each failed request"])

p("C04", "Other connections never see a half-applied tree operation",
  "At every moment while an addition, move, deletion or bulk load is running, another database connection sees the tree either entirely as before the request or entirely as after it.",
  ["schedules", "histories", "fault_sequences"],
  "every statement boundary inside every operation, on SQLite (WAL) and PostgreSQL, with and without faults",
  "tests use one connection inside one rolled-back transaction, so nobody else ever looks",
  [UT, MP, NS, AL, LT], [("atomic", UT), ("delete", MP), ("delete", NS), ("delete", LT)], TREESTATE,
  ["rows read by a second connection at every statement and commit"])

p("C05", "Concurrent additions of children to the same node do not corrupt the tree",
  "When several clients add children to the same existing node at the same time, at the database's default isolation level and in any interleaving of their statements, every addition either fails with a database error and leaves no trace or adds exactly one child of that node, and the resulting tree equals some order of the successful additions with exact bookkeeping. "
  "This holds for materialized path, nested sets and ltree trees, sorted or not, whether the node had children before or not, and when the clients hold copies of the node from before the other additions.",
  ["schedules", "inputs"],
  "all interleavings at statement granularity of two or three clients on PostgreSQL (READ COMMITTED) and SQLite (WAL)",
  "tests are single-threaded; the row lock taken on the parent is never contended",
  [MP, NS, LT], [("select_for_update on the parent", MP), ("select_for_update on the parent", NS), ("select_for_update on the parent", LT)],
  TREESTATE, ["final rows, per-client outcomes"])

p("C06", "Serialisable concurrent requests equal some serial order of them",
  "When clients run arbitrary tree requests concurrently and the database serialises their transactions (SQLite; PostgreSQL at SERIALIZABLE), the final tree equals the result of the successful requests applied one after the other in some order, and failed ones leave no trace. "
  "No state is carried between requests or clients outside the database and the objects a client itself holds.",
  ["schedules", "histories", "fault_sequences"],
  "interleavings at statement granularity of two or three clients running additions, moves, deletions and bulk loads, with retries and client crashes",
  "tests are single-threaded, so work done outside the transaction or cached between requests cannot show",
  [UT, MP, NS, AL, LT, MOD], [("atomic", UT), ("class-level caches", MOD), ("numconv_obj cache", MP)], TREESTATE, ["final rows, per-client outcomes"])

p("C07", "Node objects passed to or returned by an operation match the database",
  "After a successful addition or move, the moved or created node object and the target object the caller passed in carry the position, depth, child count and order that are stored, and reading through them (depth, root/leaf tests, parent, children, siblings, ancestors, descendants and their counts) gives what the stored tree has. "
  "The caller can therefore chain further operations on these same objects and get the results they describe.",
  ["histories", "inputs", "configurations"],
  "all histories of operations chained on the same node objects, on all implementations and model variants",
  "tests reload their nodes or check one attribute of one object after one operation",
  [MP, NS, AL, LT, MOD], [("refresh of node and target", MP), ("refresh of node and target", NS), ("refresh of node and target", AL), ("refresh of node and target", LT)],
  [("cached parent / depth", "values cached on the object")], ["attributes and reads of the objects after every request"])

p("C08", "The tree signals describe every stored path or interval change",
  "An application that maintains a copy of the stored positions only from the published signals (path rewritten, nodes deleted, gap altered, tree ids incremented, subtree moved, subtree moved right) and the saves of single nodes has exactly the stored positions after every addition, move, deletion and repair. "
  "The signals arrive in an order in which applying them one after the other is correct, and name the database written to.",
  ["histories", "inputs", "configurations"],
  "all histories of operations on materialized path, nested sets and ltree trees",
  "tests check that one signal with one payload is sent for one operation; completeness and order over histories are not sampled",
  [MP, NS, LT], [("path_updated/nodes_deleted", MP), ("gap_altered/tree_ids_incremented/subtree_moved/nodes_deleted", NS), ("subtree_moved_right/subtree_moved/nodes_deleted", LT)],
  TREESTATE, ["signal payloads; rows after each request"])

p("C09", "Deleting removes exactly the whole subtrees and their dependants",
  "Deleting a node or any set of nodes (overlapping, unordered, filtered, through a node, a query or a child/descendant/sibling query) removes exactly those nodes and all their descendants, applies the cascade, set-null and many-to-many rules to everything that refers to them, and leaves all else in place. "
  "The returned count and per-type counts equal the rows that disappeared, and a deletion blocked by a protected reference changes nothing.",
  ["histories", "inputs", "configurations"],
  "all deletion requests after any history, with dependants of every kind attached anywhere in the tree",
  "tests delete a few fixed selections from one fixed tree without dependants at several levels",
  [MP, NS, AL, LT, MOD], [("delete", MP), ("delete", NS), ("delete", LT), ("delete", MOD)], TREESTATE,
  ["rows of the tree and of the dependants before and after; return value"])

p("C10", "Dumping and loading a tree round-trips",
  "Loading a dump of a tree, or of a branch of it, into an empty table or under any node reproduces its shape, sibling order (or the order given by the sort fields), node data and many-to-many relations, with the same keys when they are kept, and returns the keys of exactly the created nodes; dumping does not change anything. "
  "Both ways of loading agree, and a load that fails at any point leaves nothing behind.",
  ["inputs", "histories", "fault_sequences"],
  "all trees reachable by histories, all branches, all options of dump and load, faults at any statement",
  "tests round-trip one fixed tree",
  [MOD, MP, NS, AL, LT, UT], [("load_bulk", MOD), ("load_bulk", MP), ("dump_bulk", MP), ("dump_bulk", NS), ("dump_bulk", AL), ("dump_bulk", LT), ("prepare_dumpdata_for_loading", UT)],
  TREESTATE, ["dumped structure, rows after loading"])

p("C11", "Repairing a materialized path tree restores exact bookkeeping",
  "After the repair operation has run to its end on a materialized path tree whose stored depths and child counts are wrong in any way, including what an operation cut short on a database without transactions leaves behind, every stored depth and child count is exact and no node, parent or order has changed; with path repair also requested, positions are consecutive and ordered by the sort fields and the tree is otherwise the same. "
  "A repair that is interrupted or fails can simply be run again with the same result, and a repair limited to a node changes nothing outside its branch.",
  ["inputs", "crash_points", "fault_sequences"],
  "all corruptions of depth and child count on all reachable trees, interruption of the repair at any statement",
  "tests repair one or two hand-made broken trees and never interrupt the repair",
  [MP], [("fix_tree", MP), ("_fix_numchild", MP), ("_rewrite_node_path", MP)], TREESTATE, ["rows before and after the repair"])

p("C12", "The problem finder reports every corrupted node and only those",
  "For any single corruption of the stored bookkeeping of a materialized path or nested sets tree (bad characters, truncated or orphaned paths, wrong depth or child count; reversed, overlapping or duplicated intervals) the problem finder lists the damaged node under the right kind of problem, lists no node under two kinds, and changes nothing; restricted to a node it reports exactly the problems of that branch. "
  "On an undamaged tree it reports nothing.",
  ["inputs", "histories"],
  "all single corruptions (and pairs of independent ones) of every node of all reachable trees",
  "tests inject one fixed set of corruptions into one fixed table",
  [MP, NS], [("find_problems", MP), ("find_problems", NS)], TREESTATE, ["find_problems() result"])

p("C13", "Sorted trees keep every group of siblings in the configured order",
  "In a tree with a configured sort order, after any history of additions and moves every group of siblings is stored, and returned by every read, in that order (ascending and descending fields, ties allowed), new and moved nodes going to their sorted place without disturbing the others. "
  "When a sorted value is changed afterwards, the path repair of materialized path trees restores the order.",
  ["histories", "inputs"],
  "all histories of sorted additions and moves with all patterns of equal and different sort values",
  "tests insert one fixed list of values in one order",
  [MOD, MP, NS, AL, LT], [("get_sorted_pos_queryset", MOD), ("sorted branches of add_sibling/move", MP), ("sorted branches", NS), ("sorted branches", LT), ("get_queryset ordering", AL)],
  TREESTATE, ["rows and query results after each request"])

p("C14", "Invalid requests are refused with the documented exception and no effect",
  "A request that the documentation rules out - an unknown position, a position that the sort configuration forbids or requires, a move below itself or a descendant, an already saved or doubly specified new node, none specified - raises the documented exception, and nothing that is stored and none of the node objects passed in changes. "
  "The same request made valid works afterwards as if the refused one had never been made.",
  ["inputs", "histories"],
  "all invalid requests in all states, alone and inside a caller's transaction",
  "tests check the exception type for one node of one tree, not that nothing changed",
  [MOD, UT, MP, NS, AL, LT], [("_prepare_pos_var", MOD), ("check_create_args", UT), ("move", MP), ("move", NS), ("move", AL), ("move", LT)],
  TREESTATE, ["exception, rows and objects after each refused request"])

p("C15", "Running out of path space is refused cleanly, never stored malformed",
  "A materialized path tree refuses with the path overflow error, and without any effect, every request for which there is no room - more siblings than a step can number, or a branch deeper than the path column - and never stores a path that is too long or misplaces a node near the limits. "
  "It refuses only when the last sibling position is in use or the branch does not fit, and repairing the paths makes the room of deleted nodes available again; ltree trees always find a new label.",
  ["histories", "inputs", "configurations"],
  "all histories near the capacity and depth limits, for several step lengths, alphabets and column sizes",
  "tests check one overflow per operation on an otherwise empty tree",
  [MP, NUM, LT], [("_inc_path", MP), ("_get_path", MP), ("_reorder_nodes_before_add_or_move", MP), ("int2str", NUM), ("generate_label", LT)],
  TREESTATE, ["exception, rows after each request"])

p("C16", "All read operations agree with each other and with the stored tree",
  "At any point of any history, every read operation - roots, first/last root, tree and annotated tree with any depth limit, children, siblings, first/last/previous/next sibling, parent, root, ancestors, descendants and counts, group counts, relationship tests - on any node returns exactly what the stored tree implies, in depth-first order where an order is promised, and changes nothing. "
  "The number of nodes and the order do not depend on how the node object was obtained.",
  ["histories", "inputs", "configurations"],
  "all reads on all nodes of all trees reachable by histories",
  "tests read one fixed tree shape",
  [MOD, MP, NS, AL, LT], [("get_tree/get_children/get_siblings/get_descendants/get_ancestors", MP), ("same", NS), ("same", AL), ("same", LT), ("get_annotated_list", MOD)],
  TREESTATE, ["results of the read operations"])

p("C17", "The admin and node form apply a request exactly once, entirely, if permitted",
  "A drag-and-drop move, an add, an edit or a deletion submitted through the admin (or the node form) by any of several users, in any interleaving of their requests, also of requests served at the same time, and with outdated pages or repeated submissions, has exactly the effect of the tree operation and field values it describes or, when it is invalid, not permitted or fails at any point, no effect at all. "
  "The choices the form offers for the new position exclude the node itself and its descendants, and submitting an unchanged form does not move the node.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "all interleavings of requests of several sessions, faults at any statement of a request, users with and without permission",
  "tests post single well-formed requests; stale pages, repeated submissions and failing requests are not sampled",
  [AD, FO], [("move_node", AD), ("_changeform_view", AD), ("MoveNodeForm.save", FO), ("_get_initial", FO), ("_set_ref_model_queryset", FO)],
  TREESTATE, ["HTTP status, rows after each request"])

p("C18", "Operations act on, and are atomic in, only the database they are routed to",
  "When a database router sends a tree's model to a database other than the default one, every operation reads and writes only that database, is all-or-nothing there under every fault, and leaves a tree of the same model in the other database untouched, whatever that one contains. "
  "The results are the same as on the default database.",
  ["configurations", "histories", "fault_sequences"],
  "all operations, histories and faults with the model routed to a second database",
  "all tests run with one database",
  [UT, MP, NS, AL, LT, MOD, AD], [("atomic", UT), ("save(using=...)", MP), ("signals' using", NS)], TREESTATE, ["rows in both databases"])

p("C19", "The admin's tree pages show exactly the stored tree to those who may see it",
  "Opening the admin's list of a tree and the children of its nodes, page by page and with any search, filter or column order, shows under every node exactly its children (that match), each once, in the order of the tree unless another order was asked for, each row with its own key, parent and level, marked as having children exactly if it has some and as changeable exactly if this user may change it. "
  "Users without permission to view are shown nothing, children of a node that does not exist any more are not found, a request that fails can be repeated, and showing changes nothing.",
  ["histories", "inputs", "fault_sequences"],
  "all trees reachable by histories, all nodes, page numbers, searches and users, faults at any statement of a request",
  "tests look at one small tree on a single page",
  [AD, "treebeard/templatetags/admin_tree.py"], [("get_queryset", AD), ("children_view", AD), ("changelist_view", AD), ("tree_context", "treebeard/templatetags/admin_tree.py")],
  TREESTATE, ["rows of the pages, tree information in the pages"])

# Not applicable to this technique
p("N01", "Number conversion in any alphabet round-trips and orders numbers",
  "Converting any non-negative number to text in any alphabet and back gives the same number, and texts of equal length sort like the numbers.",
  ["inputs"], "all numbers and alphabets", "tests convert a few numbers in a few alphabets", [NUM], [("int2str/str2int", NUM)], hook="not applicable")
p("N02", "Generated labels lie strictly between the given bounds",
  "For any pair of labels with room between them, the generated label sorts strictly between them and is not one of the excluded labels; when there is no room an error says so.",
  ["inputs"], "all label pairs and exclusions", "tests try a few pairs", [LT], [("generate_label", LT)], hook="not applicable")
p("N03", "Node labels in form choices are escaped",
  "Text of a node shown as a choice of the form field is HTML-escaped whatever it contains, and indented by its depth.",
  ["inputs"], "all label texts", "tests try one label", [FO], [("label_from_instance", FO)], hook="not applicable")
p("N04", "Deprecated model-level methods only warn and delegate",
  "Each deprecated method on models gives a deprecation warning and the same result as its replacement.",
  ["programs"], "all deprecated methods", "tests cover each once", ["treebeard/deprecation.py", MOD], [("get_moved_manager_method", "treebeard/deprecation.py")], hook="not applicable")

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
