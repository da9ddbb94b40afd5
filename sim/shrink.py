"""Minimises a failing trace: fewer steps, fewer faults, simpler steps; same kind of violation."""

import copy
import time

from sim.world import Stats


def shrink(check, leg, viol, budget_s=60, max_tries=600):
    from sim.runner import execute_guarded

    t_end = time.time() + budget_s
    kind = viol["kind"]
    tries = 0
    best = [None]

    def attempt(trace):
        nonlocal tries
        if tries >= max_tries or time.time() > t_end:
            return False
        tries += 1
        v, log, why = execute_guarded(check, trace, leg, Stats(), keep_log=True)
        if v is not None and v.kind == kind:
            best[0] = (trace, v, log)
            return True
        return False

    trace = copy.deepcopy(viol["trace"])
    if not attempt(trace):
        raise RuntimeError("the violation did not recur on the original trace")

    for key in check.shrink_keys(trace):
        # 1. drop everything after the violation, then ddmin the list
        items = trace[key]
        n = 2
        while len(items) >= 2 and tries < max_tries and time.time() < t_end:
            size = max(1, len(items) // n)
            for start in reversed(range(0, len(items), size)):
                cand = items[:start] + items[start + size :]
                if cand and attempt({**trace, key: cand}):
                    items = cand
                    trace = {**trace, key: items}
                    n = max(n - 1, 2)
                    break
            else:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        # 2. simplify steps
        for i in range(len(trace[key])):
            step = trace[key][i]
            if not isinstance(step, dict):
                continue
            if "sweep" in step:
                for k in range(1, 121):
                    s2 = {x: y for x, y in step.items() if x != "sweep"}
                    s2["f"] = {"kind": step["sweep"], "k": k}
                    if attempt({**trace, key: trace[key][:i] + [s2] + trace[key][i + 1 :]}):
                        trace = best[0][0]
                        break
            for field in ("f", "sweep", "more", "batch", "bulk", "inst", "h", "rel", "nrel", "under", "mi", "tag", "api"):
                step = trace[key][i]
                if field in step:
                    s2 = {k: v for k, v in step.items() if k != field}
                    if attempt({**trace, key: trace[key][:i] + [s2] + trace[key][i + 1 :]}):
                        trace = best[0][0]
            for field in ("t", "n", "p"):
                step = trace[key][i]
                if isinstance(step.get(field), int) and step[field] > 0:
                    for val in (0, 1, step[field] % 8):
                        s2 = {**step, field: val}
                        if val != step[field] and attempt({**trace, key: trace[key][:i] + [s2] + trace[key][i + 1 :]}):
                            trace = best[0][0]
                            break
    trace, v, log = best[0]
    return trace, v, log, tries
