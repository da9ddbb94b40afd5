"""Checks built on World: a leg is an engine, a set of families and a mix of requests and faults."""

import os

from sim import boot, runner
from sim.families import families, names
from sim.gen import Gen
from sim.kernel import COMMIT_FAULTS, STATEMENT_FAULTS, HarnessError
from sim.runner import Leg
from sim.world import StopRun, Violation, World

EVERY_FAULT = STATEMENT_FAULTS + COMMIT_FAULTS + ("receiver",)


class WorldCheck(runner.Check):
    oracles = ()
    world = World
    weights = {}
    gen_opts = {}
    fault_p = 0.0
    kinds = EVERY_FAULT

    def families(self, leg):
        """Names of the families of a leg, with repetitions as weights."""
        return leg.opts.get("fams") or names(leg.engine)

    def gen(self, rng, leg):
        fam = families()[rng.choice(self.families(leg))]
        opts = dict(self.gen_opts)
        opts.update(leg.opts.get("gen", {}))
        fault_p = leg.opts.get("fault_p", self.fault_p)
        weights = {**self.weights, **opts.pop("weights", {})}
        g = self.generator(rng, leg, fam, dict(weights=weights, fault_p=fault_p, kinds=self.kinds if fault_p else (), **opts))
        return self.decorate(rng, leg, fam, g.trace())

    def generator(self, rng, leg, fam, kw):
        return Gen(rng, fam, **kw)

    def decorate(self, rng, leg, fam, trace):
        return trace

    def alias(self, leg):
        return "default"

    def execute(self, trace, leg, stats, keep_log=False):
        w = self.world(trace, leg.engine, self.oracles, alias=self.alias(leg), keep_log=keep_log, stats=stats)
        try:
            w.run()
        except (Violation, StopRun) as e:
            e.log = w.log
            raise
        except HarnessError:
            raise
        except Exception as e:
            # a call the harness makes for itself (reading a node it wants to pass on)
            if not raised_by_code_under_test(e):
                raise
            v = Violation("unexpected-exception", f"step {w.step_no}: {type(e).__name__}: {str(e)[:200]}", w.step_no)
            v.log = w.log
            raise v from e
        return w.log


def raised_by_code_under_test(e):
    root = os.path.join(os.path.realpath(boot.REPO), "treebeard") + os.sep
    tb = e.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


__all__ = ["WorldCheck", "Leg", "EVERY_FAULT", "names", "families"]
