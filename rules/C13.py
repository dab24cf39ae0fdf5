"""C13: run, step-over, step-out and pauses equal repeated single steps."""
from rules.simprops import *
from rules import runrules

EXPLAIN = ("Simulator::step is an event with an arbitrary result state; run, run_with_limit, step_over and step_out are unrolled for up to three steps and every boundary is compared "
           "with the documented stop conditions; step_in, the breakpoint predicates and the status queries are compared with their definitions; the instruction counter is taken from the step summary.")


def run(K):
    runrules.run_rules(K)
    runrules.step_in_rules(K)
    runrules.breakpoint_rules(K)
    runrules.status_rules(K)
    step_rules(K, {"count": "instruction-count", "config": "step-keeps-configuration"})
