"""Which explorations decide which property."""
import os

from . import conf, core, editor, execute, history, ide, ifc, modular, recurse


def flow(prop):
    def run(rep, work, tier):
        core.build_harness()
        conf.run_corpus(rep, prop, work)
        conf.run_generated(rep, prop, work, tier)
    return run


CHECKS = {p: flow(p) for p in conf.KINDS}
CHECKS["C03"] = modular.run
CHECKS["C12"] = recurse.run
for p in execute.PLAN:      # what executions show, besides
    CHECKS[p] = (lambda f: lambda rep, work, tier: (f(rep, work, tier), execute.run(rep, work, tier)))(CHECKS[p])
CHECKS["C11"] = (lambda f: lambda rep, work, tier: (f(rep, work, tier), ide.run_flags(rep, os.path.join(work, "flags"))))(CHECKS["C11"])
CHECKS["C07"] = (lambda f: lambda rep, work, tier: (f(rep, work, tier), conf.run_orders(rep, os.path.join(work, "orders"), tier)))(CHECKS["C07"])
CHECKS["C13"] = history.run
CHECKS["C14"] = ifc.run
CHECKS["C15"] = ide.run_focus
CHECKS["C16"] = ide.run_cli
CHECKS["C17"] = editor.run_focus_mode
CHECKS["C18"] = editor.run_fade
CHECKS["C19"] = editor.run_select
CHECKS["C20"] = editor.run_setup
CHECKS["C21"] = editor.run_reporting
