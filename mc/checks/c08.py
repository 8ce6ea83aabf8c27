"""No more work for the renderer than what is needed."""
from mc import suites
from mc.scenarios import run_windows

ID = "C08"
LEVEL = "model_checking"
RULE = """All sequences of states of the given length are executed, which includes
repeated states, changes of data that are not used, and new but equivalent handlers. The
calls of the renderer after each step are compared with what has changed according to
the reference model: nothing, or only elements that have actually been moved."""


def tasks(tier):
    specs = suites.handlers(tier)[:2] + suites.attributes(tier) + suites.data(tier)
    specs += [s for s in suites.structure(tier) if s[0][0] != "unkeyed"]
    if tier == "quick":
        specs = [s for s in specs if s[0][0] != "keyed" or s[0][3] == 3]
    return suites.tasks(specs)


def run_task(task):
    return run_windows(task, frozenset(["idle", "minimal", "protocol"]))
