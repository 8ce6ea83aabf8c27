"""All the calls of the renderer are legal."""
from mc import suites
from mc.scenarios import run_windows

ID = "C07"
LEVEL = "model_checking"
RULE = """All sequences of states of the given length are executed, with elements that are
plain objects, evaluate to False or are equal to each other. Each call of the renderer is
checked against the tree of elements at that point: insert of a detached element before an
actual child, removal of actual children, attributes and listeners, no repeated values.
And each change is followed by the callback that is given to render."""


def tasks(tier):
    specs = suites.structure(tier)
    if tier == "quick":
        specs = specs[:11] + specs[25:]
    specs += suites.attributes(tier) + suites.handlers("quick")
    some = [
        (["keyed", "mix1", "between", 3, "extern"], 2),
        (["keyed", "mix3", "tpl", 3, "extern"], 2),
        (["keyed", "host", "between", 3, "render"], 2),
        (["deep_flags", "host", 5], 2),
        (["deep_flags", "tpl", 5], 2),
        (["local_state", "tree"], 2),
        (["mixed", "aX123", 2], 2),
        (["texts", 2], 2),
        (["handlers"], 2),
        (["attributes", False, [0, 1, 2, 5]], 2),
    ]
    for el_type in ("falsy", "equal"):
        specs += suites.with_options(some, el_type=el_type)
    specs += suites.with_options(some, gc_each=True)
    return suites.tasks(specs)


def run_task(task):
    oracles = {"protocol", "callback"}
    if task[2] != "plain":
        oracles.add("tree")
    return run_windows(task, frozenset(oracles))
