"""Identity of elements and local state of components is preserved."""
from mc import suites
from mc.scenarios import run_windows

ID = "C02"
LEVEL = "model_checking"
RULE = """All sequences of states of the given length of lists with (un)keyed items,
nested trees and components with local state are executed. The reference model pairs
children by key (or by order, without keys) and reuses the items of the same type: there
should be a one-to-one relation of its nodes and instances with the elements and instances
that are made by the code, throughout the history."""


def tasks(tier):
    specs = [s for s in suites.structure(tier)]
    if tier == "quick":
        specs = specs[:25] + specs[-18:]
    specs += [s for s in suites.data(tier)]
    specs += suites.with_options(
        [(["keyed", "mix1", "between", 3, "extern"], 2), (["local_state", "tree"], 2)],
        el_type="equal",
    )
    return suites.tasks(specs)


def run_task(task):
    return run_windows(task, frozenset(["tree", "identity"]))
