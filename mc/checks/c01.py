"""Convergence of the user interface to the current data, for synchronous updates."""
from mc import suites
from mc.scenarios import run_windows

ID = "C01"
LEVEL = "model_checking"
RULE = """Each state is a value of the data (or an operation on data or local state) of a
user interface; all sequences of states of the given length are executed as part of
histories (de Bruijn sequence). After each step the complete tree of elements is compared
with the tree that follows from the current data according to the reference model. All
steps go from one state to another and are executed by the code."""


def tasks(tier):
    specs = suites.structure(tier) + suites.data(tier) + suites.attributes(tier)
    specs += suites.with_options(
        [(["keyed", "mix1", "between", 3, "extern"], 2), (["local_state", "tree"], 2)],
        gc_each=True,
    )
    return suites.tasks(specs)


def run_task(task):
    return run_windows(task, frozenset(["tree"]))
