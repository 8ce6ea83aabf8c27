"""Lifecycle hooks and the element of components."""
from mc import suites
from mc.scenarios import run_windows

ID = "C03"
LEVEL = "model_checking"
RULE = """All sequences of states of the given length are executed for trees with
components. After each step the calls of mounted, updated and before_unmount are compared
with the instances that were made, changed and removed according to the reference
model."""


def has_components(spec):
    return not (
        (spec[0] == "keyed" and spec[1] in ("host", "text", "tpl2", "fn", "fnmulti"))
        or (spec[0] == "keyed" and spec[4] in ("func", "render"))
    )


def tasks(tier):
    specs = [s for s in suites.structure(tier) if has_components(s[0])]
    specs += [s for s in suites.data(tier) if s[0][0] != "readers"]
    specs += suites.attributes(tier)[1:] + suites.handlers("quick")
    if tier == "quick":
        specs = [s for s in specs if s[0][0] != "unkeyed" or s[0][2] == 2]
    specs += suites.with_options(
        [(["keyed", "mix1", "between", 3, "extern"], 2), (["local_state", "tree"], 2)],
        gc_each=True,
    )
    specs += suites.with_options([(["root_kind"], 2)], el_type="falsy")
    return suites.tasks(specs)


def run_task(task):
    return run_windows(task, frozenset(["identity", "hooks"]))
