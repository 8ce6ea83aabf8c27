"""Selections of scenarios (with the length of the windows) for the checks."""
from mc.scenarios import HOWS, KEY_POOLS, KINDS, LAYOUTS, MIXES, split

SOURCES = ["props", "pass", "extern", "func", "render", "state"]
ALL_KINDS = [*KINDS, *MIXES]


def tasks(specs):
    result = []
    for spec, k, *opts in specs:
        result.extend(split(spec, k, *opts))
    return result


def structure(tier):
    """Lists, virtual nodes and nested trees"""
    specs = []
    if tier == "quick":
        for kind in ALL_KINDS:
            specs.append((["keyed", kind, "between", 4 if kind in MIXES else 3, "extern"], 2))
        for layout in LAYOUTS:
            specs.append((["keyed", "mix1", layout, 3, "extern"], 2))
            specs.append((["keyed", "mix3", layout, 3, "extern"], 2))
        for source in SOURCES:
            specs.append((["keyed", "mix1", "tpl", 3, source], 2))
            specs.append((["keyed", "mix2", "between", 3, f"{source}+v"], 2))
        specs.append((["keyed", "mix2", "tpl", 3, "props"], 3))
        specs += [(["keyed_twice", k], 2) for k in ("host", "mix1", "mix2")]
        specs += [(["key_types", "comp", p], 2) for p in ("texts", "tuples", "empty")]
        specs += [(["unkeyed", a, 2], 2) for a in ("abtX", "Yvef", "tvXf", "aYev", "PQpq")]
        specs += [(["unkeyed", "tXve", 3, "tpl"], 2)]
        specs += [(["mixed", a, 2], 2) for a in ("aX123", "bX346", "a1526")]
        specs += [(["deep_flags", k, 5], 2) for k in ("host", "tpl", "tplrev", "slot", "fnslot")]
        specs += [(["root_kind"], 3)]
    else:
        for kind in ALL_KINDS:
            specs.append((["keyed", kind, "between", 4, "extern"], 2))
            specs.append((["keyed", kind, "tpl2", 3, "extern"], 3))
        for layout in LAYOUTS:
            for kind in MIXES:
                specs.append((["keyed", kind, layout, 4, "extern"], 2))
                specs.append((["keyed", kind, layout, 3, "extern"], 3))
        for source in SOURCES:
            for kind in ("host", "mix1", "mix2"):
                specs.append((["keyed", kind, "tpl", 3, source], 3))
                specs.append((["keyed", kind, "between", 3, f"{source}+v"], 3))
        specs += [(["keyed", k, "deep", 4, "extern"], 3) for k in ("host", "mix1")]
        specs += [(["keyed_twice", k], 2) for k in ALL_KINDS]
        specs += [
            (["key_types", k, p], 2)
            for k in ("host", "comp", "mix1", "mix3") for p in KEY_POOLS
        ]
        specs += [
            (["unkeyed", a, 3], 2) for a in ("abtX", "Yvef", "tvXf", "aYev", "PQpq")
        ]
        specs += [(["unkeyed", a, 2, "tpl"], 3) for a in ("abtX", "Yvef", "tvXf", "aYev")]
        specs += [(["mixed", a, 3], 2) for a in ("aX123", "bX346", "a1526")]
        specs += [
            (["deep_flags", k, 7], 2) for k in ("host", "tpl", "tplrev", "slot", "fnslot")
        ]
        specs += [(["root_kind"], 4)]
    return specs


def data(tier):
    """Changes of data, props and local state"""
    k = 3 if tier == "quick" else 4
    specs = [(["readers", v], 2) for v in ("plain", "slots", "scoped", "other")]
    specs += [(["local_state", v], k) for v in ("tree", "multi", "unkeyed", "slot")]
    specs += [(["prop_flow", v], k) for v in ("spread", "func", "direct", "nested")]
    specs += [
        (["mutations", v], 2 if tier == "quick" else 3) for v in ("plain", "func", "props", "slots")
    ]
    return specs


# Names of attributes that are (nearly) used for something else
NAMES = [
    ("online", "only"), ("on", "onset"), ("On_click", "ON_x"), ("-on_x", "xon_"),
    ("keys", "Key"), ("type", "types"), ("children", "text"), ("props", "state"),
    ("content", "value"), ("element", "parent"), ("class", "for"), ("1", "-"), ("a b", "é"),
    ("a.b", "a:b"), ("items", "get"), ("update", "__len__"), ("slots", "default"),
]


def attributes(tier):
    n = list(range(6)) if tier == "quick" else list(range(8))
    names = [
        (["attributes", on_comp, [1, 4], names], 2)
        for names in NAMES for on_comp in (False, True)
    ]
    return names + [
        (["attributes", False, n], 2),
        (["attributes", False, [6, 7, 8, 9, 10]], 2),
        (["attributes", True, [0, 1, 2, 6]], 2),
        (["attributes", True, [4, 7, 9, 10]], 2),
        (["texts", 2 if tier == "quick" else 3], 2),
    ]


def handlers(tier):
    k = 2 if tier == "quick" else 3
    return [
        (["handlers", HOWS], k),
        (["handlers", HOWS, True], k),
        (["handlers", ["lam", "meth", "partial"], False, 2], 2),
        (["handlers", ["lam", "meth", "obj"], True, 2], 2),
        (["moving_handlers", 3], k),
    ]


def slots(tier):
    return [
        (["nested_slots"], 2 if tier == "quick" else 3),
        (["slots"], 2),
        (["readers", "slots"], 2),
        (["readers", "scoped"], 2),
        (["readers", "other"], 2),
        (["keyed", "slot", "slotted", 3, "extern"], 2),
        (["keyed", "mix3", "slotonly", 3, "extern"], 2),
        (["deep_flags", "slot", 5 if tier == "quick" else 7], 2),
        (["deep_flags", "fnslot", 5 if tier == "quick" else 7], 2),
        (["local_state", "slot"], 2 if tier == "quick" else 4),
    ]


def with_options(specs, **options):
    """Adds type of elements and when to collect garbage to the specs"""
    return [
        (spec, k, options.get("el_type", "plain"), options.get("gc_each", False))
        for spec, k, *_ in specs
    ]
