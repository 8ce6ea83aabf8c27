"""Runs the tasks of a check on all cores and writes the evidence.

A check is a module with:
  ID, LEVEL          identifiers for the evidence
  tasks(tier)        list of JSON-able tasks. Together they enumerate the bounded
                     space of executions. Each one is deterministic.
  run_task(task)     explores all of the executions of the task; returns a Result
"""
import gc
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
from pathlib import Path
import re
import signal
import sys
import time
import traceback

ROOT = Path(__file__).resolve().parent.parent
EVIDENCE = Path(os.environ.get("VMC_EVIDENCE", ROOT / "evidence"))
REPLAYS = Path(os.environ.get("VMC_REPLAYS", ROOT / "replays"))
KNOWN = ROOT / "known_findings.txt"
HANG_SECONDS = 60


class Violation(Exception):
    """The property does not hold in the execution that is being explored."""

    def __init__(self, message, signature=None):
        super().__init__(message)
        self.signature = signature or message


class HarnessError(Exception):
    """The machinery itself is broken: never reported as a violation."""


class Hang(BaseException):
    pass


def _on_alarm(signum, frame):
    raise Hang()


class Result:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.validated = 0  # histories compared step by step with the code
        self.samples = []
        self.violation = None  # (message, signature, trace)
        self.known = []
        self.notes = {}

    def sample(self, value):
        if len(self.samples) < 2:
            self.samples.append(value)


def watchdog(seconds=HANG_SECONDS):
    """(Re)starts the clock (in cpu time) for the execution that is explored."""
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)


CHECK = None


def _run(task):
    signal.signal(signal.SIGVTALRM, _on_alarm)
    watchdog()
    res = Result()
    try:
        res = CHECK.run_task(task) or res
    except Violation as e:
        res.violation = (str(e), e.signature, getattr(e, "trace", None))
    except Hang:
        res.violation = (
            f"no progress within {HANG_SECONDS} seconds of cpu time: "
            + "".join(traceback.format_stack(limit=3))[-600:],
            "hang",
            None,
        )
    except (HarnessError, KeyboardInterrupt):
        raise
    except BaseException as e:  # noqa: B902
        tb = traceback.format_exc()
        msg = f"unexpected {type(e).__name__}: {e}"
        if "/collagraph/" in tb or "observ" in tb or isinstance(e, RecursionError):
            res.violation = (msg + "\n" + tb[-3000:], msg, None)
        else:
            res.notes["harness_error"] = tb
    finally:
        watchdog(0)
    return task, res


def _worker(conn):
    while (task := conn.recv()) is not None:
        conn.send(_run(task))


def execute(tasks, isolate=False):
    """Executes the tasks in a number of processes (or in a process for each task) and
    yields the results. A process that crashes is a violation of the property."""
    ctx = mp.get_context("fork")
    procs = min(int(os.environ.get("VMC_PROCS", "8")), len(tasks))
    todo = list(tasks)[::-1]
    workers = {}

    def start():
        conn, child = ctx.Pipe()
        process = ctx.Process(target=_worker, args=(child,), daemon=True)
        process.start()
        child.close()
        workers[conn] = [process, None]
        assign(conn)

    def assign(conn):
        task = todo.pop() if todo else None
        workers[conn][1] = task
        conn.send(task)
        if task is None:
            stop(conn)

    def stop(conn):
        process, _ = workers.pop(conn)
        process.join()
        conn.close()

    try:
        for _ in range(procs):
            start()
        while workers:
            for conn in mp.connection.wait(list(workers)):
                try:
                    task, res = conn.recv()
                except EOFError:
                    process, task = workers[conn]
                    stop(conn)
                    res = Result()
                    code = process.exitcode
                    if -code in CRASHES:
                        name = CRASHES[-code].name
                        msg = f"crash with {name} (replay the task for the details)"
                        res.violation = (msg, msg, None)
                    else:
                        res.notes["harness_error"] = f"process ended with {code}"
                    if todo:
                        start()
                else:
                    if isolate:
                        conn.send(None)
                        stop(conn)
                        if todo:
                            start()
                    else:
                        assign(conn)
                yield task, res
    finally:
        for process, _ in workers.values():
            process.kill()


CRASHES = {
    s.value: s
    for s in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)
}


def known_findings(prop):
    """Patterns of signatures of known findings ('known: property=ID PATTERN')"""
    result = []
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            m = re.match(r"known: property=(\S+) (.*)$", line)
            if m and m.group(1) == prop:
                result.append(m.group(2).strip())
    return result


def main(argv):
    global CHECK
    if argv and argv[0] == "replay":
        return replay(argv[1])
    if argv and argv[0] == "setup":
        # Nothing to build: only check that the code can be imported
        import collagraph

        print("collagraph", collagraph.__file__)
        return 0
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    CHECK = importlib.import_module(f"mc.checks.{prop.lower()}")
    start = time.time()
    tasks = CHECK.tasks(tier)
    listed = known_findings(prop)
    merged = Result()
    errors = []
    violation = None
    n_tasks = 0
    digest_tasks = len(tasks)
    gc.collect()
    gc.freeze()
    for task, res in execute(tasks, getattr(CHECK, "ISOLATE", False)):
        n_tasks += 1
        if err := res.notes.pop("harness_error", None):
            errors.append((task, err))
            continue
        merged.states += res.states
        merged.transitions += res.transitions
        merged.validated += res.validated
        for k, v in res.notes.items():
            if isinstance(v, int):
                merged.notes[k] = merged.notes.get(k, 0) + v
            else:
                merged.notes.setdefault(k, v)
        if res.samples and len(merged.samples) < 6:
            merged.samples.extend(res.samples[:1])
        if res.violation:
            msg, sig, trace = res.violation
            if sig in listed:
                if sig not in merged.known:
                    merged.known.append(sig)
                continue
            violation = (task, msg, sig, trace)
            break
    wall = time.time() - start
    if errors and not violation:
        task, err = errors[0]
        print(f"check {prop} is broken: task {task}\n{err}", file=sys.stderr)
        return 3

    path = None
    if violation:
        task, msg, sig, trace = violation
        REPLAYS.mkdir(exist_ok=True)
        path = REPLAYS / f"{prop}.json"
        path.write_text(
            json.dumps(
                {"property": prop, "task": task, "message": msg, "trace": trace},
                indent=1,
                default=repr,
            )
        )
    write_evidence(prop, tier, merged, n_tasks, digest_tasks, wall, violation, path)
    for sig in merged.known:
        print(f"KNOWN-FINDING: property={prop} {sig}")
    if violation:
        print(violation[1][:4000], file=sys.stderr)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(
        f"{prop} ok ({tier}): {merged.states} states, {merged.transitions} transitions,"
        f" {n_tasks} tasks, {wall:.1f} s"
    )
    return 0


def write_evidence(prop, tier, res, n_tasks, total, wall, violation, path):
    EVIDENCE.mkdir(exist_ok=True)
    rule = CHECK.RULE.strip()
    coverage = {
        "rule": rule,
        "samples": res.samples or ["(none)"],
        "states": res.states,
        "transitions": res.transitions,
        "traces_validated_against_impl": res.validated,
        "tasks_explored": n_tasks,
        "tasks_total": total,
        "exhaustive": violation is None and n_tasks == total,
        **res.notes,
    }
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": CHECK.LEVEL,
        "coverage": coverage,
        "wall_s": round(wall, 3),
    }
    if violation:
        evidence["violations"] = 1
        coverage["violation"] = {"replay": str(path), "message": violation[1][:500]}
    (EVIDENCE / f"{prop}.json").write_text(json.dumps(evidence, indent=1, default=repr))


def replay(path):
    global CHECK
    data = json.loads(Path(path).read_text())
    prop = data["property"]
    CHECK = importlib.import_module(f"mc.checks.{prop.lower()}")
    _, res = _run(data["task"])
    if res.notes.get("harness_error"):
        print(res.notes["harness_error"])
        return 3
    if res.violation:
        msg, sig, trace = res.violation
        print(msg)
        if trace:
            print("trace:")
            for item in trace:
                print("  ", item)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop}: the violation does not occur anymore")
    return 0
