"""Exhaustive exploration engine.

A check module defines
    ID, BOUNDS (tier -> str), cases(tier) (generator of JSON-able cases, simplest first), and
    run_case(case, ctx), which executes one behaviour on the real code, compares it with the oracle
    and calls ctx.fail(...) on a disagreement.
Optional: worker_setup(), ASSUMPTIONS, known(case, message) -> text or None. The engine sets the
module's SCRATCH to an empty directory of the worker's own, which it removes afterwards.

Case number i is executed by worker i % WORKERS, each a forked process, so that the set of cases
executed and the order inside a worker are deterministic. The reported violation is the one with the
lowest case number. Before it is reported it is confirmed in a fresh process, first alone and, if it
does not show there (state carried over from earlier cases), by re-running that worker's cases up to
it. A violation that cannot be reproduced is not reported (it is recorded in the evidence), and the
exploration goes on after it.
"""

from __future__ import annotations

import itertools
import json
import mmap
import os
import pickle
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = 8
CASE_TIMEOUT = 60.0
NONE = (1 << 62)


class Violation(Exception):
    """The code under test disagrees with the oracle."""


class Ctx:
    def __init__(self, tier):
        self.tier = tier
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.outcomes = set()
        self.samples = []
        self.known = {}
        self.extra = {}

    def state(self, key):
        self.states.add(hash(key))

    def outcome(self, key):
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(key))

    def step(self, count=1):
        self.transitions += count

    def trace(self, count=1):
        self.traces += count

    def add(self, key, count=1):
        self.extra[key] = self.extra.get(key, 0) + count

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(text)

    def fail(self, message):
        raise Violation(message)

    def eq(self, got, want, what):
        if got != want:
            raise Violation(f"{what}: got {got!r}, expected {want!r}")


def repo_root():
    return os.path.realpath(os.environ.get("SLATE_MC_REPO", "/repo"))


def known_finding(pid, message):
    """The description of the recorded defect that shows with exactly this message, or None."""

    with open(os.path.join(VERIF, "known_findings.txt"), encoding="utf-8") as file:
        for line in file:
            if line.startswith("finding: "):
                entry = json.loads(line[len("finding: ") :])
                if entry["property"] == pid and entry["message"] == message:
                    return entry["what"]
    return None


def from_library(exc):
    """Whether the exception was raised inside the code under test (or by a call it made)."""

    root = os.path.join(repo_root(), "slate")
    tb = exc.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def run_one(module, case, ctx):
    """Runs a case; returns None or the violation's message."""

    try:
        module.run_case(case, ctx)
    except Violation as exc:
        return str(exc)
    except (KeyboardInterrupt, SystemExit) as exc:
        if from_library(exc):
            return f"{type(exc).__name__} escaped from the library"
        raise
    except BaseException as exc:  # pylint: disable=broad-except
        if from_library(exc):
            last = traceback.extract_tb(exc.__traceback__)[-1]
            return (f"unexpected {type(exc).__name__}: {exc} "
                    f"(raised at {os.path.basename(last.filename)}:{last.lineno} {last.name})")
        if isinstance(exc, (TypeError, ValueError, LookupError, AttributeError)):
            # On a conforming library no case raises any of these: it returned something of another shape.
            last = traceback.extract_tb(exc.__traceback__)[-1]
            return f"what the library returned cannot be used: {type(exc).__name__}: {exc} (in {last.name}: {last.line})"
        raise
    return None


class Shared:
    """Shared memory: the case each worker is at, and the lowest violating case number."""

    def __init__(self):
        self.cells = memoryview(mmap.mmap(-1, 4096)).cast("q")
        for k in range(WORKERS):
            self.beat(k, -1)
        self.set_limit(NONE)

    def beat(self, k, index):
        self.cells[k] = index

    def get(self, k):
        return self.cells[k]

    def limit(self):
        return self.cells[WORKERS]

    def set_limit(self, value):
        self.cells[WORKERS] = value


def worker(module, tier, k, shared, out, deadline, upto=None, start=0):
    ctx = Ctx(tier)
    result = {"k": k, "violation": None, "error": None, "complete": True}
    index = -1
    try:
        if hasattr(module, "worker_setup"):
            module.worker_setup()
        known = getattr(module, "known", None)
        for index, case in enumerate(module.cases(tier)):
            if index % WORKERS != k or index < start:
                continue
            if index > shared.limit() or (upto is not None and index > upto):
                break
            if time.monotonic() > deadline:
                result["complete"] = False
                break
            shared.beat(k, index)
            ctx.cases += 1
            message = run_one(module, case, ctx)
            if message is not None:
                finding = known(case, message) if known else None
                if finding is not None:
                    ctx.known[finding] = ctx.known.get(finding, 0) + 1
                    continue
                result["violation"] = (index, case, message)
                if index < shared.limit():
                    shared.set_limit(index)
                break
    except BaseException:  # pylint: disable=broad-except
        result["error"] = f"case {index}: " + traceback.format_exc()
    shared.beat(k, -2)
    result["ctx"] = {
        "states": ctx.states, "transitions": ctx.transitions, "traces": ctx.traces,
        "cases": ctx.cases, "outcomes": ctx.outcomes, "samples": ctx.samples,
        "known": ctx.known, "extra": ctx.extra,
    }
    with open(out, "wb") as file:
        pickle.dump(result, file)


def spawn(module, tier, k, shared, out, deadline, upto=None, start=0):
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    status = 1
    try:
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        module.SCRATCH = out + ".scratch"
        os.mkdir(module.SCRATCH)
        os.chdir(module.SCRATCH)
        worker(module, tier, k, shared, out, deadline, upto, start)
        status = 0
    except BaseException:  # pylint: disable=broad-except
        traceback.print_exc()
    finally:
        os._exit(status)


def kill(pid):
    for target in (-pid, pid):
        try:
            os.kill(target, signal.SIGKILL)
        except OSError:
            pass


def explore(module, tier, deadline, only=None, upto=None, start=0):
    """Runs all workers (or only worker `only` up to case `upto`); returns a list of results."""

    shared = Shared()
    tmp = tempfile.mkdtemp(prefix="slate-mc-")
    results = []
    pids, seen = {}, {}
    try:
        for k in range(WORKERS):
            if only is not None and k != only:
                continue
            out = os.path.join(tmp, str(k))
            pids[spawn(module, tier, k, shared, out, deadline, upto, start)] = (k, out)
        while pids:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid in pids:
                k, out = pids.pop(pid)
                kill(pid)
                if os.path.exists(out):
                    with open(out, "rb") as file:
                        results.append(pickle.load(file))
                else:
                    index = shared.get(k)
                    results.append({"k": k, "violation": None, "complete": False, "ctx": None,
                                    "error": None, "died": (index, f"wait status {status}")})
                continue
            if pid:
                continue
            now = time.monotonic()
            for pid, (k, out) in list(pids.items()):
                index = shared.get(k)
                if seen.get(k, (None,))[0] != index:
                    seen[k] = (index, now)
                start = seen[k][1]
                limit = getattr(module, "CASE_TIMEOUT", CASE_TIMEOUT)
                if index >= 0 and now - start > limit:
                    kill(pid)
                    os.waitpid(pid, 0)
                    pids.pop(pid)
                    if index < shared.limit():
                        shared.set_limit(index)
                    results.append({"k": k, "violation": None, "complete": False, "ctx": None,
                                    "error": None, "died": (index, "did not finish")})
            time.sleep(0.01)
    finally:
        for pid in list(pids):
            kill(pid)
        shutil.rmtree(tmp, ignore_errors=True)
    return results


def nth_case(module, tier, index):
    return next(itertools.islice(module.cases(tier), index, None))


def sub(args, timeout):
    """Runs this program again in a fresh process; returns (exit status or 'hang', stdout)."""

    proc = subprocess.Popen(
        [sys.executable, os.path.join(VERIF, "mc", "run.py"), *args],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True,
    )
    try:
        out, _ = proc.communicate(timeout=timeout)
        return proc.returncode, out
    except subprocess.TimeoutExpired:
        kill(proc.pid)
        proc.communicate()
        return "hang", ""


def confirm(module, tier, index, case, message, notes):
    """Reproduces a violation in a fresh process; returns None or (path of the replay file, message)."""

    pid = module.ID
    folder = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{pid}-{tier}-{index}.json")
    record = {"property": pid, "tier": tier, "mode": "case", "index": index, "case": case,
              "message": message, "replay_with": f"/opt/venv/bin/python mc/run.py {pid} --replay {path}"}
    limit = 2 * getattr(module, "CASE_TIMEOUT", CASE_TIMEOUT)
    for mode, limit in (("case", limit), ("case", limit), ("case", limit), ("prefix", 600)):
        record["mode"] = mode
        with open(path, "w", encoding="utf-8") as file:
            json.dump(record, file, indent=1)
        status, out = sub([pid, "--replay", path], limit)
        if status in (1, "hang"):
            return path, message
    os.unlink(path)
    notes.append(f"case {index} failed once but not when replayed: {message} / {out[-300:]}")
    return None


def main(module, tier, replay=None):
    pid = module.ID
    start = time.monotonic()
    budget = float(os.environ.get("SLATE_MC_BUDGET", "600" if tier == "quick" else "780"))

    if replay is not None:
        with open(replay, encoding="utf-8") as file:
            data = json.load(file)
        if data.get("mode") == "prefix":
            results = explore(module, data["tier"], start + budget, only=data["index"] % WORKERS,
                              upto=data["index"])
            bad = [r for r in results if r["violation"] or r.get("died")]
            if bad:
                print("replayed:", bad[0]["violation"] or bad[0].get("died"))
                return 1
            return 0
        module.SCRATCH = tempfile.mkdtemp(prefix="slate-mc-")
        os.chdir(module.SCRATCH)
        try:
            if hasattr(module, "worker_setup"):
                module.worker_setup()
            message = run_one(module, data["case"], Ctx(data.get("tier", tier)))
        finally:
            os.chdir("/")
            shutil.rmtree(module.SCRATCH, ignore_errors=True)
        if message is not None:
            print("replayed:", message)
            return 1
        print("replayed: no violation")
        return 0

    results, errors, notes = [], [], []
    confirmed, begin = None, 0
    for _ in range(6):
        found = explore(module, tier, start + budget, start=begin)
        results += found
        candidates = []
        for r in found:
            if r["error"]:
                errors.append(r)
            if r["violation"]:
                candidates.append(r["violation"])
            elif r.get("died"):
                index, why = r["died"]
                if index >= 0:
                    candidates.append((index, nth_case(module, tier, index), f"execution {why}"))
                else:
                    errors.append({"error": f"worker {r['k']} died: {why}"})
        candidates.sort(key=lambda c: c[0])
        for index, case, message in candidates:
            confirmed = confirm(module, tier, index, case, message, notes)
            if confirmed:
                break
        if confirmed or errors or not candidates:
            break
        # All cases up to the first of them were executed; the later ones may not have been
        begin = candidates[0][0] + 1
    else:
        found[0]["complete"] = False

    wall = time.monotonic() - start
    states, outcomes, samples, known, extra = set(), set(), [], {}, {}
    transitions = traces = ncases = 0
    for r in results:
        ctx = r.get("ctx")
        if not ctx:
            continue
        states |= ctx["states"]
        outcomes |= ctx["outcomes"]
        samples += ctx["samples"]
        transitions += ctx["transitions"]
        traces += ctx["traces"]
        ncases += ctx["cases"]
        for k, v in ctx["known"].items():
            known[k] = known.get(k, 0) + v
        for k, v in ctx["extra"].items():
            extra[k] = extra.get(k, 0) + v
    complete = all(r["complete"] for r in results) and not confirmed and not errors
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": "model_checking",
        "coverage": {
            "states": len(states),
            "transitions": transitions,
            "traces_validated_against_impl": traces,
            "behaviours_executed": ncases,
            "distinct_outcomes": len(outcomes),
            "samples": samples[:6],
            "exhaustive": complete,
            "bounds": module.BOUNDS[tier],
            **extra,
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 3),
        "violations": int(confirmed is not None),
    }
    if notes:
        evidence["coverage"]["unreproduced"] = notes
    if known:
        evidence["coverage"]["known_findings"] = known
    if confirmed:
        evidence["coverage"]["violation"] = {"replay": confirmed[0], "message": confirmed[1][:2000]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w", encoding="utf-8") as file:
        json.dump(evidence, file, indent=1)

    print(f"{pid} {tier}: behaviours={ncases} states={len(states)} transitions={transitions} "
          f"traces={traces} outcomes={len(outcomes)} exhaustive={complete} wall={wall:.1f}s")
    for text in sorted(known):
        print(f"KNOWN-FINDING: property={pid} {text}")
    for note in notes:
        print("note:", note)
    if confirmed:
        print(confirmed[1])
        print(f"VIOLATION property={pid} replay={confirmed[0]}")
        return 1
    if errors:
        print("HARNESS ERROR", errors[0]["error"], file=sys.stderr)
        return 2
    return 0
