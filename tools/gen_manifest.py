"""Writes /verif/MANIFEST.json. Run by hand."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HIST = "bounded exhaustive exploration of operation histories on the real code, in lockstep with a reference model and a terminal emulator"
INPUT = "bounded exhaustive enumeration of inputs on the real code against an independent oracle"
PTY = "exhaustive enumeration of arrivals/faults on a controlled pseudo-terminal, executing the real code"
TECH = {
 "C01": HIST, "C02": HIST, "C03": HIST, "C04": HIST, "C05": HIST, "C06": HIST, "C07": HIST, "C08": HIST,
 "C09": INPUT, "C10": INPUT + " (chains of derivations)", "C11": INPUT, "C12": HIST + ", parsing the exported SVG", "C13": INPUT,
 "C14": HIST.replace("operation histories", "colour-space histories"), "C15": INPUT, "C16": "exhaustive enumeration of environments on the real code",
 "C17": INPUT, "C18": INPUT, "C19": INPUT, "C20": PTY, "C21": PTY + " with fault injection at every wait",
 "C22": "stateless model checking of real threads under a controlled scheduler (preemption-bounded, line and bytecode level)",
 "C23": PTY, "C24": "exhaustive enumeration of context nestings, exits and output faults on the real code with an emulated terminal",
 "C25": HIST, "C26": "bounded exhaustive exploration of operation histories on the real code against a list model", "C27": HIST,
 "C28": "bounded exhaustive exploration of operation histories on two terminal objects under an audit hook",
 "C29": PTY + " in real processes",
}
NOTE = {
 "hist": "Every history inside the bounds (evidence: coverage.bounds) is executed on the real code; nothing beyond them. Trusts the emulator (mc/emu.py) and the reference model (mc/refscreen.py).",
 "input": "Every input inside the bounds (evidence: coverage.bounds) is evaluated by the real code; nothing beyond them. Trusts the check's own oracle.",
 "pty": "Every arrival/fault pattern inside the bounds is executed on the real code on a Linux pseudo-terminal. Trusts the stand-ins for os.read/select (mc/ptylab.py).",
 "sched": "Every schedule inside the preemption bound is executed on the real code. Trusts the scheduler (mc/sched.py) and that CPython switches threads only between bytecodes.",
}
checks = []
for pid, technique in TECH.items():
    kind = "sched" if pid == "C22" else "pty" if pid in ("C20", "C21", "C23", "C29") else "input" if technique.startswith(INPUT) or pid in ("C16",) else "hist"
    checks.append({"property": pid, "quick_cmd": f"/opt/venv/bin/python mc/run.py {pid}",
                   "thorough_cmd": f"/opt/venv/bin/python mc/run.py {pid} --tier thorough",
                   "technique": "model checking: " + technique, "level": "model_checking", "level_note": NOTE[kind]})
manifest = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c \"import sys; sys.path[:0] = ['.', '/repo']; import mc.engine, mc.emu, mc.refscreen, slate\"",
            "checks": checks, "not_applicable": [],
            "notes": "All checks import the library from /repo's working tree; nothing is built. Genuine defects: known_findings.txt."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
