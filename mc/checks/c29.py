"""C29: the command line tools report what the library sees. Real processes on a real pseudo-terminal."""

import fcntl
import itertools
import os
import pty
import re
import select
import signal
import struct
import subprocess
import sys
import termios
import time

from mc.checks.c16 import expect as expect_space
from mc.checks.c20 import KEYS, MOUSE
from mc.emu import interpret_line
from mc.engine import repo_root
from mc.ptylab import attrs_of

ID = "C29"
TEXTS = ["a", "Z", " ", "0", "'", '"', "\\", "é", "€", "😀", "ab", "hello world", "日本語", "aé😀€", "|", "x" * 70, "é" * 300, "0123456789" * 100]
UNNAMED = ["\x1b[99~", "\x1b[1;9Q", "a\x1b[A", "\x1b[A\x1b[A"]
SIZES = {"quick": [(1, 1), (2, 1), (1, 2), (9, 10), (80, 24), (24, 80), (99, 100), (132, 43), (200, 50), (1000, 999), (999, 1)],
         "thorough": [(w, h) for w in (1, 2, 9, 10, 24, 80, 99, 100, 132, 999, 1000) for h in (1, 2, 9, 10, 24, 25, 80, 99, 100, 999, 1000)]}
VALUES = {"quick": {"SLATE_COLORSYS": [None, "true_color", "No_Color"], "NO_COLOR": [None, "", "1"],
                    "COLORTERM": [None, "truecolor", "256color", "a-long-and-unknown-value"], "TERM": ["dumb", None, "xterm-256color"]},
          "thorough": {"SLATE_COLORSYS": [None, "true_color", "No_Color", "eight_bit", "standard"], "NO_COLOR": [None, "", "1", "0"],
                       "COLORTERM": [None, "", "truecolor", "256color", "24bit", "a-long-and-unknown-value"],
                       "TERM": ["dumb", None, "", "xterm-256color", "xterm-truecolor", "a-name-much-longer-than-anything-else-in-the-table"]}}
COLORS = {"quick": ["0000", "ffff", "1234", "80ff"], "thorough": ["0000", "ffff", "1234", "80ff", "abcd", "0a0b", "7f80"]}
BOUNDS = {t: f"getch: every known key, {len(MOUSE)} mouse reports, {len(TEXTS)} texts and ctrl-c, named and raw (unknown sequences raw only); size: {len(SIZES[t])} "
             f"terminal sizes, and as many given by the environment, also without a terminal; debug: every combination of "
             f"{'x'.join(str(len(v)) for v in VALUES[t].values())} environment variables, {len(COLORS[t])}^3 default colours, every terminal size, "
             "every synchronized-update reply 0..5 and none, no terminal; every wrong command line of a list; 2 terminal modes"
          for t in ("quick", "thorough")}
ASSUMPTIONS = ["the terminal answers colour queries; key input arrives in one piece once the program waits for it"]
CASE_TIMEOUT = 60.0
LIMIT = 30.0
WRONG = [[], ["nothing"], ["size", "x"], ["getch", "--row"], ["--nothing"], ["debug", "--raw"], ["size", "--raw"]]

# Time limits inside the program are stretched when the terminal is going to answer
PROGRAM = """
import os, runpy, signal, sys
if os.environ.pop("MC_STRETCH", ""):
    real = signal.setitimer
    signal.setitimer = lambda which, seconds, interval=0.0: real(which, seconds * 200, interval)
sys.argv = ["slate", *sys.argv[1:]]
runpy.run_module("slate", run_name="__main__", alter_sys=True)
"""
QUERY = re.compile(rb"\x1b\](1[01]);\?(?:\x1b\\|\x07)|\x1b\[\?2026\$p|\x1b\[14t")
ECHO = re.compile(r"\^\[\[\?2026;\d\$y")


def cases(tier):
    for i in range(len(inputs())):
        for raw in (0, 1):
            if raw or inputs()[i] not in UNNAMED:
                yield ["getch", i, raw, "plain" if i % 2 else "noecho"]
    yield ["interrupt", 0]
    yield ["interrupt", 1]
    for i, size in enumerate(SIZES[tier]):
        for how in ("tty", "env", "pipe"):
            yield ["size", list(size), how, "plain" if i % 2 else "noecho"]
    for i in range(len(WRONG)):
        yield ["wrong", i]
    yield ["version", "-v"]
    yield ["version", "--version"]
    default = {"TERM": "xterm", "SLATE_COLORSYS": "true_color"}
    for size in SIZES[tier]:
        yield ["debug", default, list(size), ["dede", "dede", "dede"], None, "plain"]
    for n in (None, 0, 1, 2, 3, 4, 5):
        yield ["debug", default, [80, 24], ["1414", "ffff", "0000"], n, "plain"]
    for channels in itertools.product(COLORS[tier], repeat=3):
        yield ["debug", default, [80, 24], list(channels), 2, "noecho"]
    values = VALUES[tier]
    for combo in itertools.product(*values.values()):
        env = {k: v for k, v in zip(values, combo) if v is not None}
        yield ["debug", env, [100, 30], ["1234", "5678", "9abc"], 1, "plain"]
    for combo in itertools.product((None, "true_color"), (None, "1"), (None, "truecolor"), (None, "xterm-256color")):
        env = {k: v for k, v in zip(values, combo) if v is not None}
        yield ["piped", env]


def inputs():
    return [*KEYS, *MOUSE, *TEXTS, *UNNAMED]


def run(args, env, size=(80, 24), mode="plain", typed=None, channels=("dede", "dede", "dede"), sync=None, terminal=True):
    """Runs the program; returns what it displayed, its stderr and exit status."""

    base = {k: os.environ[k] for k in ("PATH", "HOME", "LC_ALL", "PYTHONHASHSEED", "PYTHONUTF8") if k in os.environ}
    base.update(PYTHONPATH=repo_root(), PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent-slate-mc", **env)
    if sync is not None:
        base["MC_STRETCH"] = "1"
    command = [sys.executable, "-c", PROGRAM, *args]
    if not terminal:
        done = subprocess.run(command, env=base, stdin=subprocess.DEVNULL, capture_output=True, timeout=LIMIT, check=False)
        return done.stdout.decode(), done.stderr.decode(), done.returncode, None
    master, slave = pty.openpty()
    fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack("HHHH", size[1], size[0], 0, 0))
    attrs = termios.tcgetattr(slave)
    if typed != b"\x03":
        attrs = attrs_of(attrs)
    if mode == "noecho":
        attrs[3] &= ~termios.ECHO
    termios.tcsetattr(slave, termios.TCSANOW, attrs)
    before = termios.tcgetattr(slave)

    def own():
        os.setsid()
        for number in (signal.SIGINT, signal.SIGQUIT, signal.SIGHUP, signal.SIGALRM, signal.SIGTTOU, signal.SIGTTIN):
            signal.signal(number, signal.SIG_DFL)  # ignored ones would stay ignored
        signal.pthread_sigmask(signal.SIG_SETMASK, [])
        fcntl.ioctl(0, termios.TIOCSCTTY, 0)

    proc = subprocess.Popen(command, env=base, stdin=slave, stdout=slave, stderr=subprocess.PIPE, preexec_fn=own)
    shown, answered, end, waiting = b"", 0, time.monotonic() + LIMIT, typed is not None
    try:
        while True:
            ready, _, _ = select.select([master], [], [], 0.005)
            if ready:
                shown += os.read(master, 65536)
                while m := QUERY.search(shown, answered):
                    answered = m.end()
                    if m[1]:
                        reply = channels if m[1] == b"10" else channels[::-1]
                        os.write(master, f"\x1b]{m[1].decode()};rgb:{'/'.join(reply)}\x1b\\".encode())
                    elif m[0].endswith(b"p") and sync is not None:
                        os.write(master, f"\x1b[?2026;{sync}$y".encode())
                continue
            if waiting and b"..." in shown and not termios.tcgetattr(slave)[3] & termios.ICANON:
                waiting = False
                os.write(master, typed)
            if proc.poll() is not None:
                break
            if time.monotonic() > end:
                return None, None, "no end", None
        while select.select([master], [], [], 0)[0]:
            shown += os.read(master, 65536)
        after = termios.tcgetattr(slave)
        return shown.decode().replace("\r\n", "\n"), proc.stderr.read().decode(), proc.returncode, (before, after)
    finally:
        proc.kill()
        proc.wait()
        proc.stderr.close()
        os.close(master)
        os.close(slave)


def visible(text, ctx, what):
    """The lines shown, as text, and as cells."""

    lines = []
    for line in QUERY.sub(b"", text.encode()).decode().split("\n"):
        cells, errors = interpret_line(line)
        if errors:
            ctx.fail(f"{what}: {errors[0]}")
        lines.append(cells)
    return ["".join(c[0] for c in cells).rstrip() for cells in lines], lines


def finished(result, ctx, what):
    shown, err, status, modes = result
    ctx.step()
    ctx.trace()
    if status != 0:
        ctx.fail(f"{what}: ended with {status!r}: {(err or '').strip()[-300:]}")
    if err:
        ctx.fail(f"{what}: reported {err.strip()[-300:]!r}")
    if modes is not None and modes[0] != modes[1]:
        ctx.fail(f"{what}: the terminal's mode was {modes[0]}, is now {modes[1]}")
    return shown


def run_case(case, ctx):
    kind = case[0]
    ctx.sample(case)
    ctx.state(str(case))
    if kind in ("getch", "interrupt"):
        if kind == "getch":
            _, i, raw, mode = case
            typed, names = inputs()[i], KEYS.get(inputs()[i])
            if typed in MOUSE:
                names = (MOUSE[typed],)
        else:
            typed, raw, mode, names = "\x03", case[1], "plain", KEYS["\x03"]
        what = f"slate getch{' --raw' * raw}, typing {typed!r}"
        shown = finished(run(["getch"] + ["--raw"] * raw, {"TERM": "xterm"}, mode=mode, typed=typed.encode()), ctx, what)
        if raw or not names:
            names = (repr(typed) if raw or len(typed) == 1 else typed,)
        if kind == "interrupt":
            shown = shown.replace("^C", "")
        lines = [line for line in visible(shown, ctx, what)[0] if line]
        want = "Waiting for input... " + " | ".join(names)
        ctx.eq(lines, [want.rstrip()], what)
        ctx.outcome(tuple(lines))
    elif kind == "size":
        _, size, how, mode = case
        env = {"TERM": "xterm"}
        if how != "tty":
            env.update(COLUMNS=str(size[0]), LINES=str(size[1]))
        what = f"slate size, {size[0]} columns, {size[1]} lines ({how})"
        result = run(["size"], env, size=size if how == "tty" else (33, 44), mode=mode, terminal=how != "pipe")
        lines = [line for line in visible(finished(result, ctx, what), ctx, what)[0] if line]
        ctx.eq(lines, [f"{size[0]} x {size[1]}"], what)
        ctx.outcome(tuple(lines))
    elif kind == "wrong":
        args = WRONG[case[1]]
        shown, err, status, modes = run(args, {"TERM": "xterm"})
        ctx.step()
        ctx.trace()
        ctx.eq(status, 2, f"slate {' '.join(args)}: exit status")
        if "usage" not in err:
            ctx.fail(f"slate {' '.join(args)}: reported {err!r}")
        ctx.eq(modes[0], modes[1], f"slate {' '.join(args)}: the terminal's mode")
        ctx.eq([line for line in visible(shown, ctx, "slate")[0] if line], [], f"slate {' '.join(args)}: output")
    elif kind == "version":
        about = {}
        with open(os.path.join(repo_root(), "slate", "__about__.py"), encoding="utf-8") as file:
            exec(file.read(), about)  # pylint: disable=exec-used
        shown = finished(run([case[1]], {"TERM": "xterm"}), ctx, f"slate {case[1]}")
        ctx.eq([line for line in visible(shown, ctx, "slate")[0] if line], [about["__version__"]], f"slate {case[1]}")
    elif kind == "piped":
        env = {"COLUMNS": "70", "LINES": "20", **case[1]}
        shown = finished(run(["debug"], env, terminal=False), ctx, f"slate debug without a terminal, {case[1]}")
        check_table(shown, env, (70, 20), ("dedede", "141414"), None, ctx, f"slate debug without a terminal, {case[1]}")
    elif kind == "debug":
        _, env, size, channels, sync, mode = case
        what = f"slate debug, {env}, size {size}, colours {channels}, synchronized update {sync}"
        shown = finished(run(["debug"], env, size=size, mode=mode, channels=channels, sync=sync), ctx, what)
        if sync is not None:
            shown = ECHO.sub("", shown)
        colors = tuple("".join(c[:2] for c in part) for part in (channels, channels[::-1]))
        check_table(shown, env, size, colors, sync, ctx, what)


def check_table(shown, env, size, colors, sync, ctx, what):
    lines, cells = visible(shown, ctx, what)
    space = expect_space(env.get("SLATE_COLORSYS"), env.get("NO_COLOR"), env.get("COLORTERM"), env.get("TERM"))
    rows = [(f"${k}", env.get(k) or "-") for k in ("TERM", "COLORTERM", "NO_COLOR", "SLATE_COLORSYS")]
    rows += [("size", f"{size[0]}x{size[1]}"), ("colorspace", "ColorSpace." + space.upper()), ("synchronized update support", str(sync in (1, 2))),
             ("foreground color", "#" + colors[0]), ("background color", "#" + colors[1])]
    titles = ["Environment:", "Terminal state:"]
    at, widths = -1, set()
    for label, value in [(titles[0], None), *rows[:4], (titles[1], None), *rows[4:]]:
        found = [i for i, line in enumerate(lines) if i > at and (line == label if value is None else line.startswith(label + " "))]
        if not found:
            ctx.fail(f"{what}: no row {label!r} after line {at} of {lines!r}")
        at = found[0]
        if value is None:
            continue
        got = lines[at][len(label) :].strip()
        ctx.eq(got.lower() if "ground" in label else got, value, f"{what}: {label}")
        widths.add(len(lines[at]))
        if "ground" in label and space == "true_color":
            rgb = tuple(int(value[i : i + 2], 16) for i in (1, 3, 5))
            for cell in cells[at][len(lines[at]) - len(value) : len(lines[at])]:
                ctx.eq(cell[2], (38, 2, *rgb), f"{what}: colour of the {label}'s value")
    if len(widths) != 1:
        ctx.fail(f"{what}: values are not aligned: {lines!r}")
    most = max(len(c) for c in cells)
    if most > widths.pop():
        ctx.fail(f"{what}: a line is wider than the table: {lines!r}")
    ctx.outcome(tuple(lines))
