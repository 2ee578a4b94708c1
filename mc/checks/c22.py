"""C22: injected input is delivered exactly once, in order, from any thread."""

import itertools
import sys
import threading

from mc import sched as scheduler

with scheduler.cooperative_locks():
    import slate.core
from slate import feed, getch, getch_timeout

from mc.ptylab import Pty, attrs_of

ID = "C22"
PARTS = 8
# threads: F<pieces> injects pieces one by one, R<n> reads n times
PROGRAMS = [
    (["Fa", "R1"], 3, 2),
    (["Fa,b", "R2"], 3, 1),
    (["Fa", "Fb"], 3, 2),
    (["Fa", "Fb", "R1"], 2, 1),
    (["Fa", "R1", "R1"], 2, 1),
    (["Fa,b", "Fc", "R1"], 2, 0),
    (["Fa,b", "Fc"], 3, 2),
    (["Fa", "Fb", "Fc"], 2, 1),
    (["Ra", "R1"], 2, 1),   # Ra: injects a, then reads
    (["FA", "Fb"], 2, 1),   # A is 6000 characters long
    (["FA", "R1"], 2, 1),
]
DEEP = [
    (["Fa", "R1"], 5, 3),
    (["Fa,b", "R2"], 4, 2),
    (["Fa", "Fb"], 5, 3),
    (["Fa", "Fb", "R1"], 3, 2),
    (["Fa", "R1", "R1"], 2, 2),
    (["Fa,b", "Fc", "R1"], 3, 1),
    (["Fa,b", "Fc"], 4, 3),
    (["Fa", "Fb", "Fc"], 3, 2),
    (["Ra", "R1"], 3, 2),
    (["Fa,b", "Fc", "R1", "R1"], 2, 1),
    (["Ra", "Rb"], 3, 2),
    (["FA", "Fb"], 3, 2),
    (["FA", "R1"], 3, 2),
]
TEXT = {"A": "<A" + "0123456789" * 600 + ">", "a": "<a1>", "b": "<b2>", "c": "<c3>"}
SEQ = {"quick": 5, "thorough": 6}
BOUNDS = {t: "programs (threads, max. preemptions at line / bytecode granularity): " + "; ".join(f"{'||'.join(p)} {l}/{o}" for p, l, o in progs)
             + f"; every schedule of each, then reads until all is returned. Injections of up to 300000 characters and of 23 unusual texts. Sequential histories of <={SEQ[t]} operations over 16"
          for t, progs in (("quick", PROGRAMS), ("thorough", DEEP))}
ASSUMPTIONS = ["a thread switch between two bytecodes of the library is the finest interleaving (CPython's GIL); C calls such as StringIO's are atomic",
               "terminal input is available to every read that finds nothing injected"]
CASE_TIMEOUT = 400.0

OPS = ["feed:", "feed:a", "feed:é€", "feed:\x1b[A", "feed:\x03", "feed:\x1b[<0;1;1M", "read", "raw", "timed", "type:q", "two feeds", "feed:\n\r\x00", "feed:a\r\nb\t\r", "feed:a\n", "feed:" + "L" * 70, "feed:" + "0123456789" * 300]
UNUSUAL = ["a\x1b", "\x1b\x1b", "\x00", "\x00\x00", "\ufeff", "e\u0301", "\u2028", "\x85", "\x1a", "\x04", "  ", "a ", " a", "\x1b[9999~", "\x1b[<999;1;1M",
           "\x1b]10;rgb:0000/0000/0000\x1b\\", "\ud800", "\U0010ffff", "ab\x7f\x08", "\x1bOQx", "None", "'", "\\x1b"]
LARGE = [65000, 65536, 70000, 300000]
NAMES = {"\x1a": ("ctrl-z",), "\x04": ("ctrl-d",), "\x1b[A": ("up", "arrow-up"), "\x03": ("ctrl-c",), "\x1b[<0;1;1M": ("mouse:left_click@1;1",)}
PTY = None


def worker_setup():
    global PTY
    sys.setswitchinterval(1.0)
    PTY = Pty()
    PTY.attrs = attrs_of(PTY.plain, canon=False, echo=False)


def cases(tier):
    progs = PROGRAMS if tier == "quick" else DEEP
    for n in range(1, 4):
        for ops in itertools.product(range(len(OPS)), repeat=n):
            yield ["seq", list(ops)]
    for text in UNUSUAL:
        for reader in ("read", "raw", "timed"):
            for ops in ([text], [text, "b"], ["c", text], [text, text]):
                yield ["seq", [*("feed:" + t for t in ops), reader]]
                yield ["seq", ["type:q", *("feed:" + t for t in ops), reader, "type:q", "feed:" + text, reader]]
    for first in LARGE:
        for second in (10, *LARGE):
            yield ["seq", [f"big:{first}", f"big:{second}", 1, 6]]
            yield ["seq", [f"big:{first}", 7, f"big:{second}", 8]]
    for p in range(len(progs)):
        for part in range(PARTS):
            yield ["line", tier, p, part]
    for p, (_, _, depth) in enumerate(progs):
        if depth:
            for part in range(PARTS):
                yield ["op", tier, p, part]
    core = [1, 3, 6, 7, 8, 9]
    for n in range(4, SEQ[tier] + 1):
        for ops in itertools.product(core, repeat=n):
            yield ["seq", list(ops)]


def terminal_input():
    """Whenever a read falls through to the terminal, a digit is there."""

    PTY.type(b"7")


def drain(ctx, what):
    """Empties what is injected, whatever happened before."""

    PTY.reset(PTY.attrs)
    PTY.on_block = terminal_input
    with PTY:
        for _ in range(50):
            if str(getch(raw=True)).strip("7") == "":
                return
    ctx.fail(f"{what}: reads keep returning injected text")


def run_case(case, ctx):
    ctx.sample(case)
    if case[0] == "seq":
        sequential(case[1], ctx)
        return
    kind, tier, p, part = case
    names, lines, ops = (PROGRAMS if tier == "quick" else DEEP)[p]
    bound = lines if kind == "line" else ops
    state = {}

    def make():
        drain(ctx, "before an execution")
        PTY.active = True
        state["log"] = log = []
        return [(name + str(k), body(name, log)) for k, name in enumerate(names)]

    def visit(sched, schedule):
        ctx.trace()
        ctx.step(sched.points)
        ctx.add("preemption_points", len(sched.options))
        what = f"{'||'.join(names)} ({kind} schedule {list(schedule)})"
        if sched.aborted:
            ctx.fail(f"{what}: {sched.aborted}")
        for task in sched.tasks:
            if task.error is not None:
                raise task.error
        judge(state["log"], what, ctx)

    try:
        scheduler.explore(make, bound, kind == "op", (part, PARTS), visit)
    finally:
        PTY.active = False


def body(name, log):
    def run(sched):
        steps = []
        if name[0] == "F":
            steps = [("feed", TEXT[c]) for c in name[1:].split(",")]
        elif name[1:].isdigit():
            steps = [("read", None)] * int(name[1:])
        else:
            steps = [("feed", TEXT[name[1:]]), ("read", None)]
        for what, text in steps:
            start = sched.tick()
            if what == "feed":
                feed(text)
                value = text
            else:
                value = str(getch(raw=True))
            log.append((what, name, start, sched.tick(), value))
    return run


def judge(log, what, ctx):
    """Checks one execution: every piece once, in order, ahead of terminal input, never mixed."""

    end = max(entry[3] for entry in log) + 1
    log = list(log)
    # everything that is still pending comes now, in one read, before any terminal input
    PTY.reset(PTY.attrs)
    PTY.on_block = terminal_input
    with PTY:
        for k in range(3):
            value = str(getch(raw=True))
            log.append(("read", "main", end + 2 * k, end + 2 * k + 1, value))
            if value.strip("7") == "":
                break
    feeds = [e for e in log if e[0] == "feed"]
    reads = [e for e in log if e[0] == "read"]
    history = [(e[0], e[1], e[4]) for e in sorted(log, key=lambda e: e[2])]
    where = {}
    for r, entry in enumerate(reads):
        value = entry[4]
        if value and value.strip("7") == "":
            continue
        pos = 0
        while pos < len(value):
            for f, piece in enumerate(feeds):
                if value.startswith(piece[4], pos):
                    break
            else:
                ctx.fail(f"{what}: a read returned {value!r}, which is not made of whole injected texts; history {history}")
            if f in where:
                ctx.fail(f"{what}: {piece[4]!r} was returned twice; history {history}")
            where[f] = (r, pos)
            pos += len(piece[4])
        if not value:
            ctx.fail(f"{what}: a read returned nothing; history {history}")
    for f, piece in enumerate(feeds):
        if f not in where:
            ctx.fail(f"{what}: {piece[4]!r} was lost; history {history}")
    for f, piece in enumerate(feeds):
        r, pos = where[f]
        taker = reads[r]
        if taker[3] < piece[2]:
            ctx.fail(f"{what}: {piece[4]!r} was returned before it was injected; history {history}")
        for read in reads:
            # a read that began after the injection, and ended before the one that took it began
            if read[2] > piece[3] and read[3] < taker[2]:
                ctx.fail(f"{what}: a read returned {read[4]!r} though {piece[4]!r} was injected before; history {history}")
        for g, other in enumerate(feeds):
            if piece[3] < other[2]:
                s, opos = where[g]
                if (r == s and pos > opos) or (r != s and reads[s][3] < taker[2]):
                    ctx.fail(f"{what}: {other[4]!r} was returned before {piece[4]!r}; history {history}")
    if reads[-1][4].strip("7"):
        ctx.fail(f"{what}: the last reads returned {[e[4] for e in reads if e[1] == 'main']}; history {history}")
    tail = [e[4] for e in reads if e[1] == "main"]
    if len(tail) > 2:
        ctx.fail(f"{what}: pending injections were not returned together: {tail}")
    ctx.outcome(tuple(history))
    ctx.state(tuple(history))


def sequential(ops, ctx):
    names = [OPS[i] if isinstance(i, int) else i for i in ops]
    names = ["feed:" + "0123456789" * (int(n[4:]) // 10) if n.startswith("big:") else n for n in names]
    what = f"history {[n if len(n) < 4000 else n[:9] + '...' + str(len(n) - 5) for n in names]}"
    drain(ctx, what)
    pty = PTY
    fed = ""
    ctx.trace()
    ctx.state(tuple(names))
    with pty:
        for op in [*names, "read", "read"]:
            ctx.step()
            if op.startswith("feed:"):
                feed(op[5:])
                fed += op[5:]
            elif op == "two feeds":
                feed("x")
                feed("yz")
                fed += "xyz"
            elif op.startswith("type:"):
                pty.type(op[5:].encode())
            else:
                raw = op == "raw"
                key = getch_timeout(5, default="none") if op == "timed" else getch(raw=raw)
                if fed:
                    want, fed = fed, ""
                else:
                    # terminal input: what it is exactly is not at issue here
                    if str(key) == "" and "feed:" in names:
                        continue
                    if not str(key) or not set(str(key)) <= set("q7"):
                        ctx.fail(f"{what}: {op} returned {str(key)!r}, expected terminal input")
                    continue
                if not raw and want.endswith("M") and want not in NAMES and "\x1b[<" in want:
                    continue  # a mouse report behind other input: see C20
                expected = (want,) if raw else NAMES.get(want, (want,))
                if str(key) != expected[0] or set(key) != set(expected):
                    ctx.fail(f"{what}: {op} returned {[k[:3500] for k in key]!r} ({[len(k) for k in key]} characters), expected {[k[:3500] for k in expected]!r} ({[len(k) for k in expected]})")
                ctx.outcome((op, want))
