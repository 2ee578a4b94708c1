"""C21: reading input always restores the terminal and the timer."""

import errno
import itertools
import os
import signal
import termios
import time

from slate import feed, getch, getch_timeout, timeout

from mc.engine import Violation
from mc.ptylab import Pty, attrs_of

ID = "C21"
BOUNDS = {
    "quick": "6 initial terminal modes x every sequence of <=2 reads over 54 read outcomes (key, multi-byte and split input, timeout (also of 0 and 1 us, and at each of the first 5 read/poll calls), "
             "injected text; interrupt, read error, unrelated exceptions at each of the first 4 read/poll calls; plain, raw and timed) and "
             "every sequence of 3 over 9, with 3 kinds of alarm handler; the timeout context alone around 16 bodies x 3 handlers x 5 durations, and in real time up to 2.6 s",
    "thorough": "6 initial terminal modes x every sequence of <=2 reads over 54 read outcomes and every sequence of 4 over 9, of 3 over 16, "
                "with 3 kinds of alarm handler",
}
ASSUMPTIONS = ["interrupts and errors strike while the read waits or polls (a KeyboardInterrupt between two bytecodes of the restoring code itself "
               "is beyond any try/finally)"]
CASE_TIMEOUT = 120.0

MODES = ["canon-echo", "canon", "cbreak", "raw", "min0", "odd"]

# (name, api, input chunks, fault call number, fault kind)
OUTCOMES = [
    ("key", "getch", ["a"], None, None),
    ("timeout", "timed", [], None, None),
    ("interrupt@0", "getch", ["a"], 0, "int"),
    ("error@0", "getch", ["a"], 0, "err"),
    ("timed key", "timed", ["a"], None, None),
    ("timed interrupt@0", "timed", ["a"], 0, "int"),
    ("timed error@1", "timed", ["ab"], 1, "err"),
    ("fed", "getch", "fed", None, None),
    ("escape", "getch", ["\x1b[A"], None, None),
    ("raw key", "raw", ["\x1b[A"], None, None),
    ("split", "getch", ["\u20ac0", "\u20ac1"], None, None),
    ("interrupt@1", "getch", ["ab"], 1, "int"),
    ("error@1", "getch", ["ab"], 1, "err"),
    ("other@1", "getch", ["ab"], 1, "other"),
    ("timed fed", "timed", "fed", None, None),
    ("timeout in a character", "timed", ["\u20ac0"], None, None),
    ("raw timeout", "rawtimed", [], None, None),
    ("raw timed key", "rawtimed", ["\x1b[A"], None, None),
    ("timeout without default", "nodefault", [], None, None),
    ("timeout of 0", "timed", [], None, 0.0),
    ("timeout of 0.000001", "timed", [], None, 0.000001),
]
for _k in (2, 3):
    for _kind in ("int", "err", "other"):
        OUTCOMES.append((f"{_kind}@{_k}", "getch", ["abc"], _k, _kind))
for _k in (0, 1, 2):
    for _kind in ("int", "err", "other"):
        if (_k, _kind) not in ((0, "int"), (1, "err")):
            OUTCOMES.append((f"timed {_kind}@{_k}", "timed", ["abc"], _k, _kind))
OUTCOMES += [("other@0", "getch", ["a"], 0, "other"), ("split interrupt", "getch", ["\u20ac0", "\u20ac1"], 1, "int"),
             ("split error", "getch", ["\u20ac0", "\u20ac1"], 1, "err"), ("raw interrupt", "raw", ["a"], 0, "int")]

for _kind in ("eintr", "again", "late", "value", "exit"):
    OUTCOMES += [(f"{_kind}@{_k}", "timed" if _k == 1 else "getch", ["ab"], _k, _kind) for _k in (0, 1)]

# the time is up at the n-th read or poll
OUTCOMES += [(f"time up@{_k}", "rawtimed" if _k == 1 else "timed", ["abc"], _k, "strike") for _k in range(5)]
OUTCOMES += [("time up in a character", "timed", ["\u20ac0", "\u20ac1"], 2, "strike")]

# bodies of a bare timeout context
BODIES = ["nothing", "return", "sleep", "spin", "nested", "twice", "finally", "Exception", "TimeoutError", "OSError", "KeyboardInterrupt", "SystemExit",
          "StopIteration", "GeneratorExit", "ValueError", "RuntimeError"]
HANDLERS = ["default", "custom", "ignore"]
PTY = None


class Other(Exception):
    pass


def custom(*_):
    """The application's own alarm handler."""


# The application's alarm handler while a read or context is under way, and when an alarm could have reached it
WATCHED = [None]
STRAY = []
REAL = {name: getattr(signal, name) for name in ("signal", "alarm", "setitimer")}


def watch():
    """Notices whenever an alarm is armed while the application's handler is in place."""

    def look(what):
        if WATCHED[0] is not None and signal.getsignal(signal.SIGALRM) == WATCHED[0]:
            if signal.getitimer(signal.ITIMER_REAL)[0]:
                STRAY.append(what)

    def stand_in(name):
        def call(*args):
            result = REAL[name](*args)
            look(f"signal.{name}")
            return result
        return call

    for name in REAL:
        setattr(signal, name, stand_in(name))


def worker_setup():
    global PTY
    watch()
    PTY = Pty()
    plain = PTY.plain
    raw = attrs_of(plain, canon=False, echo=False)
    raw[1] &= ~termios.OPOST
    raw[0] |= termios.IGNBRK
    min0 = attrs_of(plain, canon=False, echo=True)
    min0[6][termios.VMIN], min0[6][termios.VTIME] = b"\x00", b"\x05"
    odd = attrs_of(plain, canon=False, echo=False, signals=True)
    odd[3] |= termios.TOSTOP
    odd[3] &= ~termios.ECHOE
    odd[6][termios.VERASE] = b"\x08"
    odd[6][termios.VMIN], odd[6][termios.VTIME] = b"\x03", b"\x01"
    PTY.modes = {"canon-echo": attrs_of(plain), "canon": attrs_of(plain, echo=False), "cbreak": attrs_of(plain, canon=False, echo=False),
                 "raw": raw, "min0": min0, "odd": odd}


def cases(tier):
    # real time, in parallel with the rest
    for duration in (1.3, 2.6) if tier == "quick" else (1.3, 2.6, 12, 35):
        yield ["context", 0, [BODIES.index("sleep"), duration]]
        yield ["patience", 0, [duration]]
    for body in range(len(BODIES)):
        for handler in range(len(HANDLERS)):
            for duration in (0.01, 0.03, 5, 5.5, 1e6):
                if duration < 1 or BODIES[body] not in ("sleep", "spin", "twice", "finally"):
                    yield ["context", handler, [body, duration]]
    for mode in range(len(MODES)):
        for i in range(len(OUTCOMES)):
            for handler in range(len(HANDLERS)):
                yield [mode, handler, [i]]
    for mode in range(len(MODES)):
        for pair in itertools.product(range(len(OUTCOMES)), repeat=2):
            yield [mode, sum(pair) % 3, list(pair)]
    triples = 9 if tier == "quick" else 16
    for mode in range(len(MODES)):
        for three in itertools.product(range(triples), repeat=3):
            yield [mode, sum(three) % 3, list(three)]
    if tier == "thorough":
        for four in itertools.product(range(9), repeat=4):
            for mode in (0, 3, 5):
                yield [mode, sum(four) % 3, list(four)]


def run_case(case, ctx):
    if case[0] == "patience":
        outcome = ("timeout", "timed", [], None, float(case[2][0]))
        signal.signal(signal.SIGALRM, custom)
        one(outcome, 0, custom, f"a read of up to {case[2][0]} s", True, ctx)
        ctx.state(tuple(case[2]))
        return ctx.trace()
    if case[0] == "context":
        for attempt in range(4):
            try:
                return run_context(case, ctx)
            except Violation:
                # So short a time may be over too early, if the machine is busy
                if attempt == 3 or case[2][1] > 1:
                    raise
    mode, handler, reads = case
    what = [MODES[mode], HANDLERS[handler], *[OUTCOMES[i][0] for i in reads]]
    ctx.sample(what)
    ctx.state(tuple(what))
    saved = {"default": signal.SIG_DFL, "custom": custom, "ignore": signal.SIG_IGN}[HANDLERS[handler]]
    signal.signal(signal.SIGALRM, saved)
    try:
        for n, i in enumerate(reads):
            text = f"{what[:2]}, read {n + 1} of {what[2:]}"
            for attempt in range(4):
                try:
                    one(OUTCOMES[i], mode, saved, text, n == 0, ctx)
                    break
                except Violation:
                    # So short a time may be over before the read has begun, if the machine is busy
                    if attempt == 3 or not isinstance(OUTCOMES[i][4], float):
                        raise
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    signal.signal(signal.SIGALRM, saved)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        PTY.active = False
    ctx.trace()


def run_context(case, ctx):
    """The timeout context alone: it ends its body when the time is up, and lets everything else through."""

    _, handler, (body, duration) = case
    name = BODIES[body]
    what = f"timeout({duration}) around {name!r} ({HANDLERS[handler]} handler)"
    ctx.sample(what)
    ctx.state(what)
    ctx.step()
    saved = {"default": signal.SIG_DFL, "custom": custom, "ignore": signal.SIG_IGN}[HANDLERS[handler]]
    signal.signal(signal.SIGALRM, saved)
    log = []
    kinds = {"Exception": Other, "TimeoutError": TimeoutError, "OSError": OSError, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit,
             "StopIteration": StopIteration, "GeneratorExit": GeneratorExit, "ValueError": ValueError, "RuntimeError": RuntimeError}

    def wait(seconds):
        end = time.monotonic() + seconds
        while time.monotonic() < end:
            if name != "spin":
                time.sleep(max(0, end - time.monotonic()))

    def run():
        with timeout(duration):
            if name in kinds:
                raise kinds[name]("boom")
            if name == "return":
                return "returned"
            if name == "nested":
                with timeout(0.01):
                    wait(9)
                    log.append("not stopped")
                log.append("inner over")
            elif name == "finally":
                try:
                    wait(8 + duration)
                finally:
                    log.append("cleaned up")
            elif name != "nothing":
                wait(8 + duration)
                log.append("not stopped")
        log.append("after")
        return None

    raised = got = None
    started = time.monotonic()
    del STRAY[:]
    WATCHED[0] = saved
    try:
        for _ in range(2 if name == "twice" else 1):
            got = run()
    except BaseException as exc:  # pylint: disable=broad-except
        raised = exc
    WATCHED[0] = None
    elapsed = time.monotonic() - started
    if STRAY:
        ctx.fail(f"{what}: after {STRAY[0]} the alarm was armed and would have struck the application's handler")
    timer, now = signal.getitimer(signal.ITIMER_REAL), signal.getsignal(signal.SIGALRM)
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    ctx.eq(timer, (0.0, 0.0), f"{what}: alarm left armed")
    ctx.eq(now, saved, f"{what}: alarm handler afterwards")
    if name in kinds:
        # (a StopIteration cannot pass a generator-based context manager unchanged in every version)
        if type(raised) is not kinds[name] or raised.args != ("boom",):
            ctx.fail(f"{what}: {name} did not propagate (raised {raised!r})")
    elif raised is not None:
        ctx.fail(f"{what}: raised {raised!r}")
    ctx.eq(got, "returned" if name == "return" else None, f"{what}: result")
    want = {"nested": ["inner over", "after"], "finally": ["cleaned up", "after"], "twice": ["after", "after"]}.get(name, ["after"])
    if name in kinds or name == "return":
        want = []
    if name == "nested" and duration < 1:  # the outer one may or may not strike
        want = log if log in (["inner over", "after"], ["after"]) else want
    ctx.eq(log, want, f"{what}: what was executed")
    if name in ("sleep", "spin", "finally") and elapsed < duration * 0.8:
        ctx.fail(f"{what}: stopped after {elapsed:.4f} s")
    ctx.trace()
    ctx.outcome((name, duration > 1))


def one(outcome, mode, handler, what, first, ctx, again=0):
    name, api, data, call, kind = outcome
    kind, short = (None, kind) if isinstance(kind, float) else (kind, None)
    pty = PTY
    attrs = pty.modes[MODES[mode]]
    if first:
        pty.reset(attrs)
    else:
        # whatever the previous read left of its input (after an error) is discarded
        pty.fault = None
        termios.tcflush(0, termios.TCIFLUSH)
    before = termios.tcgetattr(0)
    chunks, text = [], ""
    if data == "fed":
        feed("fed")
        text = "fed"
    else:
        for part in data:
            if part.endswith(("0", "1")) and len(part) == 2:
                raw = part[0].encode()
                chunks.append(raw[:2] if part[-1] == "0" else raw[2:])
            else:
                chunks.append(part.encode())
        complete = not chunks or name != "timeout in a character"
        text = b"".join(chunks).decode() if complete else ""
    pty.schedule(chunks)
    pty.block = not text and "time" in name
    # the code's first waiting call is number 0: faults strike the n-th
    exception = {"int": KeyboardInterrupt(), "err": OSError(errno.EIO, "Input/output error"), "eintr": InterruptedError(errno.EINTR, "Interrupted"),
                 "again": BlockingIOError(errno.EAGAIN, "Again"), "late": TimeoutError("late"), "value": ValueError("closed file"), "exit": SystemExit(3),
                 "other": Other("boom"), "strike": pty.strike, None: None}[kind]
    if exception is not None:
        pty.fault = (call, exception)
    duration = short if short is not None else 0.015 if pty.block else 5.0
    got = raised = None
    ctx.step()
    started = time.monotonic()
    del STRAY[:]
    WATCHED[0] = handler
    try:
        with pty:
            if api == "getch":
                got = getch()
            elif api == "raw":
                got = getch(raw=True)
            elif api == "timed":
                got = getch_timeout(duration, default="nothing")
            elif api == "rawtimed":
                got = getch_timeout(duration, default="nothing", raw=True)
            else:
                got = getch_timeout(duration)
    except (Exception, KeyboardInterrupt, SystemExit) as exc:  # pylint: disable=broad-except
        raised = exc
    WATCHED[0] = None
    elapsed = time.monotonic() - started
    if STRAY:
        ctx.fail(f"{what}: after {STRAY[0]} the alarm was armed and would have struck the application's handler")
    struck = pty.fault is not None and pty.calls > pty.fault[0]
    if kind == "strike" and pty.struck:
        text = None
    pty.struck = False
    pty.fault = None
    after = termios.tcgetattr(0)
    if after != before:
        termios.tcsetattr(0, termios.TCSANOW, attrs)
        ctx.fail(f"{what}: the terminal's attributes changed from {before!r} to {after!r}")
    timer = signal.getitimer(signal.ITIMER_REAL)
    if timer != (0.0, 0.0):
        ctx.fail(f"{what}: an alarm is left armed: {timer}")
    if signal.getsignal(signal.SIGALRM) != handler:
        ctx.fail(f"{what}: the alarm handler is now {signal.getsignal(signal.SIGALRM)!r}")
    if kind not in ("int", "strike", None) and struck:
        if raised is not exception:
            ctx.fail(f"{what}: {exception!r} did not propagate (returned {got!r}, raised {raised!r})")
        ctx.outcome((name, "raised"))
        return
    if raised is not None:
        ctx.fail(f"{what}: raised {raised!r}")
    if kind == "int" and struck:
        want = ("\x03",) if api in ("raw", "rawtimed") else ("ctrl-c",)
    elif text is None:
        # all or nothing of what came so far
        if str(got) not in ("nothing", "a", "ab", "abc", "\u20ac"):
            ctx.fail(f"{what}: returned {got!r}")
        want = None
    elif text:
        want = (text,) if api in ("raw", "rawtimed") or text != "\x1b[A" else ("up", "arrow-up")
    else:
        if elapsed < duration * 0.8:
            ctx.fail(f"{what}: gave up after {elapsed:.4f} s of {duration} s")
        if elapsed > duration + 0.9 and again < 3:
            return one(outcome, mode, handler, what, False, ctx, again + 1)
        if elapsed > duration + 0.9:
            ctx.fail(f"{what}: waited {elapsed:.4f} s instead of {duration} s, four times in a row")
        want = None
        ctx.eq(got, None if api == "nodefault" else "nothing", f"{what}: result of a timed out read")
    if want is not None:
        ctx.eq((str(got), set(got)), (want[0], set(want)), f"{what}: result")
    ctx.outcome((name, MODES[mode]))
