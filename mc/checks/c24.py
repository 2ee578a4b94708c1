"""C24: terminal mode contexts are undone however they are left."""

import io
import itertools
import os
import termios

from slate import Span, Terminal

from mc.emu import VT
from mc.ptylab import Pty, attrs_of

ID = "C24"
DEPTH = {"quick": 3, "thorough": 4}
BOUNDS = {t: f"every nesting of <={d} contexts over 5 (alternate buffer with and without hidden cursor, mouse, batch, no echo) x every exit (normal, "
             f"10 kinds of exception, output failing once at each write on entry or in the body, before or after getting through) x every level at which the "
             f"exception is caught; every pair of nestings of <=2 contexts one after the other; echo initially on and off; inside every body the modes "
             f"of all open contexts are checked, as well as after drawing, writing and (or not) setting a title there; the same for every nesting of <=2 contexts with "
             f"the cursor hidden beforehand; every history of <={d} direct switches (cursor on/off, mouse on/off, by default argument and explicitly) from each initial state" for t, d in DEPTH.items()}
ASSUMPTIONS = ["modes of one kind do not nest in a terminal: with the same context opened twice, the inner exit already ends the mode; for those only the "
               "state after all exits is checked"]
CONTEXTS = ["alt", "alt-cursor", "mouse", "batch", "echo"]
EXITS = ["normal", "Boom", "KeyboardInterrupt", "SystemExit", "GeneratorExit", "BrokenPipeError", "OSError", "StopIteration",
         "ValueError", "TimeoutError", "EOFError"]
SWITCHES = [("show_cursor", (), "cursor", True), ("show_cursor", (True,), "cursor", True), ("show_cursor", (False,), "cursor", False),
            ("set_report_mouse", (), "mouse", True), ("set_report_mouse", (True,), "mouse", True), ("set_report_mouse", (False,), "mouse", False)]
PTY = NULL = None


class Boom(Exception):
    pass


class OutputError(OSError):
    pass


KINDS = {"Boom": Boom, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "GeneratorExit": GeneratorExit,
         "BrokenPipeError": BrokenPipeError, "OSError": OSError, "StopIteration": StopIteration, "ValueError": ValueError,
         "TimeoutError": TimeoutError, "EOFError": EOFError}


class Stream(io.StringIO):
    """Output of an emulated terminal; write number `fault[0]` (while armed) fails."""

    def __init__(self):
        super().__init__()
        self.vt = VT(4, 2)
        self.fault, self.armed, self.writes, self.failed = None, False, 0, None
        self.buffered = ""  # reaches the terminal when flushed

    def isatty(self):
        return True

    def write(self, text):
        if self.armed:
            number = self.writes
            self.writes += 1
            if self.fault is not None and number == self.fault[0]:
                if self.fault[1]:  # the text gets through, the failure is only noticed afterwards
                    self.buffered += text
                    self.flush()
                self.failed = OutputError(5, "output failed")
                raise self.failed
        self.buffered += text
        return len(text)

    def flush(self):
        text, self.buffered = getattr(self, "buffered", ""), ""
        if text:
            self.vt.feed(text)


def worker_setup():
    global PTY, NULL
    PTY = Pty()
    PTY.attrs = [attrs_of(PTY.plain), attrs_of(PTY.plain, echo=False)]
    PTY.fd = os.dup(0)
    NULL = os.open(os.devnull, os.O_RDWR)
    os.environ["COLUMNS"], os.environ["LINES"] = "4", "2"


def cases(tier):
    for n in range(1, DEPTH[tier] + 1):
        for chain in itertools.product(range(len(CONTEXTS)), repeat=n):
            for kind in range(len(EXITS)):
                for level in range(n if kind else 1):
                    if n > 2 and kind > 2:
                        continue
                    for title in (0, 1):
                        yield [[[list(chain), kind, level]], len(chain) % 2 if n > 1 else 0, None, title]
                        if n == 1:
                            yield [[[list(chain), kind, level]], 1, None, title]
            for title in (0, 1):
                for fault in range(4 * n + 4 + 2 * title):
                    if n < 4:
                        for late in (0, 1):
                            yield [[[list(chain), 0, 0]], 0, [fault, late], title]
    chains = [list(c) for n in (1, 2) for c in itertools.product(range(len(CONTEXTS)), repeat=n)]
    for first, second in itertools.product(chains, repeat=2):
        for kinds in ((0, 0), (1, 0), (2, 1)):
            yield [[[first, kinds[0], len(first) - 1], [second, kinds[1], len(second) - 1]], 0, None, len(first) % 2]
    for chain in chains:
        for kind in (0, 1, 2):
            for level in range(len(chain) if kind else 1):
                yield [[[chain, kind, level]], 0, None, 0, 1]
    for n in range(1, DEPTH[tier] + 1):
        for switches in itertools.product(range(len(SWITCHES)), repeat=n):
            yield list(switches)


def manager(term, name):
    if name == "alt":
        return term.alt_buffer()
    if name == "alt-cursor":
        return term.alt_buffer(hide_cursor=False)
    if name == "mouse":
        return term.report_mouse()
    if name == "batch":
        return term.batch()
    return term.no_echo()


class Run:
    def __init__(self, ctx, echo, fault, title, hidden=0):
        self.ctx = ctx
        self.stream = Stream()
        os.dup2(NULL, 0)
        try:
            self.term = Terminal(stream=self.stream)
        finally:
            os.dup2(PTY.fd, 0)
        PTY.reset(PTY.attrs[echo])
        self.before = termios.tcgetattr(0)
        self.echo = not echo
        self.stream.fault = fault
        self.title = title
        self.raised = None
        self.caught = 0
        self.visible = not hidden
        if hidden:
            self.term.show_cursor(False)

    def echoing(self):
        return bool(termios.tcgetattr(0)[3] & termios.ECHO)

    def inside(self, names, what):
        modes = self.stream.vt.modes
        kinds = [n.partition("-")[0] for n in names]
        if self.doubled or self.stream.failed:
            return
        ctx = self.ctx
        ctx.eq(modes.get("1049", False), "alt" in kinds, f"{what}: alternate buffer")
        ctx.eq(modes.get("25", True), self.visible and "alt" not in names, f"{what}: cursor visible")
        ctx.eq(modes.get("1006", False), "mouse" in kinds, f"{what}: SGR mouse encoding")
        ctx.eq(any(modes.get(m) for m in ("1000", "1002", "1003")), "mouse" in kinds, f"{what}: mouse reporting")
        ctx.eq(modes.get("2026", False), "batch" in kinds, f"{what}: synchronized update")
        ctx.eq(self.echoing(), self.echo and "echo" not in kinds, f"{what}: echo")
        if self.stream.vt.errors:
            ctx.fail(f"{what}: {self.stream.vt.errors[0]}")

    def nest(self, chain, names, kind, level, what):
        """Enters the chain's contexts; an exception is caught outside of context number `level`."""

        ctx, term, stream = self.ctx, self.term, self.stream
        ctx.step()
        if not chain:
            stream.armed = True
            self.inside(names, what)
            if self.title:
                term.set_title("title")
            term.write([Span("ab", bold=True)], cursor=(0, self.caught % 2), force_overwrite=True)
            term.draw()
            self.inside(names, what)
            stream.armed = False
            if kind:
                self.raised = KINDS[EXITS[kind]]("from the body")
                raise self.raised
            return
        here = len(names)

        def go():
            stream.armed = True
            with manager(term, CONTEXTS[chain[0]]):
                stream.armed = False
                self.inside([*names, CONTEXTS[chain[0]]], what)
                self.nest(chain[1:], [*names, CONTEXTS[chain[0]]], kind, level, what)
                stream.armed = False
            stream.armed = False

        if kind and here == level:
            try:
                go()
            except BaseException as exc:  # pylint: disable=broad-except
                if exc is not self.raised:
                    raise
                self.caught += 1
            else:
                ctx.fail(f"{what}: the exception did not propagate")
            self.left(names, chain)
            # the contexts further out are still in effect
            self.inside(names, what + " after catching the exception")
        else:
            go()
            self.left(names, chain)

    def left(self, names, chain):
        """A context hiding the cursor shows it when it ends; no other one touches it."""

        if "alt" in [CONTEXTS[i] for i in chain]:
            self.visible = True


def run_switches(case, ctx):
    ctx.trace()
    ctx.state(tuple(case))
    run = Run(ctx, 0, None, 0)
    state = {"cursor": True, "mouse": False}
    what = ""
    for index in case:
        name, args, kind, value = SWITCHES[index]
        state[kind] = value
        what += f"{name}{args} "
        ctx.step()
        getattr(run.term, name)(*args)
        modes = run.stream.vt.modes
        ctx.eq(modes.get("25", True), state["cursor"], f"after {what}: cursor visible")
        ctx.eq(modes.get("1006", False), state["mouse"], f"after {what}: SGR mouse encoding")
        ctx.eq(any(modes.get(m) for m in ("1000", "1002", "1003")), state["mouse"], f"after {what}: mouse reporting")
        if run.stream.vt.errors:
            ctx.fail(f"after {what}: {run.stream.vt.errors[0]}")
    ctx.eq(termios.tcgetattr(0), run.before, f"after {what}: terminal attributes")
    ctx.outcome(tuple(run.stream.vt.mode_log))


def run_case(case, ctx):
    if isinstance(case[0], int):
        run_switches(case, ctx)
        return
    programs, echo, fault, title, *hidden = case
    text = [[[CONTEXTS[i] for i in chain], EXITS[kind], level] for chain, kind, level in programs]
    what = f"{text}, echo {'off' if echo else 'on'}" + ("" if fault is None else f", output number {fault[0]} fails" + " after getting through" * fault[1]) + (", title set inside" if title else "") + ", cursor hidden before" * bool(hidden)
    ctx.sample(what)
    ctx.trace()
    ctx.state(what)
    run = Run(ctx, echo, fault, title, *hidden)
    for chain, kind, level in programs:
        try:
            run.stream.writes = 0
            kinds = [CONTEXTS[i].partition("-")[0] for i in chain]
            run.doubled = len(set(kinds)) != len(kinds)
            run.nest(chain, [], kind, level, what)
        except OutputError as exc:
            if exc is not run.stream.failed:
                raise
        else:
            if run.stream.failed is not None:
                ctx.fail(f"{what}: the output error did not propagate")
        finally:
            run.stream.armed = False
        modes = run.stream.vt.modes
        on = sorted(m for m, value in modes.items() if value and m != "25")
        if on or modes.get("25", True) != run.visible:
            ctx.fail(f"{what}: after leaving all contexts the terminal's modes are {modes}")
        after = termios.tcgetattr(0)
        if after != run.before:
            ctx.fail(f"{what}: afterwards the terminal's attributes are {after!r} instead of {run.before!r}")
    ctx.outcome((tuple(run.stream.vt.mode_log), echo))
