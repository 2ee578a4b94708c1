"""C23: terminal queries return the reported value or the documented fallback."""

import io
import itertools
import os
import signal
import sys
import termios
import threading
import time

from slate import Terminal, get_default_color

from mc.engine import known_finding
from mc.ptylab import Pty, attrs_of

ID = "C23"
ORDER = {"quick": 3, "thorough": 4}
BOUNDS = {t: f"all replies with channels from {c} 16-bit values^3 x 2 layers; 19 malformed colour replies; pixel "
             f"sizes {r}^2, 14 malformed; all synchronized-update replies 0..9 and 8 malformed; missing replies; input/output no terminal; "
             f"3 terminal modes; replies coming before reading begins, in every pair of queries; every order of <={ORDER[t]} queries over 5 on one or two terminal objects"
          for t, c, r in (("quick", 7, 12), ("thorough", 13, 14))}
ASSUMPTIONS = ["a reply arrives in one piece, before the query's time limit (the limit is stretched when a reply was sent, so that a slow machine cannot "
               "look like a missing reply)"]
CASE_TIMEOUT = 60.0

CHANNELS = ["0000", "ffff", "1234", "80ff", "00ff", "ff00", "7f80", "abcd", "0100", "0a0b", "fefe", "8000", "dede"]
SIZES = [1, 0, 9, 10, 720, 1280, 99, 4096, 7, 80, 1000, 12345, 65535, 100000]
BAD_COLORS = ["a", "\x1b", "\x1b[A", "\x1b]{}", "\x1b]{};rgb:\x1b\\", "rgb:1111/2222/3333", "\x1b]12;rgb:1111/2222/3333\x1b\\", "\x1b]{};?\x1b\\",
              "\x1b]{};rgb:zzzz/0000/0000\x1b\\", "\x1b]{};rgb:1111/2222\x1b\\", "\x1b]{};rgb:1111/2222/\x1b\\", "\x1b]{};rgb:1111/2222/3333", "x\x1b]{};rgb:1111/2222/3333\x1b\\",
              "\x1b[4;720;1280t", "\x1b[?2026;2$y", "\x1b]4;rgb:1111/2222/3333\x1b\\", "\x1b[<0;1;1M", "ab\ncd", "\x1b]{};#123456\x1b\\"]
BAD_SIZES = ["a", "\x1b", "\x1b[A", "\x1b[4;t", "\x1b[4;1;t", "\x1b[4;;1t", "\x1b[8;24;80t", "\x1b[4;720t", "\x1b[4;a;bt", "4;720;1280t", "\x1b]10;rgb:1111/2222/3333\x1b\\",
             "\x1b[<0;1;1M", "\x1b[4;720;1280", "\x1b[4;-1;5t"]
BAD_SYNC = ["a", "\x1b", "\x1b[?2026$y", "\x1b[?2026;1$", "2026;1$y", "\x1b[?2027;1$y", "\x1b[?2026;1$p", "\x1b[A"]
QUERIES = ["bg", "fg", "res", "sync", "new"]
MODES = ["canon", "noecho", "cbreak"]
DEFAULTS = {"10": (0xDE, 0xDE, 0xDE), "11": (0x14, 0x14, 0x14)}

PTY = None
REAL_SETITIMER = signal.setitimer


class Stub(io.StringIO):
    """The output stream of a terminal that answers queries."""

    def __init__(self, replies=None, tty=True):
        super().__init__()
        self.replies = replies or {}
        self.tty = tty
        self.log = []
        self.waiting = ""  # written, but not yet on its way to the terminal
        self.replied = False
        self.settle = 0
        self.answered = 0

    def isatty(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self.tty

    def write(self, text):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        self.log.append(text)
        self.waiting += text
        return len(text)

    def flush(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        text, self.waiting = self.waiting, ""
        for query, reply in self.replies.items():
            if query in text and reply is not None:
                self.replied = True
                PTY.type(reply.encode(), wait=False)
                if self.settle:  # let the terminal driver echo it, if it does
                    time.sleep(self.settle)
                self.answered += 1

    def count(self, query):
        return "".join(self.log).count(query)


STUB = None


def setitimer(which, seconds, interval=0.0):
    if seconds and STUB is not None and STUB.replied:
        seconds *= 60
    return REAL_SETITIMER(which, seconds, interval)


def worker_setup():
    global PTY
    PTY = Pty()
    PTY.attrs = {"canon": attrs_of(PTY.plain), "noecho": attrs_of(PTY.plain, echo=False), "cbreak": attrs_of(PTY.plain, canon=False, echo=False)}
    signal.setitimer = setitimer
    os.environ["COLUMNS"], os.environ["LINES"] = "4", "3"


def cases(tier):
    count = 7 if tier == "quick" else 13
    for layer in ("10", "11"):
        for channels in itertools.product(range(count), repeat=3):
            yield ["color", layer, list(channels)]
        for i in range(len(BAD_COLORS)):
            yield ["badcolor", layer, i]
    sizes = 12 if tier == "quick" else 14
    for w, h in itertools.product(range(sizes), repeat=2):
        yield ["res", SIZES[w], SIZES[h]]
    for i in range(len(BAD_SIZES)):
        yield ["badres", i]
    for n in range(10):
        yield ["sync", n]
    for i in range(len(BAD_SYNC)):
        yield ["badsync", i]
    for mode in MODES:
        yield ["missing", "res", mode]
        yield ["missing", "sync", mode]
    for layer in ("10", "11"):
        yield ["nocolor", layer]
    for n in (1, 2):
        for order in itertools.product(range(4), repeat=n):
            yield ["nontty", list(order)]
    for order in itertools.product(range(4), repeat=2):
        for mode in MODES:
            for late in (0, 1):
                yield ["echo", mode, list(order), late]
    for n in (2, 3):
        for replies in itertools.product(("good", "bad", "none"), repeat=n):
            yield ["again", list(replies)]
    for layer in ("10", "11"):
        for replies in itertools.product(("good", "bad"), repeat=3):
            yield ["recolor", layer, list(replies)]
    yield ["outfile"]
    yield ["closed"]
    for n in range(1, ORDER[tier] + 1):
        for order in itertools.product(range(len(QUERIES)), repeat=n):
            for mode in (MODES if n < 3 else MODES[: 4 - n or 1]):
                yield ["order", mode, list(order)]


def color_query(layer):
    return f"\x1b]{layer};?"


def rgb_reply(layer, channels):
    return f"\x1b]{layer};rgb:" + "/".join(channels) + "\x1b\\"


def check_modes(before, ctx, what):
    after = termios.tcgetattr(0)
    if after != before:
        ctx.fail(f"{what}: the terminal's attributes changed from {before!r} to {after!r}")
    timer = signal.getitimer(signal.ITIMER_REAL)
    ctx.eq(timer, (0.0, 0.0), f"{what}: interval timer")


def expect_color(color, rgb, ctx, what):
    ctx.eq(tuple(color.rgb), rgb, what)
    ctx.eq(color.alpha, 1.0, f"{what}: opacity")


def begin(mode, stub):
    global STUB
    PTY.reset(PTY.attrs[mode])
    PTY.block = True
    STUB = stub
    return termios.tcgetattr(0)


class Rescue:
    """If the code has not returned after a while, types a key so that it does."""

    def __init__(self, seconds=1.5):
        self.hung = False
        self.timer = threading.Timer(seconds, self.fire)

    def fire(self):
        self.hung = True
        while not self.stop.is_set():
            os.write(PTY.master, b"x\n")
            self.stop.wait(0.3)

    def __enter__(self):
        self.stop = threading.Event()
        self.timer.start()
        return self

    def __exit__(self, *_):
        self.stop.set()
        self.timer.cancel()
        self.timer.join()


def run_case(case, ctx):
    kind = case[0]
    ctx.sample(case)
    ctx.state(repr(case))
    ctx.trace()
    ctx.step()
    if kind in ("color", "badcolor"):
        _, layer, data = case
        other = "11" if layer == "10" else "10"
        if kind == "color":
            channels = [CHANNELS[i] for i in data]
            reply, want = rgb_reply(layer, channels), tuple(int(c[:2], 16) for c in channels)
        else:
            reply, want = BAD_COLORS[data].format(layer), DEFAULTS[layer]
        for late in (False, True):
            stub = Stub({color_query(other): rgb_reply(other, ["9999"] * 3)})
            before = begin("cbreak" if kind == "color" else "canon", stub)
            if late:
                PTY.schedule([reply.encode()])  # comes when the read has started
            else:
                stub.replies[color_query(layer)] = reply  # comes the moment the query is written
            what = f"default colour {layer}, reply {reply!r} ({'while reading' if late else 'at once'})"
            with PTY, Rescue(20) as rescue:
                got = get_default_color(layer, stream=stub)
            if rescue.hung:
                ctx.fail(f"{what}: the query did not return")
            expect_color(got, want, ctx, what)
            ctx.eq((stub.count(color_query(layer)), stub.count(color_query(other))), (1, 0), f"{what}: queries sent")
            check_modes(before, ctx, what)
        ctx.outcome((layer, want))
    elif kind == "nocolor":
        layer = case[1]
        stub = Stub({})
        before = begin("cbreak", stub)
        with PTY, Rescue() as rescue:
            got = get_default_color(layer, stream=stub)
        expect_color(got, DEFAULTS[layer], ctx, "default colour without a reply")
        check_modes(before, ctx, "default colour without a reply")
        if rescue.hung:
            ctx.fail(f"no reply to the default colour query {layer}: the query never returns")
    elif kind in ("res", "badres", "sync", "badsync", "missing"):
        single(case, ctx)
    elif kind == "again":
        again(case[1], ctx)
    elif kind == "recolor":
        recolor(case[1], case[2], ctx)
    elif kind == "echo":
        echo(case, ctx)
    elif kind == "nontty":
        nontty(case[1], ctx)
    elif kind == "outfile":
        stub = Stub(REPLIES, tty=False)
        before = begin("canon", stub)
        with PTY:
            term = Terminal(stream=stub, resolution_fallback=(33, 44))
            ctx.eq(tuple(term.resolution), (33, 44), "resolution of a stream that is no terminal")
            ctx.eq(tuple(Terminal(stream=stub).resolution), (1280, 720), "resolution of a stream that is no terminal, without a given fallback")
        ctx.eq(stub.count("\x1b[14t"), 0, "resolution queries to a stream that is no terminal")
        check_modes(before, ctx, "output to a file")
    elif kind == "closed":
        stub = Stub(dict(REPLIES))
        before = begin("canon", stub)
        with PTY, Rescue(20):
            term = Terminal(stream=stub, resolution_fallback=(33, 44))
            stub.close()
            ctx.eq(tuple(term.resolution), (33, 44), "resolution of a stream that was closed")
        check_modes(before, ctx, "output to a closed stream")
    else:
        order(case, ctx)


REPLIES = {color_query("10"): rgb_reply("10", ["1234", "5678", "9abc"]), color_query("11"): rgb_reply("11", ["fedc", "ba98", "7654"]),
           "\x1b[14t": "\x1b[4;123;456t", "\x1b[?2026$p": "\x1b[?2026;2$y"}


def make(stub, **kwargs):
    """A terminal object that got its colours."""

    term = Terminal(stream=stub, **kwargs)
    stub.log.clear()
    return term


def single(case, ctx):
    kind = case[0]
    stub = Stub(dict(REPLIES))
    mode = case[2] if kind == "missing" else "canon"
    before = begin(mode, stub)
    size, sync = "\x1b[14t", "\x1b[?2026$p"
    del stub.replies[size], stub.replies[sync]
    with PTY, Rescue(20) as rescue:
        term = make(stub, resolution_fallback=(333, 444))
        stub.replied = False
        if kind == "res":
            reply, want = f"\x1b[4;{case[2]};{case[1]}t", (case[1], case[2])
            stub.replies[size] = reply
            got = tuple(term.resolution)
        elif kind == "badres":
            reply, want = BAD_SIZES[case[1]], (333, 444)
            stub.replies[size] = reply
            got = tuple(term.resolution)
        elif kind == "sync":
            reply, want = f"\x1b[?2026;{case[1]}$y", case[1] in (1, 2)
            stub.replies[sync] = reply
            got = term.supports_synchronized_update
        elif kind == "badsync":
            reply, want = BAD_SYNC[case[1]], False
            stub.replies[sync] = reply
            got = term.supports_synchronized_update
        elif case[1] == "res":
            reply, want = None, (333, 444)
            got = tuple(term.resolution)
        else:
            reply, want = None, False
            got = term.supports_synchronized_update
    what = f"{kind} query, reply {reply!r}"
    if rescue.hung:
        ctx.fail(f"{what}: the query did not return")
    ctx.eq(got, want, what)
    check_modes(before, ctx, what)
    ctx.outcome((kind, want))


def again(replies, ctx):
    """Every resolution query stands for itself."""

    stub = Stub(dict(REPLIES))
    before = begin("canon", stub)
    what = f"resolution queries answered {replies}"
    with PTY, Rescue(20) as rescue:
        term = make(stub, resolution_fallback=(333, 444))
        for n, kind in enumerate(replies):
            ctx.step()
            stub.replied = False
            stub.replies["\x1b[14t"] = {"good": f"\x1b[4;{120 + n};{450 + n}t", "bad": "\x1b[4;9t", "none": None}[kind]
            ctx.eq(tuple(term.resolution), (450 + n, 120 + n) if kind == "good" else (333, 444), what)
            check_modes(before, ctx, what)
        stub.tty = False
        ctx.eq(tuple(term.resolution), (333, 444), f"{what}, then from something that is no terminal")
        ctx.eq(tuple(make(stub).resolution), (1280, 720), f"{what}, then from a new object that is no terminal")
    if rescue.hung:
        ctx.fail(f"{what}: a query did not return")


def recolor(layer, replies, ctx):
    stub = Stub({})
    before = begin("cbreak", stub)
    what = f"default colour {layer} queries answered {replies}"
    with PTY, Rescue(20) as rescue:
        for n, kind in enumerate(replies):
            ctx.step()
            stub.replies[color_query(layer)] = rgb_reply(layer, [f"{n + 1}{n + 1}00"] * 3) if kind == "good" else "\x1b[A"
            expect_color(get_default_color(layer, stream=stub), (17 * (n + 1),) * 3 if kind == "good" else DEFAULTS[layer], ctx, what)
            check_modes(before, ctx, what)
    if rescue.hung:
        ctx.fail(f"{what}: a query did not return")


def nontty(queries, ctx):
    stub = Stub(REPLIES)
    begin("canon", stub)
    saved = os.dup(0)
    null = os.open(os.devnull, os.O_RDONLY)
    os.dup2(null, 0)
    try:
        term = Terminal(stream=stub, resolution_fallback=(33, 44))
        for i in queries:
            query = QUERIES[i]
            if query == "res":
                ctx.eq(tuple(term.resolution), (33, 44), "resolution without an input terminal")
            elif query == "sync":
                ctx.eq(bool(term.supports_synchronized_update), False, "synchronized update support without an input terminal")
            else:
                layer = "11" if query == "bg" else "10"
                expect_color(term.background_color if query == "bg" else term.foreground_color, DEFAULTS[layer], ctx, "colour without an input terminal")
                expect_color(get_default_color(layer, stream=stub), DEFAULTS[layer], ctx, "colour without an input terminal")
        ctx.eq(sum(stub.count(color_query(layer)) for layer in DEFAULTS), 0, "colour queries without an input terminal")
    finally:
        os.dup2(saved, 0)
        os.close(saved)
        os.close(null)


def order(case, ctx):
    _, mode, queries = case
    names = [QUERIES[i] for i in queries]
    what = f"queries {names} ({mode})"
    stub = Stub(dict(REPLIES))
    before = begin(mode, stub)
    with PTY, Rescue(20) as rescue:
        term = Terminal(stream=stub)
        objects = 1
        for n, name in enumerate(names):
            ctx.step()
            if name == "bg":
                expect_color(term.background_color, (0xFE, 0xBA, 0x76), ctx, what)
            elif name == "fg":
                expect_color(term.foreground_color, (0x12, 0x56, 0x9A), ctx, what)
            elif name == "res":
                stub.replies["\x1b[14t"] = f"\x1b[4;{123 + n};{456 + n}t"
                ctx.eq(tuple(term.resolution), (456 + n, 123 + n), what)
            elif name == "sync":
                ctx.eq(bool(term.supports_synchronized_update), True, what)
            else:
                term = Terminal(stream=stub)
                objects += 1
            check_modes(before, ctx, what)
        expect_color(term.background_color, (0xFE, 0xBA, 0x76), ctx, what)
        expect_color(term.foreground_color, (0x12, 0x56, 0x9A), ctx, what)
        # Writing and drawing need the colours, too
        term.write("ab", cursor=(0, 0))
        term.draw()
    if rescue.hung:
        ctx.fail(f"{what}: a query did not return")
    ctx.eq([stub.count(color_query(layer)) for layer in ("10", "11")], [objects] * 2, f"{what}: colour queries sent for {objects} terminal objects")
    check_modes(before, ctx, what)
    ctx.outcome(tuple(names))


def echo(case, ctx):
    """Replies are not displayed, not even when they come before the code has begun to read."""

    _, mode, queries, late = case
    stub = Stub(dict(REPLIES))
    stub.settle = 0.003
    before = begin(mode, stub)
    start = threading.Thread.start

    def held(self):
        count, inner, end = stub.answered, self.run, time.monotonic() + 1

        def later():
            while stub.answered == count and time.monotonic() < end:
                time.sleep(0.0005)
            inner()

        self.run = later
        start(self)

    with PTY, Rescue(20) as rescue:
        if late:  # threads the code starts do not get going before the terminal has answered
            threading.Thread.start = held
        try:
            for name in ["new", *(QUERIES[i] for i in queries)]:
                what = f"query {name} of {[QUERIES[i] for i in queries]} ({mode}{', reading begins late' if late else ''})"
                ctx.step()
                if name == "new":
                    term = Terminal(stream=stub)
                elif name == "res":
                    ctx.eq(tuple(term.resolution), (456, 123), what)
                elif name == "sync":
                    ctx.eq(bool(term.supports_synchronized_update), True, what)
                else:
                    expect_color(term.background_color if name == "bg" else term.foreground_color, (0xFE, 0xBA, 0x76) if name == "bg" else (0x12, 0x56, 0x9A), ctx, what)
                ctx.eq(PTY.drain(), b"", f"{what}: displayed")
                check_modes(before, ctx, what)
        finally:
            threading.Thread.start = start
    if rescue.hung:
        ctx.fail(f"{what}: did not return")
    ctx.outcome((mode, tuple(queries), late))


def known(case, message):
    return known_finding(ID, message)
