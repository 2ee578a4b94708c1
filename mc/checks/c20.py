"""C20: keyboard input is decoded to its names and never lost."""

import codecs
import errno
import fcntl
import io
import itertools
import json
import os
import re
import select
import struct
import sys
import termios
import time

from slate import getch, getch_timeout
from slate.core import Key

from mc.engine import known_finding
from mc.ptylab import Pty, attrs_of

ID = "C20"
LENGTH = {"quick": 4, "thorough": 5}
CHARACTERS = {"quick": 0x11000, "thorough": 0x110000}
BYTES = {"quick": 8, "thorough": 12}
BOUNDS = {t: f"every known key (and 23 unknown inputs, 9 mouse reports) x raw/named x 3 initial terminal modes, and split in two arrivals "
             f"at every byte; every pair of them at once; every text of <={LENGTH[t]} symbols over 7 (1 to 4 byte characters, an escape sequence, control keys) x every "
             f"splitting of its bytes into arrivals (exhaustive up to {BYTES[t]} bytes) x raw/named; every placement of <=3 arrivals before and "
             f"inside 2 reads (before and after each of their first 6 read/poll calls); 3 encodings; another terminal than the standard input; reads ended by an interrupt, an error or their time at each of the first 6 read/poll calls with input waiting; 616 sequences and characters (every CSI and SS3 final, ESC and a character, characters below 0x100, pastes, replies) alone, between others and twice; every sequence of <=3 of 9 characters and stray or incomplete bytes; every character below {CHARACTERS[t]:#x} in texts of 128; texts of up to 4000 characters at once" for t in LENGTH}
ASSUMPTIONS = ["arrivals are atomic writes to a Linux pseudo-terminal; input is passed unchanged by the line discipline (ISIG, IXON off)"]
CASE_TIMEOUT = 20.0

KEYS = {
    "\x1b": ("esc", "escape"),
    "\x7f": ("backspace",), "\x1b\x7f": ("alt-backspace",),
    "\x08": ("ctrl-backspace", "ctrl-h"), "\t": ("tab", "ctrl-i"), "\n": ("return", "ctrl-j"), "\r": ("ctrl-m",),
    "\x1b[H": ("home",), "\x1b[F": ("end",), "\x1b[2~": ("insert",), "\x1b[3~": ("delete",), "\x1b[Z": ("shift-tab",),
}
for _letter, _name in zip("ABCD", ("up", "down", "right", "left")):
    KEYS["\x1b[" + _letter] = (_name, "arrow-" + _name)
    for _code, _mod in ((2, "shift-"), (3, "alt-"), (4, "alt-shift-")):
        KEYS[f"\x1b[1;{_code}{_letter}"] = (_mod + _name, _mod + "arrow-" + _name)
    KEYS[f"\x1b[1;5{_letter}"] = ("ctrl-" + _name,)
    if _letter in "AB":
        KEYS[f"\x1b[1;6{_letter}"] = ("ctrl-shift-" + _name, "ctrl-shift-arrow-" + _name)
for _i in range(1, 27):
    KEYS.setdefault(chr(_i), ("ctrl-" + chr(96 + _i),))
for _i, _codes in enumerate((("\x1b[11~", "\x1bOP"), ("\x1b[12~", "\x1bOQ"), ("\x1b[13~", "\x1bOR"), ("\x1b[14~", "\x1bOS"), ("\x1b[15~",),
                             ("\x1b[17~",), ("\x1b[18~",), ("\x1b[19~",), ("\x1b[20~",), ("\x1b[21~",), ("\x1b[23~",), ("\x1b[24~",))):
    for _code in _codes:
        KEYS[_code] = (f"F{_i + 1}",)

PLAIN = ["a", "Z", " ", "é", "€", "😀", "ab", "hello world", "\x1b[99~", "\x1b[1;9Q", "a\x1b[A", "\x1b[A\x1b[A", "aé😀€", "日本語", "x" * 300, "é" * 100,
         "mouse:left_click@1;1", "0;1;1M", "\ufeff", "\ufeffa", "e\u0301", "\u0301", "\u2028"]
MOUSE = {"\x1b[<0;1;1M": "mouse:left_click@1;1", "\x1b[<0;12;3m": "mouse:left_release@12;3", "\x1b[<2;100;30M": "mouse:right_click@100;30",
         "\x1b[<35;7;8M": "mouse:hover@7;8", "\x1b[<32;1;2M": "mouse:left_drag@1;2", "\x1b[<64;5;5M": "mouse:scroll_up@5;5",
         "\x1b[<65;5;5M": "mouse:scroll_down@5;5", "\x1b[<4;1;1M": "mouse:shift_left_click@1;1", "\x1b[<24;9;9M": "mouse:ctrl_option_left_click@9;9"}
INPUTS = [*KEYS, *PLAIN, *MOUSE]
SYMBOLS = ["a", "é", "€", "😀", "\x1b[A", "\x01", "\n"]
MIXED = ["a\x1b[<0;1;1M", "ab\x1b[<35;7;8M", "\x1b[A\x1b[<0;1;1M", "é\x1b[<64;5;5M", "\x1b[<0;1;1M\x1b[<0;1;1m", "\x1b[<35;1;1M\x1b[<35;2;1M"]
MODES = ["canon", "cbreak", "noecho"]
CHUNKS = [["a", "b"], ["a", "b", "c"], ["é0", "é1"], ["\x1b[A", "b"], ["a", "é0", "é1"], ["😀0", "😀1", "c"], ["ab", "c"]]

# Bytes that are no character (a stray or incomplete one), among others that are
BROKEN = [b"a", b"(", "\u00e9".encode(), "\u20ac".encode(), b"\xff", b"\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98"]
VALID = 4

ELSEWHERE = ["a", "ab", "\x1b[A", "\u00e9\u20ac", "\x1b[<0;1;1M", "x" * 200]

# Input that is there when a read ends without it
ABANDONED = ["a", "ab", "\x1b[A", "\u00e9\u20ac", "abc\u20acd", "x" * 100]

PTY = None


# Sequences that a terminal may send, known or not
SEQUENCES = ["\x1b[200~", "\x1b[201~", "\x1b[200~pasted\x1b[201~", "\x1b[97;5u", "\x1b[27;5;97~", "\x1b[?1;2c", "\x1b[12;40R", "\x1b]10;rgb:1/2/3\x07",
             "\x1bP1$r0m\x1b\\", "\x1b_Gi=1;OK\x1b\\", "\x1b\x1b[A", "\x1b\x1b", "\x1b[M !!", "\x1b[1;2", "\x1b[", "\x1bO"]
for _i in range(0x40, 0x7F):
    SEQUENCES += ["\x1b[" + chr(_i), "\x1b[1;5" + chr(_i), "\x1bO" + chr(_i)]
SEQUENCES += [f"\x1b[{_i}~" for _i in range(60)] + ["\x1b" + chr(_i) for _i in range(0x20, 0x7F)]
SEQUENCES += [chr(_i) for _i in range(0x100)]


def worker_setup():
    global PTY
    PTY = Pty()
    PTY.attrs = {"canon": attrs_of(PTY.plain), "cbreak": attrs_of(PTY.plain, canon=False, echo=False), "noecho": attrs_of(PTY.plain, echo=False)}


def cuts(count, most=None):
    """Every splitting of `count` bytes into consecutive pieces (at most `most` cuts)."""

    for n in range(0, count if most is None else min(most + 1, count)):
        for points in itertools.combinations(range(1, count), n):
            yield [0, *points, count]


def cases(tier):
    for i in range(len(INPUTS)):
        for mode in MODES:
            for raw in (0, 1):
                yield ["name", i, mode, raw]
    for i, text in enumerate(INPUTS):
        size = len(text.encode())
        if size <= 16:
            for at in range(1, size):
                for raw in (0, 1):
                    yield ["split", i, at, raw]
    for first in range(len(INPUTS)):
        for second in range(len(KEYS) + len(PLAIN)):
            if len(INPUTS[first] + INPUTS[second]) < 40:
                yield ["pair", first, second]
    for i in range(len(MIXED)):
        for raw in (0, 1):
            yield ["mixed", i, raw]
    for encoding in ("latin-1", "utf-8", "cp1252"):
        for i in range(4):
            yield ["encoding", encoding, i]
    for i in range(len(SEQUENCES)):
        yield ["around", i]
    yield ["nontty"]
    for i in range(len(ELSEWHERE)):
        for raw in (0, 1):
            for timed in (0, 1):
                for pending in ("", "Z", "\x1b[B"):
                    yield ["elsewhere", i, raw, timed, pending]
    for count in (500, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4000):
        for character in ("x", "é", "€", "😀"):
            if count * len(character.encode()) < 4090:
                yield ["long", character, count]
    for start in range(0x80, CHARACTERS[tier], 128):
        yield ["characters", start]
    for i in range(len(ABANDONED)):
        for mode in MODES:
            for kind in ("interrupt", "error", "alarm"):
                for early in (0, 1):
                    for call in range(6):
                        yield ["abandoned", i, mode, kind, early, call]
    for mode in MODES:
        for raw in (0, 1):
            for timed in (0, 1):
                for call in range(4):
                    yield ["ctrl-c", mode, raw, timed, call]
    for n in (1, 2, 3):
        for symbols in itertools.product(range(len(BROKEN)), repeat=n):
            if any(i >= VALID for i in symbols):
                yield ["broken", list(symbols)]
    positions = [(n, o) for n in (0, 1) for o in (-1, 0, 0.5, 1, 1.5, 2, 2.5, 3, 3.5, 4, 4.5, 5)]
    for c, chunks in enumerate(CHUNKS):
        for mode in MODES[:2]:
            for plan in itertools.combinations_with_replacement(positions, len(chunks)):
                yield ["sched", c, mode, [list(p) for p in plan]]
    for n in range(1, LENGTH[tier] + 1):
        for symbols in itertools.product(range(len(SYMBOLS)), repeat=n):
            size = len("".join(SYMBOLS[i] for i in symbols).encode())
            for points in cuts(size, None if size <= BYTES[tier] else 2):
                yield ["seq", list(symbols), points]


def names(text):
    if text in MOUSE:
        return (MOUSE[text],)
    return KEYS.get(text, (text,))


def expect_key(key, text, raw, ctx, what):
    want = (text,) if raw else names(text)
    ctx.step()
    if str(key) != want[0]:
        ctx.fail(f"{what}: read returned {str(key)!r}, expected {want[0]!r}")
    for name in want:
        if not key == name or key != name:
            ctx.fail(f"{what}: {key!r} does not equal its name {name!r}")
    if set(key) != set(want):
        ctx.fail(f"{what}: names are {list(key)!r}, expected {list(want)!r}")
    for other in (want[0].upper(), want[0].lower(), want[0].capitalize(), want[0] + " ", " " + want[0], want[0][:-1], "up", "a", "ctrl-a"):
        if other not in want and (key == other or not key != other):
            ctx.fail(f"{what}: {key!r} equals {other!r}")
    if key == want[0] + "x" or key == "" or key == 1 or key is None:
        ctx.fail(f"{what}: {key!r} equals something else")
    if not raw and len(want) > 1 and key == ",".join(want):
        ctx.fail(f"{what}: {key!r} equals its joined names")
    ctx.outcome((want, raw))


def decode(data, encoding):
    """The complete characters of data, and whether an incomplete one follows."""

    decoder = codecs.getincrementaldecoder(encoding)()
    text = decoder.decode(data)
    return text, bool(decoder.getstate()[0])


def read_all(chunks, raw, ctx, what, stream=None, encoding="utf-8", timed=0):
    """Reads until all chunks (delivered whenever the reader would block) have been returned."""

    pty = PTY
    pty.schedule(chunks)
    text = b"".join(chunks).decode(encoding)
    pos = 0
    while pos < len(text):
        before = pty.sent
        with pty:
            if timed:
                key = getch_timeout(300, "too late", stream=stream, raw=bool(raw))
            else:
                key = getch(raw=bool(raw)) if stream is None else getch(stream, raw=bool(raw))
        got, _ = decode(b"".join(chunks[: pty.sent]), encoding)
        part = got[pos:]
        if not part:
            ctx.fail(f"{what}: a read returned {str(key)!r} before anything was typed")
        expect_key(key, part, raw, ctx, f"{what}, read at character {pos}")
        for n in range(before + 1, pty.sent):
            so_far, partial = decode(b"".join(chunks[:n]), encoding)
            if len(so_far) > pos and not partial:
                ctx.fail(f"{what}: a read kept waiting though {so_far[pos:]!r} was available")
        pos = len(got)
    if pty.pending():
        ctx.fail(f"{what}: input is left over")
    ctx.trace()


def run_case(case, ctx):
    kind = case[0]
    pty = PTY
    ctx.sample(case)
    ctx.state(json.dumps(case))
    if kind == "name":
        _, i, mode, raw = case
        pty.reset(pty.attrs[mode])
        read_all([INPUTS[i].encode()], raw, ctx, f"typing {INPUTS[i]!r} ({mode})")
    elif kind == "pair":
        _, first, second = case
        pty.reset(pty.attrs["canon" if first % 2 else "cbreak"])
        text = INPUTS[first] + INPUTS[second]
        for raw in (0, 1):
            read_all([text.encode()], raw, ctx, f"typing {text!r} at once")
    elif kind == "split":
        _, i, at, raw = case
        data = INPUTS[i].encode()
        pty.reset(pty.attrs["canon"])
        read_all([data[:at], data[at:]], raw, ctx, f"typing {data[:at]!r}, then {data[at:]!r}")
    elif kind == "seq":
        _, symbols, points = case
        data = "".join(SYMBOLS[i] for i in symbols).encode()
        chunks = [data[a:b] for a, b in zip(points, points[1:])]
        for raw in (0, 1):
            pty.reset(pty.attrs["canon" if len(chunks) % 2 else "cbreak"])
            read_all(chunks, raw, ctx, f"typing {chunks}")
    elif kind == "sched":
        run_schedule(case, ctx)
    elif kind == "encoding":
        _, encoding, i = case
        text = [["é"], ["aé"], ["é", "ü"], ["é\x1b[A", "b"]][i]
        pty.reset(pty.attrs["cbreak"])
        with open(0, encoding=encoding, closefd=False) as stream:
            for raw in (0, 1):
                for timed in (0, 1):
                    read_all([t.encode(encoding) for t in text], raw, ctx, f"typing {text} in {encoding}", stream, encoding, timed)
    elif kind == "around":
        text = SEQUENCES[case[1]]
        for before, after in (("", ""), ("a", ""), ("", "a"), ("a", "b"), ("", text)):
            for raw in (0, 1):
                pty.reset(pty.attrs["canon" if raw else "cbreak"])
                read_all([(before + text + after).encode()], raw, ctx, f"typing {before + text + after!r} at once")
    elif kind == "long":
        _, character, count = case
        text = character * (count - 1) + "e"
        for raw in (0, 1):
            pty.reset(pty.attrs["canon" if raw else "cbreak"])
            read_all([text.encode()], raw, ctx, f"typing {count} characters at once")
    elif kind == "characters":
        text = "".join(chr(i) for i in range(case[1], case[1] + 128) if not 0xD800 <= i < 0xE000)
        if text:
            pty.reset(pty.attrs["canon"])
            read_all([text.encode()], 1, ctx, f"typing the characters from {case[1]:#x} on")
            for character in text[::16] if case[1] < 0x3000 else text[:1]:
                read_all([character.encode()], 0, ctx, f"typing {character!r}")
    elif kind == "elsewhere":
        run_elsewhere(*case[1:], ctx)
    elif kind == "abandoned":
        run_abandoned(*case[1:], ctx)
    elif kind == "ctrl-c":
        run_ctrl_c(*case[1:], ctx)
    elif kind == "broken":
        run_broken([BROKEN[i] for i in case[1]], ctx)
    elif kind == "nontty":
        ctx.trace()
        with open(os.devnull, encoding="utf-8") as stream:
            ctx.eq(str(getch(stream)), "", "reading from something that is no terminal")
            ctx.eq(str(getch_timeout(300, "nothing", stream=stream)), "", "reading from something that is no terminal, with a time limit")
    elif kind == "mixed":
        _, i, raw = case
        text = MIXED[i]
        pty.reset(pty.attrs["canon"])
        pty.schedule([text.encode()])
        seen = []
        pty.on_block = lambda: (_ for _ in ()).throw(Done())
        try:
            while len(seen) < 5:
                with pty:
                    seen.append(str(getch(raw=bool(raw))))
        except Done:
            pass
        finally:
            pty.on_block = None
        ctx.step(len(seen))
        ctx.trace()
        if seen == [text]:
            return
        # Returning the parts one after the other is as good
        parts = [p for p in [text[: text.rindex("\x1b")], text[text.rindex("\x1b") :]] if p]
        if not raw and seen == [names(p)[0] for p in parts]:
            return
        ctx.fail(f"typing {text!r} at once, {'raw' if raw else 'named'} reads returned {seen!r}")


def run_abandoned(i, mode, kind, early, call, ctx):
    """A read ends by an interrupt, an error or its time: what it had not taken is left for the next."""

    pty = PTY
    text = ABANDONED[i]
    data = text.encode()
    what = f"typing {text!r} ({mode}, {'before' if early else 'during'} a read), {kind} at call {call}"
    pty.reset(pty.attrs[mode])
    if early:
        pty.type(data)
        pty.schedule([])
    elif call < 1:
        pty.schedule([])
        pty.at = {call: data}
    else:
        pty.schedule([data])
    pty.fault = (call, {"interrupt": KeyboardInterrupt(), "error": OSError(errno.EIO, "Input/output error"), "alarm": pty.strike}[kind])
    got = ""
    try:
        with pty:
            got = getch_timeout(300, "too late", raw=True) if kind == "alarm" else getch(raw=True)
    except OSError:
        pass
    ctx.step()
    struck, left = pty.struck, pty.left
    pty.fault = None
    if not struck:
        ctx.eq(str(got), text, f"{what}, which never came: the read")
    elif left:
        with pty:
            rest = str(getch(raw=True))
        whole = data[-left:].decode(errors="ignore")  # without the rest of a character of which a part was taken
        if not rest.endswith(whole) or not data.endswith(rest.encode()) and len(whole.encode()) == left:
            ctx.fail(f"{what}: {data[-left:]!r} was still unread, but the next read returned {rest!r}")
    ctx.trace()
    ctx.outcome((kind, struck, left > 0))


def run_ctrl_c(mode, raw, timed, call, ctx):
    """Ctrl-c reaches a waiting read as an interrupt, which the read returns as that key."""

    pty = PTY
    pty.reset(pty.attrs[mode])
    pty.schedule([b"a", b"b"])
    pty.fault = (call, KeyboardInterrupt())
    what = f"ctrl-c ({mode}, call {call}) during a read"
    with pty:
        got = getch_timeout(300, "too late", raw=bool(raw)) if timed else getch(raw=bool(raw))
    struck, pty.fault = pty.struck, None
    ctx.step()
    if struck and pty.sent == 0:  # nothing else was typed so far
        expect_key(got, "\x03", raw, ctx, what)
    ctx.trace()
    ctx.outcome(("ctrl-c", struck))


def run_broken(parts, ctx):
    """Bytes that are no character do not affect the characters around them."""

    pty = PTY
    data = b"x" + b"".join(parts) + b"yz"
    pty.reset(pty.attrs["cbreak"])
    pty.schedule([data])
    with pty:
        got = str(getch(raw=True))
    ctx.step()
    text = data.decode("utf-8", "replace")
    pattern = ".+".join(re.escape(p) for p in re.split("\ufffd+", text))
    if not re.fullmatch(pattern, got, re.S):
        ctx.fail(f"typing {data!r}: read returned {got!r}, which is not {text!r} with something for what is no character")
    ctx.trace()


def run_elsewhere(i, raw, timed, pending, ctx):
    """Reading from a terminal that is not the standard input, which has other input or none."""

    text = ELSEWHERE[i]
    PTY.reset(PTY.attrs["cbreak"])
    PTY.type(pending.encode())
    master, slave = os.openpty()
    try:
        termios.tcsetattr(slave, termios.TCSANOW, PTY.attrs["cbreak"])
        os.write(master, text.encode())
        end = time.monotonic() + 5
        while struct.unpack("i", fcntl.ioctl(slave, termios.FIONREAD, b"\0" * 4))[0] < len(text.encode()) and time.monotonic() < end:
            time.sleep(0.0005)
        with open(slave, encoding="utf-8", closefd=False) as stream:
            key = getch_timeout(300, "too late", stream=stream, raw=bool(raw)) if timed else getch(stream, raw=bool(raw))
        expect_key(key, text, raw, ctx, f"typing {text!r} at another terminal")
        if select.select([slave], [], [], 0)[0]:
            ctx.fail(f"typing {text!r} at another terminal: input is left over")
        ctx.eq(PTY.pending(), len(pending), f"input waiting at the standard input after typing {text!r} at another terminal")
    finally:
        os.close(master)
        os.close(slave)
    ctx.trace()


class Done(BaseException):
    pass


def run_schedule(case, ctx):
    _, c, mode, plan = case
    pty = PTY
    pieces = []
    for name in CHUNKS[c]:
        if name[-1] in "01" and len(name) == 2:
            data = name[0].encode()
            half = 1 if len(data) == 2 else 2
            pieces.append(data[:half] if name[-1] == "0" else data[half:])
        else:
            pieces.append(name.encode())
    text = b"".join(pieces).decode()
    pty.reset(pty.attrs[mode])
    got = ""
    reads = 0
    todo = [(n, o, data) for (n, o), data in zip(plan, pieces)]
    what = f"arrivals {[p.decode('latin-1') for p in pieces]} at {plan} ({mode})"
    while got != text:
        if reads > 6:
            ctx.fail(f"{what}: reads returned only {got!r}")
        now = [t for t in todo if t[0] <= reads]
        early = b"".join(d for n, o, d in now if n < reads or o < 0)
        pty.schedule([])
        pty.at, pty.after = {}, {}
        for n, o, data in now:
            if n == reads and o >= 0:
                place = pty.at if o == int(o) else pty.after
                place[int(o)] = place.get(int(o), b"") + data
        later = [t for t in todo if t[0] > reads]
        pty.type(early)
        pty.chunks = [data for _, _, data in later]  # comes only if the read would wait forever
        with pty:
            part = str(getch(raw=True))
        ctx.step()
        if not part:
            ctx.fail(f"{what}: a read returned nothing")
        got += part
        if not text.startswith(got):
            ctx.fail(f"{what}: reads returned {got!r}")
        later = later[pty.sent :]
        # what did not arrive during this read comes before the next one
        missed = [((o, 0), data) for o, data in pty.at.items()] + [((o, 1), data) for o, data in pty.after.items()]
        todo = [(reads + 1, -1, data) for _, data in sorted(missed)] + later
        reads += 1
    ctx.trace()
    ctx.outcome((text, reads))


def known(case, message):
    return known_finding(ID, message)
