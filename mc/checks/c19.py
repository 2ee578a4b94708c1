"""C19: mouse reports decode exactly; anything else is never a mouse event."""

import itertools
import re

from slate.core import parse_mouse_event

ID = "C19"
ALPHABET = ["\x1b", "[", "<", "0", "3", ";", "M", "m", "a", "\n", "\x1b[<", "٣"]
DEPTH = {"quick": 6, "thorough": 7}
BOUNDS = {t: f"all button codes 0..300 x press/release x 40 coordinate pairs; every string of <={d} symbols over 12; every "
             f"single deletion, insertion, substitution and truncation of 40 reports, and reports with text before or after"
          for t, d in DEPTH.items()}
COORDS = [(1, 1), (0, 0), (9, 10), (10, 9), (80, 24), (99, 100), (223, 7), (1, 224), (1000, 2000), (123456, 3)]
COORDS += [(x, y) for x in (1, 2, 35, 64, 96) for y in (1, 3, 12, 40, 95, 300)]
DIGITS = r"(?:0|[1-9][0-9]*)"
REPORT = re.compile(rf"\x1b\[<({DIGITS});({DIGITS});({DIGITS})([Mm])", re.A)
LENIENT = re.compile(r"\x1b\[<[0-9]+;[0-9]+;[0-9]+[Mm]", re.A)

EVENTS = {0: "left_click", 2: "right_click", 32: "left_drag", 34: "right_drag", 35: "hover", 64: "scroll_up", 65: "scroll_down",
          66: "scroll_left", 67: "scroll_right"}


def expect(text):
    """The decoded event, None, or ... where the protocol leaves it open."""

    if text.endswith("\n") and LENIENT.fullmatch(text[:-1]):
        return None
    m = REPORT.fullmatch(text)
    if m is None:
        # numbers with leading zeros are no canonical reports
        return ... if LENIENT.fullmatch(text) else None
    button = int(m[1])
    base = EVENTS.get(button & ~(4 | 8 | 16))
    if base is None:
        return None
    if m[4] == "m":
        base = base.replace("click", "release")
    name = ("shift_" if button & 4 else "") + ("ctrl_" if button & 16 else "") + ("option_" if button & 8 else "") + base
    return f"mouse:{name}@{m[2]};{m[3]}"


def seeds():
    out = []
    for button in (0, 2, 4, 35, 64, 67, 28, 90, 1):
        for x, y in ((1, 1), (12, 30), (105, 9)):
            out.append(f"\x1b[<{button};{x};{y}M")
        out.append(f"\x1b[<{button};7;8m")
    return out


def cases(tier):
    for button in range(301):
        yield ["button", button]
    for i in range(len(seeds())):
        yield ["edits", i]
    for text in FIXED:
        yield ["text", text]
    for n in range(0, DEPTH[tier]):
        for prefix in itertools.product(range(len(ALPHABET)), repeat=n):
            yield ["strings", list(prefix)]


FIXED = ["", "a", "hello", "1;2;3", "0;1;1", "<0;1;1M", "[<0;1;1M", "\x1b", "\x1b[", "\x1b[A", "\x1b[1;2A", "\x1b[<", "\x1b[<M", "\x1b[<;;M",
         "\x1b]10;rgb:0000/1111/2222\x1b\\", "\x1b]11;rgb:dede/dede/dede\x07", "\x1b[4;720;1280t", "\x1b[?2026;2$y", "\x1b[M !!",
         "\x1b[0;1;1M", "\x1b[0;1;1m", "\x1b[38;2;1m", "\x1b[1;31;4m", "a;b;c", "M", "mouse:left_click@1;1", "\x1b[<0;1;1", "\x1b[<0;1M",
         "\x1b[<0;1;1;1M", "\x1b[<-1;1;1M", "\x1b[<0;-1;1M", "\x1b[<0.5;1;1M", "\x1b[<0;1;1MM", "\x1b[<0;1;1M\n", "\n\x1b[<0;1;1M",
         "\x1b[<0;1;1M\x1b[<0;2;2M", "a\x1b[<0;1;1M", "\x1b\x1b[<0;1;1M", "\x1b[<0; 1;1M", "\x1b[<0;1;1 M", "\x1b[<٠;1;1M", "\x1b[<0;١;1M",
         "\x1b[<²;1;1M", "\x1bO0;1;1M", "\x9b<0;1;1M", "\x00", "\x1b[<0;1;1m\x00", "\x1b[<1_0;1;1M", "\x1b[<+0;1;1M"]


def check(text, ctx):
    want = expect(text)
    ctx.step()
    got = parse_mouse_event(text)
    if want is ...:
        if got is not None and not isinstance(got, str):
            ctx.fail(f"{text!r} decoded to {got!r}")
        return
    if got != want:
        ctx.fail(f"{text!r} decoded to {got!r}, expected {want!r}")
    if want:
        ctx.outcome(want.partition("@")[0])


def run_case(case, ctx):
    kind, data = case
    ctx.sample(case)
    ctx.trace()
    ctx.state((kind, str(data)))
    if kind == "button":
        for x, y in COORDS:
            for suffix in "Mm":
                check(f"\x1b[<{data};{x};{y}{suffix}", ctx)
    elif kind == "text":
        check(data, ctx)
    elif kind == "edits":
        text = seeds()[data]
        symbols = list("\x1b[<;Mm0189a -+?$\n٣")
        for i in range(len(text) + 1):
            check(text[:i], ctx)
            check(text[i:], ctx)
            check(text[:i] + text[i + 1 :], ctx)
            for s in symbols:
                check(text[:i] + s + text[i:], ctx)
                check(text[:i] + s + text[i + 1 :], ctx)
        for other in seeds():
            check(text + other, ctx)
    else:
        prefix = "".join(ALPHABET[i] for i in data)
        for symbol in ALPHABET:
            check(prefix + symbol, ctx)
            check("\x1b[<" + prefix + symbol, ctx)
