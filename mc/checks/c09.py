"""C09: parsing a styled string agrees with how a terminal displays it."""

import itertools

from slate import Span

from mc.css import sgr_is_background, sgr_rgb
from mc.emu import interpret_line
from mc.lab import sp, spec, to_span
from mc.refscreen import STYLE_CODE
from mc.screens import ASSUMPTIONS, BLUE, GREEN, RED

ID = "C09"
BOUNDS = {
    "quick": "every string of <=3 tokens over ~64 tokens (text with and without line ends and control characters, all SGR setters, unsetters, resets, 16/256/true colours, "
             "multi-parameter sequences), of <=5 over 12; every sequence of <=3 parameters (colours with or without an opacity, codes, empty ones) over ~30 (<=2 also with leading zeroes), of 4 over ~11, after another; every rendered list of <=2 spans over ~80 spans, <=3 over 16; "
             "every unknown code 0..120 alone, before, after and between known ones; every palette entry and 16-colour code; every two of 7 strings parsed in turn, in every order of steps (three: round robin)",
    "thorough": "every string of <=4 tokens over the same tokens restricted to <=3 sequences, <=7 over 12; lists of <=4 spans "
                "over 16; otherwise as quick",
}

SEQS = (
    ["", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "22", "23", "24", "25", "26", "27", "28", "29", "39", "49"]
    + ["30", "31", "37", "90", "97", "40", "47", "100", "107", "38;5;0", "38;5;200", "48;5;17", "48;5;255"]
    + ["38;2;1;2;3", "48;2;255;0;9", "1;31", "31;1", "0;1", "1;0", "1;0;3", "31;42;4", "4;38;2;1;2;3;9", "38;5;4;48;5;5",
       "38;2;1;2;3;48;2;4;5;6", "1;;4", ";1", "1;", "39;49", "22;1", "38;5;1;1", "107;97;24", "0;0", "38;2;0;0;0"]
)
SEQS += ["99", "99;4", "49;99"]
TEXTS = ["a", "b c"]
TOKENS = [*TEXTS, *("\x1b[" + s + "m" for s in SEQS)]
TOKENS += ["\n", "\r", "e\n\t", "\x85\u2028f", " "]
SMALL = ["a", "B", "\x1b[m", "\x1b[0m", "\x1b[1m", "\x1b[22m", "\x1b[2;4m", "\x1b[31m", "\x1b[39m", "\x1b[48;5;9m",
         "\x1b[38;2;9;8;7;3m", "\x1b[49;24m"]

PARAMS = ["", "0", "1", "31", "44", "22", "39", "49", "38;5;9", "48;2;1;2;3", "99", "4", "24", "2", "6", "25", "97", "105", "7", "8",
          "38;2;7;0;7", "48;5;0", "31;0.5", "104;0.25", "38;5;9;0.75", "48;2;1;2;3;0.1", "38;2;3;2;1;0.0", "42;1.0"]

# What is no known code either
STRANGE = ["?1", "?25", "<1", ">4", "=0", "x", "1x", "-1", " 1", "1 ", "+1", "bold", "999", "1000", "4:3", "38:5:1", "1,2", "58;5;1"]

STYLES = list(STYLE_CODE)
SPANS = (
    [sp("t", [s]) for s in STYLES]
    + [sp("t", [s], None, None, False, False) for s in STYLES]
    + [sp("uv", STYLES, RED, GREEN), sp("w"), sp(" "), sp("x y", ["bold", "dim"])]
    + [sp("t", st, fg, bg, False, r) for st in ([], ["bold"], ["underline", "strike"]) for fg in (None, RED, BLUE)
       for bg in (None, GREEN, RED) for r in (True, False)]
    + [sp("\n"), sp("n\n", ["bold"], RED), sp("\nn\r\n", [], None, GREEN), sp("\x1c\x0b\u2028", ["underline"]), sp("\u00e9\u6f22\U0001f600", ["dim"])]
    + [sp("o", [], None, GREEN, True), sp(" ", ["bold"], RED, None, True), sp("o", ["strike"], None, None, True, False)]
)
FEW = SPANS[:3] + SPANS[9:11] + SPANS[18:22] + SPANS[22:76:8]


def cases(tier):
    for n in range(0, 4):
        for tokens in itertools.product(range(len(TOKENS)), repeat=n):
            yield ["str", list(tokens)]
    for n in (4, 5) if tier == "quick" else (4, 5, 6, 7):
        for tokens in itertools.product(range(len(SMALL)), repeat=n):
            yield ["few", list(tokens)]
    for n in (1, 2, 3):
        for params in itertools.product(range(len(PARAMS)), repeat=n):
            yield ["params", list(params)]
    for n in (4,) if tier == "quick" else (4, 5):
        for params in itertools.product(range(11), repeat=n):
            yield ["params", list(params)]
    for count in (20, 100, 300, 1000):
        for first, second in itertools.product(range(len(SMALL)), repeat=2):
            yield ["long", [first, second, count]]
    for n in (2, 3):
        for texts in itertools.product(range(len(WOVEN)), repeat=n):
            yield ["woven", list(texts)]
    for code in range(0, 121):
        yield ["code", code]
    for i in range(len(STRANGE)):
        yield ["strange", i]
    for index in range(256):
        yield ["palette", index]
    for n in (1, 2):
        for items in itertools.product(range(len(SPANS)), repeat=n):
            yield ["spans", list(items)]
    for n in (3,) if tier == "quick" else (3, 4):
        for items in itertools.product(range(len(FEW)), repeat=n):
            yield ["fewspans", list(items)]
    if tier == "thorough":
        for text in range(2):
            for at in range(4):
                for seqs in itertools.product(range(2, len(TOKENS)), repeat=3):
                    tokens = list(seqs)
                    tokens.insert(at, text)
                    yield ["str", tokens]


def look(span):
    """(styles, fg, bg) of a span, in the emulator's terms."""

    styles = frozenset(code for name, code in (*STYLE_CODE.items(), ("opaque", 99)) if getattr(span, name))
    out = [styles]
    for color, background in ((span.foreground, False), (span.background, True)):
        out.append(None if color is None else (tuple(color.rgb), color.alpha, color.is_background == background))
    return tuple(out)


def shown(cells):
    out = []
    for char, styles, fg, bg in cells:
        entry = [char, styles]
        for color in (fg, bg):
            if color is None:
                entry.append(None)
            elif isinstance(color[-1], float):
                entry.append((sgr_rgb(color[:-1]), color[-1], True))
            else:
                entry.append((sgr_rgb(color), 1.0, True))
        out.append(tuple(entry))
    return out


def forget(cells):
    return [tuple((c[0], 1.0, c[2]) if isinstance(c, tuple) else c for c in cell) for cell in cells]


def check(text, ctx):
    spans = list(Span.yield_from(text))
    got = [(char, *look(span)) for span in spans for char in span.text]
    want, errors = interpret_line(text, extended=True)
    assert not errors, (text, errors)
    want = shown(want)
    ctx.step(1 + len(spans))
    ctx.trace()
    ctx.state(tuple(want))
    ctx.outcome(tuple(w[1:] for w in want))
    if got != want:
        ctx.fail(f"{text!r} parsed as {spans}; a terminal shows {want}")
    # rendering the spans again displays the same
    again, errors = interpret_line("".join(map(str, spans)), extended=True)
    if any(span.foreground and span.foreground.alpha != 1.0 or span.background and span.background.alpha != 1.0 for span in spans):
        want, again = forget(want), forget(shown(again))  # a colour's opacity is not part of what is rendered
    else:
        again = shown(again)
    if errors or again != want:
        ctx.fail(f"{text!r} rendered again as {''.join(map(str, spans))!r}: {errors or 'displays differently'}")
    first = Span.first_from(text)
    if spans:
        ctx.eq(first, spans[0], f"first_from({text!r})")
    else:
        ctx.eq(first, None, f"first_from({text!r})")


WOVEN = ["a\x1b[1mb\x1b[31mc", "\x1b[4md\x1b[24me", "f", "\x1b[44mg\x1b[0mh\x1b[3mi", "\x1b[2;38;2;1;2;3mj\x1b[22mk\x1b[mlm", "",
         "\x1b[7mn\x1b[77mo"]


def parts(text):
    out = []
    try:
        for span in Span.yield_from(text):
            out.append((span.text, look(span)))
    except ValueError:
        out.append("refused")
    return out


def weave(data, ctx):
    """Several strings parsed at once, in every order of steps; some are never parsed to the end."""

    texts = [WOVEN[i] for i in data]
    want = [parts(text) for text in texts]
    if len(data) == 2:
        for text, parsed in zip(texts, want):
            if "refused" not in parsed:
                check(text, ctx)
    steps = [min(len(parsed) + 1, 4) for parsed in want]
    for order in set(itertools.permutations([k for k, n in enumerate(steps) for _ in range(n)])) if len(data) == 2 else [
            [k for n in range(4) for k in range(len(data)) if n < steps[k]]]:
        running = [iter(Span.yield_from(text)) for text in texts]
        got = [[] for _ in texts]
        for k in order:
            ctx.step()
            try:
                span = next(running[k])
                got[k].append((span.text, look(span)))
            except StopIteration:
                pass
            except ValueError:
                got[k].append("refused")
        for k, text in enumerate(texts):
            ctx.eq(got[k], want[k][: len(got[k])], f"{text!r} parsed in turn with others of {texts}, order {order}")
        ctx.trace()
    for text, parsed in zip(texts, want):
        left = iter(Span.yield_from(texts[0]))
        next(left, None)  # and never again
        ctx.eq(parts(text), parsed, f"{text!r} parsed while {texts[0]!r} is being parsed")
    ctx.state(tuple(data))


def raises(text, ctx):
    try:
        spans = list(Span.yield_from(text))
    except ValueError:
        return
    ctx.fail(f"{text!r} has an unknown code but was parsed as {spans}")


KNOWN = ({0} | set(range(1, 10)) | {22, 23, 24, 25, 26, 27, 28, 29, 39, 49, 99} | set(range(30, 38))
         | set(range(40, 48)) | set(range(90, 98)) | set(range(100, 108)))


def run_case(case, ctx):
    kind, data = case
    ctx.sample(case)
    if kind == "str":
        check("".join(TOKENS[i] for i in data), ctx)
        if len(data) < 3 or (data and data[-1] >= 2):
            check("".join(TOKENS[i] for i in data) + "z", ctx)
    elif kind == "woven":
        weave(data, ctx)
    elif kind == "few":
        check("".join(SMALL[i] for i in data), ctx)
    elif kind == "long":
        first, second, count = data
        check("a" + (SMALL[first] + "b" + SMALL[second] + "c d") * count, ctx)
        check("x" * count + SMALL[first] + "y" * count + SMALL[second] + "z" * count, ctx)
    elif kind == "params":
        seq = ";".join(PARAMS[i] for i in data)
        check(f"\x1b[{seq}mq", ctx)
        check(f"\x1b[1;31;44;99mp\x1b[{seq}mq\x1b[0mr", ctx)
        if len(data) < 3:  # leading zeroes, as printed by some programs
            for size in (2, 3):
                padded = ";".join(p.zfill(size) if p.isdigit() else p for p in seq.split(";"))
                check(f"\x1b[{padded}mq", ctx)
                check(f"\x1b[1;31;44;99mp\x1b[{padded}mq\x1b[00mr", ctx)
    elif kind == "code":
        ctx.step()
        if data in KNOWN:
            for before in ("", "1;", "31;", "4;38;5;7;"):
                for after in ("", ";3", ";107"):
                    check(f"p\x1b[{before}{data}{after}mq\x1b[0mr", ctx)
        elif data not in (38, 48):
            for template in ("{}", "1;{}", "{};1", "31;{};4", "0;{}", "48;5;3;{}"):
                raises("a\x1b[" + template.format(data) + "mb", ctx)
                raises("\x1b[1mc\x1b[" + template.format(data) + "mb", ctx)
    elif kind == "strange":
        ctx.step()
        ctx.trace()
        for template in ("{}", "1;{}", "{};1", "31;{};4", "0;{}"):
            raises("a\x1b[" + template.format(STRANGE[data]) + "mb\x1b[0mc", ctx)
            raises("\x1b[" + template.format(STRANGE[data]) + "mb", ctx)
    elif kind == "palette":
        check(f"\x1b[38;5;{data}mx\x1b[48;5;{data}my\x1b[39mz", ctx)
        for k in range(3):
            rgb = [5, 6, 7]
            rgb[k] = data
            rgb = ";".join(map(str, rgb))
            check(f"\x1b[38;2;{rgb}mx\x1b[1;48;2;{rgb}my", ctx)
    else:
        table = SPANS if kind == "spans" else FEW
        spans = [to_span(spec(table[i])) for i in data]
        check("".join(map(str, spans)), ctx)
        if all(s.reset_after for s in spans):
            got = [(c, *look(s)) for s in Span.yield_from("".join(map(str, spans))) for c in s.text]
            want = [(c, *look(s)) for s in spans for c in s.text]
            ctx.eq(got, want, f"round trip of {spans}")
