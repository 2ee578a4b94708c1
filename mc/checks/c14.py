"""C14: emitted colours always fit the colour space in force."""

import itertools
import os

import slate
from slate import Color, ColorSpace, Screen, Span, Terminal, color
from slate import terminal as MAIN

from mc.emu import VT, parse_sgr
from mc.lab import Stream, set_size

ID = "C14"
DEPTH = {"quick": 4, "thorough": 6}
BOUNDS = {t: f"every history of <={d} colour-space changes over 9 (four forced spaces, override removed, four environments), "
             f"47 colours of all origins created at every point and re-used at every later point, alone, in new spans, in "
             f"screens written before the change and drawn after it; every palette code (16 colours, 256 indices, both layers) under every space that has it" for t, d in DEPTH.items()}
ASSUMPTIONS = ["the colour space in force is that of the library's own terminal object (slate.terminal)"]

MAKERS = [
    lambda: Color((1, 2, 3)),
    lambda: Color((200, 100, 50), is_background=True),
    lambda: Color((255, 255, 255)),
    lambda: Color.white(),
    lambda: Color.black(is_background=True),
    lambda: color("#12fE09"),
    lambda: color("#12fe0980"),
    lambda: color("tomato"),
    lambda: color("slate").as_background(),
    lambda: color("31"),
    lambda: color("37"),
    lambda: color("97"),
    lambda: color("44"),
    lambda: color("103"),
    lambda: color("38;5;7"),
    lambda: color("38;5;200"),
    lambda: color("48;5;17"),
    lambda: color("48;5;255"),
    lambda: color("232"),
    lambda: color("38;2;5;200;7"),
    lambda: color("48;2;5;200;7"),
    lambda: color("48;2;250;250;250;0.5"),
    lambda: color("31").as_background(),
    lambda: color("38;5;99").as_background(),
    lambda: color("48;5;99").as_background(False),
    lambda: color("tomato").lighten(2),
    lambda: color("48;2;5;200;7").complement,
    lambda: color("33").blend(color("#0000ff"), 0.5),
    lambda: color("38;5;160").contrast,
    lambda: color("38;5;160").as_alpha(0.5),
    *(lambda code=code: color(code) for code in ("30", "34", "36", "90", "95", "40", "43", "47", "100", "106", "107", "38;5;0", "48;5;15", "48;5;231")),
    lambda: Color((0, 0, 0)),
    lambda: color("40").as_background(False),
    lambda: color("30").as_background(),
]

SPACES = ["no_color", "standard", "eight_bit", "true_color"]
CHANGES = [*SPACES, None, "env:true_color", "env:standard", "env:NO_COLOR", "env:256"]


def legal(code, space, background):
    """Whether an SGR colour may be used in a colour space."""

    indexed = len(code) == 3 and code[1] == 5
    if space == "no_color":
        return indexed and 232 <= code[2] <= 255
    if space == "standard":
        return len(code) == 1
    if space == "eight_bit":
        return indexed or len(code) == 1
    return True


def check(ansi, space, background, ctx, what):
    (styles, fg, bg), err = parse_sgr(ansi, (frozenset(), None, None))
    code, other = (bg, fg) if background else (fg, bg)
    if err or code is None or other is not None or styles:
        ctx.fail(f"{what}: {ansi!r} is not one colour of its layer ({err})")
    if not legal(code, space, background):
        ctx.fail(f"{what}: {ansi!r} is not available in {space}")


PALETTE_CODES = [*(str(base + i) for base in (30, 40, 90, 100) for i in range(8)), *(f"{lead};5;{i}" for lead in (38, 48) for i in range(256)),
                 *map(str, range(108, 256))]


def entry(code):
    """The palette entry an SGR colour names."""

    if len(code) == 1:
        return code[0] % 10 + (8 if code[0] >= 90 else 0)
    return code[2] if code[1] == 5 else None


def run_codes(start, ctx):
    """A palette colour stays that palette entry where the colour space has it."""

    ctx.trace()
    reset()
    for text in PALETTE_CODES[start : start + 32]:
        index = int(text.rpartition(";")[2]) if ";" in text or int(text) > 107 else entry((int(text),))
        background = text.startswith("48;") or text in PALETTE_CODES[8:16] + PALETTE_CODES[24:32]
        for space in SPACES[2:] if ";" in text or int(text) > 107 else SPACES[1:]:
            ctx.step()
            MAIN.color_space = ColorSpace(space)
            for c in (color(text), Color.from_ansi(text)):
                (_, fg, bg), err = parse_sgr(c.ansi, (frozenset(), None, None))
                code = bg if background else fg
                if err or code is None or entry(code) != index:
                    ctx.fail(f"colour {text!r} is emitted as {c.ansi!r} in {space}, which is not palette entry {index}")
            span = Span("x", **{"background" if background else "foreground": color(text)})
            screen = Screen(1, 1)
            screen.write([span])
            for data in (str(span), screen.render(origin=(1, 1), redraw=True)):
                vt = VT(2, 1)
                vt.feed(data)
                code = vt.grid[0][0][3 if background else 2]
                if code is None or entry(code) != index:
                    ctx.fail(f"text in colour {text!r} is drawn as {data!r} in {space}, which does not use palette entry {index}")
            ctx.state((text, space))
            ctx.outcome((index, background, space))


def cases(tier):
    for start in range(0, len(PALETTE_CODES), 32):
        yield {"codes": start}
    for n in range(0, DEPTH[tier] + 1):
        for changes in itertools.product(range(len(CHANGES)), repeat=n):
            # the deepest level starts from a forced space, the others cover unforced starts
            if n > 3 and changes[0] > 3:
                continue
            if n > 4 and len(set(changes)) < 3:
                continue
            yield list(changes)


def reset():
    for key in ("SLATE_COLORSYS", "NO_COLOR", "COLORTERM"):
        os.environ.pop(key, None)
    os.environ["TERM"] = "xterm-256color"
    MAIN.color_space = None


def run_case(case, ctx):
    ctx.sample(case if isinstance(case, dict) else [CHANGES[i] for i in case])
    env = dict(os.environ)
    seen = []
    try:
        if isinstance(case, dict):
            run_codes(case["codes"], ctx)
        else:
            run(case, ctx)
    finally:
        for key in list(os.environ):
            if key not in env:
                del os.environ[key]
        os.environ.update(env)
        MAIN.color_space = None
        MAIN.on_color_space_set.clear()


def run(case, ctx):
    reset()
    forced, detected = None, "eight_bit"
    calls, inside = [], []
    MAIN.on_color_space_set.clear()
    MAIN.on_color_space_set += lambda v: calls.append((1, v)) or inside.append(MAIN.color_space) or True
    MAIN.on_color_space_set += lambda v: calls.append((2, v)) or False
    colors = [(k, make()) for k, make in enumerate(MAKERS)]
    screens = []
    space = detected
    for step in range(len(case) + 1):
        if step:
            change = CHANGES[case[step - 1]]
            ctx.step()
            if change is None or not change.startswith("env:"):
                forced = change
                value = None if change is None else ColorSpace(change)
                del calls[:], inside[:]
                MAIN.color_space = value
                ctx.eq([s.value for s in inside], [value.value if value else detected], "colour space in force when its change is announced")
                ctx.eq(calls, [(1, value), (2, value)], "notifications of a colour space change")
            else:
                for key in ("SLATE_COLORSYS", "NO_COLOR"):
                    os.environ.pop(key, None)
                kind = change[4:]
                if kind == "NO_COLOR":
                    os.environ["NO_COLOR"] = ""
                    detected = "no_color"
                elif kind == "256":
                    detected = "eight_bit"
                else:
                    os.environ["SLATE_COLORSYS"] = kind
                    detected = kind
        space = forced or detected
        ctx.eq(MAIN.color_space.value, space, "colour space in force")
        if step in (1, len(case)) and step:
            colors += [(k, make()) for k, make in list(enumerate(MAKERS))[step % 2 :: 2]]
        fresh = {}
        for k, c in colors:
            what = f"colour #{k} ({c!r})"
            check(c.ansi, space, c.is_background, ctx, what)
            if k not in fresh:
                fresh[k] = MAKERS[k]().ansi
            ctx.eq(c.ansi, fresh[k], what + " compared with a fresh one")
            ctx.state((tuple(case[:step]), k))
        if len(case) > 2 and step < len(case):
            continue
        for k, c in colors[:: 3]:
            span = Span("x", **{"background" if c.is_background else "foreground": c})
            vt = VT(4, 1)
            vt.feed(str(span))
            cell = vt.grid[0][0]
            code = cell[3] if c.is_background else cell[2]
            if vt.errors or code is None or not legal(code, space, c.is_background):
                ctx.fail(f"new span in {space} renders {str(span)!r}")
        # screens written in earlier spaces, drawn now
        for screen in screens:
            draw(screen, space, ctx)
        screen = Screen(len(MAKERS), 2)
        for k, c in colors[: len(MAKERS)]:
            screen.write([Span("x", **{"background" if c.is_background else "foreground": c})], cursor=(k, 0))
        screens.append(screen)
    # written in the previous space, drawn in the last: incremental first, then in full
    for screen in screens:
        draw(screen, space, ctx)
    other = next(s for s in SPACES if s != space)
    MAIN.color_space = ColorSpace(other)
    for screen in screens:
        draw(screen, other, ctx)
        screen.write([Span("y", colors[0][1])], cursor=(0, 1))
        draw(screen, other, ctx)
    ctx.trace()
    ctx.outcome(tuple(case))


def draw(screen, space, ctx):
    for redraw in (False, True):
        vt = VT(screen.width, screen.height)
        data = screen.render(origin=(1, 1), redraw=redraw)
        vt.feed(data)
        if vt.errors:
            ctx.fail(f"draw in {space}: {vt.errors[0]}")
        for row in vt.grid:
            for char, _, fg, bg in row:
                for code in (fg, bg):
                    if code is not None and not legal(code, space, code is bg):
                        ctx.fail(f"screen drawn in {space} (redraw={redraw}) uses {code}")
