"""C15: downgraded colours are the documented best approximations."""

import itertools

from slate import Color, ColorSpace
from slate import terminal as MAIN

from mc.css import PALETTE, sgr_rgb
from mc.emu import parse_sgr

ID = "C15"
BOUNDS = {
    "quick": "all RGB values on a 33^3 lattice, all values within 2 of every rounding boundary of each channel, all greys, all "
             "palette colours, on both layers, in three colour spaces; a 9^3 lattice with four opacities",
    "thorough": "all 2^24 RGB values in three colour spaces (background layer on a 33^3 lattice)",
}
STEPS = [round(i * 255 / 32) for i in range(33)]
EDGES = sorted({v + d for k in range(5) for v in (round(51 * k + 25.5),) for d in (-1, 0, 1)} | {0, 255})


def cases(tier):
    yield ["greys"]
    yield ["palette"]
    for alpha in (0.0, 0.25, 0.5, 0.99):
        yield ["alpha", alpha]
    for r in STEPS:
        yield ["lattice", r]
    for r in EDGES:
        yield ["edges", r]
    if tier == "thorough":
        for r in range(256):
            for g in range(256):
                yield ["full", r, g]


def lightness(rgb):
    """CIE L* / 100 of an sRGB colour, from the standard's definition."""

    total = 0.0
    for value, weight in zip(rgb, (0.2126, 0.7152, 0.0722)):
        v = value / 255
        total += weight * (v / 12.92 if v <= 0.04045 else ((v + 0.055) / 1.055) ** 2.4)
    return (total * 24389 / 27 if total <= 216 / 24389 else 116 * total ** (1 / 3) - 16) / 100


def distance2(a, b):
    mean = (a[0] + b[0]) // 2
    dr, dg, db = a[0] - b[0], a[1] - b[1], a[2] - b[2]
    return (2 + mean / 256) * dr * dr + 4 * dg * dg + (2 + (255 - mean) / 256) * db * db


CODES = {}
for i in range(16):
    CODES[str(30 + i if i < 8 else 82 + i)] = (False, i)
    CODES[str(40 + i if i < 8 else 92 + i)] = (True, i)


def standard(c, rgb, background, ctx):
    ansi = c.ansi
    layer, index = CODES.get(ansi, (None, None))
    if layer is not background:
        ctx.fail(f"{rgb} on {'back' if background else 'fore'}ground in standard emits {ansi!r}")
    got = distance2(rgb, PALETTE[index])
    for other in PALETTE[:16]:
        if distance2(rgb, other) < got - 1e-6:
            ctx.fail(f"{rgb} in standard emits {ansi} {PALETTE[index]}, but {other} is nearer")


def eight_bit(c, rgb, background, ctx):
    index = 16
    for value, weight in zip(rgb, (36, 6, 1)):
        index += weight * ((value + 25) // 51)  # nearest of 0, 51, ... 255; there are no ties
    want = f"{48 if background else 38};5;{index}"
    if c.ansi != want:
        ctx.fail(f"{rgb} in eight bit emits {c.ansi!r}, expected {want!r}")


def no_color(c, rgb, background, ctx):
    exact = min(232 + 23 * lightness(rgb), 255)
    lead, five, index = c.ansi.split(";")
    if lead != str(48 if background else 38) or five != "5" or abs(int(index) - exact) > 0.5 + 1e-9:
        ctx.fail(f"{rgb} in no_color emits {c.ansi!r}, expected step {exact}")


CHECKS = (("standard", standard), ("eight_bit", eight_bit), ("no_color", no_color))


def check(values, backgrounds, ctx, **options):
    colors = [(Color(rgb, is_background=b, **options), rgb, b) for rgb in values for b in backgrounds]
    try:
        for space, fn in CHECKS:
            MAIN.color_space = ColorSpace(space)
            for c, rgb, b in colors:
                fn(c, rgb, b, ctx)
            ctx.step(len(colors))
            ctx.trace(len(colors))
            for c, _, _ in colors[:: 16]:
                ctx.outcome(c.ansi)
    finally:
        MAIN.color_space = None
    for _, rgb, b in colors:
        ctx.state((rgb, b))
        if len(ctx.states) > 300000:
            break


def run_case(case, ctx):
    kind, *rest = case
    ctx.sample(case)
    if kind == "lattice":
        check([(rest[0], g, b) for g in STEPS for b in STEPS], (False, True), ctx)
    elif kind == "alpha":
        check(list(itertools.product(STEPS[::4], repeat=3)), (False, True), ctx, alpha=rest[0])
    elif kind == "edges":
        check([(rest[0], g, b) for g in EDGES for b in EDGES], (False, True), ctx)
    elif kind == "full":
        check([(rest[0], rest[1], b) for b in range(256)], (False,), ctx)
    elif kind == "palette":
        check(PALETTE, (False, True), ctx)
        try:
            MAIN.color_space = ColorSpace.STANDARD
            for i, rgb in enumerate(PALETTE[:16]):
                (_, fg, _), err = parse_sgr(Color(rgb).ansi, (frozenset(), None, None))
                ctx.eq(sgr_rgb(fg), rgb, f"palette colour {i} on a standard terminal")
        finally:
            MAIN.color_space = None
    else:
        greys = [(v, v, v) for v in range(256)]
        check(greys, (False, True), ctx)
        try:
            MAIN.color_space = ColorSpace.NO_COLOR
            steps = [int(Color(g).ansi.split(";")[2]) for g in greys]
        finally:
            MAIN.color_space = None
        ctx.eq(steps, sorted(steps), "grey steps in order of brightness")
        ctx.eq((steps[0], steps[-1]), (232, 255), "grey steps of black and white")
