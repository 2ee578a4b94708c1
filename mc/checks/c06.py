"""C06: resizing keeps the overlapping content; clearing erases everything."""

import itertools

from mc.lab import sp
from mc.screens import ASSUMPTIONS, CLOSURES, BLUE, DRAW, GREEN, REDRAW, RED, b, big_histories, closures, execute, terminal_histories, w

ID = "C06"
BOUNDS = {
    "quick": "every sequence of <=3 resizes over all sizes 1..4 x 1..3 from two sizes, with a full or partial styled "
             "content and draws after each; all histories of <=4 operations over 18 operations; between all pairs of sizes 1..6 x 1..6 and {1, 2, 5, 12, 50} x {1, 2, 5, 12, 50}, full of different cells; through empty sizes; large screens as in C01",
    "thorough": "every sequence of <=4 resizes over all sizes 1..4 x 1..3; all histories of <=5 over 18 operations",
}
BOUNDS = {tier: text + CLOSURES.format(3, 13) for tier, text in BOUNDS.items()}
SIZES = [(x, y) for y in (1, 2, 3) for x in (1, 2, 3, 4)]

OPS = [
    w([sp("abcdef", ["bold"], RED)], (0, 0)),
    w([sp("x", [], None, GREEN), sp("y", ["italic"])], (1, 1)),
    w([sp("z")]),
    w([sp("s", [], BLUE)], (0, 2)),
    w([sp("qr")], (3, 0)),
    ["resize", 2, 1],
    ["resize", 4, 3],
    ["resize", 3, 2],
    ["resize", 2, 3],
    ["resize", 4, 3, "."],
    ["resize", 4, 3, "-", False],
    ["resize", 3, 2, " ", False],
    ["clear"],
    ["clear", "#"],
    ["clear", "é"],
    b(((0, 0), [sp("mn", [], RED)]), ((0, 0), [sp(" ", [], None, (*GREEN, 0.5))])),
    DRAW,
    REDRAW,
]
LARGER = (1, 2, 5, 12, 50)
# on 2x2
CLOSED = [
    w([sp("abcd", ["bold"], RED)], (0, 0)),
    w([sp("y", [], None, GREEN)], (1, 1)),
    w([sp("z")]),
    w([sp("s", [], BLUE)], (0, 2)),
    ["resize", 1, 1],
    ["resize", 3, 2],
    ["resize", 1, 3],
    ["resize", 2, 2, "."],
    ["resize", 2, 3, "-", False],
    ["resize", 2, 2],
    ["clear"],
    ["clear", "#"],
    REDRAW,
]


def resized(before, after):
    """One size to another (and back), drawn in between and not."""

    width, height = before
    colors = [None, RED, GREEN, BLUE]
    rows = [w([sp("".join(chr(97 + (x + 7 * y) % 26) for x in range(width)), ["bold"] if y % 2 else [], colors[y % 4])], (0, y))
            for y in range(height)]
    screen = {"width": width, "height": height}
    yield [screen, [*rows, ["resize", *after]]]
    yield [screen, [*rows, DRAW, ["resize", *after], DRAW]]
    yield [screen, [*rows, ["resize", *after], ["resize", *before]]]
    yield [screen, [*rows, DRAW, ["resize", *after], w([sp("NEW", [], RED)], (0, after[1] - 1)), DRAW, ["resize", *before], DRAW]]


def cases(tier):
    for fill in (" ", "."):
        for width, height in SIZES:
            yield [{"width": width, "height": height, "fill": fill}, []]
            yield [{"width": width, "height": height, "fill": fill}, [["clear"]]]
            yield [{"width": width, "height": height, "fill": fill}, [w([sp("a")], (0, 0)), ["resize", 3, 3]]]
    for width, height in ((3, 2), (4, 3)):
        for content in ("abcdefghijkl", "ab\ncd"):
            first = w([sp(content[:3], ["bold"], RED), sp(content[3:], [], None, GREEN)], (0, 0))
            for n in range(1, 4 if tier == "quick" else 5):
                for sizes in itertools.product(SIZES, repeat=n):
                    ops = [["resize", *size] for size in sizes]
                    yield [{"width": width, "height": height}, [first, *ops]]
                    if n <= 2:
                        drawn = [x for op in ops for x in (op, DRAW)]
                        yield [{"width": width, "height": height}, [first, DRAW, *drawn]]
                        yield [{"width": width, "height": height}, [first, *ops, w([sp("NEW")], (0, 0))]]
                        yield [{"width": width, "height": height}, [first, *ops, ["clear"]]]
                        yield [{"width": width, "height": height},
                               [first, *ops[:1], ["clear", "#"], *ops[1:], w([sp("z")])]]
    # from every size to every other, all of it covered with different cells
    for before in itertools.product(range(1, 7), repeat=2):
        for after in itertools.product(range(1, 7), repeat=2):
            yield from resized(before, after)
    for before in itertools.product(LARGER, repeat=2):
        for after in itertools.product(LARGER, repeat=2):
            yield from resized(before, after)
    # nothing is left of a screen that was reduced to nothing
    for n in (1, 2):
        for sizes in itertools.product(((0, 0), (3, 0), (0, 2), (2, 1)), repeat=n):
            for after in SIZES:
                ops = [["resize", *size] for size in (*sizes, after)]
                for extra in ([], [DRAW], [w([sp("NEW")], (0, 0))], [["clear"], DRAW]):
                    yield [{"width": 3, "height": 2}, [w([sp("abcdef", ["bold"], RED)], (0, 0)), *ops, *extra]]
                    yield [{"width": 3, "height": 2}, [w([sp("abcdef", ["bold"], RED)], (0, 0)), DRAW, *ops, *extra]]
    yield from big_histories()
    yield from terminal_histories(3)
    for n in range(1, 5 if tier == "quick" else 6):
        for ops in itertools.product(OPS, repeat=n):
            yield [{"width": 3, "height": 2}, list(ops)]
    yield from closures(tier, CLOSED, 3 if tier == "quick" else 2)


def run_case(case, ctx):
    lab = execute(case, ctx, "ck")
    if lab is not None and lab.screen is not None:
        ctx.eq((lab.screen.width, lab.screen.height), (lab.model.width, lab.model.height), "screen size")
