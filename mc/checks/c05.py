"""C05: writing below the last row scrolls exactly as far as needed."""

import itertools

from mc.lab import sp
from mc.screens import ASSUMPTIONS, CLOSURES, BLUE, DRAW, GREEN, REDRAW, RED, b, big_histories, closures, execute, terminal_histories, w

ID = "C05"
BOUNDS = {
    "quick": "all histories of <=4 operations over 18 operations (3x2), <=3 over 30 on 2x1, 3x2 and 4x3 screens; "
             "every run of 1..40 consecutive log lines on 6x4, 12x11; large screens as in C01; <=2 through Terminal",
    "thorough": "all histories of <=5 operations over 18 operations (3x2), <=4 over 30 on 2x1 and 3x2; otherwise as quick",
}
BOUNDS = {tier: text + CLOSURES.format(3, 14) for tier, text in BOUNDS.items()}


def ops_for(width, height):
    h = height
    return [
        w([sp("a", ["bold"], RED)], (0, 0)),
        w([sp("b", [], None, GREEN)], (0, h - 1)),
        w([sp("c", [], BLUE)], (0, h)),
        w([sp("d", [], RED), sp("e", ["underline"])], (0, h)),
        w([sp("f")], (1, h + 1)),
        w([sp("gh")], (width - 1, h)),
        w([sp("i", ["bold"], RED)], (0, 2 * h)),
        w([sp("j")], (0, 3 * h + 1)),
        w([sp("k")]),
        w([sp("l\nm")], (0, h)),
        b(((0, h), [sp("n", [], RED)]), ((0, 0), [sp("o")]), ((0, h - 1), [sp("p")])),
        b(((0, h - 1), [sp("q")]), ((0, h), [sp("r", ["bold"])]), ((0, h + 1), [sp("s", [], None, BLUE)])),
        w([sp("t")], (0, 1)),
        DRAW,
        REDRAW,
        ["clear"],
        ["resize", width, height + 1],
        ["resize", width + 1, max(height - 1, 1)],
        ["cur", 0, -1],
        ["cur", 0, h],
        w([], (0, h + 2)),
        w([sp("")], (0, h)),
        w([sp("c", [], BLUE)], (0, h), True),
        w([sp("u")], (-1, h)),
        w([sp(" ", [], None, GREEN)], (width - 1, h - 1)),
        w([sp(" " * width, ["underline"], RED, BLUE)], (0, h - 1)),
        b(((0, h), [sp("x", [], RED)]), ((0, h + 2), []), ((0, h), [sp("y")]), ((1, h), [sp("z")])),
        b(((0, h - 1), []), ((0, h + 1), [sp("y")]), ((0, 0), []), ((0, h), [sp("z", [], None, RED)])),
        ["clear", "."],
        b(((0, h + 1), [sp("y")]), ((0, h), [])),
        b(((0, h), [sp("v", [], RED)]), ((0, h), [sp(" ", [], None, (*GREEN, 0.5))]), ((0, h + 1), [sp("w")])),
    ]


def cases(tier):
    wide_sizes = ((2, 1), (3, 2), (4, 3))
    for n in (1, 2, 3):
        for width, height in wide_sizes:
            for ops in itertools.product(ops_for(width, height), repeat=n):
                yield [{"width": width, "height": height}, list(ops)]
    yield from logs()
    yield from big_histories()
    yield from terminal_histories(2)
    core = ops_for(3, 2)[:18]
    for n in range(4, 5 if tier == "quick" else 6):
        for ops in itertools.product(core, repeat=n):
            yield [{"width": 3, "height": 2}, list(ops)]
    if tier == "thorough":
        for width, height in wide_sizes[:2]:
            for ops in itertools.product(ops_for(width, height), repeat=4):
                yield [{"width": width, "height": height}, list(ops)]
    pool = ops_for(2, 2)
    yield from closures(tier, [pool[i] for i in (0, 2, 4, 8, 9, 11, 12, 14, 15, 16, 17, 20, 22, 30)],
                        3 if tier == "quick" else 2)


def logs():
    """A log that keeps growing, drawn every k lines; the same span object is written again."""

    for width, height in ((6, 4), (12, 11)):
        for total in range(1, 41):
            for every in (1, 2, 5):
                ops = []
                for i in range(total):
                    ops.append(w([sp("row ", ["bold"], RED), sp(str(i % 3))], (0, i)))
                    if (i + 1) % every == 0:
                        ops.append(DRAW)
                yield [{"width": width, "height": height}, ops]


def run_case(case, ctx):
    execute(case, ctx, "ck")
