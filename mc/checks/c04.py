"""C04: the cursor follows every write and is where the next write goes."""

import itertools

from mc.lab import sp
from mc.screens import ASSUMPTIONS, CLOSURES, DRAW, REDRAW, RED, b, big_histories, closures, execute, terminal_histories, w

ID = "C04"
OPS = [
    w([sp("a")]),
    w([sp("a")], (0, 0)),
    w([sp("ab", ["bold"]), sp("c")]),
    w([sp("ab"), sp("", ["bold"]), sp("cd")], (2, 0)),
    w([sp("a\nb")]),
    w([sp("\n")]),
    w([sp("a\n")], (2, 1)),
    w([]),
    w([], (1, 1)),
    w([sp("")], (1, 1)),
    w([sp("abcdef")], (0, 0)),
    w([sp("abcdefgh")], (1, 0)),
    w([sp("a")], (-1, 0)),
    w([sp("a")], (3, 1)),
    w([sp("ab", [], RED)], (1, 3)),
    b(((0, 0), [sp("ab")]), ((2, 1), [sp("c")])),
    b(((0, 0), [sp("ab")]), ((1, 0), [])),
    b(),
    ["cur", 1, 1],
    ["clear"],
    DRAW,
    ["resize", 2, 3],
    w([], (1, 4)),
    w([], (-1, -2)),
    w([sp("\n\n\n")], (1, 0)),
    b(((0, 0), [sp("ab")]), ((1, 5), [])),
    ["cur", 2, 4],
    ["cur", -1, 0],
    b(((1, 1), [sp("a")]), ((0, 0), [sp("bc")]), ((1, 0), [sp("d")])),
    b(((0, 3), [sp("a")]), ((0, 1), [sp("b")]), ((2, 2), [sp("cd")])),
    b(((0, 0), [sp("a")]), ((0, 3), [sp("b")]), ((-1, 1), [sp("c")])),
    b(((0, 3), [sp("a")]), ((1, 1), [])),
    b(((0, 4), [sp("a")]), ((1, 7), [])),
    b(((2, 1), [sp("a")]), ((0, 0), []), ((1, 1), [sp("b"), sp("c", ["bold"])])),
]
DEEP = [OPS[i] for i in (0, 3, 4, 11, 14, 15, 18, 19, 20, 21)]
# on 2x2
CLOSED = [
    w([sp("a")]),
    w([sp("a\nb")]),
    w([sp("\n")]),
    w([], (1, 1)),
    w([sp("ab", ["bold"]), sp("c")], (1, 0)),
    w([sp("a")], (-1, 0)),
    w([sp("b", [], RED)], (1, 2)),
    b(((0, 0), [sp("ab")]), ((1, 1), [sp("c")]), ((0, 1), [])),
    ["cur", 1, 1],
    ["cur", 0, 3],
    ["clear"],
    ["resize", 1, 3],
    ["resize", 2, 2],
]


def cases(tier):
    for cursor in ((0, 0), (2, 1), (1, 2), (3, 0)):
        for n in range(3):
            for ops in itertools.product(OPS + [REDRAW], repeat=n):
                yield [{"width": 3, "height": 2, "cursor": list(cursor)}, list(ops)]
    for ops in itertools.product(OPS, repeat=3):
        yield [{"width": 3, "height": 2}, list(ops)]
    yield from big_histories()
    yield from terminal_histories(3)
    for n in range(4, 6 if tier == "quick" else 7):
        for ops in itertools.product(DEEP, repeat=n):
            yield [{"width": 3, "height": 2}, list(ops)]
    if tier == "thorough":
        for ops in itertools.product(OPS, repeat=4):
            yield [{"width": 3, "height": 2}, list(ops)]
    yield from closures(tier, CLOSED, 3 if tier == "quick" else 2)


BOUNDS = {
    "quick": "all histories of <=3 operations over 34 operations on a 3x2 screen (four initial cursors up to 2), "
             "<=5 over 10 of them, <=3 through Terminal over 21; large screens as in C01",
    "thorough": "all histories of <=4 operations over 34 operations on a 3x2 screen, <=6 over 10 of them, "
                "<=3 through Terminal over 21; large screens as in C01",
}
BOUNDS = {tier: text + CLOSURES.format(3, 13) for tier, text in BOUNDS.items()}


def run_case(case, ctx):
    execute(case, ctx, "ck")
