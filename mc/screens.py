"""Enumerations of screen histories shared by the screen checks."""

from __future__ import annotations

import itertools

from .lab import sp

RED, GREEN, BLUE = (200, 10, 20), (0, 250, 9), (1, 2, 255)
DARK, PALE = (16, 32, 48), (240, 230, 220)

ASSUMPTIONS = [
    "the terminal interprets the sequences as an xterm-compatible one does (mc/emu.py)",
    "characters are one column wide",
    "a screen that scrolls reaches down to the terminal's last row, as Terminal's own does (it uses the terminal's own scrolling)",
]


def styled(text, *styles, fg=None, bg=None, **kw):
    return sp(text, styles, fg, bg, **kw)


def w(spans, cursor=None, force=False):
    return ["w", spans, None if cursor is None else list(cursor), force]


def b(*items, force=False):
    return ["b", [[list(pos), spans] for pos, spans in items], force]


DRAW, REDRAW = ["draw"], ["redraw"]

# Small screen (3 x 2): the core alphabet, explored deepest
CORE = [
    w([sp("a")], (0, 0)),
    w([sp("a", ["bold"], RED), sp("bc", [], GREEN, BLUE)], (1, 0)),  # wraps, two styles
    DRAW,
    w([sp("x\ny", ["underline"])], (2, 0)),
    w([sp("k")]),  # at the cursor
    ["clear"],
    w([sp("a"), sp("b", [], None, RED)], (0, 2)),  # scrolls by one
    w([sp("a", ["bold"], RED)], (1, 0), True),  # forced
    b(((0, 1), [sp("qrs", ["italic"])]), ((1, 1), [sp(" ", [], None, (*GREEN, 0.5))])),
    ["resize", 2, 3],
    REDRAW,
    w([sp("   ")], (0, 0)),
    w([sp("zzzzzzzz", [], BLUE)], (1, 0)),  # longer than the screen
    ["clear", "#"],
    ["resize", 3, 2],
    w([sp("m", ["strike"], None, PALE)], (1, 4)),  # scrolls by several
]
CORE_NAMES = None

ALL_STYLES = ["bold", "dim", "italic", "underline", "blink", "fast_blink", "invert", "conceal", "strike"]


def wide():
    """A wider alphabet: one operation per behaviour a user can ask for, on a 4 x 3 screen."""

    ops = list(CORE)
    ops += [w([sp("s", [name])], (1, 1)) for name in ALL_STYLES]
    ops += [
        w([], (0, 0)),
        w([], (0, 7)),
        w([sp("")], (1, 1)),
        w([sp(""), sp("a")], (1, 1)),
        w([sp("a", ["bold"], RED, GREEN)], (3, 2)),  # last cell
        w([sp("ab", ["bold"], RED, GREEN)], (3, 2)),  # past the last cell
        w([sp("ab")], (-1, 0)),
        w([sp("ab")], (4, 0)),
        w([sp("ab")], (0, -1)),
        w([sp("ab")], (5, 9)),
        w([sp("\n", [], RED)], (1, 0)),
        w([sp("\na")], (1, 0)),
        w([sp("a\n")], (1, 0)),
        w([sp("a\n\nb", ["bold"])], (1, 0)),
        w([sp("a\nb")], (3, 0)),
        w([sp("a\nb")], (0, 2)),
        w([sp("a", ["bold"], reset=False), sp("b")], (0, 0)),
        w([sp("ab", ["bold"], RED, reset=False)], (0, 1)),
        w([sp("ab", [], None, DARK, reset=False)], (2, 1)),
        w([sp("ab", [], (*RED, 0.5))], (0, 0)),
        w([sp("ab", [], (*RED, 0.5), GREEN)], (0, 0)),
        w([sp("ab", [], None, (*RED, 0.25))], (1, 1)),
        w([sp("  ", [], None, (*RED, 0.25))], (1, 1)),
        w([sp("  ", ["underline"], None, None)], (1, 1)),
        w([sp("  ", ["invert"], RED, GREEN)], (1, 1)),
        w([sp("a")], None, True),
        w([sp("  ")], (1, 1), True),
        b(((0, 0), [sp(" ", [], None, RED)]), ((1, 0), [sp("  ")]), force=True),
        w([sp("abcdefghijkl")], (0, 0)),
        w([sp("abcdefghijkl")], (0, 0), True),
        w([sp("abcdefghijklmnop", [], None, GREEN)], (0, 1)),
        w([sp("a b c")], (0, 3)),
        w([sp("ab", ["bold"])], (0, 4)),
        w([sp("ab")], (2, 13)),
        b(),
        b(((0, 0), [])),
        b(((0, 0), [sp("ab", [], RED)]), ((1, 0), [sp("c", ["bold"])])),
        b(((0, 0), [sp("abcd")]), ((0, 3), [sp("e")]), ((1, 1), [sp("f", [], None, BLUE)])),
        b(((0, 4), [sp("e")]), ((0, 0), [sp("g")]), ((0, 2), [sp("h")])),
        b(((0, 0), [sp("ab")]), ((0, 0), [sp("ab")]), force=True),
        b(((0, 0), [sp("xy", [], RED, GREEN)]), ((0, 0), [sp("  ", [], None, (*BLUE, 0.5))])),
        b(((0, 0), [sp("xy", [], RED, GREEN)]), ((1, 0), [sp("  ", [], None, (*BLUE, 0.5), True)])),
        b(((0, 0), [sp("xy", ["bold"])]), ((0, 0), [sp(" z", [], RED, (*BLUE, 0.5))]),
          ((0, 0), [sp(" ", [], None, (*RED, 0.3))])),
        ["cur", 2, 1],
        ["cur", 0, 3],
        ["cur", 0, 0],
        ["resize", 4, 3],
        ["resize", 6, 4],
        ["resize", 2, 1],
        ["resize", 4, 3, "."],
        ["resize", 5, 4, ".", True],
        ["resize", 3, 4, " ", False],
        ["resize", 1, 1],
        ["clear", "."],
    ]
    return ops


SMALL = {"width": 3, "height": 2}
MEDIUM = {"width": 4, "height": 3}


def scrolls(op, height=None):
    """Whether an operation can scroll (then the screen must fill the terminal)."""

    if op[0] == "w":
        return op[2] is None or op[2][1] >= 1
    if op[0] == "b":
        return any(pos[1] >= 1 for pos, _ in op[1])
    return op[0] == "cur"


def no_scroll(ops):
    """Operations that never reach below a screen of one row, usable at any origin."""

    return [op for op in ops if not scrolls(op)]


DEPTH = {"quick": 4, "thorough": 5}

BOUNDS_HISTORIES = {
    "quick": "all histories of <=4 operations over 16 operations (3x2 screen); all histories of <=2 operations "
             "over 78 operations with none/draw/redraw between them (4x3); all histories of <=3 non-scrolling "
             "operations at three origins inside a larger terminal; all single operations and pairs on 13x12, "
             "130x3, 3x110, 300x2 and 2x270 screens, single operations and fills before and after on 120x60 and 60x120 (19 operations; up to 700 spans in a write, "
             "600 entries in a bulk, 700 rows scrolled); every pair of 45 looks of a cell written over each other, next to each other, drawn or "
             "not in between, with and without a change to each smaller colour space and back, and every triple of 14 of them; all histories of <=3 operations over 9 (with scrolling) on "
             "a screen at the bottom of a larger terminal; all histories of <=4 (Terminal: <=3) operations over 10 with changes "
             "of the origin; runs of up to 1100 rounds of one operation and a draw, 70001 rows scrolled",
    "thorough": "all histories of <=5 operations over 16 operations (3x2 screen); all histories of <=3 operations "
                "over 78 operations (4x3); triples of 24 looks; <=4 at the bottom of a larger terminal; otherwise as quick",
}


CLOSURES = ("; histories of any length (fixpoint of the states of the real screen, expanded up to 2 rows scrolled) over draw "
            "and every choice of {} of {} operations (2x2), over 8 alphabets of 6 to 14 operations on 1x1 to 2x2 "
            "screens and over 4 of 6 to 13 through Terminal")


def histories(tier):
    for n in range(0, DEPTH[tier] + 1):
        for ops in itertools.product(CORE, repeat=n):
            yield [SMALL, list(ops)]
        if n == 2:
            yield from wide_histories()
            yield from placed_histories()
            yield from big_histories()
            yield from look_histories(tier)
            yield from bottom_histories(tier)
            yield from moved_histories()
    if tier == "thorough":
        for ops in itertools.product(wide(), repeat=3):
            yield [MEDIUM, list(ops)]


def wide_histories():
    alphabet = wide()
    for op in alphabet:
        yield [MEDIUM, [op]]
    for first in alphabet:
        for second in alphabet:
            for between in ([], [DRAW], [REDRAW]):
                yield [MEDIUM, [first, *between, second]]


PLACED = [
    w([sp("ab", ["bold"], RED), sp("c", [], None, GREEN)], (1, 0)),
    w([sp("a\nb")], (2, 0)),
    w([sp("abcdefghi", [], BLUE)], (1, 0)),
    w([sp("k")]),
    b(((0, 0), [sp("xyz", [], RED)]), ((1, 0), [sp(" ", [], None, (*BLUE, 0.5))])),
    DRAW,
    REDRAW,
    ["clear"],
    ["resize", 2, 3],
    ["resize", 4, 2],
    ["resize", 3, 2],
]


MOVES = [["origin", 5, 3], ["origin", 1, 1]]


def moved_histories():
    """The origin changes between draws: what is drawn from then on appears at the new place."""

    setup = {"width": 3, "height": 2, "origin": [2, 2], "window": [12, 9]}
    ops = [*PLACED[:3], PLACED[4], DRAW, REDRAW, ["clear"], ["resize", 4, 2], *MOVES]
    for terminal in (False, True):
        setup = {**setup, "terminal": True} if terminal else setup
        for n in (1, 2, 3) if terminal else (1, 2, 3, 4):
            for combo in itertools.product(ops, repeat=n):
                if any(op in MOVES for op in combo):
                    yield [setup, list(combo)]


def long_histories():
    """One thing done over and over again."""

    marks = [w([sp(ch, [], RED if i % 3 else None)], (i % 3, i % 2)) for i, ch in enumerate("abcdefghij")]
    runs = [
        [op for i in range(1100) for op in (marks[i % 10], DRAW)],
        [op for i in range(1100) for op in (marks[i % 10], DRAW, DRAW)],
        [marks[0]] + [REDRAW] * 700 + [marks[1]] + [DRAW] * 1100,
        [op for i in range(300) for op in (["resize", 2 + i % 3, 2 + i % 2], marks[i % 10], DRAW)],
        [op for i in range(300) for op in (["clear"], marks[i % 10], DRAW)],
        [marks[i * 7 % 10] for i in range(1100)],
        [op for i in range(1100) for op in (w([sp(f"{i}"[-3:], [], GREEN)], (0, i)), DRAW)],
        [w([sp(f"{i}"[-3:], [], GREEN)], (0, i)) for i in range(1100)],
        [w([sp("x\n")]) for i in range(1100)],
        [w([sp("far")], (0, 70001)), DRAW, w([sp("cur", ["bold"])]), w([sp("top")], (0, 70000)), DRAW],
    ]
    for ops in runs:
        yield [SMALL, ops]
        yield [dict(SMALL, terminal=True), ops]


def placed_histories():
    for origin, margin in (((3, 2), (0, 0)), ((1, 1), (2, 3)), ((9, 10), (1, 1))):
        setup = {"width": 3, "height": 2, "origin": list(origin), "margin": list(margin)}
        for n in (1, 2, 3):
            for ops in itertools.product(PLACED, repeat=n):
                # A write at the cursor could scroll once the cursor is below the last row
                if any(op == PLACED[3] for op in ops[1:]):
                    continue
                yield [setup, list(ops)]


# Looks of one cell: any two of the first differ in few respects, so that each must be told from the others
LOOKS = [
    sp("a"), sp("b"), sp(" "), sp("a", ["bold"]), sp("a", [], RED), sp("a", [], None, RED), sp(" ", [], None, RED),
    sp(" ", [], None, GREEN), sp("a", [], None, GREEN), sp("a", [], RED, GREEN), sp(" ", ["underline"]),
    sp("a", ["underline", "bold"]), sp("a", [], (255, 255, 255)), sp(" ", [], RED),
    # -- the rest in pairs only
    *(sp("a", [name]) for name in ALL_STYLES[1:]), sp(" ", ["invert"], RED), sp("a", ["bold"], None, None, False, False),
    sp("a", [], None, (*RED, 0.5)), sp(" ", [], None, (*RED, 0.5)), sp("a", [], (*RED, 0.5)), sp("a", [], (0, 0, 0)),
    sp("a", [], None, (0, 0, 0)), sp("a", [], None, (255, 255, 255)), sp(" ", [], None, (0, 0, 0)), sp("a", [], (200, 10, 21)),
    sp("a", [], None, (201, 10, 20)), sp("a", [], GREEN, RED), sp("A"), sp("\u00e9"), sp("\u2588", [], RED), sp("#"),
    sp(" ", ["strike"], None, RED), sp("a", ALL_STYLES, RED, GREEN), sp("m"), sp("0"), sp(";"), sp("["), sp("H"),
]
GAPS = ([], [DRAW], [REDRAW])
LOW_SPACES = ("standard", "eight_bit", "no_color")
TRUE = ["space", "true_color"]


def look_histories(tier):
    """Every pair (triple) of looks written over each other, drawn or not in between."""

    setup = {"width": 2, "height": 1}
    for first, second in itertools.product(LOOKS, repeat=2):
        for gap in GAPS:
            yield [setup, [w([first], (0, 0)), *gap, w([second], (0, 0))]]
            if first is second:
                yield [setup, [w([first], (0, 0)), *gap, w([first], (0, 0), True), w([first, first], (0, 0), True)]]
        yield [setup, [w([first, second], (0, 0)), DRAW, w([second, first], (0, 0)), DRAW]]
        for space in LOW_SPACES:
            yield [setup, [["space", space], w([first], (0, 0)), DRAW, w([second, first], (0, 0)), DRAW]]
            yield [setup, [w([first, second], (0, 0)), ["space", space], DRAW, w([second], (0, 0)), TRUE, DRAW, REDRAW,
                           w([first], (0, 0)), DRAW]]
    for looks in itertools.product(LOOKS[: 14 if tier == "quick" else 24], repeat=3):
        for one, two in itertools.product(GAPS, repeat=2):
            yield [setup, [w([looks[0]], (0, 0)), *one, w([looks[1]], (0, 0)), *two, w([looks[2]], (0, 0))]]


BOTTOM = [
    w([sp("ab", ["bold"], RED)], (1, 0)),
    w([sp("xyz", [], None, GREEN)], (0, 1)),
    w([sp("c", [], BLUE)], (0, 2)),
    w([sp("d", ["underline"])], (1, 4)),
    w([sp("k")]),
    b(((0, 2), [sp("e")]), ((1, 3), [sp("f", [], RED)])),
    DRAW,
    REDRAW,
    ["clear"],
]


def bottom_histories(tier):
    """Screens at the bottom of a larger terminal: they may scroll, which moves the rows above as well."""

    for origin in ((1, 3), (4, 2)):
        setup = {"width": 3, "height": 2, "origin": list(origin)}
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for ops in itertools.product(BOTTOM, repeat=n):
                yield [setup, list(ops)]


def big_ops(width, height):
    x, y = width - 1, height - 1
    return [
        w([sp("Q", ["bold"], RED, GREEN)], (x, y)),
        w([sp("ab", [], None, BLUE)], (x, max(y - 1, 0))),
        w([sp("ab\ncd", ["italic"])], (min(9, x), min(9, y))),
        w([sp("abc")], (min(8, x), min(8, y))),
        w([sp("Z" * (width + 2), [], RED)], (0, y)),
        w([sp("Z" * (width * height), [], RED)], (0, 0)),
        w([sp("end", [], GREEN)], (0, height)),
        w([sp("end", [], GREEN)], (0, height + 9)),
        w([sp("end", [], GREEN)], (1, 2 * height + 3)),
        b(((0, y), [sp("one")]), ((0, height), [sp("two")]), ((0, height + 1), [sp("three", ["bold"])])),
        ["clear"],
        ["resize", width - 1, height - 1],
        ["resize", width + 1, height + 2],
        DRAW,
        REDRAW,
        w([sp(chr(97 + i % 26), [ALL_STYLES[i % 9]], (i % 256, 7, 9)) for i in range(min(width * height, 700))], (0, 0)),
        b(*(((i * 7 % width, i * 3 % height), [sp(chr(97 + i % 26), [], None, (9, i % 256, 3))]) for i in range(600))),
        w([sp("far", [], BLUE)], (0, height + 700)),
        w([sp("l\n" * (height + 1), ["bold"])], (1, 0)),
    ]


def large_histories():
    """A screen of many cells."""

    for width, height in ((120, 60), (60, 120)):
        ops = big_ops(width, height)
        for combo in [(op,) for op in ops] + [(ops[5], op) for op in ops] + [(op, DRAW, ops[5]) for op in ops] + [(ops[15], op) for op in ops]:
            yield [{"width": width, "height": height}, list(combo)]


def big_histories():
    yield from large_histories()
    yield from long_histories()
    for width, height in ((13, 12), (130, 3), (3, 110), (300, 2), (2, 270)):
        setup = {"width": width, "height": height}
        ops = big_ops(width, height)
        for n in (1, 2):
            for combo in itertools.product(ops, repeat=n):
                yield [setup, list(combo)]
    for combo in itertools.product(big_ops(13, 12), repeat=3):
        yield [{"width": 13, "height": 12}, list(combo)]


TERMINAL_OPS = [
    w([sp("ab", ["bold"], RED), sp("cd", [], GREEN, BLUE)], (1, 0)),
    ["str", "a\x1b[1;31mb", None, [1, 0]],
    ["str", "\x1b[4mu\x1b[0m v", None, None],
    w([sp("x\ny")], None),
    w([sp("t", [], None, (*RED, 0.4))], (0, 1)),
    w([sp("ab", ["bold"], RED), sp("cd", [], GREEN, BLUE)], (1, 0), True),
    w([sp("s", ["italic"])], (0, 3)),
    b(((0, 0), [sp("xyz", [], RED)]), ((1, 0), [sp("  ", [], None, (*BLUE, 0.5))])),
    b(((0, 0), [sp("xyz", [], RED)]), force=True),
    ["clear"],
    ["clear", "."],
    ["resize", 2, 3],
    ["resize", 4, 2],
    ["resize", 3, 2],
    ["cur", 2, 1],
    ["cur", 1, 2],
    ["cur", -1, 0],
    ["cur", 1, -1],
    w([sp("kl", ["strike"])], None),
    DRAW,
    REDRAW,
]
TERMINAL_OPS[1][2] = [sp("a"), sp("b", ["bold"], (170, 0, 0))]
TERMINAL_OPS[2][2] = [sp("u", ["underline"]), sp(" v")]
# colours given as 16-colour codes keep their spelling on a true-colour terminal: avoid comparing that here
TERMINAL_OPS[1][1] = "a\x1b[1;38;2;170;0;0mb"


def terminal_histories(depth):
    for n in range(depth + 1):
        for ops in itertools.product(TERMINAL_OPS, repeat=n):
            yield [dict(SMALL, terminal=True), list(ops)]


POOL = [
    w([sp("a")], (0, 0)),
    w([sp("b", ["bold"], RED), sp("c", [], None, BLUE)], (1, 0)),
    w([sp("k")]),
    ["clear"],
    w([sp("s", [], None, GREEN)], (0, 2)),
    w([sp("a")], (0, 0), True),
    b(((0, 1), [sp("qr", ["italic"])]), ((1, 1), [sp(" ", [], None, (*GREEN, 0.5))])),
    ["resize", 1, 3],
    ["resize", 2, 2],
    REDRAW,
    w([sp("x\ny", ["underline"])], (1, 0)),
    w([sp("m")], (1, 4)),
    w([sp("  ")], (0, 1)),
    ["clear", "#"],
    ["resize", 3, 1, ".", False],
]


def _column(rows, x=0):
    return [w([sp("a")], (x, y)) for y in range(rows)] + [w([sp("b", ["bold"], RED)], (x, y)) for y in range(rows)]


TINY = [
    (1, 2, [REDRAW, ["clear"], *_column(4)]),
    (1, 2, [["resize", 1, 1], ["resize", 1, 2], *_column(3)]),
    (1, 2, [w([sp("k")]), ["cur", 0, 0], ["clear"], *_column(3)]),
    (2, 1, [REDRAW, ["clear"], ["resize", 1, 1], ["resize", 2, 1], w([sp("b", ["bold"], RED)], (1, 0)), *_column(3)]),
    (1, 3, [*_column(3)[:3], w([sp("a")], (0, 3)), w([sp("b", ["bold"], RED)], (0, 1)), w([sp("a\na")], (0, 1))]),
    (1, 1, [REDRAW, ["clear"], ["clear", "#"], ["resize", 1, 1, ".", False],
            w([sp("a")], (0, 0), True), w([sp("a", ["bold"])], (0, 0)), w([sp("a", [], None, GREEN)], (0, 0)),
            w([sp(" ")], (0, 0)), w([sp(" ", [], None, (*GREEN, 0.5))], (0, 0)), *_column(2)]),
    (2, 1, [REDRAW, w([sp("ab")], (0, 0)), w([sp("b", ["bold"]), sp("a")], (0, 0)), w([sp("b", ["bold"])], (1, 0)),
            w([sp("ab", [], None, GREEN)], (0, 0), True), ["clear"], w([sp(" ", ["underline"])], (1, 0)),
            b(((0, 0), [sp("ab", ["bold"])]), ((1, 0), [sp(" ", [], None, (*GREEN, 0.5))])),
            b(((0, 1), [sp("ab")]), ((0, 0), [sp("b", ["bold"])]))]),
    (2, 2, [w([sp("ab")], (1, 0)), w([sp("a\nb", ["bold"])], (0, 0)), ["clear"], w([sp("a")], (0, 2)),
            w([sp("b")], (1, 1))]),
]


TINY_TERMINAL = [
    (2, 1, [REDRAW, ["clear"], ["resize", 1, 1], ["resize", 2, 1], w([sp("b", ["bold"], RED)], (1, 0)), *_column(3)]),
    (1, 2, [["resize", 2, 1], ["resize", 1, 2], ["resize", 1, 1], w([sp("k")]), ["clear"], *_column(2)]),
    (2, 2, [["resize", 1, 2], ["resize", 2, 2], w([sp("a\nb", ["bold"])], (0, 0)), ["clear", "."],
            ["str", "a\x1b[1mb", [sp("a"), sp("b", ["bold"])], [1, 0]]]),
    (1, 1, [REDRAW, ["clear"], ["str", "a\x1b[1mb", [sp("a"), sp("b", ["bold"])], [0, 0]], ["cur", 0, 0],
            w([sp("a")], (0, 0), True), w([sp(" ", [], None, (*GREEN, 0.5))], (0, 0)), ["resize", 2, 1],
            ["resize", 1, 1], *_column(2)]),
]


def closures(tier, pool=None, size=3):
    """Histories of any length: the closure of every choice of `size` operations (thorough: one more) and a draw."""

    for width, height, ops in TINY:
        yield [{"width": width, "height": height, "closure": True}, [DRAW, *ops]]
    for width, height, ops in TINY_TERMINAL:
        yield [{"width": width, "height": height, "closure": True, "terminal": True}, [DRAW, *ops]]
    for chosen in itertools.combinations(pool or POOL, size + (tier == "thorough")):
        yield [{"width": 2, "height": 2, "closure": True}, [DRAW, *chosen]]


def execute(case, ctx, checks):
    from .lab import run_history, run_terminal_history

    setup, ops = case
    if setup.get("closure"):
        from .closure import explore

        setup = {k: v for k, v in setup.items() if k != "closure"}
        return explore(ctx, setup, ops, checks, 300000 if ctx.tier == "quick" else 1000000)
    ctx.sample({"setup": setup, "history": ops})
    if setup.get("terminal"):
        setup = {k: v for k, v in setup.items() if k != "terminal"}
        return run_terminal_history(ctx, setup, ops, checks)
    return run_history(ctx, setup, ops, checks)
