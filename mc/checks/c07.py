"""C07: translucent layers in a bulk composite in paint order."""

import itertools

from mc.lab import Lab, TermLab, sp
from mc.screens import ASSUMPTIONS, BLUE, DRAW, GREEN, PALE, RED, b, w

ID = "C07"
BOUNDS = {
    "quick": "every stack of <=3 layers over 33 layers in one cell on three terminal backgrounds, of 4 over 12, "
             "of <=13 (and 41, 151, 601) layers of two alternating kinds over 8 and a top over 12; 12 longer texts with blanks x 33 looks x 4 texts below; every stack "
             "of <=3 overlapping two-cell entries over 8 layers x 3 offsets; all pairs of bulks; wrapping, clipped and "
             "scrolling layers, layers before and after an entry that scrolls; through Screen and Terminal (4 backgrounds that the terminal replied)",
    "thorough": "every stack of <=4 layers over 33 layers, of <=6 over 12 on two backgrounds; otherwise as quick",
}

T1, T2, T3 = (*BLUE, 0.5), (*RED, 0.25), (*GREEN, 0.95)
LAYERS = [
    sp("x"),
    sp(" ", [], None, T1),
    sp("y", ["bold"], RED, T1),
    sp(" ", [], None, T2),
    sp("z", [], PALE, GREEN),
    sp(" ", [], None, PALE),
    sp(" "),
    sp("v", [], (*RED, 0.5)),
    sp("u", [], (*RED, 0.5), GREEN),
    sp("t", [], (*RED, 0.5), T1),
    sp(" ", [], None, T1, True),
    sp("s", ["underline"], None, T3),
    # -- the twelve above are stacked deepest
    sp(" ", [], None, T3),
    sp(" ", [], RED, T2),
    sp(" ", ["invert"], RED, T2),
    sp(" ", [], (*RED, 0.5), T2),
    sp("r", [], None, T2, True),
    sp("q", ["italic"], GREEN, T2),
    sp(" ", [], None, (*BLUE, 0.6)),
    sp(" ", [], None, (*BLUE, 0.0)),
    sp("p", [], (*GREEN, 0.0), PALE),
    sp("o", [], PALE, (*PALE, 0.9)),
    sp("n", ["strike"], BLUE, BLUE),
    sp(" ", ["bold"], None, T1, False, False),
    sp("m", [], None, None, True),
    sp("l", ["bold"], (*BLUE, 0.3), T3, False, False),
    sp(" ", ["underline"], None, T1),
    sp(" ", ["strike", "bold"], PALE, T3),
    sp(" ", ["underline"], RED, T2, True),
    sp(" ", ["underline"], RED),
    sp("k", [], (*RED, 0.5), T1, True),
    sp("j", [], (*PALE, 0.99), (*PALE, 0.05)),
    sp("i", ["dim"], (*GREEN, 0.5), (*RED, 0.9)),
]
DEEP = [1, 2, 3, 5, 10, 11, 12, 13]
LONG = ["   ", "    ", "     ", "  a", " a ", "a  ", "a  a", "    a", "a    ", "\u00a0", "\u3000", "\u2003 "]
UNDER = [[], ["uvwxy", ["bold"], RED, GREEN], ["uvwxy", [], None, T2], ["  w  ", [], PALE]]
BACKGROUNDS = [(0, 0, 0), (20, 20, 20), (255, 200, 100)]

PAIRS = [
    sp("ab", ["bold"], RED, GREEN),
    sp("  ", [], None, T1),
    sp(" c", [], PALE, T2),
    sp("d ", [], None, T1),
    sp("  ", [], None, T2, True),
    sp("ef"),
    sp("g ", [], (*GREEN, 0.5), T3),
    sp("  ", [], None, PALE),
]


def cases(tier):
    for n in (1, 2, 3):
        for k, background in enumerate(BACKGROUNDS):
            for stack in itertools.product(range(len(LAYERS)), repeat=n):
                yield ["stack", k, list(stack)]
    for k in (0, 2):
        for n in range(4, 5 if tier == "quick" else 7):
            if n == 6 and k:
                continue
            for stack in itertools.product(range(12), repeat=n):
                yield ["stack", k, list(stack)]
    if tier == "thorough":
        for stack in itertools.product(range(len(LAYERS)), repeat=4):
            yield ["stack", 1, list(stack)]
    items = [(x, i) for x in (0, 1, 2) for i in range(len(PAIRS))]
    for n in (2, 3):
        for stack in itertools.product(items, repeat=n):
            yield ["pairs", stack[0][0] % 2, [list(s) for s in stack]]
    for n in (1, 2):
        for stack in itertools.product(range(len(LAYERS)), repeat=n):
            yield ["term", 0, list(stack)]
    for first in itertools.product(range(12), repeat=2):
        for second in itertools.product(range(12), repeat=2):
            yield ["bulks", 0, [list(first), list(second)]]
    # tall stacks of two and three kinds of layers
    for two in itertools.product(DEEP, repeat=2):
        for n in range(5, 13):
            for top in range(12):
                yield ["stack", 1, [*(two[i % 2] for i in range(n)), top]]
        for n in (40, 150, 600):
            for top in range(4):
                yield ["stack", 1, [*(two[i % 2] for i in range(n)), top]]
    # a terminal that was asked for its background
    for background in ((255, 255, 255), (0, 0, 0), (1, 200, 90), (20, 20, 21)):
        for first in range(len(LAYERS)):
            yield ["answered", 0, [list(background), first]]
    # longer texts, blanks first, last and between, over other text
    for text in LONG:
        for look in range(len(LAYERS)):
            for under in range(4):
                yield ["long", 1, [text, look, under]]
    for i, j in itertools.product(range(len(PAIRS)), repeat=2):
        for pos in ((2, 0), (2, 1), (0, 2), (1, 3), (-1, 0)):
            yield ["edge", 0, [i, j, list(pos)]]


    # a later entry scrolls: what lies below moves along, layers included
    for three in itertools.product(range(len(PAIRS)), repeat=3):
        for y in (1, 2, 3):
            for up in (0, 1, 2):
                yield ["scroll", y % 3, [*three, y, up]]


def run_case(case, ctx):
    kind, k, data = case
    background = BACKGROUNDS[k]
    if kind == "answered":
        lab = TermLab(ctx, 2, 1, checks="c", colors=((250, 240, 3), data[0]))
        for rest in itertools.product(range(12), repeat=1):
            for stack in ((), rest, (*rest, 1)):
                lab.apply(["clear"])
                lab.apply(b(*(((1, 0), [LAYERS[i]]) for i in (data[1], *stack))))
                lab.apply(DRAW)
                lab.apply(["clear"])
                for i in (data[1], *stack):
                    lab.apply(w([LAYERS[i]], (1, 0)))
                lab.apply(DRAW)
        return lab.final()
    if kind == "term":
        lab = TermLab(ctx, 3, 1, checks="c")
    elif kind == "long":
        lab = Lab(ctx, 6, 2, checks="c", background=background)
    elif kind in ("stack", "bulks"):
        lab = Lab(ctx, 2, 1, checks="c", background=background)
    else:
        lab = Lab(ctx, 3, 2, checks="c", background=background)
    if kind in ("stack", "term"):
        lab.apply(b(*(((1, 0), [LAYERS[i]]) for i in data)))
    elif kind == "pairs":
        lab.apply(b(*(((x, 0), [PAIRS[i]]) for x, i in data)))
    elif kind == "long":
        text, look, under = data
        over = ((0, 0), [sp(text, *LAYERS[look][1:])])
        lab.apply(b(((0, 0), [UNDER[under]]), over) if under else b(over))
    elif kind == "bulks":
        lab.apply(b(*(((0, 0), [LAYERS[i]]) for i in data[0])))
        lab.apply(b(*(((0, 0), [LAYERS[i]]) for i in data[1])))
    elif kind == "scroll":
        i, j, k, y, up = data
        first = ((0, 1), [PAIRS[i], PAIRS[j]])
        lab.apply(b(first, ((1, 1), [PAIRS[k]]), ((0, y + 1), [PAIRS[j]]), ((0, y + 1 - up), [PAIRS[k], PAIRS[i]]), ((1, 1), [PAIRS[i]])))
        lab.apply(b(((0, y + 1), [PAIRS[k]]), ((1, y + 1), [PAIRS[j]])))
    else:
        i, j, pos = data
        base = ["#" * 6, [], PALE, RED]
        lab.apply(b(((0, 0), [base]), (pos, [PAIRS[i], PAIRS[j]]), ((0, 1), [PAIRS[j], PAIRS[i]])))
    ctx.sample(case)
    lab.final()
