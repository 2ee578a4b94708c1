"""C03: written text lands in exactly the right cells."""

import itertools

from slate import Screen, Terminal

from mc.emu import VT
from mc.lab import Lab, Stream, compare, set_size, sp
from mc.screens import ASSUMPTIONS, BLUE, GREEN, RED, b, w

ID = "C03"
MAX = {"quick": 4, "thorough": 6}
BOUNDS = {
    tier: f"screens 1x1, 3x2, 4x3, 1x3, 5x1; every start column -1..w and row -1..h; every text over "
          f"{{letter, blank, newline}} up to length {MAX[tier]} and all its splits into <=2 spans (<=3 up to length 3) "
          f"plus runs as long as the screen; two previous contents; texts of up to length 3 (thorough: 4) at every start on a screen with one of 8 pasts (scrolled, drawn, resized, cleared); lists, tuples and generators of spans; texts of up to 8000 characters and 300 spans on 300x4, 7x200 and 120x60; 12 unusual characters (tab, CR, VT, FF, FS, NEL, LS, DEL, BS, special blanks) in 9 arrangements, as spans and as strings through Terminal"
    for tier in MAX
}
GEOMETRIES = [(1, 1), (3, 2), (4, 3), (1, 3), (5, 1)]
LOOKS = [(["bold"], RED, None), ([], None, GREEN), (["underline", "italic"], None, None)]


def spans(text, cuts):
    edges = [0, *cuts, len(text)]
    return [sp(text[i:j], *LOOKS[k % 3]) for k, (i, j) in enumerate(zip(edges, edges[1:]))]


def letters(chars):
    return "".join(chr(97 + i) if c == "a" else c for i, c in enumerate(chars))


def texts(limit):
    for n in range(limit + 1):
        for chars in itertools.product("a \n", repeat=n):
            yield letters(chars)


def splits(text):
    n = len(text)
    yield []
    for i in range(n + 1):
        yield [i]
    if n <= 3:
        for i in range(n + 1):
            for j in range(i, n + 1):
                yield [i, j]


# Characters that are not printable (or look like line ends elsewhere): each takes one cell like any other
ODD = ["\t", "\r", "\x0b", "\x0c", "\x1c", "\x85", "\u2028", "\x7f", "\x08", "\u200b", "\xa0", "\u3000"]


def odd_cases():
    for width, height in ((3, 2), (1, 3), (5, 1)):
        for odd in ODD:
            for text in (odd, "a" + odd, odd + "b", "a" + odd + "b", odd + "\n" + odd, odd * (width + 1), odd + "abcd", "a\n" + odd, odd + "\nb"):
                for x, y in ((0, 0), (width - 1, 0), (width - 1, height - 1)):
                    yield ["odd", width, height, x, y, text, 0]
                    for cut in range(1, len(text)):
                        yield ["odd", width, height, x, y, text, cut]


def run_odd(case, ctx):
    """How a control character looks is the terminal's affair; where everything else goes is not."""

    _, width, height, x, y, text, cut = case
    lab = Lab(ctx, width, height, checks="nk")
    data = spans(text, [cut] if cut else [])
    lab.apply(w(data, (x, y)))
    plain = "".join("#" if ch in ODD else ch for ch in text)
    screen = Screen(width, height)
    screen.write(lab.cache.spans_of(spans(plain, [cut] if cut else [])), cursor=(x, y))
    # the same text as a string through a Terminal, written and in a bulk
    set_size(width, height)
    string = "".join(map(str, lab.cache.spans_of(data)))
    terminals = [Terminal(stream=Stream()) for _ in range(2)]
    terminals[0].write(string, cursor=(x, y))
    terminals[1].write_bulk([((x, y), string)])
    shown = []
    for real in (screen, lab.screen, *terminals):
        if isinstance(real, Terminal):
            real.stream.take()
            real.draw(redraw=True)
            out = real.stream.take()
        else:
            out = real.render(origin=(1, 1), redraw=True)
        for ch in ODD:
            out = out.replace(ch, "#")
        vt = VT(width, height)
        vt.feed(out)
        shown.append(vt.grid)
    for how, grid in zip(("written as spans", "written as a string", "written as a string in a bulk"), shown[1:]):
        compare(grid, shown[0], ctx, f"{text!r} at {x},{y} {how}, compared with {plain!r}")
    ctx.trace()


def cases(tier):
    yield from odd_cases()
    yield from past_cases(tier)
    for width, height in ((300, 4), (7, 200), (120, 60)):
        for text in ("ab c" * 60, "ab c" * 160, "ab c" * 2000, "a\n" * 50, "a\n" * 250, "ab\n" * 130, "\n" * 100 + "x", "a" * 255 + "\n" + "b" * 300):
            for x, y in ((0, 0), (width - 1, 0), (width // 2, height // 2), (width - 1, height - 1), (width, 0), (1000, 0), (0, -1)):
                for cuts in ([], [len(text) // 2], [1, len(text) - 1], list(range(3, len(text), max(len(text) // 300, 1)))):
                    yield [width, height, x, y, text, cuts, 0, len(cuts) % 3]
    for width, height in GEOMETRIES:
        positions = [(x, y) for y in range(-1, height + 1) for x in range(-1, width + 1)]
        for x, y in positions:
            for filled in (0, 1):
                for count in {width - 1, width, width + 1, width * height - 1, width * height, width * height + 3}:
                    if count > 0:
                        yield [width, height, x, y, "#" * count, [count // 2], filled, 0]
                for k, text in enumerate(texts(MAX[tier])):
                    if filled and len(text) > 3:
                        break
                    for cuts in splits(text):
                        yield [width, height, x, y, text, cuts, filled, k % 3]


PASTS = [
    [w([sp("s", [], BLUE)], (0, 2))],
    [w([sp("s", [], BLUE)], (0, 2)), ["draw"]],
    [w([sp("......", ["dim"], BLUE, RED)], (0, 0)), ["draw"], w([sp("s")], (1, 4)), ["redraw"]],
    [w([sp("k" * 6, ["dim"])], (0, 0)), w([sp("k")]), w([sp("j\ni")]), ["draw"]],
    [["resize", 5, 4], w([sp("." * 20)], (0, 0)), ["draw"], ["resize", 3, 2], ["draw"]],
    [["resize", 2, 1], w([sp("s")], (0, 3)), ["draw"], ["resize", 3, 2]],
    [w([sp("s")], (0, 9)), ["clear", "#"], ["draw"]],
    [b(((0, 0), [sp("xyz", ["bold"])]), ((1, 0), [sp("  ", [], None, (*RED, 0.5))])), ["draw"]],
]


def past_cases(tier):
    """The same on a screen that has a past; rows count from where it has scrolled to."""

    for past in range(len(PASTS)):
        for x, y in [(x, y) for y in range(-1, 3) for x in range(-1, 4)]:
            for k, text in enumerate(texts(3 if tier == "quick" else 4)):
                for cuts in splits(text) if len(text) < 3 else ([], [1], [2]):
                    yield ["past", past, x, y, text, cuts]
            for count in (5, 6, 9):
                yield ["past", past, x, y, "#" * count, [count // 2]]


def run_past(case, ctx):
    _, past, x, y, text, cuts = case
    lab = Lab(ctx, 3, 2, checks="ck")
    for op in PASTS[past]:
        lab.apply(op)
    lab.apply(w(spans(text, cuts), (x, y + lab.model.offset)))
    lab.final()


def run_case(case, ctx):
    if case[0] == "past":
        return run_past(case, ctx)
    if case[0] == "odd":
        return run_odd(case, ctx)
    width, height, x, y, text, cuts, filled, kind = case
    ctx.sample({"screen": [width, height], "at": [x, y], "text": text, "cuts": cuts})
    lab = Lab(ctx, width, height, checks="c")
    if filled:
        lab.apply(w([sp("." * (width * height), ["dim"], BLUE, RED)], (0, 0)))
        lab.apply(["draw"])
        lab.screen.cursor = lab.model.cursor = (0, 0)
    data = spans(text, cuts)
    objects = lab.cache.spans_of(data)
    objects = (objects, tuple(objects), iter(objects))[kind]
    lab.screen.write(objects, cursor=(x, y))
    lab.model.write(lab.cache.specs_of(data), (x, y))
    ctx.step()
    ctx.state(lab.model.key())
    lab.final()
