"""C08: a bulk write equals the same writes done one by one."""

import itertools

from slate import Screen, Span, Terminal

from mc.emu import VT, interpret_line
from mc.lab import Cache, Lab, Stream, compare, fmt, same_cell, set_size, sp
from mc.screens import ASSUMPTIONS, BLUE, DRAW, GREEN, RED

ID = "C08"
BOUNDS = {
    "quick": "all lists of <=3 entries over 22 entries (overlapping, wrapping, clipped, scrolling, empty, multi-span) over "
             "3 previous contents; bulks of 31, 301 and 1001 entries of two alternating kinds; all lists of <=2 entries x string/span spelling, of 3 entries over 18 strings through Terminal",
    "thorough": "all lists of <=4 entries over 22 entries over 2 previous contents; otherwise as quick",
}
W, H = 3, 2
ENTRIES = [
    [[0, 0], [sp("a")]],
    [[0, 0], [sp("bc", ["bold"], RED)]],
    [[1, 0], [sp("d", [], None, GREEN), sp("e", ["italic"])]],
    [[2, 0], [sp("fg", [], BLUE)]],
    [[0, 1], [sp("hij")]],
    [[2, 1], [sp("kl", ["underline"])]],
    [[1, 0], [sp("m\nn", [], RED)]],
    [[0, 2], [sp("o", ["bold"])]],
    [[0, 3], [sp("p"), sp("q", [], GREEN, BLUE)]],
    [[1, 5], [sp("r")]],
    [[0, 0], []],
    [[0, 4], []],
    [[-1, 0], [sp("s")]],
    [[3, 0], [sp("t")]],
    [[0, 0], [sp("   ")]],
    [[1, 1], [sp(" ", [], None, RED)]],
    [[0, 0], [sp("uvwxyzuv")]],
    [[1, 1], [sp("")]],
    [[0, 0], [sp("A", ["bold"], None, None, False, False), sp("B")]],
    [[0, 0], [sp("")], ],
    [[2, 2], [sp("CD", ["strike"])]],
    [[0, 0], [sp("a")]],
]
STRINGS = [
    ([0, 0], "plain"),
    ([1, 0], "\x1b[1mb\x1b[0mc"),
    ([0, 1], "\x1b[38;2;1;2;3mq\x1b[48;2;9;8;7mr\x1b[0m"),
    ([0, 0], ""),
    ([0, 2], "\x1b[4;9ms\x1b[24mt"),
    ([2, 0], "u\nv"),
    ([0, 0], " w "),
    ([1, 0], "\x1b[7m x\x1b[0m"),
    ([0, 1], "\ny"),
    ([0, 3], ""),
    ([0, 0], "\x1b[1m"),
    ([0, 1], "z\n"),
    ([1, 1], "\x1b[48;2;1;2;3m  \x1b[0m "),
    ([0, 4], "\x1b[0m"),
    ([0, 0], "  x"),
    ([1, 0], "x  "),
    ([0, 0], "\x1b[1ma\x1b[38;2;9;9;9mb\x1b[mc"),
    ([0, 1], "\u6f22\u00e9"),
]
PREVIOUS = 3


def cases(tier):
    for prev in range(PREVIOUS):
        for n in range(0, 4):
            for items in itertools.product(range(len(ENTRIES)), repeat=n):
                yield ["bulk", prev, list(items)]
    # long bulks: every pair of entries alternating, one at either end
    for count in (30, 300, 1000):
        for i, j in itertools.product(range(len(ENTRIES)), repeat=2):
            if count < 100 or (i + j) % 7 == 0:
                yield ["bulk", 1, [*[i, j] * (count // 2), (i + 3) % len(ENTRIES)]]
                yield ["bulk", 1, [(i + j) % len(ENTRIES), (i + 5) % len(ENTRIES), *[i, j] * (count // 2)]]
    for n in (1, 2):
        for items in itertools.product(range(len(STRINGS)), repeat=n):
            for spelling in itertools.product((0, 1), repeat=n):
                for force in (0, 1):
                    yield ["str", force, [list(x) for x in zip(items, spelling)]]
    for items in itertools.product(range(len(STRINGS)), repeat=3):
        yield ["str", sum(items) % 2, [[i, k != sum(items) % 4] for k, i in enumerate(items)]]
    if tier == "thorough":
        for prev in (0, 2):
            for items in itertools.product(range(len(ENTRIES)), repeat=4):
                yield ["bulk", prev, list(items)]


def prepare(screen, cache, prev):
    if prev >= 1:
        screen.write(cache.spans_of([sp("12", ["dim"], GREEN), sp("3456", [], None, RED)]), cursor=(0, 0))
    if prev == 2:
        screen.write(cache.spans_of([sp("7")]), cursor=(1, 2))
        screen.render()


def shown(screen):
    vt = VT(screen.width, screen.height)
    vt.feed(screen.render(origin=(1, 1), redraw=True))
    return vt


def run_case(case, ctx):
    kind, prev, items = case
    ctx.sample(case)
    if kind == "str":
        return run_strings(prev, items, ctx)
    cache = Cache()
    bulk, single = Screen(W, H), Screen(W, H)
    lab = Lab(ctx, W, H, checks="n")
    prepare(bulk, cache, prev)
    prepare(single, cache, prev)
    before = shown(bulk)
    ctx.step(1 + len(items))
    data = [(tuple(ENTRIES[i][0]), ENTRIES[i][1]) for i in items]
    count = bulk.write_bulk([(pos, cache.spans_of(spans)) for pos, spans in data])
    for pos, spans in data:
        single.write(cache.spans_of(spans), cursor=pos)
    # the same probes then have to land in the same place
    result, expected = shown(bulk), shown(single)
    for a, b_ in ((result, expected),):
        if a.errors:
            ctx.fail(f"bulk: {a.errors[0]}")
        compare(a.grid, b_.grid, ctx, "bulk write compared with single writes")
    # incremental drawing from the previous state must agree too
    ctx.eq(tuple(bulk.cursor), tuple(single.cursor), "cursor after bulk compared with single writes")
    if not any(pos[1] >= H for pos, _ in data) and prev != 2:
        changed = sum(
            not same for row, old in zip(result.grid, before.grid)
            for same in (got == want for got, want in zip(row, old))
        )
        touched = touched_cells(data)
        if not changed <= count <= touched:
            ctx.fail(f"bulk write returned {count}, but {changed} cells changed (of {touched} written)")
    probe = cache.spans_of([sp("!", ["bold"], RED)])
    for y in (1, 3):
        bulk.write(probe, cursor=(1, y))
        single.write(probe, cursor=(1, y))
        compare(shown(bulk).grid, shown(single).grid, ctx, f"write at row {y} after a bulk compared with single writes")
    ctx.state(repr(result.grid) + repr(bulk.cursor))
    ctx.outcome(repr(result.grid))
    ctx.trace()


def touched_cells(data):
    cells = set()
    for (x, y), spans in data:
        for span in spans:
            for ch in span[0]:
                if not (0 <= x < W and 0 <= y < H):
                    break
                if ch == "\n":
                    y += 1
                    continue
                cells.add((x, y))
                x += 1
                if x >= W:
                    x, y = 0, y + 1
    return len(cells)


def by_hand(text):
    """The spans of a styled string, made from how a terminal interprets it."""

    from slate import Color

    names = {1: "bold", 2: "dim", 3: "italic", 4: "underline", 7: "invert", 9: "strike"}
    spans = []
    parts = text.split("\n")
    for k, part in enumerate(parts):
        for ch, styles, fg, bg in interpret_line(part)[0]:
            spans.append(Span(
                ch, Color(fg[2:]) if fg else None, Color(bg[2:], is_background=True) if bg else None,
                **{names[s]: True for s in styles}))
        if k + 1 < len(parts):
            spans.append(Span("\n"))
    return spans


def run_strings(force, items, ctx):
    set_size(W, H)
    results = []
    for mode in ("given", "spans", "single"):
        stream = Stream()
        term = Terminal(stream=stream)
        counts = []
        for _ in range(2):  # the second round changes nothing unless forced
            data = []
            for i, spelling in items:
                pos, text = STRINGS[i]
                as_string = spelling and mode == "given"
                data.append((tuple(pos), text if as_string else by_hand(text)))
            if mode == "single":
                for pos, spans in data:
                    term.write(spans, cursor=pos, force_overwrite=bool(force))
                counts = None
            else:
                counts.append(term.write_bulk(data, force_overwrite=bool(force)))
        ctx.step(2)
        stream.take()
        term.draw(redraw=True)
        vt = VT(W, H)
        vt.feed(stream.take())
        results.append((vt.grid, tuple(term.cursor), counts))
    ctx.trace()
    ctx.state(repr(results))
    compare(results[0][0], results[1][0], ctx, "bulk of strings compared with bulk of spans")
    compare(results[0][0], results[2][0], ctx, "bulk compared with single writes")
    ctx.eq(results[0][1], results[1][1], "cursor after bulk of strings and of spans")
    ctx.eq(results[0][1], results[2][1], "cursor after bulk and single writes")
    ctx.eq(results[0][2][0], results[1][2][0], "count of a bulk of strings and of spans")
