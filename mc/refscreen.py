"""Reference model of a screen, written from the properties (C01-C08), not from the code.

A cell is (char, styles, fg, bg) as in emu.py. `tail` is an extra per-cell flag: whether the cell
holds the last character of a styled span that resets after it; the library may legitimately regard a cell that differs
only in this flag as changed or as unchanged.
"""

from __future__ import annotations

STYLE_CODE = {"bold": 1, "dim": 2, "italic": 3, "underline": 4, "blink": 5, "fast_blink": 6,
              "invert": 7, "conceal": 8, "strike": 9}
WHITE = (255, 255, 255)
DECORATED = {4, 7, 9}
BOOST = 0.1


def code(rgb, background):
    return None if rgb is None else (48 if background else 38, 2, *rgb)


def blend(a, b, alpha):
    return tuple(min(max(int(x + (y - x) * alpha), 0), 255) for x, y in zip(a, b))


class SpanSpec:
    """Plain description of a span: text, styles, fg/bg as (r, g, b) or (r, g, b, alpha)."""

    __slots__ = ("text", "styles", "fg", "bg", "opaque", "reset")

    def __init__(self, text, styles=(), fg=None, bg=None, opaque=False, reset=True):
        self.text, self.styles = text, frozenset(styles)
        self.fg, self.bg, self.opaque, self.reset = fg, bg, opaque, reset

    @property
    def codes(self):
        return frozenset(STYLE_CODE[s] for s in self.styles)

    def json(self):
        return {"text": self.text, "styles": sorted(self.styles), "fg": self.fg, "bg": self.bg,
                "opaque": self.opaque, "reset": self.reset}


def alpha_of(color):
    return 1.0 if color is None or len(color) == 3 else color[3]


class Layered:
    """What one bulk write has put into one cell so far."""

    __slots__ = ("char", "styles", "fg", "bg", "layers", "below", "tail")


class Model:
    def __init__(self, width, height, fill=" "):
        self.width, self.height = width, height
        self.cells = [[(fill, frozenset(), None, None)] * width for _ in range(height)]
        self.tails = [[False] * width for _ in range(height)]
        self.cursor = (0, 0)
        self.offset = 0
        # Cells the next incremental draw must / may paint
        self.must = {(x, y) for y in range(height) for x in range(width)}
        self.may = set()
        self.drawn_scroll = 0

    # -- state ---------------------------------------------------------------------------------

    def key(self):
        return (self.width, self.height, tuple(map(tuple, self.cells)), self.cursor, self.offset,
                frozenset(self.must), self.drawn_scroll)

    # -- operations ----------------------------------------------------------------------------

    def resize(self, width, height, fill=" ", keep=True):
        blank = (fill, frozenset(), None, None)
        cells = [[blank] * width for _ in range(height)]
        tails = [[False] * width for _ in range(height)]
        if keep:
            for y in range(min(height, self.height)):
                for x in range(min(width, self.width)):
                    cells[y][x] = self.cells[y][x]
                    tails[y][x] = self.tails[y][x]
        self.width, self.height, self.cells, self.tails = width, height, cells, tails
        self.must = {(x, y) for y in range(height) for x in range(width)}
        self.may = set()
        self.drawn_scroll = 0

    def clear(self, fill=" "):
        self.resize(self.width, self.height, fill, keep=False)
        self.cursor = (0, 0)
        self.offset = 0

    def draw(self):
        """Returns (must, may, scrolls) for the draw and forgets them."""

        out = (self.must, self.may, self.drawn_scroll)
        self.must, self.may, self.drawn_scroll = set(), set(), 0
        return out

    def write(self, spans, cursor=None, terminal_background=(0, 0, 0), force=False):
        return self.bulk([(self.cursor if cursor is None else cursor, spans)],
                         terminal_background, force)

    def _scroll(self, count, pending):
        self.offset += count
        self.drawn_scroll += count
        keep = max(self.height - count, 0)
        blank = (" ", frozenset(), None, None)
        new = self.height - keep
        self.cells = self.cells[self.height - keep :] if keep else []
        self.tails = self.tails[self.height - keep :] if keep else []
        for _ in range(new):
            self.cells.append([blank] * self.width)
            self.tails.append([False] * self.width)
        self.must = {(x, y - count) for x, y in self.must if y >= count}
        self.may = {(x, y - count) for x, y in self.may if y >= count}
        moved = {(x, y - count): v for (x, y), v in pending.items() if y >= count}
        pending.clear()
        pending.update(moved)

    def bulk(self, data, terminal_background=(0, 0, 0), force=False):
        """Performs the bulk write; returns (least, most) admissible change counts."""

        pending: dict = {}
        for (x, y), spans in data:
            y -= self.offset
            if spans and y >= self.height:
                count = y - self.height + 1
                self._scroll(count, pending)
                y -= count
            for span in spans:
                n = len(span.text)
                for i, ch in enumerate(span.text):
                    if not (0 <= x < self.width and 0 <= y < self.height):
                        break
                    if ch == "\n":
                        y += 1
                        continue
                    self._place(pending, x, y, ch, span, i == n - 1 and span.reset)
                    x += 1
                    if x >= self.width:
                        x, y = 0, y + 1
            self.cursor = (x, y + self.offset)

        least = most = 0
        for (x, y), lay in pending.items():
            cell = self._resolve(lay, terminal_background)
            same = self.cells[y][x] == cell
            tail = lay.tail and bool(lay.styles)
            if force or not same:
                least, most = least + 1, most + 1
                self.must.add((x, y))
            elif self.tails[y][x] != tail:
                most += 1
                self.may.add((x, y))
            self.cells[y][x] = cell
            self.tails[y][x] = tail
        return least, most

    @staticmethod
    def _place(pending, x, y, ch, span, tail):
        lay = pending.get((x, y))
        if lay is not None and alpha_of(span.bg) != 1.0:
            # A translucent layer on top of what this bulk wrote before
            lay.layers.append(span.bg)
            if ch.strip() == "" and not span.opaque:
                return
            lay.char, lay.styles, lay.fg, lay.tail = ch, span.codes, span.fg, tail
            lay.below = len(lay.layers)
            return
        lay = Layered()
        lay.char, lay.styles, lay.fg, lay.bg = ch, span.codes, span.fg, span.bg
        lay.layers, lay.below, lay.tail = [], 0, tail
        pending[(x, y)] = lay

    @staticmethod
    def _resolve(lay, terminal_background):
        fg = lay.fg or WHITE
        bg = lay.bg
        base = bg[:3] if bg is not None else None
        if bg is None and lay.layers:
            base = terminal_background
        elif bg is not None and alpha_of(bg) != 1.0:
            base = blend(terminal_background, bg[:3], min(bg[3] + BOOST, 1.0))
        # The text is part of the entry it came from: only the layers painted after that tint it
        rgb, mixed, last = fg[:3], alpha_of(fg) == 1.0, bg
        for k, layer in enumerate(lay.layers):
            if k == lay.below and not mixed:
                rgb, mixed = blend(base or terminal_background, rgb, fg[3]), True
            if layer == last:
                continue
            last = layer
            amount = min(layer[3] + BOOST, 1.0)
            base = blend(base, layer[:3], amount)
            if k >= lay.below:
                rgb = blend(rgb, layer[:3], amount)
        if not mixed:
            rgb = blend(base or terminal_background, rgb, fg[3])
        return (lay.char, lay.styles, code(rgb, False), code(base, True))
