"""An independent terminal emulator: interprets the byte stream the library emits.

It knows exactly the sequences a VT/xterm style terminal defines for what the library is meant to
do; anything else is recorded in `errors` (an unknown or malformed sequence in the output is always
a defect: a real terminal would print garbage or ignore it).

Coordinates are the terminal's own, 1-based. Cells are (char, styles, fg, bg) where `styles` is a
frozenset of SGR numbers and fg/bg are None or the tuple of SGR parameters that set them.
"""

from __future__ import annotations

import re

BLANK = (" ", frozenset(), None, None)
UNKNOWN = ("?", frozenset(), None, None)  # content of a cell the program did not draw yet

STYLES = {1, 2, 3, 4, 5, 6, 7, 8, 9}
UNSET = {22: (1, 2), 23: (3,), 24: (4,), 25: (5, 6), 26: (6,), 27: (7,), 28: (8,), 29: (9,)}

TOKEN = re.compile(
    r"\x1b\[(?P<csi>[0-9;<=>?$.]*)(?P<final>[@-~])"
    r"|\x1b\](?P<osc>[^\x07\x1b]*)(?:\x07|\x1b\\)"
    r"|\x1b_(?P<apc>[^\x1b]*)\x1b\\"
    r"|(?P<text>[^\x00-\x1f\x7f]+)"
    r"|(?P<ctl>[\x00-\x1f\x7f])"
)

_STYLE_CACHE: dict = {}


def parse_sgr(body: str, state, extended=False):
    """Applies an SGR parameter string to (styles, fg, bg); returns (state, error or None)."""

    styles, fg, bg = state
    params = body.split(";") if body else ["0"]
    i = 0

    def alpha(at):
        """An opacity after a colour (an extension of the library), as a float at the end of the colour."""

        return (float(params[at]),) if extended and at < len(params) and "." in params[at] else ()

    while i < len(params):
        part = params[i]
        if part == "":
            code = 0
        elif part.isdigit() and part.isascii():
            code = int(part)
        else:
            return (styles, fg, bg), f"bad SGR parameter {part!r}"
        if code == 0:
            styles, fg, bg = frozenset(), None, None
        elif code in STYLES:
            styles = styles | {code}
        elif code in UNSET:
            styles = styles - set(UNSET[code])
        elif code == 39:
            fg = None
        elif code == 49:
            bg = None
        elif 30 <= code <= 37 or 90 <= code <= 97:
            fg = (code, *alpha(i + 1))
            i += len(fg) - 1
        elif 40 <= code <= 47 or 100 <= code <= 107:
            bg = (code, *alpha(i + 1))
            i += len(bg) - 1
        elif code in (38, 48):
            kind = params[i + 1].lstrip("0") if i + 1 < len(params) else None
            count = {"2": 3, "5": 1}.get(kind)
            if count is None or i + 1 + count >= len(params):
                return (styles, fg, bg), f"bad colour in SGR {body!r}"
            values = params[i + 2 : i + 2 + count]
            if not all(v.isdigit() and v.isascii() and 0 <= int(v) <= 255 for v in values):
                return (styles, fg, bg), f"bad colour in SGR {body!r}"
            opacity = alpha(i + 2 + count)
            value = (code, int(kind), *map(int, values), *opacity)
            if code == 38:
                fg = value
            else:
                bg = value
            i += 1 + count + len(opacity)
        elif code == 99:
            if extended:  # the library's private marker, ignored by terminals
                styles = styles | {99}
        else:
            return (styles, fg, bg), f"unknown SGR code {code}"
        i += 1
    return (styles, fg, bg), None


def interpret_line(text: str, extended: bool = False):
    """How a terminal shows one line of text and SGR sequences: [(char, styles, fg, bg)]."""

    state = (frozenset(), None, None)
    out, errors = [], []
    for m in TOKEN.finditer(text):
        if m["text"] is not None:
            out.extend((ch, *state) for ch in m["text"])
        elif m["final"] == "m":
            state, err = parse_sgr(m["csi"], state, extended)
            if err:
                errors.append(err)
        elif m["ctl"] is not None and m["ctl"] != "\x1b":
            out.append((m["ctl"], *state))  # part of the text, whatever it does on a terminal
        else:
            errors.append(f"unexpected {m[0]!r}")
    return out, errors


class VT:
    def __init__(self, width, height, title="shell"):
        self.width, self.height = width, height
        self.grid = [[UNKNOWN] * width for _ in range(height)]
        self.x = self.y = 1
        self.wrap = False
        self.attr = (frozenset(), None, None)
        self.painted: list[tuple[int, int]] = []
        self.scrolls = 0
        self.errors: list[str] = []
        self.modes: dict[str, bool] = {"25": True}
        self.mode_log: list[tuple[str, bool]] = []
        self.title = title
        self.title_stack: list[str] = ["outer"]
        self.hyperlink = ""
        self.queries: list[str] = []
        self.bells = 0

    def resize(self, width, height):
        """The window changes size: what a terminal keeps is unspecified, so forget it all."""

        self.width, self.height = width, height
        self.grid = [[UNKNOWN] * width for _ in range(height)]
        self.wrap = False

    def _linefeed(self):
        self.wrap = False
        if self.y >= self.height:
            self.scrolls += 1
            self.grid.pop(0)
            self.grid.append([BLANK] * self.width)
        else:
            self.y += 1

    def _move(self, final, n):
        """Relative and absolute cursor movement, scrolling up."""

        if final == "S":
            for _ in range(n):
                self.scrolls += 1
                self.grid.pop(0)
                self.grid.append([BLANK] * self.width)
            return
        self.wrap = False
        if final in "AB":
            self.y = min(max(self.y + (n if final == "B" else -n), 1), self.height)
        elif final in "CD":
            self.x = min(max(self.x + (n if final == "C" else -n), 1), self.width)
        elif final == "G":
            self.x = min(n, self.width)
        else:
            self.y = min(n, self.height)

    def feed(self, data: str):
        pos = 0
        width = self.width
        for m in TOKEN.finditer(data):
            if m.start() != pos:
                self.errors.append(f"garbage {data[pos:m.start()]!r}")
            pos = m.end()
            text = m["text"]
            if text is not None:
                for ch in text:
                    if self.wrap:
                        # printing past the last column continues on the next line
                        self.errors.append("printed past the right edge")
                        self.x = 1
                        self._linefeed()
                    if 1 <= self.x <= width and 1 <= self.y <= self.height:
                        self.grid[self.y - 1][self.x - 1] = (ch, *self.attr)
                        self.painted.append((self.x, self.y))
                    else:
                        self.errors.append(f"painted outside the terminal at {self.x},{self.y}")
                    if self.x >= width:
                        self.wrap = True
                    else:
                        self.x += 1
                continue
            final = m["final"]
            if final == "m":
                key = (m["csi"], self.attr)
                hit = _STYLE_CACHE.get(key)
                if hit is None:
                    hit = _STYLE_CACHE[key] = parse_sgr(*key)
                self.attr, err = hit
                if err:
                    self.errors.append(err)
            elif final in ("A", "B", "C", "D", "G", "d", "S") and (m["csi"] == "" or m["csi"].isdigit()):
                self._move(final, max(1, int(m["csi"] or "1")))
            elif final in ("H", "f"):
                parts = (m["csi"] or "1;1").split(";")
                if len(parts) != 2 or not all(p.isdigit() for p in parts):
                    self.errors.append(f"bad cursor position {m[0]!r}")
                    continue
                self.y, self.x = max(1, int(parts[0])), max(1, int(parts[1]))
                if self.y > self.height or self.x > width:
                    self.errors.append(f"cursor moved outside the terminal: {m[0]!r}")
                self.wrap = False
            elif final in ("h", "l") and m["csi"].startswith("?"):
                for mode in m["csi"][1:].split(";"):
                    if mode not in ("25", "1049", "1006", "1002", "1003", "1000", "2026"):
                        self.errors.append(f"unknown mode {m[0]!r}")
                    self.modes[mode] = final == "h"
                    self.mode_log.append((mode, final == "h"))
            elif final == "t" and m["csi"] in ("22;0", "22;2"):
                self.title_stack.append(self.title)
            elif final == "t" and m["csi"] in ("23;0", "23;2"):
                if self.title_stack:
                    self.title = self.title_stack.pop()
            elif final == "t" and m["csi"] == "14":
                self.queries.append("14t")
            elif final == "p" and m["csi"] == "?2026$":
                self.queries.append("2026p")
            elif m["osc"] is not None:
                code, _, rest = m["osc"].partition(";")
                if code in ("0", "2"):
                    self.title = rest
                elif code == "8":
                    self.hyperlink = rest.partition(";")[2]
                elif code in ("10", "11") and rest == "?":
                    self.queries.append(code)
                else:
                    self.errors.append(f"unknown OSC {m[0]!r}")
            elif m["ctl"] == "\n":
                self._linefeed()
            elif m["ctl"] == "\r":
                self.x, self.wrap = 1, False
            elif m["ctl"] == "\x07":
                self.bells += 1
            else:
                self.errors.append(f"unknown sequence {m[0]!r}")
        if pos != len(data):
            self.errors.append(f"garbage {data[pos:]!r}")

    def take_painted(self):
        painted, self.painted = self.painted, []
        return painted

    def area(self, origin, width, height):
        """The cells of a screen of the given size drawn at `origin` (1-based x, y)."""

        ox, oy = origin
        return [row[ox - 1 : ox - 1 + width] for row in self.grid[oy - 1 : oy - 1 + height]]
