"""Executes histories of screen operations on the real Screen/Terminal, the model and the emulator.

A history is a list of JSON-able operations:
    ["w", spans, cursor or None, force]      write
    ["b", [[[x, y], spans], ...], force]     bulk write
    ["clear", fill]  ["resize", w, h, fill, keep]  ["cur", x, y]  ["draw"]  ["redraw"]
    ["space", name]                          change the colour space in force
    ["origin", x, y]                         draw somewhere else from now on
spans is a list of [text, styles, fg, bg, opaque, reset] with optional trailing parts.
"""

from __future__ import annotations

import io

from slate import Color, ColorSpace, Screen, Span

from .emu import BLANK, UNKNOWN, VT
from .refscreen import DECORATED, Model, SpanSpec


def sp(text, styles=(), fg=None, bg=None, opaque=False, reset=True):
    out = [text, list(styles), list(fg) if fg else None, list(bg) if bg else None, opaque, reset]
    while len(out) > 1 and out[-1] == [[], None, None, False, True][len(out) - 2]:
        out.pop()
    return out


def spec(data):
    text, styles, fg, bg, opaque, reset = (list(data) + [[], None, None, False, True][len(data) - 1 :])
    return SpanSpec(text, styles, tuple(fg) if fg else None, tuple(bg) if bg else None, opaque, reset)


def to_color(value, background):
    if value is None:
        return None
    alpha = value[3] if len(value) == 4 else 1.0
    return Color(tuple(value[:3]), is_background=background, alpha=alpha)


def to_span(s):
    return Span(s.text, to_color(s.fg, False), to_color(s.bg, True), opaque=s.opaque,
                reset_after=s.reset, **{name: True for name in s.styles})


class Cache:
    """Spans of one case: the same description is the same object throughout the case."""

    def __init__(self):
        self.specs, self.objects = {}, {}

    def specs_of(self, spans):
        return [self._spec(s) for s in spans]

    def _spec(self, s):
        key = repr(s)
        if key not in self.specs:
            self.specs[key] = spec(s)
        return self.specs[key]

    def spans_of(self, spans):
        out = []
        for s in spans:
            key = repr(s)
            if key not in self.objects:
                self.objects[key] = to_span(self._spec(s))
            out.append(self.objects[key])
        return out


def same_cell(got, want):
    """A blank without decoration shows no foreground: its colour and weight cannot be seen."""

    if got == want:
        return True
    if got[0] == want[0] == " " and got[3] == want[3]:
        return got[1] & DECORATED == want[1] & DECORATED == frozenset()
    return False


def compare(area, cells, ctx, what):
    if area == cells:
        return
    if len(area) != len(cells) or any(len(a) != len(b) for a, b in zip(area, cells)):
        ctx.fail(f"{what}: shown area has the wrong size")
    for y, (got_row, want_row) in enumerate(zip(area, cells)):
        for x, (got, want) in enumerate(zip(got_row, want_row)):
            if not same_cell(got, want):
                ctx.fail(f"{what}: cell ({x}, {y}) shows {fmt(got)}, expected {fmt(want)}")


def fmt(cell):
    char, styles, fg, bg = cell
    if cell == UNKNOWN:
        return "nothing (never drawn)"
    return f"{char!r} styles={sorted(styles)} fg={fg} bg={bg}"


class Lab:
    """One execution: real screen + model + emulator, in lockstep."""

    def __init__(self, ctx, width, height, origin=(1, 1), margin=(0, 0), fill=" ", cursor=None,
                 checks="cpnk", background=(0, 0, 0), window=None):
        self.ctx = ctx
        self.outer = window  # the terminal's size, if it is not that of the screen and its margin
        self.checks = checks  # c: content, p: painted cells, n: counts, k: cursor
        self.origin, self.margin = tuple(origin), margin
        self.background = background
        kwargs = {}
        if cursor is not None:
            kwargs["cursor"] = tuple(cursor)
        if fill != " ":
            kwargs["fillchar"] = fill
        self.screen = Screen(width, height, **kwargs)
        self.model = Model(width, height, fill)
        if cursor is not None:
            self.model.cursor = tuple(cursor)
        self.vt = self.new_vt()
        self.cache = Cache()
        self.full_color = True  # the colour space in force is true-colour
        self.tainted = False  # something shown was drawn with fewer colours
        self.moved = False  # not everything was drawn since the origin changed

    def new_vt(self):
        if self.outer:
            return VT(*self.outer)
        ox, oy = self.origin
        return VT(self.model.width + ox - 1 + self.margin[0], self.model.height + oy - 1 + self.margin[1])

    # -- operations -----------------------------------------------------------------------------

    def apply(self, op):
        kind = op[0]
        ctx, screen, model = self.ctx, self.screen, self.model
        ctx.step()
        if kind == "w":
            _, spans, cursor, force = op
            kwargs = {}
            if cursor is not None:
                kwargs["cursor"] = tuple(cursor)
            if force:
                kwargs["force_overwrite"] = True
            if self.background != (0, 0, 0):
                kwargs["terminal_background"] = Color(self.background, is_background=True)
            got = screen.write(self.cache.spans_of(spans), **kwargs)
            low, high = model.write(self.cache.specs_of(spans), None if cursor is None else tuple(cursor),
                                    self.background, force)
            self.count(got, low, high, op)
        elif kind == "b":
            _, data, force = op
            kwargs = {}
            if force:
                kwargs["force_overwrite"] = True
            if self.background != (0, 0, 0):
                kwargs["terminal_background"] = Color(self.background, is_background=True)
            got = screen.write_bulk([(tuple(pos), self.cache.spans_of(s)) for pos, s in data], **kwargs)
            low, high = model.bulk([(tuple(pos), self.cache.specs_of(s)) for pos, s in data],
                                   self.background, force)
            self.count(got, low, high, op)
        elif kind == "clear":
            if len(op) > 1:
                screen.clear(op[1])
                model.clear(op[1])
            else:
                screen.clear()
                model.clear()
        elif kind == "resize":
            _, w, h, *more = op
            fill = more[0] if more else " "
            keep = more[1] if len(more) > 1 else True
            kwargs = {}
            if not keep:
                kwargs["keep_original"] = False
            if fill != " ":
                kwargs["fillchar"] = fill
            screen.resize((w, h), **kwargs)
            model.resize(w, h, fill, keep)
            self.vt.resize(*(lambda v: (v.width, v.height))(self.new_vt()))
            if "k" in self.checks:
                ctx.eq((screen.width, screen.height), (w, h), f"size after {op}")
        elif kind == "cur":
            screen.cursor = (op[1], op[2])
            model.cursor = (op[1], op[2])
        elif kind == "draw":
            self.draw()
        elif kind == "redraw":
            self.redraw()
        elif kind == "space":
            self.space(op[1])
        elif kind == "origin":
            self.origin = (op[1], op[2])
            self.moved = True
        else:
            raise AssertionError(op)
        if "k" in self.checks and tuple(screen.cursor) != model.cursor:
            ctx.fail(f"cursor after {op}: got {screen.cursor!r}, expected {model.cursor!r}")
        ctx.state(model.key())

    def space(self, name):
        import slate

        slate.terminal.color_space = ColorSpace(name)
        self.full_color = name == "true_color"

    def count(self, got, low, high, op):
        if "n" in self.checks and not low <= got <= high:
            self.ctx.fail(f"{op} returned {got}, but {low if low == high else (low, high)} cells changed")

    # -- drawing --------------------------------------------------------------------------------

    def show(self, data, what):
        vt = self.vt
        vt.take_painted()
        vt.scrolls = 0
        vt.feed(data)
        if vt.errors:
            self.ctx.fail(f"{what}: {vt.errors[0]} in {data!r}")
        model = self.model
        ox, oy = self.origin
        painted = vt.take_painted()
        for x, y in painted:
            if not (ox <= x < ox + model.width and oy <= y < oy + model.height):
                self.ctx.fail(f"{what}: painted outside the screen at {x},{y}")
        if not self.full_color:
            self.tainted = True
        elif len(painted) == model.width * model.height:
            self.tainted = False
        if len(painted) == model.width * model.height:
            self.moved = False
        if "c" in self.checks and self.moved and not self.tainted:
            area = vt.area(self.origin, model.width, model.height)
            for x, y in {(x - ox, y - oy) for x, y in painted}:
                if not same_cell(area[y][x], model.cells[y][x]):
                    self.ctx.fail(f"{what} at another origin: cell ({x}, {y}) shows {fmt(area[y][x])}, expected {fmt(model.cells[y][x])}")
        elif "c" in self.checks and not self.tainted:
            compare(vt.area(self.origin, model.width, model.height), model.cells, self.ctx, what)
        return [(x - ox, y - oy) for x, y in painted]

    def draw(self, data=None):
        must, may, scrolls = self.model.draw()
        if data is None:
            data = self.screen.render(origin=self.origin)
        painted = self.show(data, "incremental draw")
        if "p" in self.checks:
            got = set(painted)
            if len(painted) != len(got):
                self.ctx.fail(f"a draw painted a cell twice: {sorted(painted)}")
            if not must <= got:
                self.ctx.fail(f"a draw did not paint changed cells {sorted(must - got)}")
            if not got <= must | may:
                self.ctx.fail(f"a draw painted unchanged cells {sorted(got - must - may)}")
        return painted

    def redraw(self, data=None):
        self.model.draw()
        if data is None:
            data = self.screen.render(origin=self.origin, redraw=True)
        if "c" in self.checks:
            self.vt.resize(self.vt.width, self.vt.height)  # whatever the terminal showed is gone
        painted = self.show(data, "full redraw")
        if "p" in self.checks and len(painted) != self.model.width * self.model.height:
            self.ctx.fail(f"a full redraw painted {len(painted)} cells")
        return painted

    def final(self):
        """Draw what is pending, then redraw everything into a fresh terminal."""

        self.ctx.step(2)
        self.draw()
        if not self.full_color:
            self.space("true_color")
        self.vt = self.new_vt()
        self.redraw()
        self.ctx.trace()
        self.ctx.outcome(tuple(map(tuple, self.model.cells)))


def run_history(ctx, setup, ops, checks="cpnk"):
    lab = Lab(ctx, checks=checks, **setup)
    for op in ops:
        lab.apply(op)
    lab.final()
    return lab


class Stream(io.StringIO):
    """A text stream that records what was written and how much of it had been flushed."""

    def __init__(self):
        super().__init__()
        self.flushed = 0
        self.log = []

    def write(self, text):
        self.log.append(("write", text))
        return super().write(text)

    def flush(self):
        self.log.append(("flush",))
        self.flushed = len(self.getvalue())

    def take(self):
        data = self.getvalue()
        self.seek(0)
        self.truncate(0)
        self.flushed = 0
        return data


class Answering(Stream):
    """The output of a terminal that answers the colour queries (on standard input)."""

    def __init__(self, master, colors):
        super().__init__()
        self.master, self.colors, self.seen = master, colors, 0

    def flush(self):
        super().flush()
        if self.master is not None:
            import os

            text = self.getvalue()
            for query, rgb in self.colors.items():
                if query in text[self.seen :]:
                    code = query[2:4]
                    os.write(self.master, (f"\x1b]{code};rgb:" + "/".join(f"{c:02x}{c:02x}" for c in rgb) + "\x1b\\").encode())
            self.seen = len(text)


def answered_terminal(foreground, background):
    """A Terminal object that was told its default colours; standard input is a terminal only meanwhile."""

    import os
    import pty

    from slate import Terminal

    master, slave = pty.openpty()
    saved = os.dup(0)
    os.dup2(slave, 0)
    try:
        stream = Answering(master, {"\x1b]10;?": foreground, "\x1b]11;?": background})
        term = Terminal(stream=stream)
        _ = term.foreground_color, term.background_color
        stream.master = None
    finally:
        os.dup2(saved, 0)
        for fd in (saved, slave, master):
            os.close(fd)
    stream.take()
    return term


def set_size(width, height):
    import os

    os.environ["COLUMNS"], os.environ["LINES"] = str(width), str(height)


class TermLab(Lab):
    """The same, through the Terminal object; sizes are those of the (simulated) window."""

    def __init__(self, ctx, width, height, origin=(1, 1), margin=(0, 0), checks="cpnk", stream=None, window=None,
                 colors=None):
        from slate import Terminal

        set_size(width, height)
        origin = tuple(origin)  # the usual one is the default
        if colors:
            self.term = answered_terminal(*colors)
            self.stream = self.term.stream
        else:
            self.stream = stream or Stream()
            self.term = Terminal(stream=self.stream, **({} if origin == (1, 1) else {"origin": origin}))
        super().__init__(ctx, width, height, origin, margin, checks=checks,
                         background=tuple(colors[1]) if colors else (0x14, 0x14, 0x14), window=window)
        self.screen = None
        self.stream.take()

    def apply(self, op):
        kind, ctx, term, model = op[0], self.ctx, self.term, self.model
        ctx.step()
        if kind == "w":
            _, spans, cursor, force = op
            kwargs = {"cursor": tuple(cursor)} if cursor is not None else {}
            if force:
                kwargs["force_overwrite"] = True
            got = term.write(self.cache.spans_of(spans), **kwargs)
            low, high = model.write(self.cache.specs_of(spans), None if cursor is None else tuple(cursor),
                                    self.background, force)
            self.count(got, low, high, op)
        elif kind == "str":
            _, text, spans, cursor = op
            got = term.write(text, **({"cursor": tuple(cursor)} if cursor is not None else {}))
            low, high = model.write(self.cache.specs_of(spans), None if cursor is None else tuple(cursor),
                                    self.background)
            self.count(got, low, high, op)
        elif kind == "b":
            _, data, force = op
            kwargs = {"force_overwrite": True} if force else {}
            got = term.write_bulk([(tuple(pos), self.cache.spans_of(s)) for pos, s in data], **kwargs)
            low, high = model.bulk([(tuple(pos), self.cache.specs_of(s)) for pos, s in data],
                                   self.background, force)
            self.count(got, low, high, op)
        elif kind == "clear":
            term.clear(*op[1:])
            model.clear(*op[1:])
        elif kind == "resize":
            set_size(op[1], op[2])
            if (op[1], op[2]) != (model.width, model.height):
                model.resize(op[1], op[2])
                vt = self.new_vt()
                self.vt.resize(vt.width, vt.height)
            ctx.eq(tuple(term.size), (op[1], op[2]), "size")
        elif kind == "cur":
            term.cursor = (op[1], op[2])
            model.cursor = (op[1], op[2])
        elif kind == "draw":
            self.draw()
        elif kind == "redraw":
            self.redraw()
        elif kind == "space":
            self.space(op[1])
        elif kind == "origin":
            term.origin = self.origin = (op[1], op[2])
            self.moved = True
        else:
            raise AssertionError(op)
        if "k" in self.checks and tuple(term.cursor) != model.cursor:
            ctx.fail(f"cursor after {op}: got {term.cursor!r}, expected {model.cursor!r}")
        ctx.state(model.key())

    def draw(self, data=None):
        self.term.draw()
        return super().draw(self.stream.take())

    def redraw(self, data=None):
        self.term.draw(redraw=True)
        return super().redraw(self.stream.take())


def run_terminal_history(ctx, setup, ops, checks="cpnk"):
    lab = TermLab(ctx, checks=checks, **setup)
    for op in ops:
        lab.apply(op)
    lab.final()
    return lab
